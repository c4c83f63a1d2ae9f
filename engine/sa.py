"""Object-dtype array subclass carrying Sym entries, and the numpy proxy."""
import types

import sys
import numpy as np

from . import poly
from .poly import Gap, Sym, SymBool, b_and, b_not, b_or, dot as pdot, ite, smax, smin, ssum, _sym

STATE = {"active": False}


def is_sym(x):
    c = x.__class__
    return c is Sym or c is SymBool


def has_sym(a):
    """any symbolic entry in an object array (or scalar)?"""
    if isinstance(a, np.ndarray):
        if a.dtype != object:
            return False
        for x in a.flat:
            if is_sym(x):
                return True
        return False
    return is_sym(a)


def raw(a):
    return a.view(np.ndarray) if isinstance(a, SA) else a


def demote(a):
    """SA without symbolic entries -> numeric ndarray (best effort)."""
    if isinstance(a, np.ndarray) and a.dtype == object and not has_sym(a):
        b = raw(a)
        if b.size == 0:
            return np.zeros(b.shape)
        try:
            flat = b.ravel()
            if all(isinstance(x, (bool, np.bool_)) for x in flat):
                return b.astype(bool)
            if any(isinstance(x, (complex, np.complexfloating)) for x in flat):
                return b.astype(complex)
            return b.astype(float)
        except (TypeError, ValueError):
            return a
    return a


def wrap(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object and not isinstance(x, SA):
            if x.ndim == 0:
                v = x.item()
                return v
            return x.view(SA)
        return x
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(wrap(y) for y in x)
    if type(x) is list:
        return [wrap(y) for y in x]
    return x


def to_sa(x):
    """anything array-like -> SA."""
    if isinstance(x, SA):
        return x
    if isinstance(x, np.ndarray):
        return x.astype(object).view(SA)
    if is_sym(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a.view(SA)
    if isinstance(x, (list, tuple)):
        parts = [to_sa(y) if isinstance(y, (list, tuple, np.ndarray)) else y for y in x]
        if any(isinstance(p, np.ndarray) and p.ndim for p in parts):
            a = np.stack([raw(to_sa(p)) for p in parts])
            return a.view(SA)
        a = np.empty(len(parts), dtype=object)
        for i, p in enumerate(parts):
            a[i] = p.item() if isinstance(p, np.ndarray) else p
        return a.view(SA)
    return np.array(x, dtype=object).view(SA)


def concretise_mask(key):
    """object array of (Sym)bools used as a mask -> bool array (forks)."""
    out = np.empty(key.shape, dtype=bool)
    for i, x in enumerate(raw(key).flat):
        out.flat[i] = bool(x)
    return out


def _fix_key(key):
    if isinstance(key, np.ndarray) and key.dtype == object:
        d = demote(key)
        if d.dtype != object:
            if d.dtype == bool:
                return d
            return d.astype(int)
        return concretise_mask(key)
    if isinstance(key, SymBool):
        return bool(key)
    if isinstance(key, Sym):
        return int(key)
    if isinstance(key, tuple):
        return tuple(_fix_key(k) for k in key)
    return key


# ------------------------------------------------------------- ufunc semantics
def _un(name, npf):
    def f(x):
        if x.__class__ is Sym:
            return getattr(x, name)()
        if x.__class__ is SymBool:
            return getattr(x.ind(), name)()
        return npf(x)
    return f


_UNARY = ["exp", "log", "log10", "log2", "log1p", "expm1", "exp2", "sqrt", "sin", "cos",
          "tan", "sinh", "cosh", "tanh", "arctan", "arcsin", "arccos", "deg2rad", "rad2deg",
          "radians", "degrees", "reciprocal", "square"]

ELEM = {}
for _n in _UNARY:
    ELEM[_n] = _un(_n, getattr(np, _n))


def _abs(x):
    return abs(x.ind()) if x.__class__ is SymBool else abs(x)


def _sign(x):
    if x.__class__ is Sym:
        ctx = poly._ctx[0]
        if ctx is not None and ctx.exact_sign:
            return ite(x > 0, 1, 0) - ite(x < 0, 1, 0)
        return x.sign()
    return np.sign(x)


def _conj(x):
    return x.conj() if x.__class__ is Sym else np.conj(x)


ELEM.update(
    absolute=_abs, fabs=_abs, sign=_sign, conjugate=_conj,
    negative=lambda x: -x, positive=lambda x: x,
    isnan=lambda x: False if is_sym(x) else bool(np.isnan(x)),
    isinf=lambda x: False if is_sym(x) else bool(np.isinf(x)),
    isfinite=lambda x: True if is_sym(x) else bool(np.isfinite(x)),
    maximum=smax, minimum=smin, fmax=smax, fmin=smin,
    logical_not=lambda x: b_not(poly._asb(x)),
    invert=lambda x: b_not(x) if isinstance(x, (SymBool, bool, np.bool_)) else ~x,
    logical_and=lambda x, y: b_and([x, y]),
    logical_or=lambda x, y: b_or([x, y]),
    logical_xor=lambda x, y: poly._asb(x) ^ poly._asb(y),
    bitwise_and=lambda x, y: b_and([x, y]) if (is_sym(x) or is_sym(y)) else x & y,
    bitwise_or=lambda x, y: b_or([x, y]) if (is_sym(x) or is_sym(y)) else x | y,
    arctan2=lambda y, x: poly.uf("arctan2", [y, x]) if is_sym(x) or is_sym(y) else np.arctan2(y, x),
    hypot=lambda y, x: (y * y + x * x) ** 0.5,
    power=lambda x, y: _pw(x, y), float_power=lambda x, y: _pw(x, y),
    add=lambda x, y: x + y, subtract=lambda x, y: _sub(x, y), multiply=lambda x, y: x * y,
    divide=lambda x, y: _div(x, y), true_divide=lambda x, y: _div(x, y),
    remainder=lambda x, y: _rem(x, y), mod=lambda x, y: _rem(x, y),
    equal=lambda x, y: x == y, not_equal=lambda x, y: x != y,
    less=lambda x, y: x < y, less_equal=lambda x, y: x <= y,
    greater=lambda x, y: x > y, greater_equal=lambda x, y: x >= y,
)


def _rem(x, y):
    if not is_sym(x) and not is_sym(y):
        return x % y
    if is_sym(y) or not y > 0:
        raise Gap("remainder by a symbolic or negative value")
    for k in [0, -1, 1, -2, 2, -3, 3, -4, 4]:
        if bool((x >= k * y) & (x < (k + 1) * y)):
            return x - k * y
    raise Gap("remainder out of range")


def _pw(x, y):
    if is_sym(x) or is_sym(y):
        return x ** y
    return np.power(float(x) if isinstance(x, int) else x, y)


def _sub(x, y):
    if x.__class__ is SymBool:
        x = x.ind()
    if y.__class__ is SymBool:
        y = y.ind()
    return x - y


def _div(x, y):
    if x.__class__ is SymBool:
        x = x.ind()
    if y.__class__ is SymBool:
        y = y.ind()
    if is_sym(x) or is_sym(y):
        if not is_sym(y) and y == 0:
            raise Gap("division of a symbolic value by literal zero")
        return x / y
    return np.divide(x, y)


_FPF = {}


def _fpf(name, nin):
    k = (name, nin)
    f = _FPF.get(k)
    if f is None:
        f = _FPF[k] = np.frompyfunc(ELEM[name], nin, 1)
    return f


def _in(x):
    if isinstance(x, SA):
        return x.view(np.ndarray)
    if is_sym(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return x


def _fold(f, xs):
    xs = list(xs)
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


_REDUCE = {
    "add": ssum,
    "multiply": lambda xs: _fold(lambda a, b: a * b, list(xs) or [1]),
    "maximum": lambda xs: _fold(smax, xs),
    "minimum": lambda xs: _fold(smin, xs),
    "logical_and": b_and,
    "logical_or": b_or,
    "bitwise_and": b_and,
    "bitwise_or": b_or,
}


def reduce_axis(fn, a, axis, keepdims=False):
    a = raw(to_sa(a))
    if axis is None:
        r = fn(list(a.flat))
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o.flat[0] = r
            return o.view(SA)
        return r
    if isinstance(axis, tuple):
        ax = sorted([x % a.ndim for x in axis], reverse=True)
        r = a
        for x in ax:
            r = raw(to_sa(reduce_axis(fn, r, x, keepdims)))
        return wrap(r)
    axis = axis % a.ndim
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for idx in np.ndindex(*out.shape):
        out[idx] = fn(list(b[idx]))
    if out.ndim == 0:
        return out.item()
    if keepdims:
        out = np.expand_dims(out, axis)
    return out.view(SA)


def matmul(a, b):
    a, b = raw(to_sa(a)), raw(to_sa(b))
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError("matmul: shape mismatch")
        return pdot(a, b)
    if a.ndim == 2 and b.ndim == 1:
        if a.shape[1] != b.shape[0]:
            raise ValueError("matmul: shape mismatch")
        return to_sa([pdot(a[i], b) for i in range(a.shape[0])]) if a.shape[0] else SA(np.empty(0, object))
    if a.ndim == 1 and b.ndim == 2:
        if a.shape[0] != b.shape[0]:
            raise ValueError("matmul: shape mismatch")
        return to_sa([pdot(a, b[:, j]) for j in range(b.shape[1])]) if b.shape[1] else SA(np.empty(0, object))
    if a.ndim == 2 and b.ndim == 2:
        if a.shape[1] != b.shape[0]:
            raise ValueError("matmul: shape mismatch")
        out = np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i in range(a.shape[0]):
            for j in range(b.shape[1]):
                out[i, j] = pdot(a[i], b[:, j])
        return out.view(SA)
    # batched
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: 0-d")
    bshape = np.broadcast_shapes(a.shape[:-2], b.shape[:-2] if b.ndim > 1 else ())
    a2 = np.broadcast_to(a, bshape + a.shape[-2:])
    b2 = np.broadcast_to(b, bshape + b.shape[-2:]) if b.ndim > 1 else b
    out = None
    for idx in np.ndindex(*bshape):
        r = raw(matmul(a2[idx], b2[idx] if b.ndim > 1 else b))
        if out is None:
            out = np.empty(bshape + r.shape, dtype=object)
        out[idx] = r
    return out.view(SA)


def sa_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    from .sparse import SymSparse
    for x in inputs:
        if isinstance(x, SymSparse):
            return NotImplemented
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    kw.pop("dtype", None)
    kw.pop("casting", None)
    if method == "__call__":
        ins = [_in(x) for x in inputs]
        if name == "matmul":
            r = matmul(*ins)
        elif name in ("vecdot",):
            r = reduce_axis(ssum, wrap(ins[0] * ins[1]), -1)
        elif name in ELEM:
            r = _fpf(name, ufunc.nin)(*ins)
            if isinstance(r, np.ndarray):
                r = wrap(r)
        else:
            dm = [demote(x) if isinstance(x, np.ndarray) else x for x in ins]
            if any(has_sym(x) for x in dm):
                raise Gap(f"ufunc {name} on symbolic values")
            r = ufunc(*dm, **kw)
        if where is not True:
            w = where
            o = out[0] if out is not None else np.zeros(np.shape(r))
            r = np.where(w, r, o)
        if out is not None:
            o = out[0]
            if isinstance(o, np.ndarray) and o.dtype != object:
                if len(_OUT_REFS) > 1:
                    _OUT_REFS[0] = sys.getrefcount(o)
                rr = demote(to_sa(r))
                if isinstance(rr, np.ndarray) and rr.dtype == object and has_sym(rr):
                    # a += b rebinds its target to what we return: fine while nobody else holds the array
                    if o.base is None and sys.getrefcount(o) <= _OUT_REFS[0]:
                        return rr if isinstance(rr, SA) else rr.view(SA)
                    raise Gap("in-place update of a numeric array with symbolic values")
                o[...] = rr
                return o
            raw(o)[...] = raw(r) if isinstance(r, np.ndarray) else r
            return o
        return r
    if method == "reduce":
        a = inputs[0]
        axis = kw.get("axis", 0)
        keep = kw.get("keepdims", False)
        init = kw.get("initial", None)
        if name not in _REDUCE:
            d = demote(to_sa(a))
            if has_sym(d):
                raise Gap(f"{name}.reduce on symbolic values")
            return getattr(ufunc, method)(d, **kw)
        if where is not True:
            raise Gap("reduce with where")
        fn = _REDUCE[name]
        r = reduce_axis(fn, a, axis, keep)
        if out is not None:
            raw(out[0])[...] = raw(r)
            return out[0]
        return r
    if method == "at":
        a, idx = inputs[0], inputs[1]
        vals = inputs[2] if len(inputs) > 2 else None
        idx = np.atleast_1d(np.asarray(demote(idx) if isinstance(idx, np.ndarray) else idx))
        v = np.broadcast_to(raw(to_sa(vals)), idx.shape)
        f = ELEM[name]
        if not isinstance(a, SA):
            raise Gap("ufunc.at on numeric array")
        ra = raw(a)
        for k, i in enumerate(idx):
            ra[i] = f(ra[i], v[k])
        return None
    if method == "outer":
        a, b = raw(to_sa(inputs[0])), raw(to_sa(inputs[1]))
        r = _fpf(name, 2)(a.reshape(a.shape + (1,) * b.ndim), b)
        return wrap(r)
    if method == "accumulate":
        a = raw(to_sa(inputs[0]))
        axis = kw.get("axis", 0)
        f = ELEM[name]
        b = np.moveaxis(a, axis, 0).copy()
        for i in range(1, b.shape[0]):
            b[i] = _fpf(name, 2)(b[i - 1], b[i])
        return wrap(np.moveaxis(b, 0, axis))
    raise Gap(f"ufunc {name}.{method}")


_OUT_REFS = [0]


def _calibrate():
    """references held on the target of an augmented assignment to a local variable when we get to look."""
    _OUT_REFS.append("calibrate")
    a = np.ones(2)
    a *= to_sa([1.0, 2.0])
    _OUT_REFS.remove("calibrate")


HANDLED = {}


def implements(*funcs):
    def deco(f):
        for g in funcs:
            HANDLED[g] = f
        return f
    return deco


class SA(np.ndarray):
    __array_priority__ = 1e-3

    def __new__(cls, x):
        return to_sa(x)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return sa_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        h = HANDLED.get(func)
        if h is not None:
            return h(*args, **kwargs)
        # numeric only: run the real thing on numbers
        if not _any_sym(args) and not _any_sym(kwargs.values()):
            r = func(*_map(demote, args), **{k: _map1(demote, v) for k, v in kwargs.items()})
            return r
        r = func(*_map(raw, args), **{k: _map1(raw, v) for k, v in kwargs.items()})
        return wrap(r)

    def __getitem__(self, key):
        return super().__getitem__(_fix_key(key))

    def __setitem__(self, key, val):
        if isinstance(val, np.ndarray) and val.ndim == 0 and val.dtype == object:
            val = val.item()
        if isinstance(key, np.ndarray) and key.dtype == object and key.shape == self.shape:
            d = demote(key)
            if d.dtype == object:
                r = raw(self)
                if not isinstance(val, np.ndarray) or val.ndim == 0:
                    v = val.item() if isinstance(val, np.ndarray) else val
                    for idx in np.ndindex(*self.shape):
                        r[idx] = ite(poly._asb(key[idx]), v, r[idx])
                    return
        key = _fix_key(key)
        if is_sym(val):
            if self.ndim == 1 and isinstance(key, (int, np.integer)):
                raw(self)[key] = val
                return
            a = np.empty((), dtype=object)
            a[()] = val
            val = a
        elif isinstance(val, (list, tuple)):
            val = raw(to_sa(val))
        elif isinstance(val, SA):
            val = raw(val)
        raw(self)[key] = val

    # ---------------------------------------------------------------- methods
    @property
    def real(self):
        return wrap(np.frompyfunc(lambda x: x.real, 1, 1)(raw(self)))

    @real.setter
    def real(self, v):
        self[...] = v + 1j * self.imag

    @property
    def imag(self):
        return wrap(np.frompyfunc(lambda x: x.imag, 1, 1)(raw(self)))

    @imag.setter
    def imag(self, v):
        self[...] = self.real + 1j * np.asarray(v)

    def conj(self):
        return np.conjugate(self)

    conjugate = conj

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_axis(ssum, self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        n = self.size if axis is None else self.shape[axis]
        return reduce_axis(ssum, self, axis, keepdims) / n

    def prod(self, axis=None, **k):
        return reduce_axis(_REDUCE["multiply"], self, axis)

    def max(self, axis=None, **k):
        return reduce_axis(_REDUCE["maximum"], self, axis, k.get("keepdims", False))

    def min(self, axis=None, **k):
        return reduce_axis(_REDUCE["minimum"], self, axis, k.get("keepdims", False))

    def any(self, axis=None, **k):
        return reduce_axis(b_or, self, axis)

    def all(self, axis=None, **k):
        return reduce_axis(b_and, self, axis)

    def dot(self, b):
        if hasattr(b, "__matmul__") and not isinstance(b, np.ndarray):
            return self @ b
        return np.dot(self, b)

    def var(self, axis=None, **k):
        return ((self - self.mean()) ** 2).mean()

    def std(self, axis=None, **k):
        return np.sqrt(self.var())

    def argmax(self, axis=None, **k):
        return np.argmax(self, axis)

    def argmin(self, axis=None, **k):
        return np.argmin(self, axis)

    def argsort(self, *a, **k):
        return np.argsort(self)

    def astype(self, dtype, *a, **k):
        if dtype in (object,):
            return self.copy()
        try:
            dt = np.dtype(dtype)
        except TypeError:
            raise
        if not has_sym(self):
            return demote(self).astype(dtype)
        if dt.kind in "fc":
            return wrap(np.frompyfunc(lambda x: x.ind() if x.__class__ is SymBool else x, 1, 1)(raw(self)))
        if dt.kind == "b":
            return wrap(np.frompyfunc(poly._asb, 1, 1)(raw(self)))
        if dt.kind in "iu":
            if all((not is_sym(x)) or x.__class__ is SymBool for x in self.flat):
                return wrap(np.frompyfunc(lambda x: x.ind() if x.__class__ is SymBool else int(x), 1, 1)(raw(self)))
        raise Gap(f"astype({dtype}) of symbolic array")

    def nonzero(self):
        return np.nonzero(concretise_mask(self != 0))

    def clip(self, lo=None, hi=None, **k):
        return np.clip(self, lo, hi)

    def round(self, *a, **k):
        return demote(self).round(*a, **k)

    def __complex__(self):
        return complex(self.item())

    def __float__(self):
        return float(self.item())

    def __bool__(self):
        if self.size != 1:
            raise ValueError("truth value of an array is ambiguous")
        return bool(self.item())


def _any_sym(args):
    for a in args:
        if isinstance(a, np.ndarray):
            if has_sym(a):
                return True
        elif is_sym(a):
            return True
        elif isinstance(a, (list, tuple)):
            if _any_sym(a):
                return True
    return False


def _map1(f, a):
    if isinstance(a, np.ndarray):
        return f(a)
    if type(a) in (list, tuple):
        return type(a)(_map1(f, x) for x in a)
    return a


def _map(f, args):
    return [_map1(f, a) for a in args]


# ------------------------------------------------------ numpy function overrides
@implements(np.where)
def _where(cond, a=None, b=None):
    if a is None:
        c = demote(cond)
        if isinstance(c, np.ndarray) and c.dtype == object:
            c = concretise_mask(c)
        return np.where(c)
    cond, a, b = np.broadcast_arrays(raw(to_sa(cond)), raw(to_sa(a)), raw(to_sa(b)))
    out = np.empty(cond.shape, dtype=object)
    for i in np.ndindex(*cond.shape):
        out[i] = ite(poly._asb(cond[i]), a[i], b[i])
    return wrap(out)


@implements(np.dot)
def _dot(a, b, out=None):
    if np.ndim(a) == 0 or np.ndim(b) == 0:
        return a * b
    return matmul(a, b)


@implements(np.vdot)
def _vdot(a, b):
    return matmul(np.conj(to_sa(a)).ravel(), to_sa(b).ravel())


@implements(np.inner)
def _inner(a, b):
    a, b = to_sa(a), to_sa(b)
    if a.ndim == 1 and b.ndim == 1:
        return matmul(a, b)
    raise Gap("np.inner nd")


@implements(np.outer)
def _outer(a, b, out=None):
    a, b = raw(to_sa(a)).ravel(), raw(to_sa(b)).ravel()
    return wrap(_fpf("multiply", 2)(a[:, None], b[None, :]))


@implements(np.sum)
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduce_axis(ssum, a, axis, keepdims)


@implements(np.mean, np.average)
def _mean(a, axis=None, weights=None, **k):
    if weights is not None:
        return np.sum(a * weights, axis=axis) / np.sum(weights)
    return to_sa(a).mean(axis)


@implements(np.prod)
def _prod(a, axis=None, **k):
    return to_sa(a).prod(axis)


@implements(np.max, np.amax)
def _max(a, axis=None, **k):
    return to_sa(a).max(axis, keepdims=k.get("keepdims", False))


@implements(np.min, np.amin)
def _min(a, axis=None, **k):
    return to_sa(a).min(axis, keepdims=k.get("keepdims", False))


@implements(np.any)
def _any(a, axis=None, **k):
    return reduce_axis(b_or, a, axis)


@implements(np.all)
def _all(a, axis=None, **k):
    return reduce_axis(b_and, a, axis)


@implements(np.real)
def _real(a):
    return to_sa(a).real


@implements(np.imag)
def _imag(a):
    return to_sa(a).imag


@implements(np.angle)
def _angle(a, deg=False):
    r = wrap(np.frompyfunc(lambda x: x.angle() if x.__class__ is Sym else np.angle(x), 1, 1)(raw(to_sa(a))))
    return r * (180 / np.pi) if deg else r


@implements(np.iscomplexobj)
def _iscomplexobj(a):
    return any((x.__class__ is Sym and x.is_complex()) or isinstance(x, (complex, np.complexfloating))
               for x in raw(to_sa(a)).flat)


@implements(np.isrealobj)
def _isrealobj(a):
    return not _iscomplexobj(a)


@implements(np.linalg.norm)
def _norm(x, ord=None, axis=None, keepdims=False):
    x = to_sa(x)
    if ord in (None, 2, "fro") or (ord == "fro"):
        if ord == 2 and x.ndim == 2 and axis is None:
            raise Gap("matrix 2-norm")
        sq = wrap(np.frompyfunc(lambda v: (v * v.conj()) if v.__class__ is Sym and v.is_complex() else v * v if not isinstance(v, complex) else abs(v) ** 2, 1, 1)(raw(x)))
        s = reduce_axis(ssum, sq, axis, keepdims)
        return np.sqrt(s)
    if ord == 1:
        return reduce_axis(ssum, np.abs(x), axis, keepdims)
    if ord == np.inf:
        return reduce_axis(_REDUCE["maximum"], np.abs(x), axis, keepdims)
    raise Gap(f"norm ord={ord}")


@implements(np.linalg.inv)
def _inv(a):
    a = raw(to_sa(a))
    if a.ndim > 2:
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape[:-2]):
            out[i] = raw(_inv(a[i].view(SA)))
        return out.view(SA)
    n = a.shape[0]
    d = _detm(a)
    out = np.empty((n, n), dtype=object)
    if n == 1:
        out[0, 0] = 1 / a[0, 0]
        return out.view(SA)
    di = 1 / d
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(a, j, 0), i, 1)
            out[i, j] = (-1) ** (i + j) * _detm(m) * di
    return out.view(SA)


def _detm(a):
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    if n > 5:
        raise Gap("symbolic determinant too large")
    s = 0
    for j in range(n):
        s = s + (-1) ** j * a[0, j] * _detm(np.delete(a[1:], j, 1))
    return s


@implements(np.linalg.det)
def _det(a):
    return _detm(raw(to_sa(a)))


@implements(np.linalg.solve)
def _solve(a, b):
    a = to_sa(a)
    if not has_sym(a):
        return np.linalg.inv(demote(a)) @ to_sa(b)
    return _inv(a) @ b


@implements(np.isclose)
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = to_sa(a), to_sa(b)
    return np.abs(a - b) <= atol + rtol * np.abs(b)


@implements(np.allclose)
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return reduce_axis(b_and, _isclose(a, b, rtol, atol), None)


@implements(np.array_equal)
def _array_equal(a, b, equal_nan=False):
    a, b = to_sa(a), to_sa(b)
    if a.shape != b.shape:
        return False
    return reduce_axis(b_and, a == b, None)


@implements(np.clip)
def _clip(a, lo=None, hi=None, **k):
    lo = k.get("a_min", k.get("min", lo))
    hi = k.get("a_max", k.get("max", hi))
    r = to_sa(a)
    if lo is not None:
        r = np.maximum(r, lo)
    if hi is not None:
        r = np.minimum(r, hi)
    return r


@implements(np.median)
def _median(a, axis=None, **k):
    raise Gap("median")


@implements(np.argmax)
def _argmax(a, axis=None, **k):
    a = raw(to_sa(a)).ravel()
    if axis not in (None, 0, -1):
        raise Gap("argmax axis")
    b = 0
    for i in range(1, a.size):
        if a[i] > a[b]:
            b = i
    return b


@implements(np.argmin)
def _argmin(a, axis=None, **k):
    a = raw(to_sa(a)).ravel()
    if axis not in (None, 0, -1):
        raise Gap("argmin axis")
    b = 0
    for i in range(1, a.size):
        if a[i] < a[b]:
            b = i
    return b


@implements(np.argsort)
def _argsort(a, axis=-1, kind=None, **k):
    a = raw(to_sa(a))
    if a.ndim != 1:
        raise Gap("argsort nd")
    order = []
    for i in range(a.size):          # stable insertion sort, forks on comparisons
        j = len(order)
        while j > 0 and a[i] < a[order[j - 1]]:
            j -= 1
        order.insert(j, i)
    return np.array(order, dtype=int)


@implements(np.sort)
def _sort(a, axis=-1, kind=None, **k):
    a = to_sa(a)
    return a[_argsort(a)]


@implements(np.searchsorted)
def _searchsorted(a, v, side="left", sorter=None):
    a = raw(to_sa(a)) if not isinstance(a, np.ndarray) or a.dtype == object else a

    def one(x):
        i = 0
        while i < len(a) and (a[i] < x if side == "left" else a[i] <= x):
            i += 1
        return i
    if np.ndim(v) == 0:
        return one(v.item() if isinstance(v, np.ndarray) else v)
    v = raw(to_sa(v))
    return np.array([one(x) for x in v.ravel()], dtype=int).reshape(v.shape)


@implements(np.digitize)
def _digitize(x, bins, right=False):
    return _searchsorted(bins, x, side="left" if right else "right")


@implements(np.unique)
def _unique(a, *args, **k):
    d = demote(to_sa(a))
    if has_sym(d):
        if args or k:
            raise Gap("np.unique of symbolic values")
        o = _sort(d.ravel())
        keep = [0] + [i for i in range(1, len(o)) if bool(o[i] != o[i - 1])]
        return o[np.array(keep)]
    return np.unique(d, *args, **k)


@implements(np.count_nonzero)
def _cnz(a, axis=None, **k):
    return reduce_axis(ssum, (to_sa(a) != 0).astype(float), axis)


@implements(np.nonzero)
def _nonzero(a):
    return to_sa(a).nonzero()


@implements(np.argwhere)
def _argwhere(a):
    return np.argwhere(concretise_mask(to_sa(a) != 0))


@implements(np.flatnonzero)
def _flatnonzero(a):
    return np.flatnonzero(concretise_mask((to_sa(a) != 0).ravel()))


@implements(np.einsum)
def _einsum(spec, *ops, **k):
    if not isinstance(spec, str):
        raise Gap("einsum form")
    spec = spec.replace(" ", "")
    if "->" in spec:
        lhs, out = spec.split("->")
    else:
        lhs = spec
        cnt = {}
        for c in lhs.replace(",", "").replace(".", ""):
            cnt[c] = cnt.get(c, 0) + 1
        out = ("..." if "." in lhs else "") + "".join(sorted(c for c in cnt if cnt[c] == 1))
    terms = lhs.split(",")
    ops = [raw(to_sa(o)) for o in ops]
    if "." in lhs:
        nd = max(o.ndim - len(t.replace("...", "")) for t, o in zip(terms, ops) if "..." in t)
        ell = "ABCDEFGH"[:nd]
        terms = [t.replace("...", ell) for t in terms]
        out = out.replace("...", ell)
    dims = {}
    for t, o in zip(terms, ops):
        for c, n in zip(t, o.shape):
            dims[c] = n
    summed = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    for oi in np.ndindex(*res.shape):
        env = dict(zip(out, oi))
        acc = []
        for si in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, si))
            v = 1
            for t, o in zip(terms, ops):
                x = o[tuple(env[c] for c in t)]
                if not is_sym(x) and x == 0:
                    v = 0
                    break
                v = v * x
            acc.append(v)
        res[oi] = ssum(acc)
    return wrap(res) if res.ndim else res.item()


@implements(np.tensordot)
def _tensordot(*a, **k):
    raise Gap("tensordot")


@implements(np.cross)
def _cross(a, b, *args, **k):
    a, b = to_sa(a), to_sa(b)
    if a.shape[-1] != 3:
        raise Gap("cross")
    c0 = a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1]
    c1 = a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2]
    c2 = a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    return np.stack([to_sa(c0), to_sa(c1), to_sa(c2)], axis=-1)


@implements(np.cumsum)
def _cumsum(a, axis=None, dtype=None, out=None):
    a = to_sa(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return np.add.accumulate(a, axis=axis)


@implements(np.cumprod)
def _cumprod(a, axis=None, dtype=None, out=None):
    a = to_sa(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return np.multiply.accumulate(a, axis=axis)


@implements(np.diff)
def _diff(a, n=1, axis=-1, **k):
    a = to_sa(a)
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim
        sl2 = [slice(None)] * a.ndim
        sl1[axis] = slice(1, None)
        sl2[axis] = slice(None, -1)
        a = a[tuple(sl1)] - a[tuple(sl2)]
    return a


@implements(np.interp)
def _interp(x, xp, fp, left=None, right=None, period=None):
    xp = demote(to_sa(xp))
    if has_sym(xp) or period is not None:
        raise Gap("interp nodes")
    fp = raw(to_sa(fp))

    def one(v):
        if not is_sym(v):
            v = float(v)
        l = fp[0] if left is None else left
        r = fp[-1] if right is None else right
        res = r
        for i in range(len(xp) - 2, -1, -1):
            seg = fp[i] + (fp[i + 1] - fp[i]) * ((v - xp[i]) / (xp[i + 1] - xp[i]))
            res = ite(v <= xp[i + 1], seg, res)
        return ite(v < xp[0], l, res)
    if np.ndim(x) == 0:
        return one(x.item() if isinstance(x, np.ndarray) else x)
    return to_sa([one(v) for v in raw(to_sa(x)).ravel()]).reshape(np.shape(x))


@implements(np.full_like)
def _full_like(a, v, dtype=None, **k):
    return _creator("full")(np.shape(a), v, dtype=dtype)


@implements(np.zeros_like)
def _zeros_like(a, dtype=None, **k):
    return _creator("zeros")(np.shape(a), dtype=dtype)


@implements(np.ones_like)
def _ones_like(a, dtype=None, **k):
    return _creator("ones")(np.shape(a), dtype=dtype)


@implements(np.empty_like)
def _empty_like(a, dtype=None, **k):
    return _creator("zeros")(np.shape(a), dtype=dtype)


@implements(np.nan_to_num)
def _nan_to_num(a, **k):
    return wrap(np.frompyfunc(lambda x: x if is_sym(x) else float(np.nan_to_num(x)), 1, 1)(raw(to_sa(a))))


@implements(np.trace)
def _trace(a, **k):
    return ssum([a[i, i] for i in range(min(a.shape))])


@implements(np.kron)
def _kron(a, b):
    a, b = raw(to_sa(a)), raw(to_sa(b))
    if {a.ndim, b.ndim} == {1, 2}:
        a, b = np.atleast_2d(a), np.atleast_2d(b)
    if a.ndim == 1 and b.ndim == 1:
        return wrap(_fpf("multiply", 2)(a[:, None], b[None, :]).ravel())
    if a.ndim == 2 and b.ndim == 2:
        r = _fpf("multiply", 2)(a[:, None, :, None], b[None, :, None, :])
        return wrap(r.reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]))
    raise Gap("kron dims")


@implements(np.array_repr, np.array_str, np.array2string)
def _arepr(a, *args, **k):
    return "<symbolic array>"


@implements(np.trapezoid if hasattr(np, "trapezoid") else np.trapz)
def _trapz(y, x=None, dx=1.0, axis=-1):
    y = to_sa(y)
    if y.ndim != 1:
        raise Gap("trapz nd")
    d = np.diff(x) if x is not None else dx
    return np.sum(d * (y[1:] + y[:-1]) * 0.5)


@implements(np.polyval)
def _polyval(p, x):
    r = 0
    for c in raw(to_sa(p)):
        r = r * x + c
    return r


@implements(np.tril, np.triu)
def _tri(*a, **k):
    raise Gap("tril/triu")


@implements(np.shares_memory, np.may_share_memory)
def _sm(a, b, *args):
    return np.may_share_memory(raw(a), raw(b))


@implements(np.copyto)
def _copyto(dst, src, **k):
    dst[...] = src


@implements(np.percentile)
def _pct(a, q, axis=None, *args, **k):
    a = to_sa(a)
    if args or k or np.ndim(q) or has_sym(raw(to_sa(q))) or (axis is not None and a.ndim > 1):
        raise Gap("percentile options")
    if not has_sym(demote(a)):
        return np.percentile(np.asarray(demote(a), dtype=float), q)
    a = _sort(a.ravel())
    pos = float(q) / 100.0 * (a.size - 1)
    i = min(int(np.floor(pos)), a.size - 1)
    t = pos - i
    return a[i] if t == 0 else a[i] + t * (a[i + 1] - a[i])


@implements(np.histogram)
def _hist(*a, **k):
    raise Gap("histogram")


@implements(np.round, np.around, np.rint if not isinstance(np.rint, np.ufunc) else np.round)
def _round(a, *args, **k):
    d = demote(to_sa(a))
    if has_sym(d):
        raise Gap("round of symbolic values")
    return np.round(d, *args, **k)


@implements(np.insert)
def _insert(a, idx, v, axis=None):
    return wrap(np.insert(raw(to_sa(a)), idx, raw(to_sa(v)) if np.ndim(v) else (v if not is_sym(v) else raw(to_sa([v]))), axis))


# --------------------------------------------------------------- creation proxy
def _floaty(dtype):
    if dtype is None:
        return True
    if dtype is object:
        return True
    try:
        return np.dtype(dtype).kind in "fcO"
    except TypeError:
        return True


def _creator(name):
    real = getattr(np, name)

    def f(shape=None, *args, **kw):
        dtype = kw.get("dtype", None)
        fill = None
        if name == "full":
            fill = kw.pop("fill_value", None)
            if fill is None:
                fill, args = args[0], args[1:]
            if dtype is None and len(args):
                dtype = args[0]
            if dtype is None and isinstance(fill, (bool, np.bool_)):
                dtype = bool
            if dtype is None and isinstance(fill, (int, np.integer)) and not isinstance(fill, bool):
                dtype = int
        elif dtype is None and len(args):
            dtype = args[0]
        if not STATE["active"] or not _floaty(dtype):
            if name == "full":
                if not (is_sym(fill) or has_sym(fill)):
                    return real(shape, fill, dtype=dtype)
            else:
                return real(shape, dtype=dtype if dtype is not None else float)
        if isinstance(shape, np.ndarray):
            shape = tuple(int(s) for s in shape.ravel())
        a = np.empty(shape, dtype=object)
        if name == "full":
            if is_sym(fill):
                for i in np.ndindex(*a.shape):
                    a[i] = fill
            else:
                a[...] = raw(fill) if isinstance(fill, np.ndarray) else fill
        else:
            a[...] = 1.0 if name == "ones" else 0.0
        return a.view(SA)
    f.__name__ = name
    return f


def _like(name):
    base = {"zeros_like": "zeros", "ones_like": "ones", "empty_like": "zeros", "full_like": "full"}[name]
    cr = _creator(base)
    real = getattr(np, name)

    def f(a, *args, **kw):
        if not STATE["active"]:
            return real(a, *args, **kw)
        shape = kw.pop("shape", None)
        kw.pop("order", None)
        kw.pop("subok", None)
        if shape is None:
            shape = np.shape(a)
        dtype = kw.pop("dtype", None)
        if base == "full":
            fill = kw.pop("fill_value", None)
            if fill is None:
                fill, args = args[0], args[1:]
        if args and dtype is None:
            dtype = args[0]
        if dtype is None and isinstance(a, np.ndarray) and a.dtype.kind in "iub":
            dtype = a.dtype
        if base == "full":
            return cr(shape, fill, dtype=dtype)
        return cr(shape, dtype=dtype)
    f.__name__ = name
    return f


def _nested_sym(x, depth=0):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and (isinstance(x, SA) or has_sym(x))
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(_nested_sym(y, depth + 1) for y in x)
    return False


def _arr(name):
    real = getattr(np, name)

    def f(x, *args, **kw):
        if not STATE["active"] or not _nested_sym(x):
            return real(x, *args, **kw)
        dtype = kw.get("dtype", args[0] if args else None)
        if isinstance(x, np.ndarray) and not has_sym(x):
            if dtype is not None and dtype is not object:
                return real(demote(x), *args, **kw)
            r = to_sa(x)
            return r.copy() if name == "array" and kw.get("copy", True) else r
        r = to_sa(x)
        nd = kw.get("ndmin", 0)
        if name == "array" and r is x and kw.get("copy", True):
            r = r.copy()
        if dtype is not None and np.dtype(dtype).kind in "fcbiu":
            r = r.astype(dtype)
        while r.ndim < nd:
            r = r[None]
        return r
    f.__name__ = name
    return f


class _RC:
    def __init__(self, real):
        self._real = real

    def __getitem__(self, key):
        if STATE["active"]:
            k = key if isinstance(key, tuple) else (key,)
            if any(_nested_sym(x) for x in k):
                if isinstance(k[0], str):
                    return wrap(self._real[key])
                parts = []
                for x in k:
                    if isinstance(x, slice):
                        parts.append(np.r_[x])
                    elif isinstance(x, (list, tuple)) or is_sym(x):
                        parts.append(np.atleast_1d(to_sa(x)))
                    else:
                        parts.append(np.atleast_1d(x))
                if self._real is np.r_:
                    if all(p.ndim == 1 for p in parts):
                        return wrap(np.concatenate([raw(to_sa(p)) for p in parts]))
                    return wrap(np.concatenate([raw(to_sa(p)) for p in parts], axis=0))
                parts = [p[:, None] if p.ndim == 1 else p for p in parts]
                return wrap(np.concatenate([raw(to_sa(p)) for p in parts], axis=-1))
        return self._real[key]

    def __len__(self):
        return 0


_KEEP = {"ndarray", "generic", "vectorize"}


class NPProxy(types.ModuleType):
    def __init__(self, real):
        super().__init__("numpy")
        self.__dict__["_real"] = real
        self.__dict__["_cache"] = {}
        for n in ("zeros", "ones", "empty", "full"):
            self.__dict__[n] = _creator(n)
        for n in ("zeros_like", "ones_like", "empty_like", "full_like"):
            self.__dict__[n] = _like(n)
        for n in ("array", "asarray", "asanyarray", "ascontiguousarray", "asfortranarray",
                  "atleast_1d", "atleast_2d"):
            if n.startswith("atleast"):
                continue
            self.__dict__[n] = _arr(n)
        self.__dict__["r_"] = _RC(real.r_)
        self.__dict__["c_"] = _RC(real.c_)
        self.__dict__["linalg"] = LinalgProxy(real.linalg)

    def __getattr__(self, name):
        c = self.__dict__["_cache"]
        if name in c:
            return c[name]
        v = getattr(self.__dict__["_real"], name)
        if isinstance(v, type) or not callable(v) or isinstance(v, (types.ModuleType, np.ufunc)):
            if isinstance(v, np.ufunc) and v.__name__ in _LISTY:
                v = _UfuncProxy(v)
            c[name] = v
            return v
        w = _wrapfunc(v)
        c[name] = w
        return w


_LISTY = set()


class Ints(np.ndarray):
    """integers that can be indexed by symbolic masks (decided by branching)."""

    def __getitem__(self, key):
        return np.asarray(self)[_fix_key(key)]


class _UfuncProxy:
    pass


def _wrapfunc(v):
    def f(*args, **kw):
        if STATE["active"]:
            if v is np.arange:
                args = [a.__index__() if is_sym(a) else a for a in args]
            args = [to_sa(a) if isinstance(a, (list, tuple)) and any(is_sym(x) for x in a)
                    else (to_sa(a) if is_sym(a) and v in _SCALAR_TO_ARR else a) for a in args]
            if args and is_sym(args[0]) and v in HANDLED:
                return HANDLED[v](*args, **kw)
            if len(args) > 1 and any(is_sym(a) for a in args) and v in HANDLED:
                return HANDLED[v](*args, **kw)
            if any(isinstance(a, np.ndarray) and a.dtype == object and not isinstance(a, SA) for a in args):
                args = [wrap(a) for a in args]
            out = wrap(v(*args, **kw))
            if v is np.arange and type(out) is np.ndarray:
                return out.view(Ints)
            if v in _FRESH and type(out) is np.ndarray and out.dtype.kind in "fc":
                # a fresh writable array: later item assignment may be symbolic
                out = to_sa(out)
            return out
        return v(*args, **kw)
    f.__name__ = getattr(v, "__name__", "f")
    f._real = v
    return f


_FRESH = {np.hstack, np.vstack, np.concatenate, np.stack, np.column_stack, np.copy, np.tile, np.repeat}
_SCALAR_TO_ARR = {np.atleast_1d, np.atleast_2d, np.ravel, np.repeat, np.tile, np.reshape, np.squeeze,
                  np.expand_dims, np.copy}


class LinalgProxy(types.ModuleType):
    def __init__(self, real):
        super().__init__("numpy.linalg")
        self.__dict__["_real"] = real

    def __getattr__(self, name):
        v = getattr(self.__dict__["_real"], name)
        if callable(v) and not isinstance(v, type):
            return _wrapfunc(v)
        return v


NP = NPProxy(np)


_calibrate()
