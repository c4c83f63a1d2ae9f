"""Symbolic real/complex scalars in eager normal form.

A `Sym` is a finite sum  sum_k c_k * mono_k  with int/float coefficients over
*atoms*.  Atoms are symbolic inputs, the imaginary unit, a nilpotent
infinitesimal EPS (EPS**2 == 0, used for exact directional derivatives), powers
of polynomial bases, exponentials, logarithms, signs, 0/1 indicators of symbolic
conditions, trigonometric and other named functions, and the entries of an
opaque matrix inverse.  Each atom kind carries its rewriting rule (I*I -> -1,
cos**2 -> 1-sin**2, base**1 -> expanded, ...), its derivative (for EPS), its SMT
axioms (see smt.py) and its numeric meaning (for replay / validation).
"""
import math
import numbers
from fractions import Fraction

import numpy as np


class Gap(BaseException):
    """The engine cannot represent this operation (never a verdict)."""


SNAP = 1e-13          # additive cancellations below this are rounding noise

_atoms = []           # id -> Atom
_atom_index = {}      # key -> id


class Atom:
    __slots__ = ("id", "kind", "arg", "name", "lo", "hi", "pos", "conj", "extra")

    def __repr__(self):
        return f"<{self.kind}:{self.name}>"


def reset():
    _atoms.clear()
    _atom_index.clear()
    _mono_cache.clear()
    _new_atom("I", None, "I", None, None, False)
    _new_atom("EPS", None, "eps", None, None, False)


def _new_atom(kind, arg, name, lo, hi, pos, key=None, extra=None):
    a = Atom()
    a.id = len(_atoms)
    a.kind, a.arg, a.name, a.lo, a.hi, a.pos = kind, arg, name, lo, hi, pos
    a.conj = None
    a.extra = extra
    _atoms.append(a)
    if key is not None:
        _atom_index[key] = a.id
    return a.id


I_ID, EPS_ID = 0, 1
_SPECIAL = {"I", "EPS", "S", "IND", "COS", "Q"}
_mono_cache = {}


def _norm_exp(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return int(e)
    return e


def _as_exp(x):
    """number -> int / Fraction exponent."""
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return _norm_exp(x)
    f = Fraction(float(x)).limit_denominator(10**6)
    if abs(float(f) - float(x)) <= 1e-12 * max(1.0, abs(float(x))):
        return _norm_exp(f)
    return _norm_exp(Fraction(float(x)))


def mono_mul(m1, m2):
    """Merge two monomials.  Returns (mono, special) ; mono None if zero."""
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    key = (m1, m2)
    r = _mono_cache.get(key)
    if r is not None:
        return r
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    special = False
    while i < n1 and j < n2:
        a, ea = m1[i]
        b, eb = m2[j]
        if a < b:
            out.append(m1[i])
            i += 1
        elif b < a:
            out.append(m2[j])
            j += 1
        else:
            e = ea + eb
            if e.__class__ is Fraction:
                e = _norm_exp(e)
            if e != 0:
                out.append((a, e))
                k = _atoms[a].kind
                if k in _SPECIAL:
                    special = True
            i += 1
            j += 1
    if i < n1:
        out.extend(m1[i:])
    if j < n2:
        out.extend(m2[j:])
    r = (tuple(out), special)
    if len(_mono_cache) > 400000:
        _mono_cache.clear()
    _mono_cache[key] = r
    return r


def _reduce_mono(mono, coef):
    """Apply atom rewriting to a monomial; returns a term dict."""
    changed = False
    out = []
    expand = []
    for a, e in mono:
        at = _atoms[a]
        k = at.kind
        if k == "I":
            e4 = e % 4
            if e4 != e:
                changed = True
            if e4 == 0:
                continue
            if e4 == 2:
                coef = -coef
                continue
            if e4 == 3:
                coef = -coef
                out.append((a, 1))
                continue
            out.append((a, 1))
        elif k == "EPS":
            if e >= 2:
                return {}
            out.append((a, e))
        elif k == "S":
            if e % 2:
                out.append((a, 1))
        elif k == "IND":
            if e > 0:
                out.append((a, 1))
            else:
                raise Gap("negative power of indicator")
        elif k == "COS":
            if e >= 2:
                h, rem = divmod(e, 2)
                expand.append((_one_minus_sin2(a), h))
                if rem:
                    out.append((a, 1))
            else:
                out.append((a, e))
        elif k == "Q":
            if e >= 1:
                n = int(e) if isinstance(e, int) else e.numerator // e.denominator
                fr = e - n
                expand.append((at.arg, n))
                if fr != 0:
                    out.append((a, _norm_exp(fr)))
            else:
                out.append((a, e))
        else:
            out.append((a, e))
    res = {tuple(out): coef}
    for p, n in expand:
        for _ in range(n):
            res = _mul_terms(res, p.t)
    return res


def _one_minus_sin2(cos_id):
    s = _atoms[cos_id].extra
    return Sym({(): 1, ((s, 2),): -1})


def _add_into(d, m, c):
    o = d.get(m)
    if o is None:
        if c != 0:
            d[m] = c
        return
    s = o + c
    if s == 0 or abs(s) <= SNAP * (abs(o) + abs(c)):
        del d[m]
    else:
        d[m] = s


def _mul_terms(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m1, c1), = a.items()
        if not m1:
            return {m: c * c1 for m, c in b.items()}
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m, sp = mono_mul(m1, m2)
            c = c1 * c2
            if sp:
                for mm, cc in _reduce_mono(m, c).items():
                    _add_into(out, mm, cc)
            else:
                o = out.get(m)
                if o is None:
                    out[m] = c
                else:
                    s = o + c
                    if s == 0 or abs(s) <= SNAP * (abs(o) + abs(c)):
                        del out[m]
                    else:
                        out[m] = s
    return out


def _tonum(x):
    """python/numpy number -> term dict (or None)."""
    if x.__class__ is float or x.__class__ is int:
        if x == 0:
            return {}
        if x != x or x in (math.inf, -math.inf):
            raise Gap("non finite constant in symbolic arithmetic")
        return {(): x}
    if isinstance(x, (bool, np.bool_)):
        return {(): 1} if x else {}
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return {(): x} if x else {}
    if isinstance(x, Fraction):
        return {(): float(x)} if x else {}
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        d = {}
        if x.real:
            d[()] = x.real
        if x.imag:
            d[((I_ID, 1),)] = x.imag
        return d
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            raise Gap("non finite constant in symbolic arithmetic")
        return {(): x} if x else {}
    if isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype != object:
        return _tonum(x.item())
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x.item()
        if isinstance(x, Sym):
            return x.t
        if isinstance(x, SymBool):
            return x.ind().t
        return _tonum(x)
    return None


def _key(t):
    return tuple(sorted(((m, float("%.12g" % c)) for m, c in t.items()), key=_mk))


def _mk(mc):
    return [(a, float(e)) for a, e in mc[0]]


_ctx = [None]     # active execution context (ctx.Ctx) for decisions


def _isnan(o):
    return isinstance(o, (float, np.floating)) and o != o


def _isinf(o):
    return isinstance(o, (float, np.floating)) and (o == math.inf or o == -math.inf)


class Sym:
    __slots__ = ("t",)
    __array_priority__ = 1000.0

    def __init__(self, t):
        self.t = t

    # ---------------------------------------------------------------- helpers
    def const(self):
        """numeric value if constant else None."""
        t = self.t
        if not t:
            return 0.0
        if len(t) == 1:
            c = t.get(())
            if c is not None:
                return c
            c = t.get(((I_ID, 1),))
            if c is not None:
                return complex(0, c)
        if len(t) == 2:
            a, b = t.get(()), t.get(((I_ID, 1),))
            if a is not None and b is not None:
                return complex(a, b)
        return None

    def split_eps(self):
        a, b = {}, {}
        for m, c in self.t.items():
            for k, (i, e) in enumerate(m):
                if i == EPS_ID:
                    b[m[:k] + m[k + 1:]] = c
                    break
                if i > EPS_ID:
                    a[m] = c
                    break
            else:
                a[m] = c
        return Sym(a), Sym(b)

    def has_eps(self):
        for m in self.t:
            for i, e in m:
                if i == EPS_ID:
                    return True
                if i > EPS_ID:
                    break
        return False

    def is_complex(self):
        for m in self.t:
            for i, e in m:
                if i == I_ID or _atoms[i].conj is not None:
                    return True
        return False

    # ------------------------------------------------------------- arithmetic
    def _c(self, o):
        if o.__class__ is Sym:
            return o.t
        if isinstance(o, SymBool):
            return o.ind().t
        return _tonum(o)

    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if _isnan(o):
            return math.nan
        b = self._c(o)
        if b is None:
            return NotImplemented
        a = self.t
        if not b:
            return self
        if len(a) < len(b):
            a, b = b, a
        d = dict(a)
        for m, c in b.items():
            _add_into(d, m, c)
        return Sym(d)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if _isnan(o):
            return math.nan
        b = self._c(o)
        if b is None:
            return NotImplemented
        d = dict(self.t)
        for m, c in b.items():
            _add_into(d, m, -c)
        return Sym(d)

    def __rsub__(self, o):
        return (-self).__add__(o)

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if _isnan(o):
            return math.nan
        b = self._c(o)
        if b is None:
            return NotImplemented
        return Sym(_mul_terms(self.t, b))

    __rmul__ = __mul__

    def inv(self):
        return self ** -1

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if _isinf(o):
            return Sym({})
        if _isnan(o):
            return math.nan
        b = self._c(o)
        if b is None:
            return NotImplemented
        s = Sym(b)
        c = s.const()
        if c is not None:
            if c == 0:
                if not self.t:
                    return math.nan
                raise ZeroDivisionError("symbolic division by zero")
            if isinstance(c, complex):
                return self * (1 / c)
            return Sym({m: x / c for m, x in self.t.items()})
        if 1 < len(s.t) <= 6 and len(s.t) <= len(self.t) <= 40:
            q = _exact_div(self, s)
            if q is not None:
                return q
        return self * s.inv()

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        b = self._c(o)
        if b is None:
            return NotImplemented
        return Sym(_mul_terms(b, self.inv().t))

    def __floordiv__(self, o):
        return NotImplemented

    def __pow__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, np.ndarray):
            o = o.item()
        if isinstance(o, SymBool):
            o = o.ind()
        if isinstance(o, Sym):
            c = o.const()
            if c is None:
                return (o * self.log()).exp()
            o = c
        if isinstance(o, complex):
            raise Gap("complex exponent")
        e = _as_exp(o)
        if e == 0:
            return Sym({(): 1})
        if e == 1:
            return self
        if isinstance(e, int) and e > 1:
            r = self
            for _ in range(e - 1):
                r = r * self
            return r
        return _power(self, e)

    def __rpow__(self, o):
        b = self._c(o)
        if b is None:
            return NotImplemented
        c = Sym(b).const()
        if c is None or isinstance(c, complex) or c <= 0:
            raise Gap("base of symbolic exponent")
        return (self * math.log(c)).exp()

    def __abs__(self):
        if self.is_complex():
            return (self * self.conj()).real_simplify().sqrt()
        c = self.const()
        if c is not None:
            return Sym({(): abs(c)}) if c else Sym({})
        return self.sign() * self

    def real_simplify(self):
        return self

    def sign(self):
        a, b = self.split_eps()
        c = a.const()
        if c is not None:
            return Sym({(): 1 if c > 0 else -1}) if c != 0 else Sym({})
        lo, hi = a.interval()
        if lo is not None and lo >= 0:
            return Sym({(): 1})
        if hi is not None and hi <= 0:
            return Sym({(): -1})
        # factor content with known sign
        cont, rest = a._content(True)
        exact = rest._pow2()
        scale, rest = rest._monic(False)
        sg = 1
        lead = min(rest.t.items(), key=_mk)[1]
        if lead < 0:
            sg = -1
            rest, exact = -rest, -exact
        k = ("S", _key(rest.t))
        i = _atom_index.get(k)
        if i is None:
            i = _new_atom("S", exact, f"sgn{len(_atoms)}", -1, 1, False, k)
        return Sym({((i, 1),): sg})

    def _monic(self, allow_sign):
        lead = min(self.t.items(), key=_mk)[1]
        s = lead if allow_sign else abs(lead)
        return s, Sym({m: c / s for m, c in self.t.items()})

    def __index__(self):
        """an integer: indicators are decided (the path forks)."""
        tot = 0
        for m, c in self.t.items():
            for a, e in m:
                if _atoms[a].kind != "IND":
                    raise TypeError("symbolic index")
                if not bool(_atoms[a].arg):
                    c = 0
                    break
            tot = tot + c
        if tot != int(tot):
            raise TypeError("symbolic index is not an integer")
        return int(tot)

    def _pow2(self):
        """scaled by a power of two (exact) so that the leading coefficient is near 1."""
        lead = abs(min(self.t.items(), key=_mk)[1])
        s = 2.0 ** -round(math.log2(lead))
        return self if s == 1.0 else Sym({m: c * s for m, c in self.t.items()})

    def _content(self, only_pos):
        """monomial content: returns (mono, rest)."""
        it = iter(self.t)
        first = dict(next(it))
        for m in it:
            dm = dict(m)
            for a in list(first):
                e = dm.get(a)
                if e is None:
                    if _atoms[a].kind == "E" or first[a] < 0:
                        first[a] = min(first[a], 0)
                        if first[a] == 0:
                            del first[a]
                    else:
                        del first[a]
                else:
                    first[a] = min(first[a], e)
            for a, e in m:
                if a not in first and e < 0 and _atoms[a].kind not in ("I", "EPS", "S", "IND"):
                    first[a] = e
        for a in list(first):
            at = _atoms[a]
            if first[a] == 0 or at.kind in ("IND", "EPS") or (
                at.kind == "I"
            ) or (only_pos and not at.pos):
                del first[a]
        if not first:
            return (), self
        mono = tuple(sorted(first.items()))
        invm = tuple((a, -e) for a, e in mono)
        return mono, Sym(_mul_terms(self.t, {invm: 1}))

    # ----------------------------------------------------- complex structure
    def conj(self):
        d = {}
        for m, c in self.t.items():
            mm = m
            for i, e in m:
                if i == I_ID:
                    c = -c
                elif _atoms[i].conj is not None:
                    mm = None
            if mm is None:
                new = []
                for i, e in m:
                    cj = _atoms[i].conj
                    new.append((cj if cj is not None else i, e))
                mm = tuple(sorted(new))
            _add_into(d, mm, c)
        return Sym(d)

    conjugate = conj

    @property
    def real(self):
        if not self.is_complex():
            return self
        return (self + self.conj()) * 0.5

    @property
    def imag(self):
        if not self.is_complex():
            return Sym({})
        return (self - self.conj()) * (-0.5j)

    # ------------------------------------------------------------- functions
    def sqrt(self):
        return self ** Fraction(1, 2)

    def square(self):
        return self * self

    def exp(self):
        a, b = self.split_eps()
        f = _exp(a)
        if b.t:
            f = f + f * b * EPS
        return f

    def log(self):
        a, b = self.split_eps()
        f = _log(a)
        if b.t:
            f = f + (b / a) * EPS
        return f

    def log10(self):
        return self.log() * (1 / math.log(10))

    def log2(self):
        return self.log() * (1 / math.log(2))

    def log1p(self):
        return (self + 1).log()

    def expm1(self):
        return self.exp() - 1

    def exp2(self):
        return (self * math.log(2)).exp()

    def sin(self):
        a, b = self.split_eps()
        s, c = _sincos(a)
        return s + c * b * EPS if b.t else s

    def cos(self):
        a, b = self.split_eps()
        s, c = _sincos(a)
        return c - s * b * EPS if b.t else c

    def tan(self):
        return self.sin() / self.cos()

    def sinh(self):
        return (self.exp() - (-self).exp()) * 0.5

    def cosh(self):
        return (self.exp() + (-self).exp()) * 0.5

    def tanh(self):
        a, b = self.split_eps()
        t = 1 - 2 / ((a * 2).exp() + 1)
        return t + (1 - t * t) * b * EPS if b.t else t

    def arctan(self):
        return uf("arctan", [self])

    def arctan2(self, o):
        return uf("arctan2", [self, _sym(o)])

    def arcsin(self):
        return uf("arcsin", [self])

    def arccos(self):
        return uf("arccos", [self])

    def deg2rad(self):
        return self * (math.pi / 180)

    radians = deg2rad

    def rad2deg(self):
        return self * (180 / math.pi)

    degrees = rad2deg

    def reciprocal(self):
        return self.inv()

    def angle(self):
        return uf("arctan2", [self.imag, self.real])

    # ------------------------------------------------------------ comparisons
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, (float, np.floating)):
            if o != o:
                return op == "!="
            if _isinf(o):
                if op in ("==",):
                    return False
                if op == "!=":
                    return True
                return (o > 0) if op in ("<", "<=") else (o < 0)
        b = self._c(o) if o is not None and not isinstance(o, str) else None
        if b is None:
            return NotImplemented
        d = self - Sym(b)
        if op == ">":
            return compare(-d, "<")
        if op == ">=":
            return compare(-d, "<=")
        return compare(d, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def __bool__(self):
        c = self.const()
        if c is not None:
            return bool(c)
        return bool(self != 0)

    def __getitem__(self, i):
        """a scalar stands for a 0-d array."""
        if i == () or i is Ellipsis:
            return self
        if isinstance(i, (bool, np.bool_, SymBool)) or (isinstance(i, np.ndarray) and i.ndim == 0):
            from .sa import to_sa
            return to_sa([self] if bool(i) else [])
        raise IndexError("too many indices for a scalar")

    # ------------------------------------------------------------ conversions
    def __float__(self):
        c = self.const()
        if c is None:
            raise Gap("float() of a symbolic value")
        if isinstance(c, complex):
            raise TypeError("float of complex")
        return float(c)

    def __int__(self):
        c = self.const()
        if c is None:
            raise Gap("int() of a symbolic value")
        return int(c)

    def __complex__(self):
        c = self.const()
        if c is None:
            raise Gap("complex() of a symbolic value")
        return complex(c)

    def __round__(self, n=None):
        c = self.const()
        if c is None:
            raise Gap("round of symbolic value")
        return round(c, n)

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return show(self)

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Gap("pickle of a symbolic value")

    # numpy-scalar look-alike attributes
    ndim = 0
    shape = ()
    size = 1

    @property
    def T(self):
        return self

    def astype(self, *a, **k):
        return self

    def flatten(self, *a):
        from .sa import SA
        return SA([self])

    def dot(self, o):
        return self * o

    def sum(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self != 0

    any = all

    def max(self, *a, **k):
        return self

    min = max

    # --------------------------------------------------------------- analysis
    def interval(self):
        """sound [lo,hi] from atom boxes; None = unbounded."""
        lo = hi = 0.0
        for m, c in self.t.items():
            l, h = 1.0, 1.0
            for a, e in m:
                at = _atoms[a]
                al, ah = at.lo, at.hi
                if at.kind in ("I", "EPS") or at.conj is not None:
                    return None, None
                if e == 1:
                    pass
                else:
                    al, ah = _ipow(al, ah, e, at.pos)
                l, h = _imul(l, h, al, ah)
            if c < 0:
                l, h = h, l
            l = None if l is None else l * c
            h = None if h is None else h * c
            lo = None if (lo is None or l is None) else lo + l
            hi = None if (hi is None or h is None) else hi + h
            if lo is None and hi is None:
                return None, None
        return lo, hi

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .sa import sa_ufunc
        return sa_ufunc(ufunc, method, inputs, kw)


numbers.Real.register(Sym)


def _sym(o):
    if isinstance(o, Sym):
        return o
    if isinstance(o, SymBool):
        return o.ind()
    t = _tonum(o)
    if t is None:
        raise Gap(f"cannot convert {type(o)} to Sym")
    return Sym(t)


def _ipow(lo, hi, e, pos):
    if e.__class__ is int and e > 0:
        if lo is None or hi is None:
            if e % 2 == 0:
                return 0.0, None
            return (None if lo is None else lo ** e), (None if hi is None else hi ** e)
        vals = [lo ** e, hi ** e]
        if e % 2 == 0 and lo < 0 < hi:
            return 0.0, max(vals)
        return min(vals), max(vals)
    # negative or fractional
    if pos or (lo is not None and lo > 0):
        l = None if lo is None else lo
        try:
            if e > 0:
                return (0.0 if l is None else l ** float(e)), (None if hi is None else hi ** float(e))
            return (0.0 if hi is None else (hi ** float(e))), (
                None if (l is None or l <= 0) else l ** float(e))
        except OverflowError:
            return 0.0, None
    return None, None


def _imul(l1, h1, l2, h2):
    if None in (l1, h1, l2, h2):
        # only keep sign info for nonneg*nonneg
        if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
            return l1 * l2, None
        return None, None
    v = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
    return min(v), max(v)


# --------------------------------------------------------------------- powers
def _power(p, e):
    a, b = p.split_eps()
    if b.t:
        fa = _power0(a, e)
        return fa + _power0(a, e - 1 if not isinstance(e - 1, Fraction) else _norm_exp(e - 1)) * b * EPS * float(e)
    return _power0(a, e)


def _power0(p, e):
    if e == 0:
        return Sym({(): 1})
    if e == 1:
        return p
    if isinstance(e, int) and e > 1:
        return p ** e
    c = p.const()
    if c is not None:
        if c == 0:
            if e < 0:
                raise ZeroDivisionError("0 ** negative")
            return Sym({})
        if isinstance(c, complex):
            return Sym(_tonum(c ** float(e)))
        if c < 0 and not isinstance(e, int):
            return Sym(_tonum(complex(c) ** float(e)))
        r = float(c) ** float(e)
        return Sym({(): r})
    if p.is_complex():
        if isinstance(e, int):
            # 1/z^n = conj(z)^n / |z|^2n
            cj = p.conj()
            n2 = p * cj
            if len(p.t) == 1:
                # single monomial containing I or complex atoms: invert directly
                (m, c), = p.t.items()
                out = Sym({(): 1})
                r = _mono_pow(m, c, e)
                if r is not None:
                    return r
            r = _power0(n2, e)
            for _ in range(-e):
                r = r * cj
            return r
        raise Gap("fractional power of a complex symbolic value")
    frac = not isinstance(e, int)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = _mono_pow(m, c, e)
        if r is not None:
            return r
    r = _factor_power(p, e)
    if r is not None:
        return r
    mono, rest = p._content(frac)
    scale, q = rest._monic(allow_sign=not frac)
    # q multi-term (or single with non-positive atoms for frac)
    if mono or scale != 1:
        pre = Sym({(): float(scale) ** float(e) if scale > 0 else float(scale) ** int(e)})
        if mono:
            pre = pre * _mono_pow(mono, 1, e)
        if len(q.t) == 1 and q.const() is not None:
            return pre * _power0(q, e)
        return pre * _q_power(q, e)
    return _q_power(q, e)


def _factor_power(p, e):
    """p**e when p has a detectable factor 1-sin**2 or is a perfect square."""
    sins = {a for m in p.t for a, x in m if _atoms[a].kind == "SIN"}
    for s in sins:
        q = _div_one_minus_sq(p, s)
        if q is not None:
            cs = _atoms[s].extra
            c = Sym({((cs, 1),): 1})
            lo = _atoms[cs].lo
            if not isinstance(e, int):
                c = abs(c)
                if e.denominator == 2:
                    k = e.numerator
                    base = c ** k if k > 0 else _power0(c, k)
                    return _power0(q, e) * base
                return None
            return _power0(q, e) * _power0(c, 2 * e)
    if len(p.t) in (3, 6, 10):
        r = _poly_sqrt(p)
        if r is not None:
            if isinstance(e, int):
                return _power0(r, 2 * e)
            if e.denominator == 2:
                return _power0(abs(r), e.numerator) if e.numerator != 1 else abs(r)
    return None


def _exact_div(p, d):
    """p/d when d divides p exactly (plain polynomials), else None."""
    for m in d.t:
        for a, e in m:
            if not isinstance(e, int) or e < 0 or _atoms[a].kind not in ("var", "SIN", "COS", "E", "L", "UF", "X"):
                return None
    deg = lambda m: (sum(e for a, e in m), _mk((m, 0)))
    try:
        ld = max(d.t, key=deg)
    except TypeError:
        return None
    lc = d.t[ld]
    ldd = dict(ld)
    rem = dict(p.t)
    quo = {}
    mx = max(abs(c) for c in p.t.values())
    for _ in range(60):
        if not rem:
            return Sym(quo)
        lm = max(rem, key=deg)
        dm = dict(lm)
        for a, e in ldd.items():
            x = dm.get(a, 0)
            if not isinstance(x, int) or x < e:
                return None
            if x == e:
                del dm[a]
            else:
                dm[a] = x - e
        qm = tuple(sorted(dm.items()))
        qc = rem[lm] / lc
        quo[qm] = qc
        for m, c in d.t.items():
            mm, sp = mono_mul(m, qm)
            if sp:
                return None
            o = rem.get(mm, 0)
            v = o - c * qc
            if abs(v) <= 1e-12 * (abs(o) + abs(c * qc)):
                rem.pop(mm, None)
            else:
                rem[mm] = v
    return None


def _div_one_minus_sq(p, s):
    """q with p == q*(1-s**2), or None."""
    co = {}
    for m, c in p.t.items():
        dm = dict(m)
        k = dm.pop(s, 0)
        if not isinstance(k, int) or k < 0:
            return None
        co.setdefault(k, {})[tuple(sorted(dm.items()))] = c
    n = max(co)
    if n < 2:
        return None
    quo = {}
    cur = {k: Sym(dict(v)) for k, v in co.items()}
    for k in range(n, 1, -1):       # leading coefficient of -s**2
        a = cur.get(k)
        if a is None or not a.t:
            continue
        quo[k - 2] = -a
        cur[k - 2] = cur.get(k - 2, Sym({})) + a
    for k in (0, 1):
        if k in cur and cur[k].t:
            mx = max(abs(c) for c in p.t.values())
            if any(abs(c) > 1e-12 * mx for c in cur[k].t.values()):
                return None
    out = Sym({})
    for k, a in quo.items():
        out = out + (a * Sym({((s, k),): 1}) if k else a)
    return out if out.t else None


def _poly_sqrt(p):
    """r with r*r == p for sums of up to four monomials, or None."""
    sq = []
    for m, c in p.t.items():
        if c > 0 and all(isinstance(x, int) and x % 2 == 0 and _atoms[a].kind in ("var", "E", "Q", "SIN") for a, x in m):
            sq.append((tuple((a, x // 2) for a, x in m), math.sqrt(c)))
    n = {3: 2, 6: 3, 10: 4}[len(p.t)]
    if len(sq) < n or len(sq) > n + 1:
        return None
    import itertools
    for sub in itertools.combinations(sq, n):
        for sg in itertools.product((1, -1), repeat=n - 1):
            r = Sym({m: c * s for (m, c), s in zip(sub, (1,) + sg)})
            d = (r * r).t
            if set(d) == set(p.t) and all(abs(d[m] - p.t[m]) <= 1e-10 * abs(d[m]) for m in d):
                return r
    return None


def _mono_pow(m, c, e):
    """(c*m)**e for a single monomial or None when it needs a Q atom."""
    if isinstance(e, int):
        out = []
        cc = float(c) ** e
        for a, x in m:
            k = _atoms[a].kind
            if k == "I":
                # (I)^-n
                cc = cc * 1
                out.append((a, x * e))
            elif k in ("EPS", "IND"):
                return None
            else:
                out.append((a, _norm_exp(x * e)))
        return Sym(_reduce_mono(tuple(out), cc))
    if c < 0:
        return None
    out = []
    ab = []
    for a, x in m:
        at = _atoms[a]
        if at.pos:
            out.append((a, _norm_exp(x * e)))
        elif isinstance(x, int) and x % 2 == 0 and at.kind not in ("I", "EPS", "IND", "S"):
            ab.append((a, x))
        else:
            return None
    r = Sym(_reduce_mono(tuple(out), float(c) ** float(e)))
    for a, x in ab:
        base = abs(Sym({((a, 1),): 1}))
        xe = _norm_exp(x * e)
        if isinstance(xe, int):
            r = r * (base ** xe if xe != 0 else 1)
        else:
            r = r * _q_power_abs(a, xe)
    return r


def _q_power_abs(a, e):
    # |atom|**e  for fractional e: Q atom whose base is sgn*atom
    base = abs(Sym({((a, 1),): 1}))
    return _q_power(base, e)


def _q_atom(q):
    k = ("Q", _key(q.t))
    i = _atom_index.get(k)
    if i is None:
        lo, hi = q.interval()
        pos = lo is not None and lo > 0
        i = _new_atom("Q", q, f"q{len(_atoms)}", lo, hi, pos, k)
        ctx = _ctx[0]
        if ctx is not None:
            ctx.on_atom(_atoms[i])
    return i


def _q_power(q, e):
    if len(q.t) == 1 and q.const() is not None:
        return _power0(q, e)
    i = _q_atom(q)
    if not isinstance(e, int):
        _atoms[i].pos = True     # domain of a fractional power
        if _atoms[i].lo is None or _atoms[i].lo < 0:
            _atoms[i].lo = 0.0
    return Sym(_reduce_mono(((i, _norm_exp(e)),), 1))


# ------------------------------------------------------------- exp, log, trig
def _exp(p):
    out = Sym({(): 1})
    cst = 0.0
    mono = []
    for m, c in p.t.items():
        if not m:
            cst += c
            continue
        if m == ((I_ID, 1),):
            out = out * complex(math.cos(c), math.sin(c))
            continue
        if any(_atoms[a].conj is not None for a, e in m):
            raise Gap("exp of complex opaque value")
        if m and m[0][0] == I_ID:
            arg = Sym({m[1:]: c})
            s, co = _sincos(arg)
            out = out * (co + s * 1j)
            continue
        if len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]].kind == "L":
            q = _atoms[m[0][0]].arg
            out = out * _power0(q, _as_exp(c)) if not (
                isinstance(_as_exp(c), int) and _as_exp(c) > 0) else out * (q ** _as_exp(c))
            continue
        mono.append((m, c))
    for m, c in mono:
        k = ("E", m)
        i = _atom_index.get(k)
        if i is None:
            arg = Sym({m: 1})
            lo, hi = arg.interval()
            try:
                lo = math.exp(lo) if lo is not None else 0.0
            except OverflowError:
                lo = 0.0
            try:
                hi = math.exp(hi) if hi is not None else None
            except OverflowError:
                hi = None
            i = _new_atom("E", arg, f"e{len(_atoms)}", lo, hi, True, k)
        out = out * Sym({((i, _as_exp(c)),): 1})
    if cst:
        out = out * math.exp(cst)
    return out


def _log(p):
    c = p.const()
    if c is not None:
        if isinstance(c, complex):
            import cmath
            return Sym(_tonum(cmath.log(c)))
        if c <= 0:
            raise Gap("log of nonpositive constant")
        return Sym({(): math.log(c)}) if c != 1 else Sym({})
    if p.is_complex():
        raise Gap("log of complex symbolic")
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and all(_atoms[a].pos for a, e in m):
            r = Sym({(): math.log(c)}) if c != 1 else Sym({})
            for a, e in m:
                r = r + _log_atom(a) * float(e) if not isinstance(e, int) else r + _log_atom(a) * e
            return r
    mono, rest = p._content(True)
    scale, q = rest._monic(False)
    r = Sym({(): math.log(scale)}) if scale != 1 else Sym({})
    for a, e in mono:
        r = r + _log_atom(a) * (e if isinstance(e, int) else float(e))
    return r + _l_atom(q)


def _log_atom(a):
    at = _atoms[a]
    if at.kind == "E":
        return at.arg
    if at.kind == "Q":
        return _l_atom(at.arg)
    return _l_atom(Sym({((a, 1),): 1}))


def _l_atom(q):
    k = ("L", _key(q.t))
    i = _atom_index.get(k)
    if i is None:
        lo, hi = q.interval()
        i = _new_atom("L", q, f"l{len(_atoms)}",
                      math.log(lo) if lo is not None and lo > 0 else None,
                      math.log(hi) if hi is not None and hi > 0 else None, False, k)
    return Sym({((i, 1),): 1})


def _sincos(p):
    c = p.const()
    if c is not None:
        if isinstance(c, complex):
            import cmath
            return Sym(_tonum(cmath.sin(c))), Sym(_tonum(cmath.cos(c)))
        return Sym(_tonum(math.sin(c))), Sym(_tonum(math.cos(c)))
    if p.is_complex():
        raise Gap("sin/cos of complex symbolic")
    # inverse functions
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            at = _atoms[m[0][0]]
            if at.kind == "UF" and at.extra == "arctan2":
                y, x = at.arg
                h = (x * x + y * y).sqrt()
                return (y / h) * c, x / h
            if at.kind == "UF" and at.extra == "arctan":
                y, = at.arg
                h = (1 + y * y).sqrt()
                return (y / h) * c, 1 / h
            if at.kind == "UF" and at.extra == "arccos":
                x, = at.arg
                return (1 - x * x).sqrt() * c, x
            if at.kind == "UF" and at.extra == "arcsin":
                x, = at.arg
                return x * c, (1 - x * x).sqrt()
    # constant phase: expand sin(a + c)
    c0 = p.t.get(())
    if c0 is not None:
        rest = Sym({m: c for m, c in p.t.items() if m})
        s, c = _sincos(rest)
        s0, cc0 = math.sin(c0), math.cos(c0)
        if abs(s0) < 1e-15:
            s0 = 0.0
        if abs(cc0) < 1e-15:
            cc0 = 0.0
        return s * cc0 + c * s0, c * cc0 - s * s0
    sg = 1
    lead = min(p.t.items(), key=_mk)[1]
    if lead < 0:
        p = -p
        sg = -1
    k = ("SIN", _key(p.t))
    i = _atom_index.get(k)
    if i is None:
        lo, hi = p.interval()
        cl = 0.0
        if lo is not None and hi is not None and lo > -math.pi / 2 and hi < math.pi / 2:
            cl = min(math.cos(lo), math.cos(hi)) * (1 - 1e-12)
        i = _new_atom("SIN", p, f"sin{len(_atoms)}", -1.0, 1.0, False, k)
        j = _new_atom("COS", p, f"cos{len(_atoms)}", cl if cl > 0 else -1.0, 1.0, cl > 0, ("COS", k[1]), extra=i)
        _atoms[i].extra = j
    j = _atoms[i].extra
    return Sym({((i, 1),): sg}), Sym({((j, 1),): 1})


# ------------------------------------------------------- named functions (UF)
UF = {}     # name -> (numeric fn, [partial derivative builders], (lo, hi))


def _expi(x):
    from scipy.special import expi
    return float(getattr(expi, "__wrapped__", expi)(x))


def _def_uf():
    UF["arctan"] = (lambda x: math.atan(x), [lambda x: 1 / (1 + x * x)], (-math.pi / 2, math.pi / 2))
    UF["arctan2"] = (
        lambda y, x: math.atan2(y, x),
        [lambda y, x: x / (x * x + y * y), lambda y, x: -y / (x * x + y * y)],
        (-math.pi, math.pi),
    )
    UF["arcsin"] = (lambda x: math.asin(x), [lambda x: 1 / (1 - x * x).sqrt()], (-math.pi / 2, math.pi / 2))
    UF["arccos"] = (lambda x: math.acos(x), [lambda x: -1 / (1 - x * x).sqrt()], (0, math.pi))
    UF["erf"] = (lambda x: math.erf(x), [lambda x: 2 / math.sqrt(math.pi) * (-(x * x)).exp()], (-1, 1))
    UF["expi"] = (lambda x: _expi(x), [lambda x: x.exp() / x], (None, None))
    UF["erfc"] = (lambda x: math.erfc(x), [lambda x: -2 / math.sqrt(math.pi) * (-(x * x)).exp()], (0, 2))


_def_uf()


def uf(name, args):
    args = [_sym(a) for a in args]
    parts = [a.split_eps() for a in args]
    base = [p[0] for p in parts]
    f = _uf0(name, base)
    for k, (a, b) in enumerate(parts):
        if b.t:
            f = f + UF[name][1][k](*base) * b * EPS
    return f


def _uf0(name, args):
    cs = [a.const() for a in args]
    if all(c is not None for c in cs):
        return Sym(_tonum(float(UF[name][0](*[float(c) for c in cs]))))
    if any(a.is_complex() for a in args):
        raise Gap(f"{name} of complex symbolic")
    sg = 1
    if name in ("arctan", "arcsin", "erf") and min(args[0].t.items(), key=_mk)[1] < 0:
        args = [-args[0]]
        sg = -1
    k = ("UF", name) + tuple(_key(a.t) for a in args)
    i = _atom_index.get(k)
    if i is None:
        lo, hi = UF[name][2]
        i = _new_atom("UF", tuple(args), f"{name}{len(_atoms)}", lo, hi,
                      lo is not None and lo > 0, k, extra=name)
    return Sym({((i, 1),): sg})


# ------------------------------------------------------------------- booleans
class SymBool:
    """op in '<','<=','==','!=' (poly vs 0) / 'and','or','not'."""
    __slots__ = ("op", "a", "k")
    __array_priority__ = 1000.0

    def __init__(self, op, a):
        self.op, self.a, self.k = op, a, None

    def __bool__(self):
        ctx = _ctx[0]
        if ctx is None:
            raise Gap("symbolic branch outside an execution context")
        return ctx.decide(self)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return b_and([self, o])

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return b_or([self, o])

    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return (self & ~o) | (~self & o) if isinstance(o, SymBool) else (b_not(self) if o else self)

    __rxor__ = __xor__

    def logical_not(self):
        return b_not(self)

    def ind(self):
        """0/1 indicator as Sym."""
        k = ("IND", bkey(self))
        i = _atom_index.get(k)
        if i is None:
            kn = ("IND", bkey(b_not(self)))
            j = _atom_index.get(kn)
            if j is not None:
                return 1 - Sym({((j, 1),): 1})
            i = _new_atom("IND", self, f"ind{len(_atoms)}", 0, 1, False, k)
        return Sym({((i, 1),): 1})

    def _n(self):
        return self.ind()

    def __add__(self, o):
        return self.ind() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.ind() - o

    def __rsub__(self, o):
        return o - self.ind()

    def __mul__(self, o):
        return self.ind() * o

    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return b_not(self ^ o)
        if isinstance(o, (int, float)):
            return self.ind() == o
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return self ^ o
        return NotImplemented

    __hash__ = object.__hash__

    def __float__(self):
        return float(bool(self))

    def __int__(self):
        return int(bool(self))

    def all(self, *a, **k):
        return self

    any = all

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"SymBool({self.op})"

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .sa import sa_ufunc
        return sa_ufunc(ufunc, method, inputs, kw)


def bkey(b):
    if isinstance(b, (bool, np.bool_)):
        return bool(b)
    if b.op in ("and", "or"):
        return (b.op,) + tuple(bkey(x) for x in b.a)
    if b.op == "not":
        return ("not", bkey(b.a))
    if b.k is None:
        b.k = (b.op, _key(b.a._monic(False)[1].t))
    return b.k


def b_not(b):
    if isinstance(b, (bool, np.bool_)):
        return not b
    if b.op == "not":
        return b.a
    if b.op == "<":
        return SymBool("<=", -b.a)
    if b.op == "<=":
        return SymBool("<", -b.a)
    if b.op == "==":
        return SymBool("!=", b.a)
    if b.op == "!=":
        return SymBool("==", b.a)
    return SymBool("not", b)


def _asb(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        r = x != 0
        return r
    return bool(x)


def b_and(xs):
    out = []
    for x in xs:
        x = _asb(x)
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool("and", tuple(out))


def b_or(xs):
    out = []
    for x in xs:
        x = _asb(x)
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool("or", tuple(out))


def compare(d, op):
    """d op 0  -> bool or SymBool (EPS part ignored: comparison at the base point)."""
    d, _ = d.split_eps()
    if d.is_complex():
        if op in ("==", "!="):
            re, im = d.real, d.imag
            r = b_and([compare(re, "=="), compare(im, "==")])
            return r if op == "==" else b_not(r)
        d = d.real
    c = d.const()
    if c is not None:
        return {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0}[op]
    lo, hi = d.interval()
    if op == "<":
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
    elif op == "<=":
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
    else:
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return op == "!="
    return SymBool(op, d._pow2())


def ite(cond, a, b):
    if isinstance(cond, (bool, np.bool_)):
        return a if cond else b
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return b_or([b_and([cond, a]), b_and([b_not(cond), b])])
    a, b = _sym(a), _sym(b)
    if a.t == b.t:
        return a
    i = cond.ind()
    return b + i * (a - b)


def smax(a, b):
    if not isinstance(a, (Sym, SymBool)) and not isinstance(b, (Sym, SymBool)):
        return a if a >= b else b
    if _isinf(a):
        return b if a < 0 else a
    if _isinf(b):
        return a if b < 0 else b
    return ite(_settle(_sym(a) >= _sym(b)), a, b)


def _settle(c):
    if isinstance(c, SymBool) and _ctx[0] is not None:
        v = _ctx[0].implied(c)
        if v is not None:
            return v
    return c


def smin(a, b):
    if not isinstance(a, (Sym, SymBool)) and not isinstance(b, (Sym, SymBool)):
        return a if a <= b else b
    if _isinf(a):
        return b if a > 0 else a
    if _isinf(b):
        return a if b > 0 else b
    return ite(_settle(_sym(a) <= _sym(b)), a, b)


# ------------------------------------------------------------ sums / products
def dot(xs, ys):
    """sum x_i*y_i without intermediate copies."""
    out = {}
    num = 0.0
    cplx = False
    for x, y in zip(xs, ys):
        xs_, ys_ = x.__class__ is Sym, y.__class__ is Sym
        if not xs_ and not ys_:
            if isinstance(x, SymBool):
                x = x.ind(); xs_ = True
            if isinstance(y, SymBool):
                y = y.ind(); ys_ = True
            if not xs_ and not ys_:
                num = num + x * y
                continue
        xt = x.t if xs_ else _sym(x).t
        yt = y.t if ys_ else _sym(y).t
        if not xt or not yt:
            continue
        for m, c in _mul_terms(xt, yt).items():
            _add_into(out, m, c)
    if not out:
        return num if not isinstance(num, complex) else num
    if num.__class__ is Sym:
        for m, c in num.t.items():
            _add_into(out, m, c)
    elif num:
        d = _tonum(num)
        if d is None:
            raise Gap(f"dot product over {type(num)}")
        for m, c in d.items():
            _add_into(out, m, c)
    return Sym(out)


def ssum(xs):
    out = {}
    num = 0.0
    anysym = False
    for x in xs:
        if x.__class__ is Sym:
            anysym = True
            for m, c in x.t.items():
                _add_into(out, m, c)
        elif isinstance(x, SymBool):
            anysym = True
            for m, c in x.ind().t.items():
                _add_into(out, m, c)
        else:
            num = num + x
    if not anysym:
        return num
    if num:
        for m, c in _tonum(num).items():
            _add_into(out, m, c)
    return Sym(out)


# ----------------------------------------------------------------- evaluation
def evaluate(p, env, cache=None):
    """Numeric value of p at env: atom id -> value for 'var' atoms."""
    if cache is None:
        cache = {}
    tot = 0.0
    for m, c in p.t.items():
        v = c
        for a, e in m:
            av = _eval_atom(a, env, cache)
            v = v * (av ** (e if isinstance(e, int) else float(e)))
        tot = tot + v
    return tot


def _eval_atom(a, env, cache):
    if a in cache:
        return cache[a]
    at = _atoms[a]
    k = at.kind
    if k == "var":
        v = env[a]
        if v is None:
            raise Gap("no value for atom " + at.name)
    elif k == "I":
        v = 1j
    elif k == "EPS":
        v = 0.0
    elif k == "Q":
        v = evaluate(at.arg, env, cache)
        if isinstance(v, complex) and abs(v.imag) < 1e-12 * abs(v):
            v = v.real
    elif k == "E":
        v = math.exp(_re(evaluate(at.arg, env, cache)))
    elif k == "L":
        v = math.log(_re(evaluate(at.arg, env, cache)))
    elif k == "S":
        v = _re(evaluate(at.arg, env, cache))
        v = 1.0 if v >= 0 else -1.0
    elif k == "IND":
        v = 1.0 if eval_bool(at.arg, env, cache) else 0.0
    elif k == "SIN":
        v = math.sin(_re(evaluate(at.arg, env, cache)))
    elif k == "COS":
        v = math.cos(_re(evaluate(at.arg, env, cache)))
    elif k == "UF":
        v = UF[at.extra][0](*[_re(evaluate(x, env, cache)) for x in at.arg])
    elif k == "X":
        from . import linsys
        sid, i, j, cj = at.arg
        v = linsys.numeric(sid, env, cache)[i]
        if cj:
            v = v.conjugate()
    else:
        raise Gap("eval " + k)
    cache[a] = v
    return v


def _re(v):
    return v.real if isinstance(v, complex) else v


def eval_bool(b, env, cache=None):
    if isinstance(b, (bool, np.bool_)):
        return bool(b)
    if cache is None:
        cache = {}
    if b.op == "and":
        return all(eval_bool(x, env, cache) for x in b.a)
    if b.op == "or":
        return any(eval_bool(x, env, cache) for x in b.a)
    if b.op == "not":
        return not eval_bool(b.a, env, cache)
    v = _re(evaluate(b.a, env, cache))
    return {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[b.op]


def new_var(name, lo=None, hi=None):
    k = ("var", name)
    i = _atom_index.get(k)
    if i is None:
        i = _new_atom("var", None, name, lo, hi, lo is not None and lo > 0, k)
    return Sym({((i, 1),): 1})


# ------------------------------------------------------------ identity testing
def clear_denominators(p):
    """Multiply by the (nonzero) bases until no negative base powers remain.

    Works on (coef, magnitude) pairs so that cancellation can be judged against
    the size of the cancelling contributions.  Returns dict mono->(c,mag)."""
    t = {m: (c, abs(c)) for m, c in p.t.items()}
    for _ in range(60):
        worst = None
        for m in t:
            for a, e in m:
                if _atoms[a].kind == "Q" and e < 0:
                    if worst is None or a > worst:
                        worst = a
        if worst is None:
            break
        mn = min(dict(m).get(worst, 0) for m in t)
        k = -(mn.numerator // mn.denominator) if isinstance(mn, Fraction) else -mn
        q = _atoms[worst].arg.t
        new = {}
        for m, (c, g) in t.items():
            dm = dict(m)
            e = dm.pop(worst, 0) + k
            n = e.numerator // e.denominator if isinstance(e, Fraction) else e
            fr = e - n
            base = tuple(sorted(dm.items()))
            cur = {base: (c, g)}
            for _i in range(n):
                nxt = {}
                for m1, (c1, g1) in cur.items():
                    for m2, c2 in q.items():
                        mm, sp = mono_mul(m1, m2)
                        if sp:
                            items = _reduce_mono(mm, 1).items()
                        else:
                            items = ((mm, 1),)
                        for m3, c3 in items:
                            o = nxt.get(m3, (0, 0))
                            nxt[m3] = (o[0] + c1 * c2 * c3, o[1] + abs(g1 * c2 * c3))
                cur = nxt
            if fr != 0:
                cur2 = {}
                for m1, cg in cur.items():
                    mm, sp = mono_mul(m1, ((worst, _norm_exp(fr)),))
                    o = cur2.get(mm, (0, 0))
                    cur2[mm] = (o[0] + cg[0], o[1] + cg[1])
                cur = cur2
            for m1, (c1, g1) in cur.items():
                o = new.get(m1, (0, 0))
                new[m1] = (o[0] + c1, o[1] + g1)
        if len(new) > 200000:
            raise Gap("denominator clearing too large")
        t = {m: cg for m, cg in new.items() if abs(cg[0]) > 1e-14 * cg[1]}
    return t


REL = 1e-9


def diff_terms(lhs, rhs):
    """Residual monomials of lhs-rhs that are not rounding noise (dict)."""
    out = {}
    mx = 0.0
    for m in set(lhs.t) | set(rhs.t):
        a, b = lhs.t.get(m, 0), rhs.t.get(m, 0)
        mx = max(mx, abs(a), abs(b))
        d = a - b
        if abs(d) > REL * (abs(a) + abs(b)):
            out[m] = d
    glob = 1e-13 * mx
    return {m: c for m, c in out.items() if abs(c) > glob}


def residual(lhs, rhs):
    """{} when lhs == rhs identically (after clearing denominators)."""
    r = diff_terms(lhs, rhs)
    if not r:
        return {}
    if any(_atoms[a].kind == "Q" and e < 0 for m in r for a, e in m):
        full = lhs - rhs
        t = clear_denominators(full)
        return {m: c for m, (c, g) in t.items() if abs(c) > REL * g}
    return r


def path_substitution(path):
    """var -> Sym from path equalities  x == (affine in other vars)."""
    sub = {}
    for b in path:
        if isinstance(b, SymBool) and b.op == "==":
            p = substitute(b.a, sub) if sub else b.a
            cand = None
            for m, c in p.t.items():
                if len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]].kind == "var":
                    a = m[0][0]
                    if not any(x == a for mm in p.t if mm != m for x, e in mm) and not _occurs(p, m, a):
                        if cand is None or a > cand[0]:
                            cand = (a, c, m)
            if cand is not None:
                a, c, m = cand
                rest = Sym({mm: -cc / c for mm, cc in p.t.items() if mm != m})
                sub = {k: substitute(v, {a: rest}) for k, v in sub.items()}
                sub[a] = rest
    return sub


def _occurs(p, skip, a):
    for m in p.t:
        if m == skip:
            continue
        for x, e in m:
            if _atom_uses(x, a):
                return True
    return False


def _atom_uses(x, a):
    if x == a:
        return True
    at = _atoms[x]
    args = at.arg
    if at.kind == "X":
        return True
    if args is None:
        return False
    if isinstance(args, Sym):
        return any(_atom_uses(y, a) for m in args.t for y, e in m)
    if isinstance(args, tuple):
        return any(isinstance(z, Sym) and any(_atom_uses(y, a) for m in z.t for y, e in m) for z in args)
    if isinstance(args, SymBool):
        return True
    return False


def substitute(p, sub, cache=None):
    if cache is None:
        cache = {}
    out = Sym({})
    for m, c in p.t.items():
        r = Sym({(): c})
        plain = []
        for a, e in m:
            v = _sub_atom(a, sub, cache)
            if v is None:
                plain.append((a, e))
            else:
                r = r * (v ** e if not (isinstance(e, int) and e < 0) else _power(v, e))
        if plain:
            r = r * Sym({tuple(plain): 1})
        out = out + r
    return out


def _sub_atom(a, sub, cache):
    """replacement Sym or None when unchanged."""
    if a in cache:
        return cache[a]
    at = _atoms[a]
    r = None
    if at.kind == "var":
        r = sub.get(a)
    elif at.kind in ("Q", "E", "L", "S", "SIN", "COS") or at.kind == "UF":
        args = at.arg if at.kind == "UF" else (at.arg,)
        new = [substitute(x, sub, cache) for x in args]
        if any(n.t != o.t for n, o in zip(new, args)):
            k = at.kind
            r = {"Q": lambda: new[0], "E": lambda: new[0].exp(), "L": lambda: new[0].log(),
                 "S": lambda: new[0].sign(), "SIN": lambda: new[0].sin(), "COS": lambda: new[0].cos(),
                 "UF": lambda: uf(at.extra, new)}[k]()
    elif at.kind == "IND":
        b = _sub_bool(at.arg, sub, cache)
        if isinstance(b, bool):
            r = Sym({(): 1}) if b else Sym({})
        elif bkey(b) != bkey(at.arg):
            r = b.ind()
    cache[a] = r
    return r


def _sub_bool(b, sub, cache):
    if isinstance(b, (bool, np.bool_)):
        return bool(b)
    if b.op in ("and", "or"):
        xs = [_sub_bool(x, sub, cache) for x in b.a]
        return b_and(xs) if b.op == "and" else b_or(xs)
    if b.op == "not":
        return b_not(_sub_bool(b.a, sub, cache))
    return compare(substitute(b.a, sub, cache), b.op)


def show(p, maxterms=6):
    if not p.t:
        return "0"
    s = []
    for k, (m, c) in enumerate(p.t.items()):
        if k >= maxterms:
            s.append(f"...({len(p.t)} terms)")
            break
        s.append("*".join([repr(c)] + [_atoms[a].name + (f"^{e}" if e != 1 else "") for a, e in m]))
    return " + ".join(s)


reset()
EPS = Sym({((EPS_ID, 1),): 1})
IMAG = Sym({((I_ID, 1),): 1})
