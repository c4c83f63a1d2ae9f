"""Install the symbolic numpy/scipy layer into the code under analysis."""
import hashlib
import sys
import types

import numpy as np

from . import sa, sparse
from .poly import Gap, Sym, SymBool
from .sa import NP, STATE, is_sym, has_sym

_done = [False]
SOLVER = [None]
PREFIXES = ("simpeg", "discretize", "harness", "geoana", "pymatsolver")


class _Digest:
    def __init__(self, key):
        self.key = key

    def digest(self):
        return self.key
    hexdigest = digest


class _Hash:
    """hash functions are injective: the digest of a symbolic array is the list of its terms."""
    def __getattr__(self, name):
        f = getattr(hashlib, name)

        def g(x=b"", *a, **k):
            if isinstance(x, np.ndarray) and x.dtype == object:
                if not has_sym(x):
                    return f(np.ascontiguousarray(np.asarray(sa.raw(x), dtype=float)))
                return _Digest(tuple(frozenset(e.t.items()) if is_sym(e) else e for e in sa.raw(x).ravel().tolist()))
            return f(x, *a, **k)
        return g


HASHLIB = _Hash()


def install():
    if _done[0]:
        return
    _done[0] = True
    repl = {}
    sparse.install(repl)
    # numpy functions imported by name
    for n in ("zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "full_like",
              "array", "asarray"):
        repl[id(getattr(np, n))] = getattr(NP, n)
    _extra(repl)
    _numeric_zones(repl)
    mods = [m for k, m in list(sys.modules.items())
            if isinstance(m, types.ModuleType) and k.split(".")[0] in PREFIXES]
    for m in mods:
        d = m.__dict__
        for k, v in list(d.items()):
            if v is np:
                d[k] = NP
            elif v is hashlib:
                d[k] = HASHLIB
            else:
                r = repl.get(id(v))
                if r is not None:
                    d[k] = r
    SOLVER[0] = sparse.make_solver()
    _solvers(mods)


def _solvers(mods):
    """the solver classes simpeg modules use by default become exact symbolic solves."""
    import pymatsolver
    names = ("Solver", "SolverLU", "SolverCG", "SolverBiCG", "Pardiso", "Mumps")
    sols = {id(getattr(pymatsolver, n)) for n in names if hasattr(pymatsolver, n)}
    for m in mods:
        if m.__name__.split(".")[0] != "simpeg" or m.__name__.startswith("simpeg.utils"):
            continue
        for k, v in list(m.__dict__.items()):
            if id(v) in sols:
                m.__dict__[k] = SOLVER[0]
            elif isinstance(v, type) and v.__module__ == m.__name__:
                for a, w in list(v.__dict__.items()):
                    if id(w) in sols:
                        setattr(v, a, SOLVER[0])


def _anysym(x, depth=0):
    if is_sym(x) or type(x) is sparse.SymSparse:
        return True
    if isinstance(x, np.ndarray):
        return has_sym(x)
    if isinstance(x, (list, tuple)) and depth < 3:
        return any(_anysym(y, depth + 1) for y in x)
    if isinstance(x, dict) and depth < 2:
        return any(_anysym(y, depth + 1) for y in x.values())
    return False


def _dm(x, depth=0):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return sa.demote(x)
    if type(x) in (list, tuple) and depth < 3:
        return type(x)(_dm(y, depth + 1) for y in x)
    return x


def zone(f):
    """run f with the symbolic layer off when no argument is symbolic."""
    def g(*args, **kw):
        if not STATE["active"]:
            return f(*args, **kw)
        for a in args:
            if _anysym(a):
                return f(*args, **kw)
        for a in kw.values():
            if _anysym(a):
                return f(*args, **kw)
        STATE["active"] = False
        try:
            return f(*[_dm(a) for a in args], **{k: _dm(v) for k, v in kw.items()})
        finally:
            STATE["active"] = True
    g.__name__ = getattr(f, "__name__", "f")
    g.__doc__ = getattr(f, "__doc__", None)
    g.__wrapped__ = f
    return g


def _numeric_zones(repl):
    """discretize is a numeric kernel whenever it gets numeric arguments."""
    import functools
    skip = {"sdiag", "mkvc", "Zero", "Identity", "__init__", "__new__", "__getattr__", "__setattr__",
            "__init_subclass__", "__class_getitem__"}
    for k, m in list(sys.modules.items()):
        if not isinstance(m, types.ModuleType) or k.split(".")[0] not in ("discretize", "geoana"):
            continue
        geo = k.startswith("geoana")
        for n, v in list(m.__dict__.items()):
            if isinstance(v, type) and v.__module__ == k and not k.startswith("discretize.utils.matrix_utils"):
                for a, w in list(v.__dict__.items()):
                    if (a in skip or a.startswith("__")) and not (geo and a == "__init__"):
                        continue
                    try:
                        if isinstance(w, types.FunctionType):
                            setattr(v, a, zone(w))
                        elif isinstance(w, property) and w.fget is not None:
                            setattr(v, a, property(zone(w.fget), zone(w.fset) if geo and w.fset else w.fset, w.fdel, w.__doc__))
                    except (TypeError, AttributeError):
                        pass
            elif callable(v) and not isinstance(v, type) and n not in skip and (
                    type(v).__name__ in ("cython_function_or_method", "builtin_function_or_method")
                    or (isinstance(v, types.FunctionType) and v.__module__.startswith(("discretize.utils", "geoana"))
                        and v.__name__ not in skip)):
                if getattr(v, "__module__", "") and str(v.__module__).startswith(("discretize", "geoana")):
                    if id(v) not in repl:
                        w = zone(v)
                        _KEEPALIVE.append(v)
                        repl[id(v)] = w


    from discretize import TreeMesh
    for base in TreeMesh.__mro__[1:]:
        if type(base.__dict__.get("refine")).__name__ != "cython_function_or_method" and "_extensions" not in base.__module__:
            continue
        for a, w in list(base.__dict__.items()):
            if a.startswith("__") or a in TreeMesh.__dict__ or a in skip:
                continue
            tn = type(w).__name__
            if tn in ("cython_function_or_method", "method_descriptor"):
                setattr(TreeMesh, a, zone(getattr(base, a)))
            elif tn in ("getset_descriptor", "property"):
                setattr(TreeMesh, a, property(zone(functools.partial(lambda d, self: d.__get__(self, type(self)), w))))


_KEEPALIVE = []


def _extra(repl):
    """wrappers for validators, special functions and a few scipy entry points."""
    from simpeg.utils import code_utils

    def wrap_num(orig, kind):
        def f(property_name, var, *args, **kw):
            if isinstance(var, np.ndarray) and var.ndim == 0 and var.dtype == object:
                var = var.item()
            if is_sym(var):
                mn = kw.get("min_val", args[0] if args else -np.inf)
                mx = kw.get("max_val", args[1] if len(args) > 1 else np.inf)
                imn = kw.get("inclusive_min", True)
                imx = kw.get("inclusive_max", True)
                if mn != -np.inf:
                    if not bool(var >= mn if imn else var > mn):
                        raise ValueError(f"{property_name} out of range")
                if mx != np.inf:
                    if not bool(var <= mx if imx else var < mx):
                        raise ValueError(f"{property_name} out of range")
                return var
            return orig(property_name, var, *args, **kw)
        f.__name__ = orig.__name__
        return f
    repl[id(code_utils.validate_float)] = wrap_num(code_utils.validate_float, "f")

    import scipy.sparse.linalg as spl
    o_cg = spl.cg

    def cg(A, b, x0=None, *, rtol=1e-5, atol=0.0, maxiter=None, M=None, callback=None):
        if not _anysym(b) and not _anysym(A):
            return o_cg(A, b, x0, rtol=rtol, atol=atol, maxiter=maxiter, M=M, callback=callback)
        if x0 is not None or M is not None or callback is not None:
            raise Gap("cg options")
        mv = A.matvec if hasattr(A, "matvec") else (lambda v: A @ v)
        n = len(b)
        bn = sa.NP.linalg.norm(b)
        if bn == 0:
            return b, 0
        tol = max(atol, rtol * bn)
        x, r, p, rho0 = sa.NP.zeros(n), b.copy(), None, None
        for _ in range(n * 10 if maxiter is None else maxiter):
            if sa.NP.linalg.norm(r) < tol:
                return x, 0
            rho = (r * r).sum()
            p = r.copy() if p is None else r + (rho / rho0) * p
            q = mv(p)
            al = rho / (p * q).sum()
            x, r, rho0 = x + al * p, r - al * q, rho
        return x, maxiter
    spl.cg = cg

    o_aslo = spl.aslinearoperator

    def aslinearoperator(A):
        if isinstance(A, sparse.SymSparse) or _anysym(A):
            return spl.LinearOperator(shape=A.shape, matvec=lambda x: A @ sa.wrap(x), rmatvec=lambda x: A.conj().T @ sa.wrap(x), dtype=float)
        return o_aslo(A)
    repl[id(o_aslo)] = aslinearoperator
    spl.aslinearoperator = aslinearoperator
    LO = spl.LinearOperator
    for nm in ("matvec", "rmatvec", "matmat", "rmatmat"):
        def lop(self, x, _o=getattr(LO, nm)):
            r = _o(self, x)
            return sa.wrap(r) if isinstance(r, np.ndarray) and r.dtype == object and type(r) is np.ndarray else r
        setattr(LO, nm, lop)

    import scipy.special as ss

    def sp_uf(name, orig):
        from . import poly

        def f(x, *a, **k):
            if is_sym(x):
                return poly.uf(name, [x])
            if isinstance(x, np.ndarray) and x.dtype == object:
                return sa.wrap(np.frompyfunc(lambda v: poly.uf(name, [v]) if is_sym(v) else orig(v), 1, 1)(sa.raw(x)))
            return orig(x, *a, **k)
        return f
    def expit(x, *a, **k):
        if is_sym(x) or (isinstance(x, np.ndarray) and x.dtype == object):
            return 1 / (1 + np.exp(-x))
        return o_expit(x, *a, **k)

    def logit(x, *a, **k):
        if is_sym(x) or (isinstance(x, np.ndarray) and x.dtype == object):
            return np.log(x / (1 - x))
        return o_logit(x, *a, **k)
    o_expit, o_logit = ss.expit, ss.logit
    repl[id(o_expit)] = expit
    repl[id(o_logit)] = logit
    ss.expit, ss.logit = expit, logit
    from scipy.interpolate import UnivariateSpline as _US

    class SymSpline:
        """s=0 interpolating splines are linear in the ordinates."""
        def __new__(cls, x, y, *a, **k):
            if not (isinstance(y, np.ndarray) and has_sym(y)):
                return _US(_dm(x), _dm(y), *a, **k)
            if k.get("s") != 0:
                raise Gap("smoothing spline of symbolic data")
            o = object.__new__(cls)
            n = len(y)
            o.basis = [_US(_dm(x), np.eye(n)[i], *a, **k) for i in range(n)]
            o.y = y
            return o

        def __call__(self, x):
            x = _dm(x)
            B = np.stack([b(x) for b in self.basis], axis=-1)
            return sa.matmul(B, self.y)
    repl[id(_US)] = SymSpline
    for nm in ("erf", "erfc", "expi"):
        o = getattr(ss, nm)
        w = sp_uf(nm, o)
        repl[id(o)] = w
        setattr(ss, nm, w)


def activate(on=True):
    STATE["active"] = on
