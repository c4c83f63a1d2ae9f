"""Execution contexts: symbolic exploration and concrete replay of one harness."""
import math
import random
import traceback

import numpy as np

from . import poly, smt
from .poly import EPS, Gap, Sym, SymBool, _atoms, _sym


class Infeasible(BaseException):
    pass


class StopPath(BaseException):
    """harness ends this path early (counts as explored)."""


class Obl:
    __slots__ = ("name", "kind", "entries", "cond", "rtol", "npath", "fd", "note")


def _flat(x):
    from .sparse import SymSparse
    import scipy.sparse as sp
    if type(x) is SymSparse:
        x = x.toarray()
    elif sp.issparse(x):
        x = x.toarray()
    if hasattr(x, "ravel"):
        a = np.asarray(x) if not isinstance(x, np.ndarray) else x
        return a.shape, list(np.ndarray.ravel(a.view(np.ndarray)))
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out.extend(_flat(y)[1])
        return (len(out),), out
    return (), [x]


class Base:
    symbolic = False
    exact_sign = False

    def expect_raises(self, name, exc, f):
        """f() must raise exc."""
        try:
            f()
        except exc:
            self.check(name, True)
            return
        self.check(name, False)


class SymCtx(Base):
    symbolic = True

    def __init__(self, prefix, seed=1, opts=None):
        self.prefix = prefix
        self.trace = []
        self.alternatives = []
        self.path = []
        self.obls = []
        self.inputs = {}         # name -> (shape, [atom ids])
        self.choices = {}
        self.stats = smt.Stats()
        self.rng = random.Random(seed)
        self.decided = {}
        self.points = None
        self.notes = []
        self.opts = opts or {}
        self.seed = seed

    # ----------------------------------------------------------------- inputs
    def reals(self, name, shape, lo=None, hi=None):
        from . import patch
        from .sa import SA
        patch.activate(True)
        shape = (shape,) if np.ndim(shape) == 0 else tuple(shape)
        a = np.empty(shape, dtype=object)
        ids = []
        los = np.broadcast_to(np.asarray(lo, dtype=object), shape)
        his = np.broadcast_to(np.asarray(hi, dtype=object), shape)
        for i, idx in enumerate(np.ndindex(*shape)):
            s = poly.new_var(f"{name}[{i}]", los[idx], his[idx])
            a[idx] = s
            (m,), = s.t.keys()
            ids.append(m[0])
        self.inputs[name] = (list(shape), ids)
        self.points = None
        return a.view(SA)

    def real(self, name, lo=None, hi=None):
        return self.reals(name, (1,), lo, hi)[0]

    def choice(self, name, options):
        """nondeterministic choice (all options explored)."""
        options = list(options)
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            v = 0
            for alt in range(1, len(options)):
                self.alternatives.append(list(self.trace) + [alt])
        self.trace.append(v)
        self.choices[name] = v
        return options[v]

    def assume(self, cond):
        cond = poly._asb(cond) if not isinstance(cond, np.ndarray) else poly.b_and(list(cond.flat))
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        self.path.append(cond)
        self.points = None

    # --------------------------------------------------------------- decisions
    def on_atom(self, at):
        pass

    def _env(self):
        env = {}
        for at in _atoms:
            if at.kind == "var":
                lo, hi = at.lo, at.hi
                if lo is None and hi is None:
                    lo, hi = -2.0, 2.0
                elif lo is None:
                    lo = hi - 3.0
                elif hi is None:
                    hi = lo + 3.0
                u = self.rng.random()
                env[at.id] = float(lo) + (0.04 + 0.92 * u) * (float(hi) - float(lo))
        return env

    def sample_points(self, n=4, tries=400):
        pts = []
        for _ in range(tries):
            env = self._env()
            try:
                if all(poly.eval_bool(c, env) for c in self.path):
                    pts.append(env)
                    if len(pts) >= n:
                        break
            except (ValueError, ZeroDivisionError, OverflowError, KeyError, FloatingPointError,
                    np.linalg.LinAlgError):
                continue
        return pts

    def decide(self, b):
        key = poly.bkey(b)
        v = self.decided.get(key)
        if v is not None:
            return v
        nk = poly.bkey(poly.b_not(b))
        v = self.decided.get(nk)
        if v is not None:
            return not v
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            if len(self.trace) > self.opts.get("max_decisions", 200):
                raise Gap("too many decisions on one path")
            t = f = None
            if self.points is None:
                self.points = self.sample_points(6, 60)
            for env in self.points:
                try:
                    if poly.eval_bool(b, env):
                        t = "sat"
                    else:
                        f = "sat"
                except (ValueError, ZeroDivisionError, OverflowError, np.linalg.LinAlgError):
                    pass
            if t is None:
                t, _ = smt.feasible(self.path + [b], self.stats)
            if f is None:
                f, _ = smt.feasible(self.path + [poly.b_not(b)], self.stats)
            if t == "unsat" and f == "unsat":
                raise Infeasible()
            if t != "unsat":
                v = True
                if f != "unsat":
                    self.alternatives.append(list(self.trace) + [False])
            else:
                v = False
        self.trace.append(v)
        self.decided[key] = v
        c = b if v else poly.b_not(b)
        self.path.append(c)
        if self.points is not None:
            keep = []
            for env in self.points:
                try:
                    if poly.eval_bool(c, env):
                        keep.append(env)
                except Exception:
                    pass
            self.points = keep or None
        return v

    def implied(self, b):
        """True or False when the path condition settles b, None otherwise (no fork)."""
        key = poly.bkey(b)
        v = self.decided.get(key)
        if v is not None:
            return v
        v = self.decided.get(poly.bkey(poly.b_not(b)))
        if v is not None:
            return not v
        if self.points is None:
            self.points = self.sample_points(6, 60)
        seen = set()
        for env in self.points:
            try:
                seen.add(bool(poly.eval_bool(b, env)))
            except (ValueError, ZeroDivisionError, OverflowError, np.linalg.LinAlgError):
                pass
        if len(seen) != 1:
            return None
        v = seen.pop()
        r, _ = smt.feasible(self.path + [poly.b_not(b) if v else b], self.stats)
        if r == "unsat":
            self.decided[key] = v
            return v
        return None

    # ------------------------------------------------------------- obligations
    def eq(self, name, lhs, rhs, rtol=1e-7, fd=False, atol=1e-13):
        s1, a = _flat(lhs)
        s2, b = _flat(rhs)
        o = Obl()
        o.name, o.rtol, o.fd, o.npath, o.cond, o.note = name, rtol, fd, len(self.path), None, None
        if len(a) != len(b):
            o.kind, o.entries, o.note = "fail", [], f"shape {s1} vs {s2}"
            self.obls.append(o)
            return
        o.kind = "eq"
        ents = []
        for x, y in zip(a, b):
            if not isinstance(x, (Sym, SymBool)) and not isinstance(y, (Sym, SymBool)):
                if x is y:
                    continue
                bad = False
                try:
                    xf, yf = complex(x), complex(y)
                    if xf != xf or yf != yf or math.isinf(abs(xf)) or math.isinf(abs(yf)):
                        bad = not (xf == yf or (xf != xf and yf != yf))
                        if not bad:
                            continue
                except (TypeError, ValueError):
                    bad = not (x == y)
                    if not bad:
                        continue
                if bad:
                    o.kind, o.note = "fail", f"{x!r} vs {y!r}"
                    break
            l, r = _sym(x), _sym(y)
            ents.append((l, r))
        o.entries = ents
        self.obls.append(o)

    def check(self, name, cond):
        if isinstance(cond, np.ndarray):
            cond = poly.b_and(list(cond.flat))
        cond = poly._asb(cond)
        o = Obl()
        o.name, o.rtol, o.fd, o.npath, o.entries, o.note = name, 0, False, len(self.path), [], None
        o.cond = cond
        o.kind = "bool"
        if cond is False:
            o.kind, o.note = "fail", "assertion is false"
        self.obls.append(o)

    def le(self, name, a, b, rtol=1e-9):
        """a <= b up to rounding."""
        s1, a = _flat(a)
        s2, b = _flat(b)
        if len(b) == 1 and len(a) != 1:
            b = b * len(a)
        if len(a) == 1 and len(b) != 1:
            a = a * len(b)
        cs = []
        for x, y in zip(a, b):
            if isinstance(x, (Sym, SymBool)) or isinstance(y, (Sym, SymBool)):
                if poly._isinf(x) or poly._isinf(y):
                    cs.append(x <= y)
                    continue
                d = _sym(x) - _sym(y)
                cs.append(d <= rtol * max([abs(c) for c in d.t.values()] + [0.0]))
            else:
                cs.append(bool(x <= y + rtol * (abs(x) + abs(y)) if abs(x) != math.inf and abs(y) != math.inf else x <= y))
        self.check(name, poly.b_and([c for c in cs]))

    # ------------------------------------------------------------- derivatives
    def dd(self, f, m, v):
        """(f(m), directional derivative of f at m along v), exact."""
        out = f(m + EPS * v)
        return split(out)

    @property
    def solver(self):
        from . import patch
        return patch.SOLVER[0]

    def skip(self, why):
        self.notes.append(why)
        raise StopPath()

    def value(self, x, default):
        return default


def split(x):
    from .sa import SA, raw, to_sa, wrap
    from .sparse import SymSparse
    import scipy.sparse as sp
    if type(x) is SymSparse:
        x = x.toarray()
    if sp.issparse(x):
        x = x.toarray()
    if isinstance(x, (list, tuple)):
        ps = [split(y) for y in x]
        return [p[0] for p in ps], [p[1] for p in ps]
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return x, np.zeros(x.shape)
        r = raw(x)
        a = wrap(np.frompyfunc(lambda v: v.split_eps()[0] if v.__class__ is Sym else v, 1, 1)(r))
        b = wrap(np.frompyfunc(lambda v: v.split_eps()[1] if v.__class__ is Sym else 0.0, 1, 1)(r))
        return a, b
    if isinstance(x, Sym):
        return x.split_eps()
    return x, 0.0


class Failure(Exception):
    pass


class ConcCtx(Base):
    """Concrete run (unpatched code).  Records failures and all compared values."""

    def __init__(self, values, choices, seed=1, collect=False):
        self.values = values
        self.ch = choices
        self.failures = []
        self.fd_err = 0.0
        self.record = []          # (name, lhs list)
        self.assume_failed = False
        self.rng = np.random.RandomState(seed)
        self.notes = []

    def reals(self, name, shape, lo=None, hi=None):
        shape = (shape,) if np.ndim(shape) == 0 else tuple(shape)
        if name in self.values:
            return np.array(self.values[name], dtype=float).reshape(shape)
        l = np.broadcast_to(np.asarray(-2.0 if lo is None else lo, dtype=float), shape)
        h = np.broadcast_to(np.asarray(l + 3.0 if hi is None else hi, dtype=float), shape)
        v = l + (0.04 + 0.92 * self.rng.rand(*shape)) * (h - l)
        self.values[name] = v.ravel().tolist()
        return v

    def real(self, name, lo=None, hi=None):
        return float(self.reals(name, (1,), lo, hi)[0])

    def choice(self, name, options):
        return list(options)[self.ch.get(name, 0)]

    def assume(self, cond):
        if not np.all(cond):
            self.assume_failed = True
            raise Infeasible()

    def eq(self, name, lhs, rhs, rtol=1e-7, fd=False, atol=1e-13):
        s1, a = _flat(lhs)
        s2, b = _flat(rhs)
        if len(a) != len(b):
            self.failures.append((name, f"shape {s1} vs {s2}"))
            return
        try:
            a = np.array(a, dtype=complex)
            b = np.array(b, dtype=complex)
        except (TypeError, ValueError):
            if not all(x is y or x == y for x, y in zip(a, b)):
                self.failures.append((name, f"{a} vs {b}"))
            return
        self.record.append((name, a, b))
        if a.size == 0:
            return
        nan = ~(np.isfinite(a) & np.isfinite(b))
        if nan.any():
            same = (a == b) | (np.isnan(a) & np.isnan(b))
            if not same[nan].all():
                self.failures.append((name, f"non-finite: {a[nan][:4]} vs {b[nan][:4]}"))
                return
            a, b = a[~nan], b[~nan]
            if a.size == 0:
                return
        # entries compared against the scale of the vector; tiny-scale entries too
        scale = max(np.max(np.abs(a)), np.max(np.abs(b)))
        ent = np.maximum(np.abs(a), np.abs(b))
        if fd:
            tol = max(rtol, 1e-5) * ent + 3e-8 * scale + 30 * self.fd_err + atol
        else:
            tol = rtol * ent + min(1e-11, rtol) * scale + atol
        d = np.abs(a - b)
        bad = d > tol
        if bad.any():
            k = int(np.argmax(d / (tol + 1e-300)))
            self.failures.append((name, f"entry {k}: {a[k]} vs {b[k]} (|diff|={d[k]:.3e}, tol={tol[k]:.3e})"))

    def check(self, name, cond):
        if not bool(np.all(cond)):
            self.failures.append((name, "assertion is false"))

    def le(self, name, a, b, rtol=1e-9):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        s = rtol * (np.abs(a) + np.abs(b))
        if not np.all(a <= b + s):
            self.failures.append((name, f"{a} <= {b} fails"))

    def dd(self, f, m, v):
        m = np.asarray(m, dtype=float) if np.ndim(m) else float(m)
        v = np.asarray(v, dtype=float) if np.ndim(m) else float(v)
        f0 = f(m)
        vs = np.max(np.abs(v)) or 1.0
        ests = []
        for h in (1e-2, 2e-3, 4e-4, 1e-4, 2e-5, 4e-6):
            h = h / max(vs, 1e-3)
            try:
                with np.errstate(all="ignore"):
                    p1, m1 = _num(f(m + h * v)), _num(f(m - h * v))
                    p2, m2 = _num(f(m + 2 * h * v)), _num(f(m - 2 * h * v))
            except Exception:
                continue
            d = [(8 * (a - b) - (c - e)) / (12 * h) for a, b, c, e in zip(p1, m1, p2, m2)]
            if all(np.all(np.isfinite(x)) for x in d):
                ests.append(d)
        if len(ests) < 2:
            raise Infeasible()
        best, err = None, np.inf
        for x, y in zip(ests[:-1], ests[1:]):
            e = max(np.max(np.abs(p - q)) if p.size else 0.0 for p, q in zip(x, y))
            if e < err:
                best, err = y, e
        self.fd_err = max(self.fd_err, err)
        return f0, _unnum(f0, best)

    @property
    def solver(self):
        import pymatsolver
        return pymatsolver.SolverLU

    def skip(self, why):
        raise StopPath()

    def value(self, x, default):
        return default


def _num(x):
    import scipy.sparse as sp
    if isinstance(x, (list, tuple)):
        return [y for z in x for y in _num(z)]
    if sp.issparse(x):
        x = x.toarray()
    a = np.asarray(x)
    return [a.astype(complex) if a.dtype.kind == "c" else a.astype(float)]


def _unnum(tmpl, flat):
    if isinstance(tmpl, (list, tuple)):
        out, k = [], 0
        for t in tmpl:
            n = len(_num(t))
            out.append(_unnum(t, flat[k:k + n]))
            k += n
        return out
    r = flat[0]
    return r if r.ndim else (r.item())
