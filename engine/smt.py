"""Poly -> SMT (z3, optionally cvc5 cross-check) and the decision procedure."""
import sys
import time
from fractions import Fraction

from . import linsys, poly
from .poly import Gap, Sym, SymBool, _atoms

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _imp(name):
    """import an SMT binding from the tool venv without leaving it on sys.path."""
    if name in sys.modules:
        return sys.modules[name]
    sys.path.append(_VT)
    try:
        return __import__(name)
    finally:
        sys.path.remove(_VT)


z3 = _imp("z3")


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.linear = 0
        self.nonlinear = 0
        self.feas = 0
        self.lemmas = 0

    def as_dict(self):
        return dict(self.__dict__)


def rv(c):
    if isinstance(c, int):
        return z3.RealVal(c)
    f = Fraction(float(c))
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


class Enc:
    """Nonlinear encoding with atom axioms; one instance per query."""

    def __init__(self):
        self.vars = {}
        self.roots = {}
        self.axioms = []
        self.todo = []

    def var(self, a):
        v = self.vars.get(a)
        if v is None:
            at = _atoms[a]
            if at.kind == "X" and at.arg[3]:
                # conjugate partner
                re, im = self.var(at.conj)
                v = (re, -im)
            elif at.conj is not None:
                v = (z3.Real(f"a{a}r"), z3.Real(f"a{a}i"))
            else:
                v = z3.Real(f"a{a}")
            self.vars[a] = v
            self.todo.append(a)
        return v

    def root(self, a, d):
        k = (a, d)
        r = self.roots.get(k)
        if r is None:
            r = z3.Real(f"a{a}_rt{d}")
            self.roots[k] = r
            x = self.var(a)
            self.axioms.append(r >= 0)
            self.axioms.append(z3.Product([r] * d) == x if d > 1 else r == x)
        return r

    def recip(self, a):
        k = (a, "inv")
        r = self.roots.get(k)
        if r is None:
            r = z3.Real(f"a{a}_inv")
            self.roots[k] = r
            self.axioms.append(r * self.var(a) == 1)
        return r

    def mono(self, m):
        """returns (re, im) z3 terms (im may be None)."""
        re, im = [], None
        cur = None
        for a, e in m:
            at = _atoms[a]
            if at.kind == "EPS":
                raise Gap("eps in SMT encoding")
            if at.kind == "I":
                z = (z3.RealVal(0), z3.RealVal(1))
                cur = z if cur is None else _cmul(cur, z)
                continue
            if at.conj is not None:
                z = self.var(a)
                if e < 0:
                    raise Gap("negative power of complex atom")
                for _ in range(e):
                    cur = z if cur is None else _cmul(cur, z)
                continue
            if isinstance(e, int):
                x = self.var(a) if e > 0 else self.recip(a)
                re.extend([x] * abs(e))
            else:
                d = e.denominator
                if d > 64:
                    # irrational-like exponent: opaque power
                    re.append(self._opaque_pow(a, e))
                    continue
                r = self.root(a, d)
                n = e.numerator
                if n > 0:
                    re.extend([r] * n)
                else:
                    k = ((a, d), "inv")
                    q = self.roots.get(k)
                    if q is None:
                        q = z3.Real(f"a{a}_rt{d}_inv")
                        self.roots[k] = q
                        self.axioms.append(q * r == 1)
                    re.extend([q] * (-n))
        p = z3.RealVal(1) if not re else (re[0] if len(re) == 1 else z3.Product(re))
        if cur is None:
            return p, None
        return p * cur[0], p * cur[1]

    def _opaque_pow(self, a, e):
        k = (a, "pow", e)
        r = self.roots.get(k)
        if r is None:
            r = z3.Real(f"a{a}_pow{len(self.roots)}")
            self.roots[k] = r
            self.axioms.append(r > 0)
        return r

    def terms(self, t):
        re, im = [], []
        for m, c in t.items():
            a, b = self.mono(m)
            re.append(rv(c) * a)
            if b is not None:
                im.append(rv(c) * b)
        R = z3.Sum(re) if re else z3.RealVal(0)
        return R, (z3.Sum(im) if im else None)

    def real(self, p):
        r, i = self.terms(p.t)
        return r

    def bool(self, b):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        if b.op == "and":
            return z3.And([self.bool(x) for x in b.a])
        if b.op == "or":
            return z3.Or([self.bool(x) for x in b.a])
        if b.op == "not":
            return z3.Not(self.bool(b.a))
        r = self.real(b.a)
        return {"<": r < 0, "<=": r <= 0, "==": r == 0, "!=": r != 0}[b.op]

    def close(self):
        """emit axioms of every atom reached (transitively)."""
        done = set()
        while self.todo:
            a = self.todo.pop()
            if a in done:
                continue
            done.add(a)
            at = _atoms[a]
            v = self.vars[a]
            if isinstance(v, tuple):
                continue
            if at.lo is not None:
                self.axioms.append(v >= rv(at.lo))
            if at.hi is not None:
                self.axioms.append(v <= rv(at.hi))
            k = at.kind
            if k == "Q":
                self.axioms.append(v == self.real(at.arg))
                if at.pos:
                    self.axioms.append(v > 0)
                else:
                    self.axioms.append(v != 0)
            elif k == "E":
                self.axioms.append(v > 0)
                arg = self.real(at.arg)
                self.axioms.append(v >= 1 + arg)
                self.axioms.append(z3.Implies(arg < 0, v < 1))
                self.axioms.append(z3.Implies(arg == 0, v == 1))
            elif k == "S":
                p = self.real(at.arg)
                self.axioms.append(z3.Or(z3.And(v == 1, p >= 0), z3.And(v == -1, p <= 0)))
            elif k == "IND":
                c = self.bool(at.arg)
                self.axioms.append(z3.Or(z3.And(v == 1, c), z3.And(v == 0, z3.Not(c))))
            elif k == "SIN":
                c = self.var(at.extra)
                self.axioms.append(v * v + c * c == 1)
            elif k == "L":
                p = self.real(at.arg)
                self.axioms.append(v <= p - 1)
                self.axioms.append(p > 0)
        return self.axioms


def _cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def _check(solver, st, timeout_ms):
    solver.set("timeout", int(timeout_ms))
    t = time.time()
    r = solver.check()
    st.time += time.time() - t
    st.queries += 1
    if r == z3.unsat:
        st.unsat += 1
    elif r == z3.sat:
        st.sat += 1
    else:
        st.unknown += 1
    return r


def _lin_query(pairs, st, timeout_ms, cross=None):
    """pairs of term dicts (lhs, rhs) with monomials abstracted to free reals."""
    mv = {}

    def var(m):
        v = mv.get(m)
        if v is None:
            v = mv[m] = z3.Real(f"m{len(mv)}")
        return v

    def lin(t):
        xs = [rv(c) * var(m) if m else rv(c) for m, c in t.items()]
        return z3.Sum(xs) if xs else z3.RealVal(0)
    s = z3.SolverFor("QF_LRA")
    dis = []
    for a, b in pairs:
        la, lb = lin(a), lin(b)
        dis.append(la != lb)
    if not dis:
        return z3.unsat
    s.add(z3.Or(dis))
    st.linear += 1
    r = _check(s, st, timeout_ms)
    if cross is not None and r == z3.unsat:
        cross.append(s.to_smt2())
    return r


def _snap(l, r):
    """identify coefficients that agree up to rounding."""
    out = {}
    mx = max([abs(c) for c in l.values()] + [abs(c) for c in r.values()] + [0.0])
    for m, c in r.items():
        a = l.get(m, 0)
        if abs(a - c) <= poly.REL * (abs(a) + abs(c)):
            out[m] = a
        elif m not in l and abs(c) <= 1e-13 * mx:
            continue
        else:
            out[m] = c
    l2 = {m: c for m, c in l.items() if m in out or abs(c) > 1e-13 * mx}
    return l2, {m: c for m, c in out.items() if c != 0}


def decide_eq(entries, path, st, timeout_ms=15000, cross=None):
    """entries: list of (lhs, rhs, tol) Sym pairs.

    Returns ('unsat', None) | ('sat', model or None) | ('unknown', None)."""
    # 1. normal form, monomials abstracted
    pairs = []
    pend = []
    for l, r, tol in entries:
        a, b = _snap(l.t, r.t)
        pairs.append((a, b))
    r1 = _lin_query(pairs, st, timeout_ms, cross)
    if r1 == z3.unsat:
        return "unsat", None
    ents = [e for e, (a, b) in zip(entries, pairs) if a != b]
    # 1b. facts about linear solves
    if linsys.SOLVES:
        for kind in ("dual", "eq"):
            combs = linsys.reduce_by(kind, [(h[0] - h[1]).t for h in ents])
            h2 = []
            for h, cmb in zip(ents, combs):
                if cmb is not None:
                    st.lemmas += 1
                    # lhs = rhs + (combination of hypotheses, each = 0)
                    a, b = _snap(h[0].t, (h[1] + Sym(cmb)).t)
                    if _lin_query([(a, b)], st, timeout_ms) == z3.unsat:
                        continue
                h2.append(h)
            ents = h2
            if not ents:
                return "unsat", None
    # 2. those that differ: clear denominators, abstract again
    hard = []
    for l, r, tol in ents:
        try:
            res = poly.residual(l, r)
        except Gap:
            res = (l - r).t
        if res:
            hard.append((l, r, tol, res))
    if not hard:
        r2 = _lin_query([({}, {})], st, timeout_ms)
        return ("unsat", None) if r2 == z3.unsat else ("unknown", None)
    # 2b. use equalities of the path condition
    sub = poly.path_substitution(path)
    if sub:
        cache = {}
        h2 = []
        for l, r, tol, res in hard:
            l2, r2 = poly.substitute(l, sub, cache), poly.substitute(r, sub, cache)
            a, b = _snap(l2.t, r2.t)
            if _lin_query([(a, b)], st, timeout_ms) == z3.unsat:
                continue
            res = poly.residual(l2, r2)
            if res:
                h2.append((l2, r2, tol, res))
        hard = h2
        if not hard:
            return "unsat", None
    # 3. full nonlinear query with axioms and path condition, entry by entry
    verdict = "unsat"
    for l, r, tol, res in hard[:6]:
        enc = Enc()
        s = z3.Solver()
        d = l - r
        re, im = enc.terms(d.t)
        t = rv(tol)
        bad = [re > t, re < -t]
        if im is not None:
            bad += [im > t, im < -t]
        s.add(z3.Or(bad))
        for c in path:
            s.add(enc.bool(c))
        for ax in enc.close():
            s.add(ax)
        st.nonlinear += 1
        q = _check(s, st, timeout_ms)
        if q == z3.sat:
            return "sat", _model(s, enc)
        if q != z3.unsat:
            verdict = "unknown"
    if len(hard) > 6:
        verdict = "unknown"
    return verdict, None


def decide_bool(cond, path, st, timeout_ms=15000):
    """is cond implied by path? -> unsat of negation."""
    enc = Enc()
    s = z3.Solver()
    s.add(z3.Not(enc.bool(cond)))
    for c in path:
        s.add(enc.bool(c))
    for ax in enc.close():
        s.add(ax)
    st.nonlinear += 1
    q = _check(s, st, timeout_ms)
    if q == z3.sat:
        return "sat", _model(s, enc)
    return ("unsat", None) if q == z3.unsat else ("unknown", None)


def feasible(conds, st, timeout_ms=3000):
    enc = Enc()
    s = z3.Solver()
    for c in conds:
        s.add(enc.bool(c))
    for ax in enc.close():
        s.add(ax)
    st.feas += 1
    q = _check(s, st, timeout_ms)
    if q == z3.sat:
        return "sat", _model(s, enc)
    return ("unsat", None) if q == z3.unsat else ("unknown", None)


def _model(s, enc):
    m = s.model()
    out = {}
    for a, v in enc.vars.items():
        if _atoms[a].kind != "var" or isinstance(v, tuple):
            continue
        x = m.eval(v, model_completion=True)
        try:
            if z3.is_algebraic_value(x):
                x = x.approx(20)
            out[a] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
        except Exception:
            pass
    return out


def cvc5_check(smt2, timeout_ms=20000):
    """second solver on an SMT-LIB2 text; returns 'unsat'/'sat'/'unknown'."""
    cvc5 = _imp("cvc5")
    slv = cvc5.Solver()
    slv.setOption("tlimit-per", str(timeout_ms))
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt2, "q")
    sm = p.getSymbolManager()
    res = "unknown"
    while True:
        cmd = p.nextCommand()
        if cmd.isNull():
            break
        o = cmd.invoke(slv, sm)
        if o:
            o = o.strip()
            if o in ("unsat", "sat", "unknown"):
                res = o
            elif "error" in o:
                return "error"
    return res
