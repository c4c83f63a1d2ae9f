"""Optimizers: line search, stopping, bounds, search directions, Newton root finding."""
import contextlib
import io
import warnings

import numpy as np
import scipy.sparse as sp
from simpeg import optimization as op
from engine.registry import harness
from .pde import vdot

H2 = np.array([[2.0, 0.5], [0.5, 1.5]])
H3 = np.array([[2.0, 0.5, 0.0], [0.5, 1.5, -0.25], [0.0, -0.25, 3.0]])


def same(a, b):
    """identical as expressions (symbolic) or as numbers."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if hasattr(x, "t") or hasattr(y, "t"):
            d = x - y
            if hasattr(d, "t"):
                if d.t:
                    return False
            elif d != 0:
                return False
        elif float(x) != float(y):
            return False
    return True


class Fun:
    """An arbitrary objective function: every new point gets a new value and gradient."""

    def __init__(self, ctx, n, H=None, f=(-4.0, 6.0), g=(-3.0, 3.0), split=False):
        self.ctx, self.n, self.H, self.fb, self.gb, self.split = ctx, n, H, f, g, split
        self.pts = []
        self.calls = []

    def at(self, x):
        for k, (y, f, g) in enumerate(self.pts):
            if same(x, y) or (self.split and bool((x == y).all())):
                return k
        k = len(self.pts)
        f = self.ctx.reals(f"f{k}", 1, lo=self.fb[0], hi=self.fb[1])[0]
        g = self.ctx.reals(f"g{k}", self.n, lo=self.gb[0], hi=self.gb[1])
        self.pts.append((x.copy(), f, g))
        return k

    def __call__(self, x, return_g=True, return_H=True):
        k = self.at(x)
        self.calls.append((k, return_g, x))
        out = (self.pts[k][1],)
        if return_g:
            out += (self.pts[k][2].copy(),)
        if return_H:
            out += (self.H,)
        return out if len(out) > 1 else out[0]


def quiet(o):
    o.printers = []
    o.printersLS = []
    o.printInit = o.printIter = o.printDone = lambda *a, **k: None
    return o


def run(o, fun, x0):
    acc = []
    o.callback = lambda x: acc.append(x)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            x = o.minimize(fun, x0)
    return x, acc


def anydir(ctx, o, n):
    """replace the search direction by an arbitrary one."""
    k = [0]

    def d():
        k[0] += 1
        return ctx.reals(f"dir{k[0]}", n, lo=-2, hi=2)
    o.findSearchDirection = d


LS = {
    "sd": dict(cls="SteepestDescent"),
    "sd_strict": dict(cls="SteepestDescent", kw=dict(LSreduction=0.3, LSshorten=0.25)),
    "sd_maxstep": dict(cls="SteepestDescent", kw=dict(maxStep=0.5)),
    "gn": dict(cls="GaussNewton"),
    "gn_onetry": dict(cls="GaussNewton", kw=dict(maxIterLS=1)),
    "pg": dict(cls="ProjectedGradient", kw=dict(lower=-0.5, upper=0.75)),
    "pgncg": dict(cls="ProjectedGNCG", kw=dict(lower=-0.5, upper=0.75, cg_atol=1e-3, cg_rtol=0.0, cg_maxiter=1)),
    "bfgs": dict(cls="BFGS"),
    "three": dict(cls="SteepestDescent", kw=dict(maxIter=3, maxIterLS=1)),
    "deep": dict(cls="SteepestDescent", kw=dict(maxIter=1, maxIterLS=5)),
}


def build(cls, n, kw=None):
    kw = dict(dict(maxIter=2, maxIterLS=2), **(kw or {}))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = getattr(op, cls)(**kw)
    return quiet(o)


@harness("C10", params=LS, max_paths=200)
def linesearch(ctx, cls, kw=None):
    """Every accepted step is a sufficient decrease; failure returns the last accepted model."""
    n = 1 if cls != "SteepestDescent" or (kw or {}).get("maxIter") == 3 else 2
    o = build(cls, n, kw)
    o.stoppers = [op.StoppingCriteria.iteration]
    x0 = ctx.reals("x", n, lo=-0.4, hi=0.6)
    bounded = hasattr(o, "lower")
    fun = Fun(ctx, n, H=sp.csr_matrix(H2[:n, :n]), split=bounded)
    x, acc = run(o, fun, x0)
    seq = [x0] + acc
    idx = [fun.at(y) for y in seq]
    nev = len(fun.pts)
    for j in range(1, len(seq)):
        f0, f1, g0 = fun.pts[idx[j - 1]][1], fun.pts[idx[j]][1], fun.pts[idx[j - 1]][2]
        ctx.le(f"armijo{j}", f1, f0 + o.LSreduction * vdot(g0, seq[j] - seq[j - 1]))
    ctx.eq("returned", x, seq[-1])
    ctx.eq("x_is_current", o.xc, x)
    ctx.check("iterations", o.iter == len(acc) and o.iter <= o.maxIter)
    ctx.eq("f_is_at_x", o.f, fun.pts[idx[-1]][1])
    # the trial points of an iteration, in order, go down the same direction
    ctx.check("ls_evaluations", nev <= 1 + o.maxIter * o.maxIterLS)
    if o.iter < o.maxIter:
        # stopped early: a line search failed, all its trials violate the decrease condition
        tr = [(y, fun.pts[k][1], None) for k, g, y in fun.calls if not g][-o.maxIterLS:]
        f0, g0 = fun.pts[idx[-1]][1], fun.pts[idx[-1]][2]
        for y, f1, _ in tr:
            ctx.check("ls_failed_really", f1 > f0 + o.LSreduction * vdot(g0, y - seq[-1]))
        ctx.check("ls_tries", len(tr) == o.maxIterLS)
        if not bounded:
            for a in range(1, len(tr)):
                ctx.eq("ls_shorten", tr[a][0] - seq[-1], o.LSshorten * (tr[a - 1][0] - seq[-1]))
    if o.maxStep < np.inf:
        for j in range(1, len(seq)):
            ctx.le("max_step", np.abs(seq[j] - seq[j - 1]), o.maxStep)
    if bounded:
        for y, _, _ in fun.pts:
            ctx.le("lower", o.lower, y)
            ctx.le("upper", y, o.upper)


@harness("C10", params={"sd": dict(cls="SteepestDescent"), "gn": dict(cls="GaussNewton")}, max_paths=200)
def step_anyway(ctx, cls):
    """Without require_decrease the iterations go on with the last trial point."""
    o = build(cls, 1, dict(require_decrease=False, maxIter=2, maxIterLS=2))
    o.stoppers = [op.StoppingCriteria.iteration]
    x0 = ctx.reals("x", 1, lo=-0.4, hi=0.6)
    fun = Fun(ctx, 1, H=sp.csr_matrix(H2[:1, :1]))
    x, acc = run(o, fun, x0)
    ctx.check("iterations", o.iter == o.maxIter and len(acc) == o.maxIter)
    ctx.eq("returned", x, acc[-1])
    ctx.eq("f_is_at_x", o.f, fun.pts[fun.at(x)][1])


@harness("C10", params={"sd": {}, "tight": dict(c=0.1)}, max_paths=200)
def wolfe(ctx, c=0.9):
    o = build("SteepestDescent", 1, dict(use_WolfeCurvature=True, LScurvature=c, maxIter=1, maxIterLS=3))
    o.stoppers = [op.StoppingCriteria.iteration]
    x0 = ctx.reals("x", 1, lo=-1, hi=1)
    fun = Fun(ctx, 1)
    x, acc = run(o, fun, x0)
    seq = [x0] + acc
    idx = [fun.at(y) for y in seq]
    for j in range(1, len(seq)):
        (_, f0, g0), (_, f1, g1) = fun.pts[idx[j - 1]], fun.pts[idx[j]]
        s = seq[j] - seq[j - 1]
        ctx.le("armijo", f1, f0 + o.LSreduction * vdot(g0, s))
        ctx.le("curvature", -vdot(g1, s), -c * vdot(g0, s))
    ctx.eq("returned", x, seq[-1])
    ctx.eq("f_is_at_x", o.f, fun.pts[idx[-1]][1])


@harness("C10", params={"free": dict(cls="SteepestDescent"), "bound": dict(cls="ProjectedGNCG", kw=dict(lower=-0.5, cg_atol=1e-3, maxIter=1))},
         max_paths=200)
def stopping(ctx, cls, kw=None):
    """The iterations end exactly when the stopping rules say so."""
    kw = dict(dict(maxIter=2, maxIterLS=1, tolF=0.2, tolX=0.3, tolG=0.5, eps=1e-5), **(kw or {}))
    o = build(cls, 1, kw)
    x0 = ctx.reals("x", 1, lo=-0.4, hi=0.6)
    fun = Fun(ctx, 1, H=sp.csr_matrix(H2[:1, :1]), split=True)
    anydir(ctx, o, 1)
    x, acc = run(o, fun, x0)
    seq = [x0] + acc
    P = [fun.pts[fun.at(y)] for y in seq]

    def pg(p):
        y, _, g = p
        z = y - g
        if hasattr(o, "lower"):
            z = np.maximum(z, o.lower)
        return np.abs(z - y)[0]

    def rules(j):
        """optimal criteria all hold, or the critical one."""
        opt = False
        if j > 0:
            opt = ((np.abs(P[j][1] - P[j - 1][1]) <= 0.2 * (1 + np.abs(P[0][1]))) &
                   (np.abs(seq[j] - seq[j - 1])[0] <= 0.3 * (1 + np.abs(x0)[0])) & (pg(P[j]) <= 0.5))
        return opt | (pg(P[j]) <= 1e3 * 1e-5)

    for j in range(len(acc)):
        ctx.check("went_on", ~rules(j) if not isinstance(rules(j), (bool, np.bool_)) else not rules(j))
    if len(acc) < o.maxIter:
        lastf, lastg = P[-1][1], P[-1][2]
        tr = fun.pts[fun.calls[-1][0]]
        fail = False
        if not fun.calls[-1][1]:
            fail = tr[1] > lastf + o.LSreduction * vdot(lastg, tr[0] - x)
        ctx.check("stopped", rules(len(acc)) | fail)


# --------------------------------------------------------------------------- C09
BOUNDS = {
    "both": (-0.5, 0.75), "lower": (-0.5, None), "upper": (None, 0.75), "none": (None, None), "inf": (-np.inf, np.inf),
    "arrays": (np.r_[-0.5, 0.0], np.r_[0.75, 0.3]), "array_low": (np.r_[-0.5, -np.inf], 0.75),
    "touching": (np.r_[0.2, -1.0], np.r_[0.2, 1.0]),
}


def lim(b, i, s):
    if b is None:
        return s * np.inf
    return float(np.broadcast_to(b, 2)[i])


@harness("C09", params={f"{c}-{k}": dict(cls=c, k=k) for c in ("ProjectedGradient", "ProjectedGNCG") for k in BOUNDS}, max_paths=300)
def projection(ctx, cls, k):
    """The projection is the nearest feasible point; the active and binding sets are what they say."""
    lo, hi = BOUNDS[k]
    o = build(cls, 2, dict(lower=lo, upper=hi, **(dict(cg_atol=1e-3) if cls == "ProjectedGNCG" else {})))
    x = ctx.reals("x", 2, lo=-2, hi=2)
    y = ctx.reals("y", 2, lo=-2, hi=2)
    g = ctx.reals("g", 2, lo=-1, hi=1)
    x_ = x.copy()
    p = o.projection(x)
    ctx.eq("x_unchanged", x, x_)
    for i in range(2):
        l, u = lim(lo, i, -1), lim(hi, i, 1)
        if l > -np.inf:
            ctx.le("lower", l, p[i])
        if u < np.inf:
            ctx.le("upper", p[i], u)
        feas = True
        if l > -np.inf:
            feas = feas & (y[i] >= l)
        if u < np.inf:
            feas = feas & (y[i] <= u)
        if feas is True:
            ctx.check("nearest", np.abs(p[i] - x[i]) <= np.abs(y[i] - x[i]))
        else:
            ctx.check("nearest", (~feas if not isinstance(feas, bool) else not feas) | (np.abs(p[i] - x[i]) <= np.abs(y[i] - x[i])))
    ctx.eq("idempotent", o.projection(p), p)
    o.g = g
    act, ina, bnd = o.activeSet(x), o.inactiveSet(x), o.bindingSet(x)
    for i in range(2):
        l, u = lim(lo, i, -1), lim(hi, i, 1)
        xi, gi = x[i], g[i]
        a = bool(act[i])
        b = bool(bnd[i])
        ctx.check("inactive", bool(ina[i]) != a)
        if a:
            ctx.check("active", (xi <= l) | (xi >= u))
        else:
            ctx.check("not_active", (xi > l) & (xi < u))
        if b:
            ctx.check("binding", ((xi <= l) & (gi >= 0)) | ((xi >= u) & (gi <= 0)))
        else:
            ctx.check("not_binding", ((xi > l) | (gi < 0)) & ((xi < u) | (gi > 0)))


OPTS = {
    "pg": dict(cls="ProjectedGradient"),
    "pg_cg": dict(cls="ProjectedGradient", kw=dict(maxIter=2, maxIterLS=1), n=1),
    "pgncg": dict(cls="ProjectedGNCG", kw=dict(cg_atol=1e-3, cg_rtol=0.0, cg_maxiter=1), n=1),
    "pgncg_noactive": dict(cls="ProjectedGNCG", kw=dict(cg_atol=1e-3, cg_rtol=0.0, cg_maxiter=1, step_active_set=False), n=1),
    "pgncg_any": dict(cls="ProjectedGNCG", kw=dict(cg_atol=1e-3), free=True),
    "pg_any": dict(cls="ProjectedGradient", free=True),
}


@harness("C09", params={f"{k}-{b}": dict(b=b, **v) for k, v in OPTS.items() for b in ("both", "arrays", "lower", "touching")}, max_paths=400)
def feasible(ctx, cls, b, kw=None, n=2, free=False):
    """No point outside the bounds is ever evaluated or returned, wherever the start."""
    lo, hi = BOUNDS[b]
    if n == 1:
        lo, hi = [None if q is None else float(np.broadcast_to(q, 2)[0]) for q in (lo, hi)]
    o = build(cls, n, dict(dict(maxIter=1, maxIterLS=2), lower=lo, upper=hi, **(kw or {})))
    o.stoppers = [op.StoppingCriteria.iteration]
    x0 = ctx.reals("x", n, lo=-1.5, hi=1.5)
    fun = Fun(ctx, n, H=sp.csr_matrix(H2[:n, :n]))
    if free:
        anydir(ctx, o, n)
    x, acc = run(o, fun, x0)
    for y in [p[0] for p in fun.pts] + [x] + acc:
        for i in range(n):
            l, u = lim(lo, i, -1), lim(hi, i, 1)
            if l > -np.inf:
                ctx.le("lower", l, y[i])
            if u < np.inf:
                ctx.le("upper", y[i], u)


POS = {  # which variables sit on a bound: l(ower), u(pper), f(ree)
    k: dict(pos=k) for k in ("ff", "lf", "fu", "lu", "ll", "flu", "lfl")
}


def dirsetup(ctx, pos, cls="ProjectedGNCG", **kw):
    n = len(pos)
    o = build(cls, n, dict(lower=-1.0, upper=1.0, **kw))
    xf = ctx.reals("x", n, lo=-0.9, hi=0.9)
    g = ctx.reals("g", n, lo=-1, hi=1)
    x = xf.copy()
    for i, c in enumerate(pos):
        if c != "f":
            x[i] = -1.0 if c == "l" else 1.0
    o.startup(x)
    o.xc, o.g = x, g
    o.H = sp.csr_matrix(H3[:n, :n]) if n == 3 else sp.csr_matrix(H2[:n, :n])
    return o, x, g


@harness("C09", params=dict(POS, **{"lf_off": dict(pos="lf", act=False), "lu_off": dict(pos="lu", act=False)}), max_paths=300)
def gncg_direction(ctx, pos, act=True):
    """Binding variables stay, free ones take the Newton step of the reduced problem, the others move inwards."""
    n = len(pos)
    o, x, g = dirsetup(ctx, pos, cg_rtol=0.0, cg_atol=0.0, cg_maxiter=max(pos.count("f"), 1), step_active_set=act)
    fr = [i for i in range(n) if pos[i] == "f"]
    for i in fr:
        ctx.assume(g[i] * g[i] >= 0.01)
    g_ = g.copy()
    H = o.H.toarray()
    s = o.findSearchDirection()
    ctx.eq("g_unchanged", o.g, g_)
    for i in range(n):
        if pos[i] == "f":
            continue
        into = -1 if pos[i] == "u" else 1
        binding = bool(g[i] * into >= 0)
        if binding:
            ctx.eq("binding_fixed", s[i], 0.0)
        elif act:
            ctx.check("active_inwards", s[i] * into > 0)
        else:
            ctx.eq("active_fixed", s[i], 0.0)
    if fr:
        ctx.eq("newton", H[np.ix_(fr, fr)] @ s[fr], -g[fr])
    if n == 2:
        ctx.le("descent", vdot(g, s), 0.0)


@harness("C09", params={"one": dict(it=1), "one3": dict(it=1, n=3)}, max_paths=200)
def gncg_inexact(ctx, it, n=2):
    """A truncated solve: at most cg_maxiter Hessian products, residual reported, descent direction."""
    o, x, g = dirsetup(ctx, "f" * n, cg_rtol=0.0, cg_atol=1e-3, cg_maxiter=it)
    ctx.assume((g * g).sum() >= 0.1)
    H = o.H
    cnt = [0]

    class Op:
        def __mul__(self, v):
            cnt[0] += 1
            return H @ v
        __matmul__ = dot = __mul__
    o.H = Op()
    s = o.findSearchDirection()
    ctx.check("products", cnt[0] <= it)
    if it == 1:
        ctx.check("descent", vdot(g, s) < 0)
        r = -g - H @ s
        ctx.eq("residual", o.cg_abs_resid * o.cg_abs_resid, vdot(r, r))


@harness("C09", params={"ff": dict(pos="ff"), "lf": dict(pos="lf"), "fu": dict(pos="fu")}, max_paths=100)
def gncg_preconditioned(ctx, pos):
    """A user preconditioner changes the path, not the reduced solution."""
    n = len(pos)
    o, x, g = dirsetup(ctx, pos, cg_rtol=0.0, cg_atol=0.0, cg_maxiter=pos.count("f"))
    fr = [i for i in range(n) if pos[i] == "f"]
    for i in fr:
        ctx.assume(g[i] * g[i] >= 0.01)
    for i in range(n):   # keep the others binding
        if pos[i] != "f":
            ctx.assume(g[i] * (-1 if pos[i] == "u" else 1) >= 0)
    o.approxHinv = sp.csr_matrix(np.array([[0.6, -0.2], [-0.2, 0.9]]))
    H = o.H.toarray()
    s = o.findSearchDirection()
    ctx.eq("newton", H[np.ix_(fr, fr)] @ s[fr], -g[fr])
    for i in range(n):
        if pos[i] != "f":
            ctx.eq("binding_fixed", s[i], 0.0)


@harness("C10", params={"gn": dict(cls="GaussNewton")})
def newton_direction(ctx, cls):
    o = build(cls, 3)
    g = ctx.reals("g", 3, lo=-1, hi=1)
    o.xc, o.g, o.H = np.zeros(3), g, sp.csr_matrix(H3)
    s = o.findSearchDirection()
    ctx.eq("newton", H3 @ s, -g)
    ctx.le("descent", vdot(g, s), 0.0)


@harness("C10", params={"1": dict(ms=1.0), "0.25": dict(ms=0.25)}, max_paths=100)
def max_step(ctx, ms):
    """The scaled direction is parallel to the given one and no component exceeds maxStep."""
    o = build("SteepestDescent", 3, dict(maxStep=ms))
    p = ctx.reals("p", 3, lo=-3, hi=3)
    q = o.scaleSearchDirection(p.copy())
    ctx.le("bounded", np.abs(q), ms)
    for i in range(3):
        for j in range(i):
            ctx.eq("parallel", q[i] * p[j], q[j] * p[i])
    ctx.check("same_side", vdot(p, q) >= 0)
    if bool((np.abs(p) <= ms).all()):
        ctx.eq("untouched", q, p)
    else:
        big = [i for i in range(3) if bool(np.abs(p[i]) > ms)]
        c = np.abs(q[big[0]]) >= ms * (1 - 1e-9)
        for i in big[1:]:
            c = c | (np.abs(q[i]) >= ms * (1 - 1e-9))
        ctx.check("full_length", c)


@harness("C10", params={"1": dict(k=1), "2": dict(k=2), "3": dict(k=3), "wrap": dict(k=3, nb=2), "wrap5": dict(k=5, nb=2)}, max_paths=100)
def bfgs(ctx, k, nb=10):
    """After k updates the inverse-Hessian approximation obeys the secant equation of the last one."""
    n = 2
    o = build("BFGS", n, dict(nbfgs=nb))
    rng = np.random.RandomState(3)
    X = [rng.randn(n)]
    for _ in range(k - 1):
        X.append(X[-1] + rng.randn(n))
    G = [H2 @ x for x in X]
    s = ctx.reals("s", n, lo=-1, hi=1)
    y = ctx.reals("y", n, lo=-1, hi=1)
    d = ctx.reals("d", n, lo=-1, hi=1)
    X = X + [X[-1] + s, X[-1]]
    G = G + [G[-1] + y]
    ctx.assume(vdot(y, s) >= 0.1)
    o.startup(X[0])
    o.f = o._LS_ft = 0.0
    for j in range(k + 1):
        o.g = G[j]
        o.doEndIteration(X[j + 1])
    ctx.eq("secant", o.bfgs(y), s)
    # symmetric
    e = o.bfgs(d)
    ctx.eq("symmetric", vdot(o.bfgs(s), d), vdot(e, s))
    if k == 1:
        # H+ = (I - s y'/ys) (I - y s'/ys) + s s'/ys
        ys = vdot(y, s)
        t = d - y * (vdot(s, d) / ys)
        ctx.eq("formula", e, t - s * (vdot(y, t) / ys) + s * (vdot(s, d) / ys))


@harness("C10", params={"skip": {}})
def bfgs_curvature(ctx):
    """A pair without positive curvature is not used."""
    o = build("BFGS", 2)
    X = ctx.reals("X", (3, 2), lo=-1, hi=1)
    G = ctx.reals("G", (2, 2), lo=-1, hi=1)
    d = ctx.reals("d", 2, lo=-1, hi=1)
    ctx.assume(vdot(G[1] - G[0], X[1] - X[0]) <= 0)
    o.startup(X[0])
    o.f = o._LS_ft = 0.0
    for j in range(2):
        o.g = G[j]
        o.doEndIteration(X[j + 1])
    ctx.eq("identity", o.bfgs(d), d)


@harness("C10", params={"ls": {}, "nols": dict(doLS=False), "two": dict(n=2, doLS=False), "ls_more": dict(it=2, ls=3)}, max_paths=100)
def newton_root(ctx, doLS=True, n=1, it=1, ls=2):
    """A returned root has a residual below tol, or the iteration limit was reached."""
    o = op.NewtonRoot(doLS=doLS, maxIter=it, maxLS=ls, tol=0.05, comments=False, Solver=ctx.solver)
    x0 = ctx.reals("x", n, lo=0.5, hi=3)
    J = sp.csr_matrix(H2[:n, :n])
    pts = []

    def fun(x, return_g=True):
        for y, r in pts:
            if same(x, y):
                break
        else:
            r = ctx.reals(f"r{len(pts)}", n, lo=-2, hi=2)
            pts.append((x, r))
        return (r, J) if return_g else r
    with contextlib.redirect_stdout(io.StringIO()):
        x = o.root(fun, x0)
    ctx.eq("newton_step", J @ (pts[1][0] - x0), -pts[0][1])
    if x is None:
        ctx.check("only_ls", doLS)
        ctx.check("all_tried", len(pts) >= ls)
        return
    R = [r for y, r in pts if same(x, y)]
    ctx.check("evaluated", len(R) == 1)
    r, r0 = R[0], pts[0][1]
    if o.iter <= o.maxIter:
        ctx.le("converged", (r * r).sum(), 0.05 ** 2)
    ctx.check("limit", o.iter <= o.maxIter + 1)
    if doLS:
        ctx.check("no_increase", (np.abs(r) <= np.abs(r0)).all() | (np.abs(r) <= 0.05).all())
