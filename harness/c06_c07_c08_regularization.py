"""Regularization: least-squares terms (C06), sparse norms / IRLS (C07), coupling terms (C08)."""
import itertools
import numpy as np
import scipy.sparse as sp
from simpeg import maps, regularization as rg
from engine.registry import harness
from .common import mesh
from .pde import vdot

AX = "xyz"


def active(ms, pattern):
    """boolean array of active cells, or None."""
    if pattern is None:
        return None
    a = np.ones(ms.n_cells, dtype=bool)
    a[[i for i in pattern if i < ms.n_cells]] = False
    return a


def faces(ms, act, axis):
    """interior faces between active cells along an axis of a tensor mesh, as (left, right, distance) on active numbering."""
    shape = ms.shape_cells
    a = np.ones(ms.n_cells, bool) if act is None else act
    num = np.cumsum(a) - 1
    h = ms.h[axis]
    out = []
    idx = lambda t: int(np.ravel_multi_index(t, shape, order="F"))
    for t in sorted(itertools.product(*[range(s) for s in shape]), key=lambda t: t[::-1]):
        if t[axis] + 1 >= shape[axis]:
            continue
        u = list(t)
        u[axis] += 1
        i, j = idx(t), idx(tuple(u))
        if a[i] and a[j]:
            out.append((num[i], num[j], 0.5 * (h[t[axis]] + h[t[axis] + 1])))
    return out


def vol(ms, act):
    return ms.cell_volumes if act is None else ms.cell_volumes[act]


def mapping(kind, n):
    """model-to-cells mapping with n outputs, number of parameters, transform used by the oracle."""
    if kind is None:
        return None, n, lambda m: m
    if kind == "exp":
        return maps.ExpMap(nP=n), n, np.exp
    if kind == "lin":
        A = np.eye(n)[:, :n - 1] + 0.2
        return maps.LinearMap(sp.csr_matrix(A)), n - 1, lambda m: A @ m
    A = np.eye(n)[:, :n - 1] - 0.3
    return maps.LinearMap(A), n - 1, lambda m: A @ m


def residual(ms, act, which, x):
    """list of (kernel value, weight function of a cell weight array) per term row, from the definition of the regularization."""
    if which == "s":
        return [(x[i], (lambda w, i=i: w[i])) for i in range(len(x))]
    ax = AX.index(which[0])
    F = faces(ms, act, ax)
    g = [((x[j] - x[i]) / d) for i, j, d in F]
    if len(which) == 1:
        return [(gk, (lambda w, i=i, j=j, hi=hi: ave(w, i, j))) for gk, (i, j, hi) in zip(g, F)]
    out = [0.0] * len(x)
    for gk, (i, j, d) in zip(g, F):
        out[j] = out[j] + gk / d
        out[i] = out[i] - gk / d
    return [(o, (lambda w, i=i: w[i])) for i, o in enumerate(out)]


def ave(w, i, j):
    return (w[i] + w[j]) / 2


def make_term(ms, which, act, **kw):
    if which == "s":
        return rg.Smallness(ms, active_cells=act, **kw)
    cls = rg.SmoothnessFirstOrder if len(which) == 1 else rg.SmoothnessSecondOrder
    return cls(ms, orientation=which[0], active_cells=act, **kw)


TERMS = {}
for mk, act in (("t1:4", None), ("t1:5", (0,)), ("t2:3x2", None), ("t2:3x3", (0, 4)), ("t3:2x2x3", None), ("t3:3x2x2", (1, 6))):
    dim = int(mk[1])
    for w in ["s"] + list(AX[:dim]) + [2 * c for c in AX[:dim]]:
        if dim == 3 and w in ("s", "xx", "yy") and act is None:
            continue
        mp = {"s": "exp", "x": "lin", "y": None, "z": "dense", "xx": None, "yy": "exp", "zz": "lin"}[w] if act is None else \
             {"s": "dense", "x": "exp", "y": "lin", "z": None, "xx": "dense", "yy": None, "zz": "exp"}[w]
        TERMS[f"{mk}{'a' if act else ''}-{w}"] = dict(mk=mk, act=act, which=w, mp=mp)


@harness("C06", params=TERMS)
def term(ctx, mk, act, which, mp):
    ms = mesh(mk)
    a = active(ms, act)
    n = ms.n_cells if a is None else int(a.sum())
    M, nP, T = mapping(mp, n)
    rng = np.random.default_rng(5)
    for ref in (None, "in", "out") if which != "s" else (None, "in"):
        kw = {}
        r = None
        if ref:
            r = rng.uniform(-1, 1, nP)
            kw = dict(reference_model=r)
            if which != "s":
                kw["reference_model_in_smooth"] = ref == "in"
        tag = "_" + str(ref) if ref else ""
        t = make_term(ms, which, a, mapping=M, **kw)
        if ref is None:
            m = ctx.reals("m", nP, lo=-2, hi=2)
            v = ctx.reals("v", nP, lo=-1, hi=1)
            w = ctx.reals("w", nP, lo=-1, hi=1)
            cw = ctx.reals("cw", n, lo=0.1, hi=3)
            m0 = m.copy()

        def kern(x, sub=(ref == "in"), rr=r):
            d = T(x) - T(rr) if sub else T(x)
            return residual(ms, a, which, d)

        V = vol(ms, a)

        def value(x, W=()):
            tot = 0.0
            for g, wf in kern(x):
                c = wf(V)
                for u in W:
                    c = c * wf(u)
                tot = tot + c * g * g
            return tot
        d0, d1 = ctx.dd(lambda x: value(x), m, v)
        ctx.eq("value" + tag, t(m), d0)
        ctx.eq("gradient" + tag, vdot(t.deriv(m), v), d1, fd=True)
        _, kv = ctx.dd(lambda x: np.array([g for g, _ in kern(x)]) if not ctx.symbolic else stack([g for g, _ in kern(x)]), m, v)
        _, kw_ = ctx.dd(lambda x: np.array([g for g, _ in kern(x)]) if not ctx.symbolic else stack([g for g, _ in kern(x)]), m, w)
        c = np.array([wf(V) for _, wf in kern(m0)])
        H = 2 * (c * kv * kw_).sum()
        ctx.eq("hessian_v" + tag, vdot(w, t.deriv2(m, v)), H)
        ctx.eq("hessian" + tag, vdot(w, t.deriv2(m) @ v), H)
        # user weights enter as factors, and can be removed again
        t.set_weights(user=cw)
        ctx.eq("weighted" + tag, t(m), value(m, (cw,)))
        _, dw = ctx.dd(lambda x: value(x, (cw,)), m, v)
        ctx.eq("weighted_gradient" + tag, vdot(t.deriv(m), v), dw, fd=True)
        t.set_weights(other=np.full(n, 2.0))
        ctx.eq("two_weights" + tag, t(m), 2 * value(m, (cw,)))
        t.remove_weights("user")
        t.remove_weights("other")
        ctx.eq("removed" + tag, t(m), d0)
        ctx.eq("unchanged" + tag, m, m0)


def stack(xs):
    from engine.sa import SA
    o = np.empty(len(xs), dtype=object)
    o[:] = xs
    return SA(o)


GEN = {"tree2": dict(mk="tree2"), "tree2a": dict(mk="tree2", act=(0, 5)), "tree3": dict(mk="tree3", act=(1,))}


@harness("C06", params=GEN)
def term_general(ctx, mk, act=None):
    """on other meshes: consistent derivatives, zero for uniform models and at the reference model."""
    ms = mesh(mk)
    a = active(ms, act)
    n = ms.n_cells if a is None else int(a.sum())
    m = None
    sym = mk.startswith("cyl")
    for which in [c for c in ["s"] + list(AX[:ms.dim]) + [2 * c for c in AX[:ms.dim]] if not (sym and "y" in c)]:
        t = make_term(ms, which, a, reference_model=np.linspace(-1, 1, n), **({} if which == "s" else dict(reference_model_in_smooth=True)))
        t2 = make_term(ms, which, a)
        if m is None:
            m = ctx.reals("m", n, lo=-2, hi=2)
            v = ctx.reals("v", n, lo=-1, hi=1)
            w = ctx.reals("w", n, lo=-1, hi=1)
            c = ctx.real("c", lo=-3, hi=3)
            cw = ctx.reals("cw", n, lo=0.1, hi=3)
        d0, d1 = ctx.dd(lambda x: t(x), m, v)
        ctx.eq("gradient_" + which, vdot(t.deriv(m), v), d1, fd=True)
        _, d2 = ctx.dd(lambda x: t.deriv(x), m, v)
        ctx.eq("hessian_" + which, t.deriv2(m, v), d2)
        ctx.eq("hessian_matrix_" + which, t.deriv2(m) @ v, d2)
        ctx.eq("at_ref_" + which, t(np.linspace(-1, 1, n) + 0 * m), 0.0)
        if which != "s":
            u = np.ones(n) * c
            ctx.eq("uniform_" + which, t2(u), 0.0)
            if which in AX:
                # differences are taken between active neighbours only, each over its distance
                g = t2.f_m(m)
                ctx.check("rows_" + which, (np.asarray((t2.cell_gradient != 0).sum(axis=1)).ravel() % 2 == 0).all() and g.shape[0] == t2.cell_gradient.shape[0])
        else:
            V = vol(ms, a)
            ctx.eq("smallness", t2(m), (V * m * m).sum())
            t2.set_weights(u=cw)
            ctx.eq("smallness_weighted", t2(m), (V * cw * m * m).sum())


@harness("C06", params={"s": dict(which="s"), "x": dict(which="x"), "xx": dict(which="xx"), "y": dict(which="y")})
def late_active(ctx, which):
    """choosing the active cells after a first use is the same as choosing them at construction."""
    ms = mesh("t2:3x2")
    a = active(ms, (0, 4))
    t = make_term(ms, which, None)
    ref = make_term(ms, which, a)
    x = np.linspace(0.5, 1.0, 6)
    t(x)
    t.deriv(x)
    t.active_cells = a
    m = ctx.reals("m", 4, lo=-2, hi=2)
    ctx.eq("value", t(m), ref(m))
    ctx.eq("gradient", t.deriv(m), ref.deriv(m))


@harness("C06", params={"x": dict(which="x"), "y": dict(which="y"), "xx": dict(which="xx")})
def angles(ctx, which):
    """angle models: differences are measured modulo a full turn."""
    ms = mesh("t2:3x1" if which[0] == "x" else "t2:1x3")
    t = make_term(ms, which, None, units="radian")
    ref = make_term(ms, which, None)
    m = ctx.reals("m", 3, lo=-0.7, hi=0.7)
    ctx.eq("same_for_small_angles", t(m), ref(m))
    ctx.eq("gradient", t.deriv(m), ref.deriv(m))
    k = np.r_[0, 1, -1] * 2 * np.pi
    ctx.eq("full_turns", t(m + k), ref(m), rtol=1e-6)


WLS = {}
for mk, act in (("t1:4", None), ("t2:3x2", (0,)), ("t3:2x2x2", None)):
    WLS[mk] = dict(mk=mk, act=act)


@harness("C06", params=WLS)
def least_squares(ctx, mk, act):
    """the weighted combination uses each alpha with its own term."""
    ms = mesh(mk)
    a = active(ms, act)
    n = ms.n_cells if a is None else int(a.sum())
    al = dict(alpha_s=0.3, alpha_x=1.7, alpha_xx=0.9)
    if ms.dim > 1:
        al.update(alpha_y=0.6, alpha_yy=2.3)
    if ms.dim > 2:
        al.update(alpha_z=1.1, alpha_zz=0.45)
    ref = np.linspace(-1, 1, n)
    R = rg.WeightedLeastSquares(ms, active_cells=a, reference_model=ref, weights={"u": np.linspace(1, 2, n)}, **al)
    R2 = rg.WeightedLeastSquares(ms, active_cells=a, reference_model=ref, reference_model_in_smooth=True, mapping=maps.ExpMap(nP=n), **al)
    R3 = rg.WeightedLeastSquares(ms, active_cells=a, length_scale_x=2.0)
    m = ctx.reals("m", n, lo=-2, hi=2)
    v = ctx.reals("v", n, lo=-1, hi=1)
    V = vol(ms, a)
    u = np.linspace(1, 2, n)
    terms = ["s"] + [c for ax in AX[:ms.dim] for c in (ax, 2 * ax)]

    def value(x, second=False):
        tot = 0.0
        for wch in terms:
            if second:
                d = np.exp(x) - np.exp(ref)
            else:
                d = x - ref if wch == "s" else x
            for g, wf in residual(ms, a, wch, d):
                c = wf(V) if second else wf(V) * wf(u)
                tot = tot + al["alpha_" + wch] * c * g * g
        return tot
    d0, d1 = ctx.dd(lambda x: value(x), m, v)
    ctx.eq("value", R(m), d0)
    ctx.eq("gradient", vdot(R.deriv(m), v), d1, fd=True)
    ctx.eq("hessian", R.deriv2(m) @ v, R.deriv2(m, v))
    d0, d1 = ctx.dd(lambda x: value(x, True), m, v)
    ctx.eq("value2", R2(m), d0)
    ctx.eq("gradient2", vdot(R2.deriv(m), v), d1, fd=True)
    hmin = min(h.min() for h in ms.h)
    ctx.check("length_scales", np.isclose(R3.alpha_x, (2 * hmin)**2) and (ms.dim < 2 or np.isclose(R3.alpha_y, hmin**2)) and np.isclose(R3.length_scale_x, 2.0))
    # later changes take effect
    R.alpha_x, al["alpha_x"] = 5.0, 5.0
    ctx.eq("new_alpha", R(m), value(m))
    R.reference_model = np.zeros(n)
    ref = np.zeros(n)
    ctx.eq("new_reference", R(m), value(m))


SC = {mk + k: dict(mk=mk, act=act, kind=k) for mk, act in (("t1:4", None), ("t2:3x3", (0,)), ("t3:3x2x3", (3,))) for k in ("default", "scales", "second")}


@harness("C06", params=SC)
def length_scales(ctx, mk, act, kind):
    """a length scale L (1 by default) weighs a first derivative by (L h)^2 and, on request, a second derivative by (L h)^4, h the smallest cell width;
    setting the scale, the mapping, the reference or the model as a single number later is the same as giving it at construction."""
    ms = mesh(mk)
    a = active(ms, act)
    n = ms.n_cells if a is None else int(a.sum())
    hmin = min(h.min() for h in ms.h)
    L = dict(zip("xyz", (1.0, 1.0, 1.0) if kind == "default" else (2.0, 0.5, 3.0)))
    kw = {} if kind == "default" else {"length_scale_" + c: L[c] for c in AX[:ms.dim]}
    if kind == "second":
        kw.update({"alpha_" + 2 * c: None for c in AX[:ms.dim]})
    R = rg.WeightedLeastSquares(ms, active_cells=a, **kw)
    m = ctx.reals("m", n, lo=-2, hi=2)
    V = vol(ms, a)

    def value(x, ref=0.0, al_s=1.0, second=kind == "second"):
        tot = al_s * (V * (x - ref)**2).sum()
        for c in AX[:ms.dim]:
            for p, t in ((2, c), (4, 2 * c)):
                if p == 4 and not second:
                    continue
                for g, wf in residual(ms, a, t, x):
                    tot = tot + (L[c] * hmin)**p * wf(V) * g * g
        return tot
    ctx.eq("value", R(m), value(m))
    for c in AX[:ms.dim]:
        ctx.check("reads_" + c, bool(np.isclose(getattr(R, "length_scale_" + c), L[c])))
    for c, l in zip(AX[:ms.dim], (0.7, 1.9, 2.4)):
        setattr(R, "length_scale_" + c, l)
        L[c] = l
        if kind == "second":
            setattr(R, "alpha_" + 2 * c, None)
    ctx.eq("changed", R(m), value(m))
    R.reference_model = 0.5
    ctx.eq("number_reference", R(m), value(m, 0.5))
    R.alpha_s = 0.0
    ctx.eq("no_smallness", R(m), value(m, al_s=0.0))
    R.alpha_s = None
    R.reference_model = None
    ctx.eq("unset", R(m), value(m))


@harness("C06", params={"t2": dict(mk="t2:3x3", a1=(0, 4)), "t3": dict(mk="t3:3x2x2", a1=(0, 7))})
def late_active_sum(ctx, mk, a1):
    """choosing the active cells of a combination after a first use is the same as choosing them at construction, in every term."""
    ms = mesh(mk)
    a = active(ms, a1)
    al = {"alpha_" + k: 0.5 + 0.3 * i for i, k in enumerate(["s"] + [c for ax in AX[:ms.dim] for c in (ax, 2 * ax)])}
    R = rg.WeightedLeastSquares(ms, **al)
    x = np.linspace(0.5, 1.0, ms.n_cells)
    R(x)
    R.deriv(x)
    R.active_cells = a
    R.mapping = maps.IdentityMap(nP=int(a.sum()))
    Q = rg.WeightedLeastSquares(ms, active_cells=a, **al)
    n = int(a.sum())
    m = ctx.reals("m", n, lo=-2, hi=2)
    v = ctx.reals("v", n, lo=-1, hi=1)
    ctx.eq("value", R(m), Q(m))
    ctx.eq("gradient", R.deriv(m), Q.deriv(m))
    ctx.eq("hessian", R.deriv2(m, v), Q.deriv2(m, v))


FG = {"t2": dict(mk="t2:3x2"), "t2a": dict(mk="t2:3x2", act=(0,)), "t3": dict(mk="t3:2x2x2"), "t2d": dict(mk="t2:2x2", dirs=True),
      "tree2": dict(mk="tree2"), "t2m": dict(mk="t2:2x2", mp="exp"), "t2l": dict(mk="t2:2x2", mp="dense")}


@harness("C06", params=FG)
def full_gradient(ctx, mk, act=None, dirs=False, mp=None):
    ms = mesh(mk)
    a = active(ms, act)
    n = ms.n_cells if a is None else int(a.sum())
    M, nP, T = mapping(mp, n)
    kw = dict(active_cells=a, mapping=M)
    if dirs:
        c, s = np.cos(0.4), np.sin(0.4)
        kw["reg_dirs"] = np.array([[c, s], [-s, c]])
    kw["alphas"] = np.r_[1.5, 0.7, 2.2][:ms.dim]
    t = rg.SmoothnessFullGradient(ms, **kw)
    t2 = rg.SmoothnessFullGradient(ms, reference_model=np.linspace(-1, 1, nP), **kw)
    t0 = rg.SmoothnessFullGradient(ms, **kw)
    m = ctx.reals("m", nP, lo=-2, hi=2)
    v = ctx.reals("v", nP, lo=-1, hi=1)
    cw = ctx.reals("cw", n, lo=0.1, hi=3)
    c = ctx.real("c", lo=-3, hi=3)
    for tag, q in (("", t), ("_ref", t2)):
        d0, d1 = ctx.dd(lambda x: q(x), m, v)
        ctx.eq("gradient" + tag, vdot(q.deriv(m), v), d1, fd=True)
        _, jv = ctx.dd(lambda x: T(x), m, v)
        r = q.cell_gradient @ jv
        ctx.eq("hessian" + tag, vdot(v, q.deriv2(m, v)), 2 * vdot(r, q.W @ r))
        ctx.eq("hessian_matrix" + tag, q.deriv2(m) @ v, q.deriv2(m, v))
    if mp is None:
        ctx.eq("uniform", t(np.ones(n) * c), 0.0)
    if not dirs and mk.startswith("t2:3") and act is None:
        # an axis-aligned anisotropic gradient: volume integral of alpha * derivative squared
        tot = 0.0
        for ax in range(2):
            for i, j, d in faces(ms, a, ax):
                tot = tot + kw["alphas"][ax] * 0.5 * (ms.cell_volumes[i] + ms.cell_volumes[j]) * ((m[j] - m[i]) / d)**2
        ctx.eq("axis_value", t(m), tot)
    if mp is None:
        t.set_weights(u=cw)
        t.set_weights(k=np.full(n, 2.0))
        t0.set_weights(u=2 * cw)
        ctx.eq("weights", t(m), t0(m))
        d0, d1 = ctx.dd(lambda x: t(x), m, v)
        ctx.eq("weighted_gradient", vdot(t.deriv(m), v), d1, fd=True)


# ------------------------------------------------------------------ sparse norms
def lp(f, p, eps, scaled, mx):
    """IRLS weight from its documented formula."""
    fm = mx if p >= 1 else eps / np.sqrt(1.0 - p)
    lam = (mx / fm) * power(fm * fm + eps**2, 1 - p / 2) if scaled else 1.0
    return lam / power(f * f + eps**2, 1 - p / 2)


def power(x, e):
    return x**e


IR = {}
for p in (0.0, 0.5, 1.0, 1.5, 2.0):
    for sc in (True, False):
        IR[f"{p}{'s' if sc else ''}"] = dict(p=p, scaled=sc)


@harness("C07", params=IR)
def irls_weights(ctx, p, scaled):
    ms = mesh("t1:3")
    eps = 0.25
    t = rg.SparseSmallness(ms, norm=p, irls_scaled=scaled, irls_threshold=eps, reference_model=np.r_[0.1, 0.0, -0.2])
    m = ctx.reals("m", 3, lo=0.3, hi=3)
    ctx.assume((m[1] > m[0]) & (m[1] > m[2] + 0.2))
    f = m - np.r_[0.1, 0.0, -0.2]
    mx = f[1]
    t.update_weights(m)
    W = t.get_weights("irls")
    for i in range(3):
        ctx.eq(f"weight{i}", W[i], lp(f[i], p, eps, scaled, mx))
    ctx.le("positive", np.zeros(3), W)
    if p == 2.0:
        ctx.eq("l2_is_unweighted", W, np.ones(3))
    # value uses the weights at the last update, its gradient does not differentiate them
    x = ctx.reals("x", 3, lo=-2, hi=2)
    v = ctx.reals("v", 3, lo=-1, hi=1)
    e = x - np.r_[0.1, 0.0, -0.2]
    ctx.eq("value", t(x), (ms.cell_volumes * W * e * e).sum())
    ctx.eq("gradient", vdot(t.deriv(x), v), 2 * (ms.cell_volumes * W * e * v).sum())
    # a second update replaces the first
    y = ctx.reals("y", 3, lo=-3, hi=-0.5)
    ctx.assume((y[0] < y[1]) & (y[0] < y[2] - 0.5))
    t.update_weights(y)
    g = y - np.r_[0.1, 0.0, -0.2]
    W2 = t.get_weights("irls")
    for i in range(3):
        ctx.eq(f"second{i}", W2[i], lp(g[i], p, eps, scaled, -g[0]))
    ctx.eq("second_value", t(x), (ms.cell_volumes * W2 * e * e).sum())


@harness("C07")
def irls_mixed(ctx):
    """a different norm in each cell."""
    ms = mesh("t1:4")
    eps, P = 0.5, np.r_[0.0, 1.0, 2.0, 0.5]
    t = rg.SparseSmallness(ms, norm=P, irls_threshold=eps)
    m = ctx.reals("m", 4, lo=0.5, hi=2)
    ctx.assume((m[2] > m[0]) & (m[2] > m[1]) & (m[2] > m[3]))
    t.update_weights(m)
    W = t.get_weights("irls")
    for i in range(4):
        ctx.eq(f"weight{i}", W[i], lp(m[i], P[i], eps, True, m[2]))


@harness("C07")
def irls_zero(ctx):
    """a model at its reference keeps finite, unit-scaled weights."""
    ms = mesh("t1:3")
    for p in (0.0, 1.0, 2.0):
        t = rg.SparseSmallness(ms, norm=p, irls_threshold=1e-3)
        t.update_weights(np.zeros(3))
        ctx.check(f"finite{p}", np.isfinite(t.get_weights("irls")).all())
    m = ctx.reals("m", 3)
    ctx.eq("value", t(m), (ms.cell_volumes * m * m).sum() * t.get_weights("irls")[0])


GT = {"comp": dict(mk="t2:2x2", gt="components"), "total": dict(mk="t2:2x2", gt="total"), "total_act": dict(mk="t2:3x2", gt="total", act=(0, 5)),
      "t1": dict(mk="t1:3", gt="total"), "t3": dict(mk="t3:2x2x2", gt="components"), "t3act": dict(mk="t3:2x1x3", gt="components", act=(1,)), "comp_ref": dict(mk="t2:3x2", gt="components", ref=True),
      "total_ref": dict(mk="t2:2x2", gt="total", ref=True)}


@harness("C07", params=GT)
def sparse_smooth(ctx, mk, gt, act=None, ref=False):
    ms = mesh(mk)
    a = active(ms, act)
    n = ms.n_cells if a is None else int(a.sum())
    eps = 0.5
    r0 = 0.1 * np.arange(n) ** 2
    norms = [1.0, 0.0, 2.0][:ms.dim + 1] if gt == "total" else [2.0, 1.0, 0.5, 1.5][:ms.dim + 1]
    R = rg.Sparse(ms, active_cells=a, norms=norms, gradient_type=gt, irls_threshold=eps, irls_scaled=False,
                  alpha_s=0.4, alpha_x=2.0, **dict(alpha_y=0.7, **(dict(alpha_z=1.3) if ms.dim > 2 else {})), **(dict(reference_model=r0, reference_model_in_smooth=True) if ref else {}))
    m = ctx.reals("m", n, lo=1, hi=1.5)
    cc = ms.cell_centers.reshape(ms.n_cells, -1)
    m = m + 3.0 * (cc if a is None else cc[a]) @ np.ones(ms.dim)
    x = ctx.reals("x", n, lo=-2, hi=2)
    v = ctx.reals("v", n, lo=-1, hi=1)
    R.update_weights(m)
    xf, mf = x, m
    if ref:
        m, x = m - r0, x - r0
    F = [faces(ms, a, k) for k in range(ms.dim)]
    G = [[(m[j] - m[i]) / d for i, j, d in Fk] for Fk in F]
    V = vol(ms, a)
    tot = 0.0
    for i in range(n):
        tot = tot + 0.4 * V[i] * lp(m[i], norms[0], eps, False, None) * x[i] * x[i]
    al = [2.0, 0.7, 1.3]
    if gt == "total":
        # average of the absolute face gradients to cells (outer faces carry nothing), summed, and back to faces
        cc = [0.0] * n
        for k in range(ms.dim):
            ck = [0.0] * n
            A = getattr(R.regularization_mesh, f"aveF{AX[k]}2CC").toarray()
            inner = [q for q in range(A.shape[1]) if np.count_nonzero(A[:, q]) == 2]   # outer faces carry no difference
            A = A[:, inner]
            for q, (i, j, d) in enumerate(F[k]):
                assert set(np.nonzero(A[:, q])[0]) == {i, j}
                for c in (i, j):
                    ck[c] = ck[c] + A[c, q] * G[k][q]
            cc = [p + abs(q) for p, q in zip(cc, ck)]
    for k in range(ms.dim):
        for q, (i, j, d) in enumerate(F[k]):
            f = (cc[i] + cc[j]) / 2 if gt == "total" else G[k][q]
            w = lp(f, norms[k + 1], eps, False, None)
            tot = tot + al[k] * 0.5 * (V[i] + V[j]) * w * ((x[j] - x[i]) / d)**2
    ctx.eq("value", R(xf), tot)
    d0, d1 = ctx.dd(lambda y: R(y), xf, v)
    ctx.eq("gradient", vdot(R.deriv(xf), v), d1, fd=True)
    ctx.eq("hessian", R.deriv2(xf) @ v, R.deriv2(xf, v))
    R.norms = [2.0] * (ms.dim + 1)
    R.update_weights(mf)
    Q = rg.WeightedLeastSquares(ms, active_cells=a, alpha_s=0.4, alpha_x=2.0, alpha_y=0.7, **(dict(alpha_z=1.3) if ms.dim > 2 else {}), **(dict(reference_model=r0, reference_model_in_smooth=True) if ref else {}))
    ctx.eq("norm2_is_least_squares", R(xf), Q(xf))


@harness("C07", params={k: dict(mk=k) for k in ("t1:3", "t2:3x2", "t3:2x2x2")})
def sparse_defaults(ctx, mk):
    """Before any update a sparse regularization is the least-squares one; so is a norm of two after updates."""
    ms = mesh(mk)
    n = ms.n_cells
    kw = dict(alpha_s=0.4, alpha_x=2.0, length_scale_y=1.5) if ms.dim > 1 else dict(alpha_s=0.4, alpha_x=2.0)
    if ms.dim > 2:
        kw["length_scale_z"] = 0.5
    r0 = np.linspace(-0.2, 0.3, n)
    L = rg.WeightedLeastSquares(ms, reference_model=r0, alpha_xx=0.0, **({"alpha_yy": 0.0} if ms.dim > 1 else {}), **({"alpha_zz": 0.0} if ms.dim > 2 else {}), **kw)
    R = rg.Sparse(ms, reference_model=r0, **kw)
    m = ctx.reals("m", n, lo=-2, hi=2)
    v = ctx.reals("v", n, lo=-1, hi=1)
    ctx.eq("start", R(m), L(m))
    R.norms = [2.0] * (ms.dim + 1)
    R.update_weights(np.linspace(0.5, 2.0, n))
    ctx.eq("value", R(m), L(m))
    ctx.eq("gradient", R.deriv(m), L.deriv(m))
    ctx.eq("hessian", R.deriv2(m, v), L.deriv2(m, v))
    R.norms = [1.0] * (ms.dim + 1)
    R.update_weights(np.linspace(0.5, 2.0, n))
    R.norms = [2.0] * (ms.dim + 1)
    R.update_weights(np.linspace(1.0, 2.0, n))
    ctx.eq("back_to_two", R(m), L(m))


@harness("C07")
def sparse_thresholds(ctx):
    """setting the threshold, scaling and norms on the combination reaches every term."""
    ms = mesh("t2:2x2")
    R = rg.Sparse(ms, norms=[0, 1, 2])
    R.irls_threshold = 0.125
    R.irls_scaled = False
    ctx.check("threshold", all(f.irls_threshold == 0.125 and f.irls_scaled is False for f in R.objfcts))
    ctx.check("norms", [float(f.norm[0]) for f in R.objfcts] == [0.0, 1.0, 2.0] )
    try:
        R.norms = [1.0, 3.0, 1.0]
        ctx.check("rejected", False)
    except ValueError:
        ctx.check("restored", [float(f.norm[0]) for f in R.objfcts] == [0.0, 1.0, 2.0])
    m = ctx.reals("m", 4, lo=0.5, hi=2)
    R.update_weights(m)
    ctx.eq("w", R.objfcts[0].get_weights("irls") * (m * m + 0.125**2), np.ones(4))


# ------------------------------------------------------------------ vector models
VA = {"small": dict(which="s"), "x": dict(which="x"), "y": dict(which="y"), "small_ref": dict(which="s", ref=True), "xa": dict(which="x", act=(0,)),
      "x_ref": dict(which="x", ref=True), "small_w": dict(which="s", wt="v"), "x_w": dict(which="x", wt="v"), "y_wf": dict(which="y", wt="c"),
      "small_w2": dict(which="s", wt="2"), "x_w2": dict(which="x", wt="2"), "xa_w2": dict(which="x", act=(0,), wt="2")}


@harness("C08", params=VA)
def amplitude(ctx, which, ref=False, act=None, wt=None):
    ms = mesh("t2:2x2")
    a = active(ms, act)
    n = ms.n_cells if a is None else int(a.sum())
    nc = 3
    mp = maps.IdentityMap(nP=nc * n)
    kw = dict(active_cells=a, mapping=mp)
    r = np.linspace(-3, -2, nc * n) if ref else np.zeros(nc * n)
    if ref:
        kw["reference_model"] = r
        if which != "s":
            kw["reference_model_in_smooth"] = True
    t = rg.AmplitudeSmallness(ms, **kw) if which == "s" else rg.AmplitudeSmoothnessFirstOrder(ms, orientation=which, **kw)
    m = ctx.reals("m", nc * n, lo=0.2, hi=2)
    v = ctx.reals("v", nc * n, lo=-1, hi=1)
    V = vol(ms, a)
    cw = np.ones(n)
    if wt == "c":
        cw = ctx.reals("cw", n, lo=0.1, hi=3)
        t.set_weights(u=cw)
    elif wt:
        vw = np.linspace(0.5, 2, nc * n)
        t.set_weights(u=vw if wt == "v" else vw.reshape((n, nc), order="F"))
        cw = np.linalg.norm(vw.reshape((n, nc), order="F"), axis=1)

    def value(x):
        tot = 0.0
        for k in range(nc):
            d = (x - r)[k * n:(k + 1) * n]
            for g, wf in residual(ms, a, which, d):
                tot = tot + wf(V) * wf(cw) * g * g
        return tot
    d0, d1 = ctx.dd(lambda x: value(x), m, v)
    ctx.eq("value", t(m), d0)
    ctx.eq("gradient", vdot(t.deriv(m), v), d1, fd=True)
    ctx.eq("hessian", vdot(v, t.deriv2(m, v)), 2 * (value(r + v)))
    ctx.eq("hessian_matrix", t.deriv2(m) @ v, t.deriv2(m, v))
    if wt:
        t.remove_weights("u")
        cw = np.ones(n)
        ctx.eq("removed", t(m), value(m))


@harness("C08", params={"comp": dict(gt="components", p=(0.0, 1.0, 2.0)), "total": dict(gt="total", p=(1.0, 0.0, 2.0)), "ref": dict(gt="total", p=(2.0, 1.0, 1.0), ref=True)})
def vector_sparse(ctx, gt, p, ref=False):
    """sparse norms of the amplitudes: the weights come from the amplitudes of the model and of its gradient."""
    ms = mesh("t2:2x2")
    n, nc, eps = 4, 3, 0.5
    r = np.linspace(-3, -2, nc * n) if ref else np.zeros(nc * n)
    R = rg.VectorAmplitude(ms, mapping=maps.IdentityMap(nP=nc * n), norms=list(p), gradient_type=gt, irls_threshold=eps, irls_scaled=False,
                           alpha_s=0.4, alpha_x=2.0, alpha_y=0.7, reference_model=r)
    m = ctx.reals("m", nc * n, lo=0.2, hi=2)
    x = ctx.reals("x", nc * n, lo=-2, hi=2)
    v = ctx.reals("v", nc * n, lo=-1, hi=1)
    R.update_weights(m)
    V = vol(ms, None)
    F = [faces(ms, None, k) for k in range(2)]
    M, X = (m - r).reshape((n, nc), order="F"), (x - r).reshape((n, nc), order="F")
    M0, X0 = m.reshape((n, nc), order="F"), x.reshape((n, nc), order="F")
    amp2 = (M * M).sum(axis=1)
    tot = 0.0
    for i in range(n):
        tot = tot + 0.4 * V[i] * (amp2[i] + eps**2)**(p[0] / 2 - 1) * (X[i] * X[i]).sum()
    g2 = [[(((M0[j] - M0[i]) / d)**2).sum() for i, j, d in Fk] for Fk in F]
    al = [2.0, 0.7, 1.3]
    if gt == "total":
        cc = [0.0] * n
        for k in range(2):
            A = getattr(R.regularization_mesh, f"aveF{AX[k]}2CC").toarray()
            inner = [q for q in range(A.shape[1]) if np.count_nonzero(A[:, q]) == 2]
            A = A[:, inner]
            for q, (i, j, d) in enumerate(F[k]):
                for c in (i, j):
                    cc[c] = cc[c] + A[c, q] * np.sqrt(g2[k][q])
    for k in range(2):
        for q, (i, j, d) in enumerate(F[k]):
            f2 = ((cc[i] + cc[j]) / 2)**2 if gt == "total" else g2[k][q]
            w = (f2 + eps**2)**(p[k + 1] / 2 - 1)
            tot = tot + al[k] * 0.5 * (V[i] + V[j]) * w * (((X0[j] - X0[i]) / d)**2).sum()
    ctx.eq("value", R(x), tot)
    _, d1 = ctx.dd(lambda y: R(y), x, v)
    ctx.eq("gradient", vdot(R.deriv(x), v), d1, fd=True)
    ctx.eq("hessian", R.deriv2(x) @ v, R.deriv2(x, v))


@harness("C08", params={"2d": dict(mk="t2:2x2"), "2da": dict(mk="t2:2x2", act=(1,)), "3d": dict(mk="t3:2x1x1"), "3dw": dict(mk="t3:2x1x1", wt=True),
                        "2dc": dict(mk="t2:2x2", cells=True)})
def cross_reference(ctx, mk, act=None, wt=False, cells=False):
    """only the part of the vector model orthogonal to the reference direction is penalized."""
    ms = mesh(mk)
    a = active(ms, act)
    n = ms.n_cells if a is None else int(a.sum())
    d = ms.dim
    dirs = np.tile(np.r_[0.6, -0.3, 1.2][:d], (n, 1))
    if cells:
        dirs = np.linspace(-1, 2, n * d).reshape(n, d)
    t = rg.CrossReferenceRegularization(ms, ref_dir=dirs if cells else dirs[0], active_cells=a, mapping=maps.IdentityMap(nP=n * d))
    m = ctx.reals("m", n * d, lo=-2, hi=2)
    v = ctx.reals("v", n * d, lo=-1, hi=1)
    s = ctx.reals("s", n, lo=-2, hi=2)
    cw = np.ones(n)
    if wt:
        cw = ctx.reals("cw", n, lo=0.1, hi=3)
        t.set_weights(u=cw)
    V = vol(ms, a)

    def value(x):
        X = x.reshape((n, d), order="F")
        n2, x2, dot = (dirs**2).sum(axis=1), (X * X).sum(axis=1), (X * dirs).sum(axis=1)
        return (V * cw * (n2 * x2 - dot * dot)).sum()
    d0, d1 = ctx.dd(lambda x: value(x), m, v)
    ctx.eq("value", t(m), d0)
    ctx.eq("gradient", vdot(t.deriv(m), v), d1, fd=True)
    ctx.eq("hessian", vdot(v, t.deriv2(m, v)), 2 * value(v))
    ctx.eq("hessian_matrix", t.deriv2(m) @ v, t.deriv2(m, v))
    ctx.eq("parallel", t((s[:, None] * dirs).reshape(-1, order="F")), 0.0)


# ------------------------------------------------------------------ coupling terms
CG = {}
for mk, act in (("t2:2x2", None), ("t2:3x2", (0,)), ("t3:2x2x1", None), ("t2:1x3", None), ("tree2", None)):
    for ap in (True, False):
        CG[f"{mk}{'a' if act else ''}{'' if ap else '-full'}"] = dict(mk=mk, act=act, ap=ap)


@harness("C08", params=CG)
def cross_gradient(ctx, mk, act, ap):
    ms = mesh(mk)
    a = active(ms, act)
    n = ms.n_cells if a is None else int(a.sum())
    w = maps.Wires(("a", n), ("b", n))
    t = rg.CrossGradient(ms, w, approx_hessian=ap, active_cells=a)
    M = t.regularization_mesh
    m = ctx.reals("m", 2 * n, lo=-2, hi=2)
    v = ctx.reals("v", 2 * n, lo=-1, hi=1)
    u = ctx.reals("u", 2 * n, lo=-1, hi=1)
    s = ctx.reals("s", 2, lo=-2, hi=2)
    V = vol(ms, a)
    G = M.cell_gradient
    A = M.average_face_to_cell

    def value(x):
        g1, g2 = G @ x[:n], G @ x[n:]
        return (V * ((A @ (g1 * g1)) * (A @ (g2 * g2)) - (A @ (g1 * g2))**2)).sum()
    d0, d1 = ctx.dd(lambda x: value(x), m, v)
    ctx.eq("value", t(m), d0)
    ctx.eq("gradient", vdot(t.deriv(m), v), d1, fd=True)
    H = t.deriv2(m, v)
    ctx.eq("hessian_matrix", t.deriv2(m) @ v, H)
    ctx.eq("hessian_symmetric", vdot(u, H), vdot(v, t.deriv2(m, u)))
    if not ap:
        _, d2 = ctx.dd(lambda x: t.deriv(x), m, v)
        ctx.eq("hessian", H, d2, fd=True)
    # proportional models are structurally identical
    z = np.concatenate([s[0] * m[:n], s[1] * m[:n] + 1.0])
    ctx.eq("proportional", t(z), 0.0)
    ctx.eq("symmetric", t(np.concatenate([m[n:], m[:n]])), d0)


JT = {"t2": dict(mk="t2:2x2"), "t2a": dict(mk="t2:2x2", act=(0,)), "three": dict(mk="t1:3", k=3), "w": dict(mk="t1:3", wt=True), "one": dict(mk="t1:3", k=1)}


@harness("C08", params=JT)
def joint_tv(ctx, mk, act=None, k=2, wt=False):
    ms = mesh(mk)
    a = active(ms, act)
    n = ms.n_cells if a is None else int(a.sum())
    w = maps.Wires(*[(f"m{i}", n) for i in range(k)])
    t = rg.JointTotalVariation(ms, w, eps=0.1, active_cells=a)
    m = ctx.reals("m", k * n, lo=-2, hi=2)
    v = ctx.reals("v", k * n, lo=-1, hi=1)
    V = vol(ms, a)
    cw = np.ones(n)
    if wt:
        cw = np.linspace(0.5, 2, n)
        t.set_weights(u=cw)
    A = t.regularization_mesh.average_face_to_cell

    def value(x):
        g2 = 0.0
        for i in range(k):
            g = t.regularization_mesh.cell_gradient @ x[i * n:(i + 1) * n]
            g2 = g2 + g * g
        return (np.sqrt((V * cw)**2 * (A @ g2) + 0.1 * V**2)).sum()
    d0, d1 = ctx.dd(lambda x: value(x), m, v)
    ctx.eq("value", t(m), d0)
    ctx.eq("gradient", vdot(t.deriv(m), v), d1, fd=True)
    _, d2 = ctx.dd(lambda x: t.deriv(x), m, v)
    H = t.deriv2(m, v)
    ctx.eq("hessian", H, d2, fd=True)
    ctx.eq("hessian_matrix", t.deriv2(m) @ v, H)


@harness("C08", params={"full": dict(act=None), "act": dict(act=(1,))})
def correspondence(ctx, act):
    ms = mesh("t1:3")
    a = active(ms, act)
    n = ms.n_cells if a is None else int(a.sum())
    w = maps.Wires(("a", n), ("b", n))
    k = ctx.reals("k", 3, lo=-2, hi=2)
    t = rg.LinearCorrespondence(ms, w, coefficients=k, active_cells=a)
    t0 = rg.LinearCorrespondence(ms, w, active_cells=a)
    m = ctx.reals("m", 2 * n, lo=-2, hi=2)
    v = ctx.reals("v", 2 * n, lo=-1, hi=1)
    d0, d1 = ctx.dd(lambda x: ((k[0] * x[:n] + k[1] * x[n:] + k[2])**2).sum(), m, v)
    ctx.eq("value", t(m), d0)
    ctx.eq("gradient", vdot(t.deriv(m), v), d1, fd=True)
    _, d2 = ctx.dd(lambda x: t.deriv(x), m, v)
    ctx.eq("hessian", t.deriv2(m, v), d2)
    ctx.eq("hessian_matrix", t.deriv2(m) @ v, d2)
    ctx.eq("default", t0(m), ((m[:n] - m[n:])**2).sum())
