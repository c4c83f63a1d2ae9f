"""Objective functions, data, surveys, data misfit and inverse problem."""
import numpy as np
import scipy.sparse as sp
import simpeg
from simpeg import maps, objective_function as of, data_misfit, inverse_problem, optimization, regularization
from simpeg.data import Data, SyntheticData
from simpeg.simulation import BaseSimulation, LinearSimulation, ExponentialSinusoidSimulation
from simpeg.survey import BaseRx, BaseSrc, BaseSurvey, BaseTimeRx, BaseTimeSurvey
from simpeg.utils import Zero, Identity, sdiag
from engine.registry import harness
from .common import mesh, dense
from .pde import vdot

WNS = sp.csr_matrix(np.array([[1.0, 0.5, 0.0], [0.0, -2.0, 1.0], [0.3, 0.0, 0.7], [0.0, 1.0, 1.0]]))
WSQ = sp.csr_matrix(np.array([[1.0, 0.5, 0.0], [0.0, -2.0, 1.0], [0.3, 0.0, 0.7]]))
A23 = np.array([[1.0, -2.0, 0.5], [0.25, 3.0, -1.0]])


def L2s():
    """L2 objective functions of 3 parameters, and their residual matrices at m."""
    return {
        "plain": lambda: of.L2ObjectiveFunction(nP=3),
        "W": lambda: of.L2ObjectiveFunction(W=WNS),
        "exp": lambda: of.L2ObjectiveFunction(mapping=maps.ExpMap(nP=3), W=WSQ),
        "any": lambda: of.L2ObjectiveFunction(),
        "lin": lambda: of.L2ObjectiveFunction(mapping=maps.LinearMap(sp.csr_matrix(A23), b=np.r_[0.5, 1.0]), W=sp.diags([2.0, 3.0], format="csr")),
        "dense": lambda: of.L2ObjectiveFunction(mapping=maps.LinearMap(A23)),
        "proj": lambda: of.L2ObjectiveFunction(mapping=maps.Projection(3, np.r_[2, 0])),
    }


def resid(k, m):
    if k in ("plain", "any"):
        return m
    if k == "W":
        return WNS @ m
    if k == "exp":
        return WSQ @ np.exp(m)
    if k == "lin":
        return np.r_[2.0, 3.0] * (A23 @ m + np.r_[0.5, 1.0])
    if k == "dense":
        return A23 @ m
    return m[np.r_[2, 0]]


def expect(k, m):
    r = resid(k, m)
    return (r * r).sum()


@harness("C03", params={k: dict(k=k) for k in L2s()})
def l2_objective(ctx, k):
    phi, phi2 = L2s()[k](), L2s()[k]()
    m = ctx.reals("m", 3, lo=-3, hi=3)
    v = ctx.reals("v", 3, lo=-1, hi=1)
    w = ctx.reals("w", 3, lo=-1, hi=1)
    m0 = m.copy()
    d0, d1 = ctx.dd(lambda x: phi(x), m, v)
    ctx.eq("value", d0, expect(k, m))
    ctx.eq("gradient", vdot(phi2.deriv(m), v), d1, fd=True)
    Hv = phi2.deriv2(m, v=v)
    _, r1 = ctx.dd(lambda x: resid(k, x), m, v)
    _, r2 = ctx.dd(lambda x: resid(k, x), m, w)
    ctx.eq("gauss_newton", vdot(w, Hv), 2 * vdot(r1, r2))
    if k != "any":
        ctx.eq("hessian_matrix", phi2.deriv2(m) @ v, Hv)
    ctx.eq("m_unchanged", m, m0)
    if k in ("plain", "any", "proj"):
        ctx.le("nonneg", 0.0, d0)


def scal(a):
    """Python scalars (combo_numpy covers numpy's)."""
    return [float(x) if isinstance(x, np.floating) else x for x in a]


def combos(a):
    """(expression, list of (multiplier, name))."""
    a = scal(a)
    L = L2s()
    p, W, e, l, q = L["plain"](), L["W"](), L["exp"](), L["lin"](), L["any"]()
    out = {
        "sum": (p + W, [(1, "plain"), (1, "W")]),
        "scaled": (a[0] * p + a[1] * W, [(a[0], "plain"), (a[1], "W")]),
        "div": ((a[0] * p + W) / a[1], [(a[0] / a[1], "plain"), (1 / a[1], "W")]),
        "nested": (a[0] * (a[1] * p + W) + e * a[2], [(a[0] * a[1], "plain"), (a[0], "W"), (a[2], "exp")]),
        "three": (p + a[1] * e + q, [(1, "plain"), (a[1], "exp"), (1, "any")]),
        "zero": (0.0 * W + a[0] * p + 0 * e, [(a[0], "plain")]),
        "Zero": (Zero() * W + a[0] * p + l, [(a[0], "plain"), (1, "lin")]),
        "radd0": (sum([a[0] * p, W], Zero()), [(a[0], "plain"), (1, "W")]),
        "twice": (p + p + a[2] * p, [(2 + a[2], "plain")]),
        "nounpack": (of.ComboObjectiveFunction([p, W], [a[0], a[1]], unpack_on_add=False) + e,
                     [(a[0], "plain"), (a[1], "W"), (1, "exp")]),
        "neg": (W * (-a[0]) + p, [(-a[0], "W"), (1, "plain")]),
    }
    return out


@harness("C03", params={k: dict(k=k) for k in combos(np.r_[1.0, 2.0, 3.0])})
def combo_objective(ctx, k):
    a = ctx.reals("a", 3, lo=0.1, hi=5)
    m = ctx.reals("m", 3, lo=-3, hi=3)
    v = ctx.reals("v", 3, lo=-1, hi=1)
    phi, terms = combos(a)[k]
    d0, d1 = ctx.dd(lambda x: sum(c * expect(n, x) for c, n in terms), m, v)
    ctx.eq("value", phi(m), d0)
    ctx.eq("gradient", vdot(phi.deriv(m), v), d1, fd=True)
    L = L2s()
    H = sum(c * vdot(v, L[n]().deriv2(m, v=v)) for c, n in terms)
    ctx.eq("hessian_v", vdot(v, phi.deriv2(m, v)), H)
    if "any" not in [n for _, n in terms]:
        ctx.eq("hessian", vdot(v, phi.deriv2(m) @ v), H)
    if k in ("sum", "scaled", "div", "Zero", "radd0", "twice", "nested") and "exp" not in [n for _, n in terms] and "lin" not in [n for _, n in terms]:
        W = phi.W
        r = W @ m
        ctx.eq("W", (r * r).sum(), d0)
    # multipliers may be replaced afterwards
    if k == "scaled":
        phi.multipliers = [a[1], a[2]]
        ctx.eq("new_multipliers", phi(m), a[1] * expect("plain", m) + a[2] * expect("W", m))


@harness("C03", params={"f64": dict(t=np.float64), "f32": dict(t=np.float32), "i64": dict(t=np.int64)})
def combo_numpy(ctx, t):
    """numpy scalars are multipliers as any other number."""
    L = L2s()
    m = ctx.reals("m", 3, lo=-3, hi=3)
    v = ctx.reals("v", 3, lo=-1, hi=1)
    c = t(2) * (t(3) * L["plain"]() + L["W"]())
    d = (L["plain"]() + L["W"]()) * t(2) + t(3) * c
    ref = lambda x: 6 * expect("plain", x) + 2 * expect("W", x)
    d0, d1 = ctx.dd(lambda x: 2 * expect("plain", x) + 2 * expect("W", x) + 3 * ref(x), m, v)
    ctx.eq("left", c(m), ref(m))
    ctx.eq("both", d(m), d0)
    ctx.eq("gradient", vdot(d.deriv(m), v), d1, fd=True)


@harness("C03")
def combo_shared(ctx):
    """building a combination leaves its parts as they were."""
    L = L2s()
    p, W, e = L["plain"](), L["W"](), L["exp"]()
    a = scal(ctx.reals("a", 3, lo=0.1, hi=5))
    m = ctx.reals("m", 3, lo=-3, hi=3)
    c1 = a[0] * p + W
    c2 = a[1] * c1 + e
    c3 = c1 + e
    c3.multipliers = [a[2], a[2], a[2]]
    ctx.eq("c1", c1(m), a[0] * expect("plain", m) + expect("W", m))
    ctx.eq("c2", c2(m), a[1] * (a[0] * expect("plain", m) + expect("W", m)) + expect("exp", m))
    ctx.eq("c3", c3(m), a[2] * (expect("plain", m) + expect("W", m) + expect("exp", m)))
    g = c1.deriv(m)
    g1 = c1.deriv(m)
    ctx.eq("deriv_again", g, g1)
    ctx.check("len", len(c1) == 2 and len(c2) == 2 and len(c3) == 3)


# --------------------------------------------------------------- data misfit
class Quad(BaseSimulation):
    """small non-linear simulation used to exercise the generic machinery."""

    def __init__(self, survey, nP=3, s=1.0):
        super().__init__(survey=survey)
        rng = np.random.default_rng(3)
        self.A = rng.normal(size=(survey.nD, nP))
        self.B = s * rng.normal(size=(survey.nD, nP))

    def fields(self, m=None):
        return [self.A @ m, self.B @ m]

    def dpred(self, m=None, f=None):
        f = self.fields(m) if f is None else f
        return f[0] + f[1] * f[1]

    def Jvec(self, m, v, f=None):
        f = self.fields(m) if f is None else f
        return self.A @ v + 2 * f[1] * (self.B @ v)

    def Jtvec(self, m, v, f=None):
        f = self.fields(m) if f is None else f
        return self.A.T @ v + self.B.T @ (2 * f[1] * v)


def qsurvey(n=(2, 2)):
    return BaseSurvey([BaseSrc([BaseRx(np.zeros((k, 3)))]) for k in n])


MIS = {"std": {}, "relfloor": {}, "W1": {}, "Wmat": {}, "sim": {}, "lin": {}, "lindense": {}, "sinus": {}}


@harness("C04", params={k: dict(k=k) for k in MIS})
def misfit(ctx, k):
    sv = qsurvey()
    nP = 3
    sims = []
    for _ in range(2):
        if k in ("lin", "lindense"):
            G = np.array([[1.0, 2.0, -1.0, 0.3], [0.5, 0.0, 1.0, 1.0], [2.0, -1.0, 0.7, 0.0], [1.0, 1.0, 1.0, -2.0]])
            mp = maps.ExpMap(nP=4) * maps.LinearMap(sp.csr_matrix(np.eye(4)[:, :3] + 0.1)) if k == "lin" else maps.LinearMap(np.eye(4)[:, :3] + 0.1)
            sims.append(LinearSimulation(G=G, model_map=mp, survey=qsurvey()))
        elif k == "sinus":
            sims.append(ExponentialSinusoidSimulation(mesh("t1:3"), n_kernels=4, model_map=maps.ExpMap(nP=3), survey=qsurvey(), jn=5.0))
        else:
            sims.append(Quad(sv))
    m = ctx.reals("m", nP, lo=-2, hi=2)
    v = ctx.reals("v", nP, lo=-1, hi=1)
    w = ctx.reals("w", nP, lo=-1, hi=1)
    dobs = ctx.reals("dobs", 4, lo=0.5, hi=4)
    kw = {}
    std = np.r_[0.5, 1.0, 2.0, 0.25]
    WW = sp.diags(1 / std, format="csr")
    if k == "relfloor":
        r, fl = ctx.reals("rel", 4, lo=0.01, hi=0.5), ctx.real("floor", lo=0.01, hi=1.0)
        kw = dict(relative_error=r, noise_floor=fl)
    elif k == "std":
        kw = dict(standard_deviation=ctx.reals("std", 4, lo=0.1, hi=2))
    else:
        kw = dict(standard_deviation=std)
    datas = [Data(s.survey, dobs=dobs, **kw) for s in sims]
    mis = [data_misfit.L2DataMisfit(d, s) for d, s in zip(datas, sims)]
    wts = 1 / std
    if k == "relfloor":
        wts = 1 / np.sqrt((r * dobs)**2 + fl**2)
    elif k == "std":
        wts = 1 / kw["standard_deviation"]
    wmat = None
    if k == "W1":
        wts = ctx.reals("wts", 4, lo=0.1, hi=3)
        for q in mis:
            q.W = wts
    if k == "Wmat":
        wmat = sp.csr_matrix(np.array([[1.0, 0.5, 0, 0], [0, 2.0, 0, -1.0], [0.2, 0, 1.0, 0], [0, 0, 0.4, 3.0]]))
        for q in mis:
            q.W = wmat

    def spec(x):
        s = sims[0]
        d = s.dpred(x) - dobs
        r = wmat @ d if wmat is not None else wts * d
        return (r * r).sum()
    d0, d1 = ctx.dd(lambda x: mis[0](x), m, v)
    ctx.eq("value", d0, spec(m))
    ctx.eq("gradient", vdot(mis[1].deriv(m), v), d1, fd=True)
    f = sims[1].fields(m)
    ctx.eq("gradient_f", vdot(mis[1].deriv(m, f=f), v), d1)
    ctx.eq("value_f", mis[1](m, f=f), d0)
    _, Jv = ctx.dd(lambda x: sims[0].dpred(x), m, v)
    _, Jw = ctx.dd(lambda x: sims[0].dpred(x), m, w)
    if wmat is not None:
        gn = vdot(wmat @ Jv, wmat @ Jw)
    else:
        gn = vdot(wts * Jv, wts * Jw)
    ctx.eq("hessian", vdot(w, mis[1].deriv2(m, v)), 2 * gn)
    ctx.eq("hessian_f", vdot(w, mis[1].deriv2(m, v, f=f)), 2 * gn)


@harness("C04")
def misfit_combo(ctx):
    """a combination of misfits uses each misfit's own fields."""
    s1, s2, s3, s4 = Quad(qsurvey()), Quad(qsurvey((1, 2)), s=2.0), Quad(qsurvey()), Quad(qsurvey((1, 2)), s=2.0)
    m = ctx.reals("m", 3, lo=-2, hi=2)
    v = ctx.reals("v", 3, lo=-1, hi=1)
    a = scal(ctx.reals("a", 2, lo=0.1, hi=3))
    d1, d2 = ctx.reals("d1", 4, lo=0.5, hi=4), ctx.reals("d2", 3, lo=0.5, hi=4)
    q1 = data_misfit.L2DataMisfit(Data(s1.survey, d1, standard_deviation=0.5), s1)
    q2 = data_misfit.L2DataMisfit(Data(s2.survey, d2, standard_deviation=np.r_[1.0, 2.0, 3.0]), s2)
    phi = a[0] * q1 + a[1] * q2
    f = [s1.fields(m), s2.fields(m)]
    val, der = ctx.dd(lambda x: a[0] * (4 * (s3.dpred(x) - d1)**2).sum() + a[1] * (((s4.dpred(x) - d2) / np.r_[1.0, 2.0, 3.0])**2).sum(), m, v)
    ctx.eq("value", phi(m), val)
    ctx.eq("value_f", phi(m, f=f), val)
    ctx.eq("deriv_f", vdot(phi.deriv(m, f=f), v), der, fd=True)
    ctx.eq("deriv2_f", phi.deriv2(m, v, f=f), a[0] * q1.deriv2(m, v) + a[1] * q2.deriv2(m, v))


@harness("C04", params={"misfit_first": dict(order=0), "other_first": dict(order=1), "beta0": dict(order=2)})
def inv_problem(ctx, order):
    """the inversion's objective is misfit + beta * regularization, with matching gradient and Hessian."""
    ms = mesh("t1:3")
    def parts():
        s1, s2 = Quad(qsurvey()), Quad(qsurvey((1, 2)), s=2.0)
        return s1, s2
    s1, s2 = parts()
    t1, t2 = parts()
    reg = regularization.WeightedLeastSquares(ms, alpha_s=0.5, alpha_x=2.0, reference_model=np.r_[0.1, 0.2, 0.3])
    opt = optimization.InexactGaussNewton(maxIter=1)
    m = ctx.reals("m", 3, lo=-2, hi=2)
    m2 = ctx.reals("m2", 3, lo=3, hi=5)
    v = ctx.reals("v", 3, lo=-1, hi=1)
    d1, d2 = ctx.reals("d1", 4, lo=0.5, hi=4), ctx.reals("d2", 3, lo=0.5, hi=4)
    a = ctx.real("a", lo=0.1, hi=2)
    beta = ctx.real("beta", lo=0.1, hi=4)
    q1 = data_misfit.L2DataMisfit(Data(s1.survey, d1, standard_deviation=0.5), s1)
    q2 = data_misfit.L2DataMisfit(Data(s2.survey, d2, standard_deviation=2.0), s2)
    extra = of.L2ObjectiveFunction(W=WSQ)
    phi_d = q1 + a * q2
    if order == 1:
        phi_d = extra + q1 + a * q2
    ip = inverse_problem.BaseInvProblem(phi_d, reg, opt, beta=beta, print_version=False)
    ip.startup(np.zeros(3))

    def D(x):
        out = (4 * (t1.dpred(x) - d1)**2).sum() + a * ((t2.dpred(x) - d2)**2).sum() / 4
        return out + expect_w(x) if order == 1 else out
    def expect_w(x):
        r = WSQ @ x
        return (r * r).sum()
    for tag, x in (("", m), ("_second", m2)):
        val, der = ctx.dd(lambda y: D(y) + beta * reg(y), x, v)
        ctx.eq("value" + tag, ip.evalFunction(x, return_g=False, return_H=False), val)
        p, g, H = ip.evalFunction(x, return_g=True, return_H=True)
        ctx.eq("value_all" + tag, p, val)
        ctx.eq("gradient" + tag, vdot(g, v), der, fd=True)
        ctx.eq("phi_d" + tag, ip.phi_d, D(x))
        ctx.eq("phi_m" + tag, ip.phi_m, reg(x))
        Hv = q1.deriv2(x, v) + a * q2.deriv2(x, v) + beta * reg.deriv2(x, v)
        if order == 1:
            Hv = Hv + extra.deriv2(x, v)
        ctx.eq("hessian" + tag, H._matvec(v), Hv)
        ctx.eq("dpred" + tag, ip.dpred, np.concatenate([t1.dpred(x), t2.dpred(x)]))


# --------------------------------------------------------------- data
@harness("C05", params={k: dict(k=k) for k in ("both", "rel", "floor", "std", "relscalar", "complex", "stdset")})
def uncertainties(ctx, k):
    sv = qsurvey()
    d = ctx.reals("d", 4, lo=-4, hi=4)
    if k == "complex":
        d = d + 1j * ctx.reals("di", 4, lo=-4, hi=4)
    r = ctx.reals("r", 4, lo=0, hi=1)
    fl = ctx.reals("fl", 4, lo=0, hi=1)
    kw = {"both": dict(relative_error=r, noise_floor=fl), "rel": dict(relative_error=r), "floor": dict(noise_floor=fl),
          "std": dict(standard_deviation=fl), "relscalar": dict(relative_error=r[0], noise_floor=fl[0]),
          "complex": dict(relative_error=r, noise_floor=fl), "stdset": dict(relative_error=r)}[k]
    D = Data(sv, dobs=d, **kw)
    if k == "stdset":
        D.standard_deviation = fl
    s = D.standard_deviation
    mag2 = (d * d.conj()).real if k == "complex" else d * d
    exp2 = {"both": r**2 * mag2 + fl**2, "rel": r**2 * mag2, "floor": fl**2, "std": fl**2, "relscalar": r[0]**2 * mag2 + fl[0]**2,
            "complex": r**2 * mag2 + fl**2, "stdset": fl**2}[k]
    ctx.eq("variance", s * s, exp2)
    ctx.le("nonneg", np.zeros(4), s)
    # the uncertainties follow the data and parameters
    d2 = ctx.reals("d2", 4, lo=-4, hi=4)
    if k == "both":
        D.dobs = d2
        ctx.eq("new_dobs", D.standard_deviation**2, r**2 * d2 * d2 + fl**2)
        D.noise_floor = 2 * fl
        ctx.eq("new_floor", D.standard_deviation**2, r**2 * d2 * d2 + 4 * fl**2)


@harness("C05")
def negative_uncertainties(ctx):
    sv = qsurvey()
    d = ctx.reals("d", 4, lo=-4, hi=4)
    x = ctx.reals("x", 4, lo=-1, hi=1)
    for nm in ("relative_error", "noise_floor"):
        try:
            D = Data(sv, dobs=d, **{nm: x})
            ctx.check("accepted_only_nonneg_" + nm, (x >= 0).all())
        except ValueError:
            ctx.check("rejected_only_negative_" + nm, (x < 0).any())


@harness("C05", params={"a": dict(n=((1, 2), (3,), (2, 1))), "b": dict(n=((2,),)), "c": dict(n=((0, 2), (1, 1, 1)))})
def slices(ctx, n):
    """every source-receiver pair owns one contiguous block, in order, covering all data."""
    rxs = [[BaseRx(np.zeros((k, 3)).reshape(k, 3)) for k in row] for row in n]
    srcs = [BaseSrc(r) for r in rxs]
    sv = BaseSurvey(srcs)
    nd = sum(sum(r) for r in n)
    ctx.check("nD", sv.nD == nd and list(sv.vnD) == [sum(r) for r in n] and [list(s.vnD) for s in srcs] == [list(r) for r in n])
    d = ctx.reals("d", nd)
    D = Data(sv, dobs=d.copy(), standard_deviation=1.0)
    allsl = sv.get_all_slices()
    k = 0
    for s, rr, row in zip(srcs, rxs, n):
        for r, c in zip(rr, row):
            ctx.check("slice", allsl[s, r] == slice(k, k + c) and sv.get_slice(s, r) == slice(k, k + c))
            if c:
                ctx.eq(f"get{k}", D[s, r], d[k:k + c])
            k += c
    x = ctx.reals("x", n[-1][0])
    k0 = sum(sum(r) for r in n[:-1])
    D[srcs[-1], rxs[-1][0]] = x
    ctx.eq("set", D.dobs, np.concatenate([d[:k0], x, d[k0 + n[-1][0]:]]))
    for i, s in enumerate(srcs):
        ctx.check("index", sv.get_source_indices(s) == [i])
        ctx.check("rx_index", s.get_receiver_indices(rxs[i]) == list(range(len(rxs[i]))))
    # a survey with one source sees the change when its source list is replaced
    sv.source_list = srcs[:1]
    ctx.check("new_sources", sv.nD == sum(n[0]) and sv.nSrc == 1)


@harness("C05")
def time_projection(ctx):
    """space-time projections do not depend on what was projected before."""
    ms = mesh("t2:2x2")
    tm = mesh("t1:3")
    loc = np.c_[np.r_[-0.1, 0.7], np.r_[0.1, 0.9]]
    rx = BaseTimeRx(loc, np.r_[0.3, 1.9, 2.4], storeProjections=True)
    ref = BaseTimeRx(loc, np.r_[0.3, 1.9, 2.4])
    u = ctx.reals("u", 3 * 4)
    w = ctx.reals("w", 4 * 12)
    ctx.eq("cc", rx.getP(ms, tm, "CC", "CC") @ u, ref.getP(ms, tm, "CC", "CC") @ u)
    P, T = ms.get_interpolation_matrix(loc, "Fx"), tm.get_interpolation_matrix(np.r_[0.3, 1.9, 2.4], "N")
    exp = (P @ w.reshape((12, 4), order="F")) @ T.toarray().T
    ctx.eq("fx", rx.getP(ms, tm, "Fx", "N") @ w, exp.reshape(-1, order="F"))


@harness("C05", params={"clean": dict(noise=False)})
def synthetic(ctx, noise):
    sim = Quad(qsurvey())
    m = ctx.reals("m", 3, lo=-2, hi=2)
    D = sim.make_synthetic_data(m, relative_error=0.1, noise_floor=0.5)
    d = Quad(qsurvey()).dpred(m)
    ctx.eq("dobs", D.dobs, d)
    ctx.eq("dclean", D.dclean, d)
    ctx.eq("std", D.standard_deviation**2, 0.01 * d * d + 0.25)


@harness("C04", params={k: dict(k=k) for k in ("wls", "combo", "partial", "single")})
def inv_startup(ctx, k):
    """Starting sets missing reference models to the start model and leaves the others; every way of asking gives the same function."""
    ms = mesh("t1:3")
    s, t = Quad(qsurvey()), Quad(qsurvey())
    m0 = ctx.reals("m0", 3, lo=-2, hi=2)
    ref = np.r_[0.1, 0.2, 0.3]
    mk = lambda **kw: regularization.WeightedLeastSquares(ms, alpha_s=0.5, alpha_x=2.0, reference_model_in_smooth=True, **kw)
    if k == "wls":
        reg, oreg = mk(), mk(reference_model=m0)
    elif k == "combo":
        reg, oreg = 2.0 * mk() + mk(reference_model=ref), 2.0 * mk(reference_model=m0) + mk(reference_model=ref)
    elif k == "partial":
        reg, oreg = mk(), mk(reference_model=m0)
        reg.objfcts[0].reference_model = ref
        oreg.objfcts[0].reference_model = ref
    else:
        reg, oreg = regularization.Smallness(ms), regularization.Smallness(ms, reference_model=m0)
    d = ctx.reals("d", 4, lo=0.5, hi=4)
    beta = ctx.real("beta", lo=0.1, hi=4)
    q = data_misfit.L2DataMisfit(Data(s.survey, d, standard_deviation=0.5), s)
    ip = inverse_problem.BaseInvProblem(q, reg, optimization.InexactGaussNewton(maxIter=1), beta=beta, print_version=False)
    ip.startup(m0)
    ctx.eq("model", ip.model, m0)
    m = ctx.reals("m", 3, lo=-2, hi=2)
    m2 = ctx.reals("m2", 3, lo=3, hi=5)
    v = ctx.reals("v", 3, lo=-1, hi=1)
    for tag, x in (("", m), ("_second", m2), ("_back", m)):
        D = (4 * (t.dpred(x) - d)**2).sum()
        phi = D + beta * oreg(x)
        ctx.eq("value" + tag, ip.evalFunction(x, return_g=False, return_H=False), phi)
        f, g, H = ip.evalFunction(x)
        ctx.eq("full" + tag, f, phi)
        ctx.eq("dpred" + tag, ip.dpred, t.dpred(x))
        ctx.eq("phi_d" + tag, ip.phi_d, D)
        ctx.eq("phi_m" + tag, ip.phi_m, oreg(x))
        f2, g2 = ip.evalFunction(x, return_H=False)
        f3, H3 = ip.evalFunction(x, return_g=False)
        ctx.eq("value_g" + tag, f2, phi)
        ctx.eq("value_H" + tag, f3, phi)
        ctx.eq("gradient" + tag, g2, g)
        ctx.eq("hessian" + tag, H3 @ v, H @ v)
        ctx.eq("gradient_def" + tag, g, q.deriv(x) + beta * oreg.deriv(x))
    # the fields kept from the last value are not used for another model with the same values elsewhere
    x = m + 0.5
    ip.evalFunction(x, return_g=False, return_H=False)
    y = x + 1.0
    ctx.eq("other_model", ip.evalFunction(y, return_H=False)[0], (4 * (t.dpred(y) - d)**2).sum() + beta * oreg(y))


@harness("C04", params={f"{d}{k}": dict(d=d, k=k) for d in ("t1:3", "t2:3x2", "t3:2x2x2") for k in ("wls", "sparse", "two")})
def inv_components(ctx, d, k):
    """The reported components of the regularization are its terms, each in its direction."""
    ms = mesh(d)
    n = ms.n_cells
    kw = dict(alpha_s=0.5, alpha_x=2.0)
    if ms.dim > 1:
        kw["alpha_y"] = 0.7
    if ms.dim > 2:
        kw["alpha_z"] = 1.3
    ref = np.linspace(0.1, 0.4, n)
    mk = lambda c: c(ms, reference_model=ref, **kw)
    R = [mk(regularization.WeightedLeastSquares)] if k == "wls" else [mk(regularization.Sparse)] if k == "sparse" else [mk(regularization.WeightedLeastSquares), mk(regularization.Sparse)]
    reg = R[0] if len(R) == 1 else 3.0 * R[0] + 0.5 * R[1]
    mult = [1.0] if len(R) == 1 else [3.0, 0.5]
    sv = qsurvey()
    s = LinearSimulation(G=np.linspace(0.1, 1.0, 4 * n).reshape(4, n), model_map=maps.IdentityMap(nP=n), survey=sv)
    q = data_misfit.L2DataMisfit(Data(sv, np.ones(4), standard_deviation=0.5), s)
    opt = optimization.InexactGaussNewton(maxIter=1)
    opt.print_type = "ubc"
    ip = inverse_problem.BaseInvProblem(q, reg, opt, beta=2.0, print_version=False)
    ip.startup(ref)
    for tag in ("", "_again"):
        m = ctx.reals("m" + tag, n, lo=-2, hi=2)
        ip.evalFunction(m, return_g=False, return_H=False)
        want = dict(s=0.0, x=0.0, y=0.0, z=0.0)
        for r, c in zip(R, mult):
            for t, al in zip(r.objfcts, r.multipliers):
                o = getattr(t, "orientation", None)
                if "Second" in type(t).__name__:
                    continue
                key = "s" if o is None else o
                if key == "y" and ms.dim == 2:
                    key = "z"
                want[key] = want[key] + c * al * t(m)
        for key in want:
            ctx.eq("phi_" + key + tag, getattr(ip, "phi_" + key) + 1.0, want[key] + 1.0)
