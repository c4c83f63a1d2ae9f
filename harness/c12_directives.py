"""Directives: trade-off schedules, estimates, stopping targets, IRLS control, sensitivity weights, bookkeeping."""
import contextlib
import io
import warnings

import numpy as np
import scipy.sparse as sp
from simpeg import data_misfit, directives as dr, inverse_problem, inversion, maps, objective_function, optimization, regularization as rg, simulation
from simpeg.data import Data
from discretize.utils import Zero
from simpeg.utils import eigenvalue_by_power_iteration
from engine.registry import harness
from .common import mesh
from .pde import vdot
from .c03_c04_c05_objective import qsurvey
from .c06_c07_c08_regularization import lp
from .c09_c10_optimization import quiet
from .c23_meta import grav

GS = [np.array([[1.0, 2.0, -1.0], [0.5, 0.0, 1.0], [2.0, -1.0, 0.7], [1.0, 1.0, 1.0]]),
      np.array([[0.3, -1.0, 2.0], [1.5, 0.4, 0.0]])]


def misfits(k=1, mp="id", d=None):
    out = []
    for i in range(k):
        G = GS[i]
        s = simulation.LinearSimulation(survey=qsurvey((G.shape[0],)), G=G, model_map=maps.IdentityMap(nP=3) if mp == "id" else maps.ExpMap(nP=3))
        nd = G.shape[0]
        dd = (np.linspace(1, 2, nd) if d is None else d[i])
        out.append(data_misfit.L2DataMisfit(Data(s.survey, dd, standard_deviation=np.linspace(0.5, 1.5, nd)), s))
    return out


def silent(f, *a):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            return f(*a)


def setup(dlist, dmis=None, reg=None, m0=None, maxIter=20, beta=1.0):
    """a real inversion with these directives, ready to be driven by hand."""
    if dmis is None:
        dmis = misfits()[0]
    if reg is None:
        reg = rg.WeightedLeastSquares(mesh("t1:3"))
    opt = quiet(optimization.InexactGaussNewton(maxIter=maxIter))
    ip = inverse_problem.BaseInvProblem(dmis, reg, opt, beta=beta, print_version=False)
    inv = silent(inversion.BaseInversion, ip, dlist)
    quiet(opt)
    ip.model = np.linspace(0.3, 0.7, 3) if m0 is None else m0
    opt.iter = 0
    opt.stopNextIteration = False
    return inv, ip, opt


# ---------------------------------------------------------------- trade-off schedule
@harness("C12", params={f"{r}-{mx}": dict(rate=r, mx=mx) for r in (1, 2, 3) for mx in (4, 7)})
def beta_schedule(ctx, rate, mx):
    c = ctx.real("c", lo=1.1, hi=8)
    b0 = ctx.real("b0", lo=0.1, hi=100)
    d = dr.BetaSchedule(coolingFactor=c, coolingRate=rate)
    inv, ip, opt = setup([d], maxIter=mx)
    ip.beta = b0
    inv.directiveList.call("initialize")
    ctx.eq("start", ip.beta, b0)
    k = 0
    for it in range(0, mx + 1):
        opt.iter = it
        inv.directiveList.call("endIter")
        if 0 < it < mx and it % rate == 0:
            k += 1
        ctx.eq(f"iter{it}", ip.beta * c**k, b0)
    inv.directiveList.call("finish")
    ctx.eq("end", ip.beta * c**k, b0)


@harness("C12", params={"one": dict(k=1), "two": dict(k=2), "star": dict(k=2, star=True), "target": dict(k=1, target=True), "change": dict(k=2, change=True)})
def target_misfit(ctx, k, star=False, target=False, change=False):
    """the inversion is told to stop exactly when the data misfit is below the target."""
    ms = misfits(k)
    phi = ms[0] if k == 1 else ms[0] + ms[1]
    chi = ctx.real("chi", lo=0.1, hi=3)
    t = ctx.real("t", lo=0.5, hi=20)
    d = dr.TargetMisfit(target=t) if target else dr.TargetMisfit(chifact=chi, **(dict(phi_d_star=t) if star else {}))
    inv, ip, opt = setup([d], phi)
    nD = sum(q.simulation.survey.nD for q in ms)
    tgt = t if target else chi * (t if star else nD)
    ctx.eq("target", d.target, tgt)
    if change:
        chi2 = ctx.real("chi2", lo=0.1, hi=3)
        d.chifact = chi2
        tgt = chi2 * nD
        ctx.eq("new_target", d.target, tgt)
    d.initialize()
    for it in range(1, 3):
        ip.phi_d = ctx.real(f"phi{it}", lo=0.01, hi=100)
        opt.iter = it
        opt.stopNextIteration = False
        d.endIter()
        ctx.check(f"stop{it}", (ip.phi_d < tgt) if opt.stopNextIteration else (ip.phi_d >= tgt))


@harness("C12", params={"two": dict(), "chi": dict(chi=True)})
def multi_target(ctx, chi=False):
    """with several misfits, all of them have to be below their own target."""
    ms = misfits(2)
    c = ctx.reals("chi", 2, lo=0.1, hi=3) if chi else np.ones(2)
    d = dr.MultiTargetMisfits(**(dict(chifact=c) if chi else {}))
    inv, ip, opt = setup([d], ms[0] + ms[1])
    silent(d.initialize)
    m = ctx.reals("m", 3, lo=-1, hi=1)
    ip.model = m
    silent(d.endIter)
    tg = c * np.r_[4, 2]
    v = [q(m) for q in misfits(2)]
    ok = [v[i] < tg[i] for i in range(2)]
    if opt.stopNextIteration:
        ctx.check("stop0", v[0] <= tg[0] * (1 + 1e-9))
        ctx.check("stop1", v[1] <= tg[1] * (1 + 1e-9))
    else:
        ctx.check("go", (v[0] >= tg[0] * (1 - 1e-9)) if not d.targetlist[0] else (v[1] >= tg[1] * (1 - 1e-9)))
    ctx.eq("list", d.dmlist, np.array(v) if not hasattr(v[0], "t") else v)


# ---------------------------------------------------------------- estimates
@harness("C12", params={"id": dict(mp="id"), "exp": dict(mp="exp"), "two": dict(mp="id", k=2)})
def beta_max_derivative(ctx, mp, k=1):
    ms, m2 = misfits(k, mp), misfits(k, mp)
    r = ctx.real("r", lo=0.1, hi=10)
    a = 2.5
    d = dr.BetaEstimateMaxDerivative(beta0_ratio=r, random_seed=12)
    reg = rg.WeightedLeastSquares(mesh("t1:3"), alpha_s=0.5, alpha_x=0.01)
    inv, ip, opt = setup([d], ms[0] if k == 1 else ms[0] + a * ms[1], reg)
    m = ctx.reals("m", 3, lo=0.2, hi=0.9)
    ip.model = m
    x = np.random.default_rng(12).random(3)
    mx = m.max()
    g = m2[0].deriv(m) if k == 1 else m2[0].deriv(m) + a * m2[1].deriv(m)
    h = rg.WeightedLeastSquares(mesh("t1:3"), alpha_s=0.5, alpha_x=0.01).deriv(m + mx * x / x.max())
    H, F = np.abs(h).max(), np.abs(g).max()
    ctx.assume(r * F / H > 0)
    d.initialize()
    ctx.eq("beta", ip.beta * H, r * F)


def power(H, x0, k):
    for _ in range(k):
        x0 = H(x0)
    y = H(x0)
    return vdot(x0, y) / vdot(x0, x0)


@harness("C12", params={"id1": dict(mp="id", pw=1), "id2": dict(mp="id", pw=2), "exp1": dict(mp="exp", pw=1, f=True), "exp2": dict(mp="exp", pw=2, f=True), "two": dict(mp="id", pw=1, k=2)})
def beta_by_eig(ctx, mp, pw, k=1, f=False):
    ms, m2 = misfits(k, mp), misfits(k, mp)
    r = ctx.real("r", lo=0.1, hi=10)
    d = dr.BetaEstimate_ByEig(beta0_ratio=r, random_seed=12, n_pw_iter=pw)
    mk = lambda: rg.WeightedLeastSquares(mesh("t1:3"), alpha_s=0.5, alpha_x=0.01)
    inv, ip, opt = setup([d], ms[0] if k == 1 else ms[0] + 2.5 * ms[1], mk())
    m = np.r_[0.3, 0.8, 0.5] if f else ctx.reals("m", 3, lo=0.2, hi=0.9)
    ip.model = m
    rng = np.random.default_rng(12)
    x, y = rng.random(3), rng.random(3)
    reg = mk()
    Hd = (lambda u: m2[0].deriv2(m, u)) if k == 1 else (lambda u: m2[0].deriv2(m, u) + 2.5 * m2[1].deriv2(m, u))
    ld = power(Hd, x, pw)
    lm = power(lambda u: reg.deriv2(np.zeros(3), u), y, pw)
    ctx.assume(r * ld / lm > 0)
    d.initialize()
    ctx.eq("beta", ip.beta * lm, r * ld)


@harness("C12", params={"plain": dict(), "ratio": dict(ratio=True)})
def misfit_scaling(ctx, ratio=False):
    """scalings of joint misfits: proportional to the ratio over the largest eigenvalue, adding up to one."""
    ms, m2 = misfits(2, "exp"), misfits(2, "exp")
    c = ctx.reals("c", 2, lo=0.2, hi=5)
    d = dr.ScalingMultipleDataMisfits_ByEig(random_seed=5, n_pw_iter=1, **(dict(chi0_ratio=c) if ratio else {}))
    inv, ip, opt = setup([d], c[0] * ms[0] + c[1] * ms[1])
    m = ctx.reals("m", 3, lo=0.2, hi=0.9)
    ip.model = m
    d.initialize()
    rng = np.random.default_rng(5)
    l = [power(lambda u, q=q: q.deriv2(m, u), rng.random(3), 1) for q in m2]
    w = d.dmisfit.multipliers
    ctx.eq("sum", w[0] + w[1], 1.0)
    ctx.eq("ratio", w[0] * c[1] * l[0], w[1] * c[0] * l[1])


@harness("C12", params={"1d": dict(mk="t1:3"), "ratio": dict(mk="t1:3", ratio=True), "2d": dict(mk="t2:3x1")})
def alphas_by_eig(ctx, mk, ratio=False):
    """each smoothness is rescaled by the ratio of the largest eigenvalues."""
    mh = mesh(mk)
    r = np.r_[1.7, 0.6][: mh.dim]
    a = np.r_[1.0, 0.8, 2.3]
    make = lambda: rg.WeightedLeastSquares(mh, alpha_s=1.0, alpha_x=1.0, **(dict(alpha_y=1.0) if mh.dim > 1 else {}))
    reg = make()
    reg.alpha_x = a[1]
    if mh.dim > 1:
        reg.alpha_y = a[2]
    d = dr.AlphasSmoothEstimate_ByEig(random_seed=3, n_pw_iter=1, **(dict(alpha0_ratio=r) if ratio else {}))
    inv, ip, opt = setup([d], reg=reg)
    d.initialize()
    rng = np.random.default_rng(3)
    ref = make()
    z = np.zeros(3)
    ls = power(lambda u: ref.objfcts[0].deriv2(z, u), rng.random(3), 1)
    lx = power(lambda u: ref.objfcts[1].deriv2(z, u), rng.random(3), 1)
    ctx.eq("alpha_x", reg.alpha_x * lx, a[1] * (r[0] if ratio else 1.0) * ls)
    ctx.eq("alpha_s", reg.alpha_s, 1.0)


# ---------------------------------------------------------------- sensitivity weights, preconditioner
SW = {}
for th in ("amplitude", "global", "percentile"):
    for nm in ("maximum", "minimum", None):
        SW[f"{th}-{nm}"] = dict(th=th, nm=nm)
SW["two"] = dict(th="amplitude", nm=None, k=2)
SW["grav"] = dict(th="global", nm=None, k=0)
SW["every"] = dict(th="global", nm=None, every=True)
SW["sparse"] = dict(th="global", nm=None, every=True, sparse=True)


@harness("C12", params=SW)
def sensitivity_weights(ctx, th, nm, k=1, every=False, sparse=False):
    if k == 0:
        mk = grav(0, "exp")
        s = mk()
        dm, mh = data_misfit.L2DataMisfit(Data(s.survey, np.ones(2), standard_deviation=np.r_[1e-3, 2e-3]), s), s.mesh
        J = lambda m: (np.r_[1e3, 0.5e3][:, None] * mk().getJ(m),)
    else:
        ms = misfits(k, "exp")
        dm, mh = ms[0] if k == 1 else ms[0] + ms[1], mesh("t1:3")
        J = lambda m: tuple((1 / np.linspace(0.5, 1.5, GS[i].shape[0]))[:, None] * GS[i] * np.exp(m)[None, :] for i in range(k))
    n = mh.n_cells
    tv = dict(amplitude=0.6, Global=0.3, percentile=30.0)[th.replace("global", "Global")]
    d = dr.UpdateSensitivityWeights(every_iteration=every, threshold_value=tv, threshold_method=th, normalization_method=nm)
    reg = rg.Sparse(mh) if sparse else rg.WeightedLeastSquares(mh, alpha_s=0.5)
    inv, ip, opt = setup([d], dm, reg, np.ones(n))
    V = mh.cell_volumes

    def expect(m):
        s = np.sqrt(sum((j * j).sum(axis=0) for j in J(m))) / V
        if th == "global":
            s = s + tv
        elif th == "percentile":
            o = np.sort(s)
            p = 0.01 * tv * (n - 1)
            i = int(p)
            s = np.maximum(s, o[i] + (p - i) * (o[i + 1] - o[i]))
        else:
            s = np.maximum(s, tv * s.max())
        return s / s.max() if nm == "maximum" else s / s.min() if nm == "minimum" else s

    m = ctx.reals("m", n, lo=-0.5, hi=0.5)
    ip.model = m
    d.initialize()
    w = expect(m)
    for i, t in enumerate(d.reg.objfcts[0].objfcts):
        ctx.eq(f"weights{i}", t.get_weights("sensitivity"), w)
    m2 = ctx.reals("m2", n, lo=0.6, hi=1.0)
    ip.model = m2
    opt.iter = 1
    d.endIter()
    w2 = expect(m2) if every else w
    ctx.eq("next", reg.objfcts[-1].get_weights("sensitivity"), w2)
    # they act as factors in the regularization
    x = ctx.reals("x", n, lo=-1, hi=1)
    if th == "global":
        ctx.eq("value", reg.objfcts[0](x), (V * w2 * x * x).sum())


class Flat(objective_function.BaseObjectiveFunction):
    """a linear term: its Hessian is Zero."""
    def __call__(self, m):
        return m.sum()

    def deriv(self, m):
        return np.ones(self.nP)

    def deriv2(self, m, v=None):
        return Zero()


@harness("C12", params={"every": dict(every=True), "once": dict(every=False), "two": dict(every=True, k=2), "zero": dict(every=True, flat=True)})
def preconditioner(ctx, every, k=1, flat=False):
    """the preconditioner is the positive inverse diagonal for the current model, trade-off and weights."""
    def make(b, m):
        ms = misfits(k, "exp")
        reg = rg.WeightedLeastSquares(mesh("t1:3"), alpha_s=0.5)
        if flat:
            reg = 1.0 * reg + Flat(nP=3)
        d = dr.UpdatePreconditioner(update_every_iteration=every)
        inv, ip, opt = setup([d], ms[0] if k == 1 else ms[0] + ms[1], reg)
        ip.model, ip.beta = m, b
        d.initialize()
        return d, ip, opt
    m, m2 = ctx.reals("m", 3, lo=-0.5, hi=0.5), ctx.reals("m2", 3, lo=0.6, hi=1)
    b, b2 = ctx.real("b", lo=0.1, hi=10), ctx.real("b2", lo=0.1, hi=10)
    d, ip, opt = make(b, m)
    J = [(1 / np.linspace(0.5, 1.5, GS[i].shape[0]))[:, None] * GS[i] for i in range(k)]
    R = rg.WeightedLeastSquares(mesh("t1:3"), alpha_s=0.5).deriv2(np.zeros(3)).diagonal()
    diag = lambda x, c: sum((j * j).sum(axis=0) for j in J) * np.exp(x)**2 + c * R
    one = np.ones(3)
    ctx.eq("initial", (opt.approxHinv @ one) * diag(m, b), one)
    ip.model, ip.beta, opt.iter = m2, b2, 1
    d.endIter()
    ctx.eq("next", (opt.approxHinv @ one) * (diag(m2, b2) if every else diag(m, b)), one)


# ---------------------------------------------------------------- IRLS control
IR = {"a": dict(), "rate2": dict(rate=2), "max1": dict(mx=1), "max0": dict(mx=0), "tol": dict(tol=0.5), "chi": dict(cs=2.0, ct=0.5)}


@harness("C12", params=IR, max_paths=600)
def irls_control(ctx, rate=1, mx=20, tol=0.1, cs=1.0, ct=1.0):
    """UpdateIRLS follows its schedule for every history of data misfits."""
    mh = mesh("t1:3")
    norms = [0.5, 1.0]
    reg = rg.Sparse(mh, norms=list(norms), irls_scaled=False, gradient_type="components", alpha_s=0.7, alpha_x=1.3)
    twin = rg.Sparse(mh, norms=list(norms), irls_scaled=False, gradient_type="components", alpha_s=0.7, alpha_x=1.3)
    d = dr.UpdateIRLS(cooling_rate=rate, cooling_factor=2.0, chifact_start=cs, chifact_target=ct, irls_cooling_factor=1.25, f_min_change=0.5,
                      max_irls_iterations=mx, misfit_tolerance=tol, verbose=False)
    inv, ip, opt = setup([d], reg=reg)
    nD = 4
    models = [np.r_[0.3, 0.9, 0.5], np.r_[0.4, 1.1, -0.2], np.r_[0.45, 1.2, -0.1], np.r_[0.5, 1.2, 0.0]]
    b0 = ctx.real("b0", lo=0.5, hi=10)
    ip.beta = b0
    silent(inv.directiveList.call, "initialize")
    ctx.check("l2_first", [float(t.norm[0]) for t in reg.objfcts] == [2.0, 2.0])
    beta, cf, start, count, f_old, eps = b0, 2.0, None, 0, 0.0, None
    twin.norms = [2.0, 2.0]
    for it in range(1, len(models) + 1):
        x = models[it - 1]
        phi = ctx.real(f"phi{it}", lo=0.05 * nD, hi=5 * nD)
        for edge in (cs, ct * (1 + tol), ct * (1 - tol), ct):
            ctx.assume(abs(phi - edge * nD) > 1e-6)
        ip.model, ip.phi_d, opt.iter = x, phi, it
        opt.stopNextIteration = False
        silent(inv.directiveList.call, "endIter")
        # ---- the documented schedule
        stopped = False
        if start is not None:
            ratio = phi / (ct * nD)
            if ratio > 1 + tol:
                cf = 1.0 / ((0.75 + 1.0 / ratio) / 2)
            elif ratio < 1 - tol:
                cf = 1.0 / ((2.0 + 1.0 / ratio) / 2)
            else:
                cf = 1.0
        if start is None and phi < cs * nD:
            start, cf = it, 1.0
            eps = [np.abs(x).max(), np.abs(x).max() / mh.h[0].min()]
            twin.norms = list(norms)
            ctx.eq(f"l2model{it}", ip.l2model, x)
        if start is not None and (it - start) % rate == 0:
            f = twin(x)
            if count == mx:
                stopped = True
            else:
                ch = abs(f_old - f) / (f_old + 1e-12)
                dev = abs(1.0 - phi / (ct * nD))
                if ch < 0.5 and count > 1 and dev < tol:
                    stopped = True
                else:
                    f_old = f
                    eps = [e / 1.25 for e in eps]
                    count += 1
                    for t, e in zip(twin.objfcts, eps):
                        t.irls_threshold = e
                    twin.update_weights(x)
        if not stopped and it % rate == 0:
            beta = beta / cf
        # ---- agreement
        ctx.eq(f"beta{it}", ip.beta, beta)
        ctx.check(f"stop{it}", opt.stopNextIteration == stopped)
        ctx.check(f"norms{it}", [float(t.norm[0]) for t in reg.objfcts] == (norms if start is not None else [2.0, 2.0]))
        if eps is not None:
            ctx.eq(f"threshold{it}", np.array([t.irls_threshold for t in reg.objfcts]), np.array(eps))
        y = np.r_[0.2, -0.4, 0.9]
        ctx.eq(f"reg{it}", reg(y), twin(y))
        if stopped:
            break


# ---------------------------------------------------------------- joint inversions
def joint():
    mh = mesh("t2:3x1")
    w = maps.Wires(("a", 3), ("b", 3))
    s = []
    for i, q in enumerate((w.a, w.b)):
        G = GS[i]
        sim = simulation.LinearSimulation(survey=qsurvey((G.shape[0],)), G=G, model_map=q)
        s.append(data_misfit.L2DataMisfit(Data(sim.survey, np.linspace(1, 2, G.shape[0]), standard_deviation=0.5), sim))
    regs = [rg.WeightedLeastSquares(mh, mapping=w.a, alpha_s=0.5), rg.WeightedLeastSquares(mh, mapping=w.b, alpha_s=0.8)]
    cg = rg.CrossGradient(mh, w)
    return s, regs, cg


@harness("C12", params={"rate1": dict(rate=1), "rate2": dict(rate=2), "noupdate": dict(rate=1, upd=False)}, max_paths=900)
def paired_beta(ctx, rate, upd=True):
    """joint inversion: each trade-off follows the misfit of its own data."""
    s, regs, cg = joint()
    b = ctx.reals("b", 2, lo=0.5, hi=10)
    lam = ctx.real("lam", lo=0.5, hi=10)
    reg = b[0] * regs[0] + b[1] * regs[1] + lam * cg
    S, P = dr.SimilarityMeasureInversionDirective(), dr.PairedBetaSchedule(verbose=False)
    P.cooling_rate, P.update_beta, P.cooling_factor = rate, upd, 4.0
    stop = dr.MovingAndMultiTargetStopping()
    inv, ip, opt = setup([S, P, stop], s[0] + s[1], reg, np.zeros(6))
    inv.directiveList.call("initialize")
    ctx.eq("betas0", np.array(ip.betas) if not hasattr(ip.betas[0], "t") else ip.betas, b)
    ctx.eq("lambda0", ip.lambd, lam)
    beta = [b[0], b[1]]
    nd = [4, 2]
    for it in range(1, 2 if rate == 1 else 3):
        ph = ctx.reals(f"phi{it}", 2, lo=0.5, hi=20)
        s[0].simulation, s[1].simulation
        S.dmisfit._last_obj_vals = [ph[0], ph[1]]
        S.reg._last_obj_vals = [1.0, 2.0, 3.0]
        opt.iter, opt.stopNextIteration = it, False
        opt.xc, opt.x_last = np.r_[1.0, 2, 3, 1, 2, 3], np.r_[1.0, 2, 3, 1, 2, 3 + (1e-9 if it == 1 else 1.0)]
        silent(inv.directiveList.call, "endIter")
        if it % rate == 0:
            for i in range(2):
                r = ph[i] / nd[i]
                if upd and r <= 1.1:
                    f = max(0.75, r) if r <= 1 else min(1.5, r)
                    beta[i] = beta[i] / f
                elif r > 1:
                    beta[i] = beta[i] / 4.0
        for i in range(2):
            ctx.eq(f"beta{it}{i}", S.reg.multipliers[i], beta[i])
        ctx.eq(f"lambda{it}", S.reg.multipliers[-1], lam)
        dev = [abs(1 - ph[i] / nd[i]) for i in range(2)]
        if opt.stopNextIteration:
            ctx.check(f"moved{it}", it == 1)
            ctx.check(f"stop{it}0", dev[0] < 0.1)
            ctx.check(f"stop{it}1", dev[1] < 0.1)
        elif it == 1:
            ctx.check(f"go{it}", (dev[0] >= 0.1) if bool(dev[0] >= 0.1) else (dev[1] >= 0.1))


# ---------------------------------------------------------------- bookkeeping
@harness("C12", params={"wls1": dict(mk="t1:3"), "wls2": dict(mk="t2:3x1"), "wls3": dict(mk="t3:3x1x1"), "sparse2": dict(mk="t2:3x1", sparse=True), "zero": dict(mk="t2:3x1", zero=True)})
def saved_output(ctx, mk, sparse=False, zero=False):
    """the saved history holds the values of each iteration."""
    mh = mesh(mk)
    al = dict(alpha_s=0.0 if zero else 0.5, alpha_x=2.0, length_scale_y=1.5) if not sparse else dict(alpha_s=0.5, alpha_x=2.0, alpha_y=3.0)
    reg = rg.Sparse(mh, **al) if sparse else rg.WeightedLeastSquares(mh, **{k: v for k, v in al.items() if mh.dim > 1 or k != "length_scale_y"})
    A, B = dr.SaveOutputEveryIteration(on_disk=False), dr.SaveOutputDictEveryIteration()
    inv, ip, opt = setup([A, B], reg=reg)
    ip.startup(np.r_[0.1, 0.2, 0.3])
    inv.directiveList.call("initialize")
    ref = []
    for it in range(1, 3):
        m = ctx.reals(f"m{it}", 3, lo=-1, hi=1)
        be = ctx.real(f"beta{it}", lo=0.1, hi=10)
        ip.beta = be
        ip.evalFunction(m, return_g=False, return_H=False)
        opt.f, opt.xc, opt.iter = ip.phi_d + be * ip.phi_m, m, it
        inv.directiveList.call("endIter")
        ref.append((m, be))
    for k, (m, be) in enumerate(ref):
        pd, pm = misfits()[0](m), reg(m)
        ctx.eq(f"beta{k}", A.beta[k], be)
        ctx.eq(f"phi_d{k}", A.phi_d[k], pd)
        ctx.eq(f"phi_m{k}", A.phi_m[k], pm)
        ctx.eq(f"phi{k}", A.phi[k], pd + be * pm)
        parts = {"small": 0.0, "x": 0.0, "y": 0.0, "z": 0.0}
        for mult, t in zip(reg.multipliers, reg.objfcts):
            if getattr(t, "orientation", None) is None:
                parts["small"] = parts["small"] + mult * t(m)
            elif "Second" not in type(t).__name__:
                parts[t.orientation] = parts[t.orientation] + mult * t(m)
        for p, q in parts.items():
            ctx.eq(f"{p}{k}", getattr(A, "phi_m_" + ("small" if p == "small" else "smooth_" + p))[k], q)
        D = B.outDict[k + 1]
        ctx.eq(f"dict_m{k}", D["m"], m)
        ctx.eq(f"dict{k}", np.r_[D["beta"], D["phi_d"], D["phi_m"], D["f"]], np.r_[be, pd, pm, pd + be * pm])
        ctx.eq(f"dict_dpred{k}", D["dpred"], misfits()[0].simulation.dpred(m))


@harness("C12")
def spherical_units(ctx):
    """angles are weighted by the largest amplitude over pi."""
    mh = mesh("t1:3")
    w = maps.Wires(("amp", 3), ("theta", 3), ("phi", 3))
    regs = [rg.Sparse(mh, mapping=w.amp), rg.Sparse(mh, mapping=w.theta), rg.Sparse(mh, mapping=w.phi)]
    for q in regs[1:]:
        for t in q.objfcts:
            t.units = "radian"
    d = dr.SphericalUnitsWeights(amplitude=w.amp, angles=regs[1:], verbose=False)
    G = np.hstack([GS[0], GS[0], GS[0]])
    sim = simulation.LinearSimulation(survey=qsurvey((4,)), G=G, model_map=maps.IdentityMap(nP=9))
    dm = data_misfit.L2DataMisfit(Data(sim.survey, np.ones(4), standard_deviation=0.5), sim)
    inv, ip, opt = setup([d], dm, regs[0] + regs[1] + regs[2], np.ones(9))
    for k in range(2):
        m = ctx.reals(f"m{k}", 9, lo=0.5 + k, hi=1.2 + k)
        ip.model = m
        d.initialize() if k == 0 else d.endIter()
        for r in regs[1:]:
            for t in r.objfcts:
                ctx.eq(f"scale{k}", t.get_weights("angle_scale") * np.pi, m[:3].max() * np.ones(3))
        ctx.check(f"amplitude{k}", all("angle_scale" not in t.weights_keys for t in regs[0].objfcts))


@harness("C12")
def order_is_validated(ctx):
    """orders of directives that would use outdated quantities are refused."""
    ctx.reals("unused", 1)
    U, B, S, I = dr.UpdateSensitivityWeights, dr.BetaEstimate_ByEig, dr.UpdatePreconditioner, dr.UpdateIRLS

    def fails(*ds):
        try:
            silent(setup, [k() for k in ds])
        except AssertionError:
            return True
        return False
    ctx.check("weights_before_beta", fails(B, U) and not fails(U, B))
    ctx.check("weights_before_preconditioner", fails(S, U) and not fails(U, S))
    ctx.check("irls_before_preconditioner", fails(S, I) and not fails(I, S))
    ctx.check("one_schedule", fails(I, dr.BetaSchedule))
    ctx.check("one_beta", fails(B, dr.BetaEstimateMaxDerivative))
