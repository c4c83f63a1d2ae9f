"""Viscous remanent magnetization and straight ray tomography."""
import numpy as np
import scipy.sparse as sp
from discretize import TensorMesh
from geoana.em.static import CircularLoopWholeSpace, MagneticDipoleWholeSpace, LineCurrentFreeSpace
from geoana.gravity import Prism
from simpeg import maps, survey as base_survey
from simpeg.electromagnetics import viscous_remanent_magnetization as vrm
from simpeg.electromagnetics.viscous_remanent_magnetization import receivers, sources, waveforms
from simpeg.seismic import straight_ray_tomography as tomo
from engine.registry import harness
from .common import mesh
from .pde import sens, vdot

MU0 = 4 * np.pi * 1e-7
T1, T2 = np.array([1e-3, 2.5e-3, 6e-3]), np.array([2e-3, 4e-3])


def waves(k):
    return dict(
        step=lambda: waveforms.StepOff(t0=1e-4),
        square=lambda: waveforms.SquarePulse(delt=2e-3, t0=1e-4),
        disc=lambda: waveforms.ArbitraryDiscrete(np.array([-3e-3, -2e-3, -1e-3, 0.0]), np.array([0.0, 1.0, 0.4, 0.0])),
        piece=lambda: waveforms.ArbitraryPiecewise(np.array([-3e-3, -2e-3, -1e-3, 0.0]), np.array([0.0, 1.0, 0.4, 0.0])),
    )[k]()


class Uniform(sources.BaseSrcVRM):
    """A source with a uniform field that asks for refinement of chosen cells."""

    def __init__(self, rx, wave, flags):
        super().__init__(rx, np.zeros(3), wave)
        self.flags = np.asarray(flags)

    def getH0(self, xyz):
        return np.tile(np.array([[0.3, -0.7, 1.1]]), (len(xyz), 1))

    def _getRefineFlags(self, xyzc, factor, dist):
        return self.flags


def rxs(kind, fts="db", off=0.0):
    L = np.array([[0.1, 0.2, 1.3], [-0.3, 0.4, 1.6]]) + off
    out = []
    for i, c in enumerate(kind):
        ft = ("dbdt", "dhdt")[i % 2] if fts == "db" else fts[i]
        T = (T1, T2)[i % 2]
        if c in "xyz":
            out.append(receivers.Point(L[: 2 - i % 2] + 0.1 * i, T, ft, orientation=c))
        else:
            out.append(receivers.SquareLoop(L[i % 2:] + 0.1 * i, T, ft, orientation=c.lower(), width=0.4 + 0.1 * i, n_turns=1 + i, quadrature_order=1 + i))
    return out


def src(k, rx, wave):
    if k == "d":
        return sources.MagDipole(rx, np.array([0.1, -0.2, 1.5]), np.array([0.3, 1.0, -0.5]), wave)
    if k == "c":
        return sources.CircLoop(rx, np.array([0.1, -0.2, 1.1]), 0.8, np.array([30.0, 50.0]), 2.0, wave)
    return sources.LineCurrent(rx, np.array([[-0.6, -0.5, 1.2], [0.7, -0.4, 1.3], [0.5, 0.8, 1.1], [-0.6, -0.5, 1.2]]), 1.5, wave)


def oracle_A(sim, s):
    """A matrix of one source, receiver by receiver (rows in receiver order)."""
    rows = []
    for r in s.receiver_list:
        for i in range(len(r.locations)):
            kw = dict(locations=r.locations[i:i + 1], times=r.times, field_type=r.field_type, orientation=r.orientation)
            if isinstance(r, receivers.SquareLoop):
                one = receivers.SquareLoop(width=r.width, n_turns=r.n_turns, quadrature_order=r.quadrature_order, **kw)
            else:
                one = receivers.Point(**kw)
            c = type(s)
            o = object.__new__(c)
            o.__dict__.update(s.__dict__)
            o.receiver_list = [one]
            rows.append((r, vrm.Simulation3DLinear(sim.mesh, survey=vrm.Survey([o]), refinement_distance=sim.refinement_distance, active_cells=sim.active_cells).A[0]))
    return rows


@harness("C21", params={k: dict(srcs=a, wave=w, mp=b, act=c, ref=d, sel=e) for k, (a, w, b, c, d, e) in {
    "dip": ("d", "step", "id", False, 0, None), "loop-act": ("c", "square", "exp", True, 1, None), "line": ("l", "piece", "id", False, 2, None),
    "two": ("dc", "step", "exp", True, 1, None), "sel": ("dl", "square", "id", False, 0, (2e-3, 5e-3)), "selinit": ("d", "disc", "id", False, 1, "init")}.items()})
def vrm_linear(ctx, srcs, wave, mp, act, ref, sel):
    """Data = decay x geometry x model in survey order, restricted to the active times; exact Jvec and Jtvec."""
    mh = mesh("t3:2x2x2")
    a = np.ones(8, dtype=bool)
    if act:
        a[[1, 6]] = False
    n = int(a.sum())
    kinds = ["zX", "yZx", "Y"]

    def survey():
        S = [src(k, rxs(kinds[i]), waves(wave)) for i, k in enumerate(srcs)]
        if sel == "init":
            nd = sum(r.nD for s in S for r in s.receiver_list)
            return vrm.Survey(S, t_active=np.arange(nd) % 3 != 1)
        sv = vrm.Survey(S)
        if sel:
            sv.set_active_interval(*sel)
        return sv

    M = dict(id=maps.IdentityMap, exp=maps.ExpMap)[mp]
    mk = lambda: vrm.Simulation3DLinear(mh, survey=survey(), xiMap=M(nP=n), active_cells=a, refinement_distance=np.array([0.9, 1.3, 1.5])[:ref])
    sims = [mk(), mk()]
    for s in sims:
        s.A, s.T
    sv = sims[0].survey
    T = []
    for s in sv.source_list:
        for r, A in oracle_A(sims[0], s):
            eta = s.waveform.getCharDecay(r.field_type, r.times)
            for t in range(len(r.times)):
                T.append((r.times[t], eta[t] * A))
    times = np.array([t for t, _ in T])
    G = np.array([g for _, g in T])
    keep = np.ones(len(times), dtype=bool)
    if sel == "init":
        keep = np.arange(len(times)) % 3 != 1
    elif sel:
        keep = (times >= sel[0]) & (times <= sel[1])
    G = G[keep]
    sc = 1.0 / np.abs(G).max()
    ctx.check("nD", sv.nD == len(G))
    m = ctx.reals("m", n, lo=0.2, hi=2.0)
    v = ctx.reals("v", n, lo=-1, hi=1)
    w = ctx.reals("w", len(G), lo=-1, hi=1)
    x = m if mp == "id" else np.exp(m)
    ctx.eq("forward", sc * sims[0].dpred(m), sc * (G @ x))
    d0, d1 = ctx.dd(lambda y: sims[0].dpred(y), m, v)
    Jv = sims[1].Jvec(m, v)
    ctx.eq("jvec", sc * Jv, sc * d1, fd=True)
    ctx.eq("adjoint", sc * vdot(w, Jv), sc * vdot(v, sims[1].Jtvec(m, w)))


@harness("C21", params={k: dict(kind=k) for k in ("zX", "xZ", "yYz")})
def vrm_refine(ctx, kind):
    """Subdividing cells does not change the data of a uniform source field."""
    mh = mesh("t3:2x2x2")
    W = waves("step")
    R = rxs(kind, off=0.0137)
    f = np.array([0, 1, 2, 0, 1, 0, 2, 1])
    s1 = vrm.Simulation3DLinear(mh, survey=vrm.Survey([Uniform(R, W, f)]), refinement_distance=np.array([1.0, 2.0]))
    s0 = vrm.Simulation3DLinear(mh, survey=vrm.Survey([Uniform(R, W, 0 * f)]), refinement_distance=np.zeros(0))
    for s in (s0, s1):
        s.A, s.T
    sc = 1.0 / np.abs(s0.A).max()
    m = ctx.reals("m", 8, lo=0.2, hi=2.0)
    # 1e-10 regularisations inside the kernels
    ctx.eq("uniform", sc * (s1.A @ m), sc * (s0.A @ m), rtol=1e-7)


@harness("C21", params={o: dict(o=o) for o in "xyz"})
def vrm_kernel(ctx, o):
    """The field of uniformly magnetized cells (any magnetization) is that of the analytic prism; loops integrate it."""
    mh = mesh("t3:2x2x2")
    L = np.array([[0.13, 0.21, 1.3], [2.3, 0.4, -0.6]])
    nodes = [np.r_[mh.origin[i], mh.origin[i] + np.cumsum(mh.h[i])] for i in range(3)]
    xyzc, xyzh = mh.cell_centers, mh.h_gridded
    i = "xyz".index(o)
    Go = np.zeros((2, 3, 8))
    for j in range(8):
        p = Prism(xyzc[j] - xyzh[j] / 2, xyzc[j] + xyzh[j] / 2, rho=1.0)
        from scipy.constants import G as GC
        Go[:, :, j] = p.gravitational_gradient(L)[:, i, :] / (4 * np.pi * GC)
    m = ctx.reals("m", 24, lo=-1.0, hi=1.0)
    pt = receivers.Point(L, T1, "dbdt", orientation=o)
    sim = vrm.Simulation3DLinear(mh, survey=vrm.Survey([Uniform([pt], waves("step"), np.zeros(8, int))]), refinement_distance=np.zeros(0))
    G = sim._getGeometryMatrix(xyzc, xyzh, 0)
    ctx.eq("prism", G @ m, Go.reshape(2, 24) @ m, rtol=1e-7)
    # a loop: Gauss quadrature over its area
    for q in range(1, 8):
        lp = receivers.SquareLoop(L, T1, "dbdt", orientation=o, width=0.3, n_turns=3, quadrature_order=q)
        sim = vrm.Simulation3DLinear(mh, survey=vrm.Survey([Uniform([lp], waves("step"), np.zeros(8, int))]), refinement_distance=np.zeros(0))
        x, w = np.polynomial.legendre.leggauss(q)
        ref = 0.0
        e1, e2 = np.delete(np.eye(3), i, axis=0)
        for a in range(q):
            for b in range(q):
                P = L + 0.15 * (x[a] * e1 + x[b] * e2)
                pt = receivers.Point(P, T1, "dbdt", orientation=o)
                sp_ = vrm.Simulation3DLinear(mh, survey=vrm.Survey([Uniform([pt], waves("step"), np.zeros(8, int))]), refinement_distance=np.zeros(0))
                ref = ref + 3 * 0.15**2 * w[a] * w[b] * sp_._getGeometryMatrix(xyzc, xyzh, 0)
        ctx.eq(f"loop{q}", sim._getGeometryMatrix(xyzc, xyzh, 0) @ m * 4, ref @ m * 4, rtol=3e-5, atol=3e-5)


@harness("C21")
def vrm_sources(ctx):
    """Source fields equal the analytic fields, for every moment and current."""
    X = np.array([[0.7, 0.3, -0.4], [-0.5, 0.9, 0.2], [0.2, -0.8, -1.0]])
    r0 = np.array([0.1, -0.2, 1.1])
    q = ctx.reals("q", 3, lo=-2.0, hi=2.0)
    I = ctx.real("I", lo=0.1, hi=3.0)
    W = waves("step")
    d = sources.MagDipole([], r0, np.array([1.0, 0.0, 0.0]), W)
    d._moment = q
    ref = 0.0
    for k in range(3):
        g = MagneticDipoleWholeSpace(location=r0, orientation="xyz"[k], moment=1.0, mu=1.0)
        ref = ref + q[k] * g.magnetic_field(X)
    ctx.eq("dipole", 100 * d.getH0(X), 100 * ref)
    for th, al in ((30.0, 50.0), (0.0, 0.0), (90.0, 20.0), (120.0, -70.0)):
        c = sources.CircLoop([], r0, 0.8, np.array([th, al]), 1.0, W)
        c.Imax = I
        t, a = np.deg2rad(th), np.deg2rad(al)
        nrm = np.array([np.sin(t) * np.sin(a), np.sin(t) * np.cos(a), np.cos(t)])
        g = CircularLoopWholeSpace(radius=0.8, current=1.0, location=r0, orientation=nrm, mu=1.0)
        ctx.eq(f"loop{th:g}", 100 * c.getH0(X), 100 * I * g.magnetic_field(X), rtol=1e-6)
    P = np.array([[-0.6, -0.5, 1.2], [0.7, -0.4, 1.3], [0.5, 0.8, 1.1]])
    l = sources.LineCurrent([], P, 1.0, W)
    l.Imax = I
    g = LineCurrentFreeSpace(P, current=1.0, mu=1.0)
    ctx.eq("line", 100 * l.getH0(X), 100 * I * g.magnetic_field(X), rtol=1e-6)


# the decay functions
SHORT = dict(disc=(np.array([-4e-5, -3e-5, -2e-5, 0.0]), np.array([0.0, 1.0, 0.4, 0.0])), piece=(np.array([-3e-3, -2e-3, -1e-3, 0.0]), np.array([0.0, 2.0, 0.8, 0.0])))


@harness("C21", params={k: dict(k=k) for k in ("square", "piece", "disc")})
def vrm_decay(ctx, k):
    """dh/dt data are the time derivative of h data, b and db/dt are mu0 times h and dh/dt."""
    W = waves(k) if k == "square" else dict(disc=waveforms.ArbitraryDiscrete, piece=waveforms.ArbitraryPiecewise)[k](*SHORT[k])
    t = ctx.reals("t", 1, lo=1.0, hi=2.0)
    tt = lambda x: np.concatenate([np.array([0.9]), x]) * 1e-3
    _, d = ctx.dd(lambda x: W.getCharDecay("h", tt(x))[1:], t, np.array([1.0]))
    ctx.eq("derivative", 1e-3 * W.getCharDecay("dhdt", tt(t))[1:], d, fd=True)
    ctx.eq("b", W.getCharDecay("b", tt(t)) / MU0, W.getCharDecay("h", tt(t)))
    ctx.eq("dbdt", 1e-3 * W.getCharDecay("dbdt", tt(t)) / MU0, 1e-3 * W.getCharDecay("dhdt", tt(t)))


@harness("C21")
def vrm_decay_shapes(ctx):
    """The waveforms agree with each other: a pulse is a difference of steps, and a piecewise linear current superposes."""
    t = ctx.reals("t", 2, lo=1.0, hi=2.0) * 1e-3
    st, sq = waveforms.StepOff(t0=1e-4), waveforms.SquarePulse(delt=2e-3, t0=1e-4)
    for ft in ("dhdt", "dbdt"):
        late = waveforms.StepOff(t0=1e-4 - 2e-3)
        s = 1e-3 / (MU0 if ft == "dbdt" else 1.0)
        ctx.eq("pulse_" + ft, s * sq.getCharDecay(ft, t), s * (st.getCharDecay(ft, t) - late.getCharDecay(ft, t)))
    # a trapezoid and its two triangles
    tw = np.array([-3e-3, -2e-3, -1e-3, 0.0])
    P = waveforms.ArbitraryPiecewise
    for ft in ("h", "dhdt"):
        s = 1.0 if ft == "h" else 1e-3
        whole = P(tw, np.array([0.0, 1.0, 1.0, 0.0])).getCharDecay(ft, t)
        first = P(tw[:3], np.array([0.0, 1.0, 0.0])).getCharDecay(ft, t)
        second = P(tw[1:], np.array([0.0, 1.0, 0.0])).getCharDecay(ft, t)
        ctx.eq("superpose_" + ft, s * whole, s * (first + second))


@harness("C21", params=dict(piece=dict(k="piece"), disc=dict(k="disc")))
def vrm_decay_value(ctx, k):
    """The decay of a piecewise linear current is the integral of I(tau) / (t - tau), for every current."""
    tw = np.array([-3e-3, -2e-3, -1.5e-3, 0.0])
    I = ctx.reals("I", 2, lo=0.5, hi=1.0)
    W = dict(disc=waveforms.ArbitraryDiscrete, piece=waveforms.ArbitraryPiecewise)[k](tw, np.array([0.0, 1.0, 1.0, 0.0]))
    times = np.array([2e-3, 5e-3])
    ctx.assume(I[0] > I[1])
    W._I_wave = np.concatenate([[0.0], I, [0.0]])
    e = W.getCharDecay("h", times)
    g = np.concatenate([[0.0], I / I[0], [0.0]])
    ref = 0.0
    for i in range(3):
        a, b = tw[i], tw[i + 1]
        # int_a^b (g_i + s (x - a)) / (t - x) dx
        sl = (g[i + 1] - g[i]) / (b - a)
        ref = ref + (g[i] + sl * (times - a)) * np.log((times - a) / (times - b)) - sl * (b - a)
    # the discrete form interpolates at 25 points per earliest time
    ctx.eq("value", e, ref, rtol=1e-6 if k == "piece" else 2e-3)


@harness("C21", params={k: dict(k=k) for k in ("step", "square")})
def vrm_loguniform(ctx, k):
    """Decay of a log-uniform distribution of relaxation times."""
    W = waves(k)
    t = ctx.reals("t", 2, lo=1.0, hi=2.0)
    dchi = ctx.reals("dchi", 2, lo=0.1, hi=1.0)
    chi0 = ctx.reals("chi", 2, lo=1.0, hi=2.0)
    t1, t2 = np.array([1e-4, 2e-4]), np.array([3e-3, 4e-2])
    f = lambda ft, x, W=W: W.getLogUniformDecay(ft, x * 1e-3, chi0, dchi, t1, t2)
    ctx.eq("dbdt", 1e-3 * f("dbdt", t) / MU0, 1e-3 * f("dhdt", t))
    if k == "square":
        _, d = ctx.dd(lambda x: f("h", x), t, np.array([1.0, 1.0]))
        ctx.eq("derivative", 1e-3 * f("dhdt", t), d, fd=True)
        ctx.eq("b", f("b", t) / MU0, f("h", t))
        st, late = waveforms.StepOff(t0=1e-4), waveforms.StepOff(t0=1e-4 - 2e-3)
        ctx.eq("pulse", 1e-3 * f("dhdt", t), 1e-3 * (f("dhdt", t, st) - f("dhdt", t, late)))
    else:
        x = t * 1e-3 - 1e-4
        ref = [[-dchi[i] / np.log(t2[i] / t1[i]) * (np.exp(-x[j] / t2[i]) - np.exp(-x[j] / t1[i])) / x[j] for j in range(2)] for i in range(2)]
        ctx.eq("value", 1e-3 * f("dhdt", t), 1e-3 * np.array(ref))


@harness("C21", params={k: dict(kinds=k) for k in ("z", "zX", "yZx", "z|xY")})
def vrm_loguniform_sim(ctx, kinds):
    """Log-uniform data: every receiver's rows, in survey order."""
    mh = mesh("t3:2x1x2")
    S = [src("dc"[i], rxs(k), waves("step")) for i, k in enumerate(kinds.split("|"))]
    mk = lambda cls, **kw: cls(mh, survey=vrm.Survey(S), refinement_distance=np.array([0.9]), **kw)
    lin = mk(vrm.Simulation3DLinear)
    t1, t2 = np.array([1e-5, 2e-4, 3e-5, 1e-4]), np.array([3e-3, 4e-2, 1e-2, 2e-3])
    sim = mk(vrm.Simulation3DLogUniform, tau1=t1, tau2=t2)
    sim.A
    A = [oracle_A(lin, s) for s in S]
    dchi = ctx.reals("dchi", 4, lo=0.1, hi=1.0)
    chi0 = ctx.reals("chi", 4, lo=1.0, hi=2.0)
    sim.dchi, sim.chi0 = dchi, chi0
    out = []
    for s, rows in zip(S, A):
        for r in s.receiver_list:
            eta = s.waveform.getLogUniformDecay(r.field_type, r.times, chi0, dchi, t1, t2)
            for rr, g in rows:
                if rr is r:
                    out.append(g @ eta)
    ref = np.concatenate(out)
    got = sim.dpred()
    ctx.check("size", len(got) == len(ref))
    ctx.eq("data", got * 1e6, ref * 1e6)


# ------------------------------------------------------------------ tomography
def tomo_sim(tx, rx, m=None, **kw):
    mh = m if m is not None else mesh("t2:3x2")
    S = [base_survey.BaseSrc([base_survey.BaseRx(r) for r in R], location=t) for t, R in zip(tx, rx)]
    return tomo.Simulation(mh, survey=tomo.Survey(S), slownessMap=kw.pop("slownessMap", maps.IdentityMap(nP=mh.n_cells)), **kw)


@harness("C21", params=dict(id=dict(mp="id"), exp=dict(mp="exp"), rec=dict(mp="rec")))
def tomo_sens(ctx, mp):
    tx = [np.array([-0.7, -0.5]), np.array([2.2, 0.9])]
    rx = [[np.array([[2.3, 1.0], [1.1, -0.55]]), np.array([[0.5, 0.9]])], [np.array([[-0.6, -0.4]])]]
    M = dict(id=maps.IdentityMap, exp=maps.ExpMap, rec=maps.ReciprocalMap)[mp]
    sims = [tomo_sim(tx, rx, slownessMap=M(nP=6)) for _ in range(2)]
    for s in sims:
        s.A
    m = ctx.reals("m", 6, lo=0.5, hi=2.0)
    v = ctx.reals("v", 6, lo=-1, hi=1)
    w = ctx.reals("w", 4, lo=-1, hi=1)
    sens(ctx, sims, m, v, w)
    # order: source, receiver, location
    x = dict(id=lambda: m, exp=lambda: np.exp(m), rec=lambda: 1.0 / m)[mp]()
    out = []
    for t, R in zip(tx, rx):
        for r in R:
            for l in r:
                out.append(tomo_sim([t], [[l[None, :]]]).A @ x)
    ctx.eq("order", sims[0].dpred(m), np.concatenate(out))


def clip(O, E, x, y):
    """length of the segment O-E inside the box (independent of the code)."""
    D = E - O
    lo, hi = 0.0, 1.0
    for k, (a, b) in enumerate((x, y)):
        if D[k] == 0:
            if O[k] < a or O[k] > b:
                return 0.0
        else:
            s, e = sorted([(a - O[k]) / D[k], (b - O[k]) / D[k]])
            lo, hi = max(lo, s), min(hi, e)
    return max(0.0, hi - lo) * np.sqrt((D**2).sum())


RAYS = {"across": ([-0.7, -0.5], [2.3, 1.0]), "down": ([1.4, 1.1], [-0.5, -0.55]), "horizontal": ([-0.7, 0.3], [2.2, 0.3]), "vertical": ([0.9, -0.5], [0.9, 1.0]),
        "inside": ([0.4, 0.0], [0.9, 0.3]), "up": ([2.3, -0.55], [-0.7, 1.1]), "nodes": ([-0.8, -0.6], [0.2, 1.15]), "corner": ([-0.8, 0.9], [1.2, -0.6]), "hface": ([-0.7, "y1"], [2.2, "y1"]), "vface": (["x1", -0.5], ["x1", 1.0]), "vface2": (["x2", 1.1], ["x2", -0.3]), "border": ([-0.8, -0.5], [-0.8, 1.0]), "top": ([-0.5, 1.15], [1.9, 1.15])}


@harness("C21", params={k: dict(k=k) for k in RAYS})
def tomo_ray(ctx, k):
    """The travel time is the integral of the slowness along the ray: each cell contributes the length of the ray inside it."""
    mh = mesh("t2:3x2")
    node = dict(x1=mh.nodes_x[1], x2=mh.nodes_x[2], y1=mh.nodes_y[1])
    O, E = (np.array([node.get(q, q) for q in a]) for a in RAYS[k])
    m = ctx.reals("m", 6, lo=0.5, hi=2.0)
    s = tomo_sim([O], [[E[None, :]]])
    s.A
    L = []
    for j in range(2):
        for i in range(3):
            L.append(clip(O, E, mh.nodes_x[[i, i + 1]], mh.nodes_y[[j, j + 1]]))
    L = np.array(L)
    if "face" in k:
        # on the face between cells: any split between the two
        d = s.dpred(m)[0]
        A = s.A.toarray()[0]
        one = np.ones(6)
        c = ctx.real("c", lo=0.5, hi=2.0)
        ctx.eq("uniform", (s.A @ (c * one))[0], c * np.sqrt(((E - O) ** 2).sum()))
        ctx.check("nonneg", (A >= 0).all() and (A[L == 0] == 0).all())
        return
    ctx.eq("time", s.dpred(m)[0], vdot(L, m))
