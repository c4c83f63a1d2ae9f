"""Richards equation: empirical curves, residual, sensitivities."""
import numpy as np
from discretize import TensorMesh
from simpeg import maps
from simpeg.flow import richards
from simpeg.flow.richards import empirical
from engine.registry import harness
from .pde import vdot

H1 = np.array([0.8, 1.0, 1.3])
PARAMS = dict(
    hk=("Haverkamp_k", dict(Ks=(0.5, 2.0), A=(1.0, 3.0), gamma=(1.2, 2.5))),
    ht=("Haverkamp_theta", dict(theta_r=(0.05, 0.1), theta_s=(0.3, 0.5), alpha=(1.0, 3.0), beta=(1.2, 2.5))),
    vk=("Vangenuchten_k", dict(Ks=(0.5, 2.0), I=(0.3, 1.5), n=(1.3, 2.5), alpha=(0.4, 1.2))),
    vt=("Vangenuchten_theta", dict(theta_r=(0.05, 0.1), theta_s=(0.3, 0.5), n=(1.3, 2.5), alpha=(0.4, 1.2))),
)
NUM = dict(Ks=np.array([0.8, 1.1, 1.7]), A=np.array([1.2, 2.0, 2.8]), gamma=np.array([1.3, 1.8, 2.2]), theta_r=np.array([0.06, 0.08, 0.09]), theta_s=np.array([0.35, 0.4, 0.45]),
           alpha=np.array([0.6, 0.8, 1.1]), beta=np.array([1.3, 1.8, 2.2]), I=np.array([0.5, 0.8, 1.2]), n=np.array([1.4, 1.8, 2.3]))


def mesh1(n=3, bc="dirichlet"):
    m = TensorMesh([H1[:n]])
    m.set_cell_gradient_BC(bc)
    return m


def curve(k, mh, wires, fixed):
    """an empirical curve whose parameters in `wires` (name -> map) are models."""
    cls = getattr(empirical, PARAMS[k][0])
    kw = {p: NUM[p][: mh.n_cells] for p in PARAMS[k][1] if p not in wires} if fixed == "array" else {p: float(NUM[p][0]) for p in PARAMS[k][1] if p not in wires}
    kw.update({p + "Map": w for p, w in wires.items()})
    return cls(mh, **kw)


CASES = {f"{k}-{p}": dict(k=k, p=p) for k in PARAMS for p in PARAMS[k][1]}


@harness("C22", params=CASES)
def richards_derivM(ctx, k, p):
    """Derivative of the curve with respect to each parameter, dry and wet cells."""
    mh = mesh1()
    c = curve(k, mh, {p: maps.IdentityMap(nP=3)}, "array")
    sym = p in ("Ks", "theta_r", "theta_s") or (k[0] == "h" and p in ("A", "alpha"))
    m = ctx.reals("m", 3, *PARAMS[k][1][p]) if sym else NUM[p]
    u = np.array([-0.7, -1.3, 0.4])
    v = ctx.reals("v", 3, lo=-1, hi=1)

    def f(x):
        c.model = x
        return c(u)

    _, d = ctx.dd(f, m, v)
    c.model = m
    ctx.eq("deriv", c.derivM(u) @ v, d, fd=True)


@harness("C22", params={f"{k}-{w}": dict(k=k, w=w) for k in PARAMS for w in ("array", "scalar")})
def richards_derivU(ctx, k, w):
    """Derivative with respect to the pressure head; the curves are continuous at saturation."""
    mh = mesh1()
    p = "theta_s" if k[1] == "t" else "Ks"
    c = curve(k, mh, {p: maps.IdentityMap(nP=3)}, w)
    m = ctx.reals("m", 3, *PARAMS[k][1][p])
    c.model = m
    v = ctx.reals("v", 3, lo=-1, hi=1)
    u = np.array([-0.7, 0.3, -1.6])
    _, d = ctx.dd(lambda x: c(x), u, v)
    ctx.eq("deriv", c.derivU(u) @ v, d, fd=True)
    up = ctx.reals("u", 3, lo=0.0, hi=3.0)
    sat = c(up)
    c0 = c(np.full(3, -1e-12))
    ctx.eq("saturated", sat, c0, rtol=1e-4, atol=1e-4)
    ctx.eq("flat", c.derivU(up) @ v + 1.0, np.ones(3))


@harness("C22", params={k: dict(k=k) for k in PARAMS})
def richards_all(ctx, k):
    """Several parameters inverted together: the derivative sums their contributions."""
    mh = mesh1(2)
    names = list(PARAMS[k][1])
    W = maps.Wires(*[(p, 2) for p in names])
    c = curve(k, mh, {p: getattr(W, p) for p in names}, "array")
    m = np.concatenate([NUM[p][:2] for p in names])
    v = ctx.reals("v", len(m), lo=-1, hi=1)
    u = np.array([-0.6, 0.2])

    def f(x):
        c.model = x
        return c(u)

    _, d = ctx.dd(f, m, v)
    c.model = m
    ctx.eq("deriv", c.derivM(u) @ v, d, fd=True)


def sim(mh, kind, method, newton, nt, wires, fixed="array", rx=True, tol=1e-13, solver=None):
    kf = curve(kind + "k", mh, {a[2:]: b for a, b in wires.items() if a[0] == "k"}, fixed)
    tf = curve(kind + "t", mh, {a[2:]: b for a, b in wires.items() if a[0] == "t"}, fixed)
    n = mh.n_cells
    if mh.dim == 1:
        bc = np.array([-0.9, -0.4])
        L = np.array([[0.5], [1.3]])
    else:
        bc = np.linspace(-0.9, -0.4, mh.cell_gradient_BC.shape[1])
        L = np.array([[0.5, 0.4], [0.9, 1.1]])[:, : mh.dim]
    T = np.cumsum([0.0] + DT[:nt])[1:]
    R = [richards.receivers.Saturation(L, T[-2:]), richards.receivers.Pressure(L[:1], T[:1] * 0.7 if nt == 1 else np.array([T[0] * 1.2, T[1] * 0.9]))] if rx else []
    return richards.SimulationNDCellCentered(
        mh, hydraulic_conductivity=kf, water_retention=tf, boundary_conditions=bc, initial_conditions=np.linspace(-0.8, -0.5, n), time_steps=DT[:nt],
        method=method, do_newton=newton, root_finder_tol=tol, root_finder_max_iter=60, survey=richards.Survey(R) if rx else None, solver=solver)


DT = [0.05, 0.1, 0.07]


@harness("C22", params={f"{k}-{me}-{b}": dict(kind=k, method=me, bc=b) for k in "hv" for me in ("mixed", "head") for b in ("dirichlet", "neumann")})
def richards_residual(ctx, kind, method, bc):
    """The residual is mass balance: storage change minus Darcy fluxes with harmonic conductivities and gravity."""
    mh = mesh1(3, bc)
    s = sim(mh, kind, method, True, 1, {}, rx=False, fixed="scalar")
    hn = ctx.reals("a", 3, lo=-1.0, hi=-0.5)
    h = ctx.reals("h", 3, lo=-1.0, hi=-0.5)
    if kind == "v":
        h = np.array([-0.8, -0.55, -0.7])
        hn = np.array([-0.6, -0.75, -0.9])
    q = ctx.reals("q", 2, lo=-1.0, hi=1.0)
    dt = ctx.real("dt", lo=0.01, hi=1.0)
    r = s.getResidual(None, hn, h, dt, q, return_g=False)
    th, k = s.water_retention, s.hydraulic_conductivity
    K = k(h)
    # faces: half the inverse of each neighbour; on the boundary only one neighbour
    inv = 1.0 / K
    if method == "mixed":
        st = (th(h) - th(hn)) / dt
    else:
        st = th.derivU(h) @ ((h - hn) / dt)
    g = mh.cell_gradient @ h + mh.cell_gradient_BC @ q
    A = mh.average_face_to_cell.T.toarray()
    Kf = [1.0 / sum(A[i, j] * inv[j] for j in range(3)) for i in range(4)]
    flux = [Kf[i] * (g[i] + 1.0) for i in range(4)]
    ref = [st[i] - (flux[i + 1] - flux[i]) / H1[i] for i in range(3)]
    ctx.eq("mass_balance", r, np.array(ref))
    # gradient inside the domain
    ctx.eq("gradient", g[1:3], np.array([(h[1] - h[0]) / (H1[0] + H1[1]) * 2, (h[2] - h[1]) / (H1[1] + H1[2]) * 2]))


@harness("C22", params={f"{k}-{d}": dict(kind=k, dim=d) for k in "hv" for d in (1, 2, 3)})
def richards_newton(ctx, kind, dim):
    """The Newton matrix is the derivative of the residual."""
    mh = TensorMesh([H1[:3]]) if dim == 1 else TensorMesh([H1[:2], H1[1:3]] if dim == 2 else [H1[:2], H1[:1], H1[1:3]])
    mh.set_cell_gradient_BC("dirichlet")
    s = sim(mh, kind, "mixed", True, 1, {}, rx=False, fixed="scalar")
    n = mh.n_cells
    h, hn = np.linspace(-0.9, -0.4, n), np.linspace(-0.5, -0.8, n)
    v = ctx.reals("v", n, lo=-1, hi=1)
    q = ctx.reals("q", mh.cell_gradient_BC.shape[1], lo=-1.0, hi=1.0)
    r, J = s.getResidual(None, hn, h, 0.1, q)
    r0, d = ctx.dd(lambda x: s.getResidual(None, hn, x, 0.1, q, return_g=False), h, v)
    ctx.eq("newton", J @ v, d, fd=True)
    ctx.eq("r", r, r0)
    # the parts used by the sensitivities
    Asub, Adiag, B = s.diagsJacobian(None, hn, h, 0.1, q)
    ctx.eq("Adiag", Adiag @ v, d, fd=True)
    _, d2 = ctx.dd(lambda x: s.getResidual(None, x, h, 0.1, q, return_g=False), hn, v)
    ctx.eq("Asub", Asub @ v, d2, fd=True)


def model(names, n, W):
    return np.concatenate([NUM[p[2:]][:n] for p in names])


@harness("C22", params={k: dict(kind=a, names=b, nt=c, newton=d, dim=e) for k, (a, b, c, d, e) in {
    "hKs": ("h", ["k_Ks"], 1, True, 1), "hKs3": ("h", ["k_Ks"], 3, True, 1), "htheta": ("h", ["t_theta_s", "t_alpha"], 2, True, 1), "hboth": ("h", ["k_A", "t_beta"], 2, True, 1),
    "vKs": ("v", ["k_Ks"], 2, True, 1), "vboth": ("v", ["k_n", "t_alpha"], 2, True, 1), "hpicard": ("h", ["k_Ks", "t_theta_r"], 2, False, 1), "h2": ("h", ["k_Ks", "t_alpha"], 2, True, 2)}.items()})
def richards_sens(ctx, kind, names, nt, newton, dim):
    """Fields satisfy the residual at every step; Jvec is the derivative of the data, Jtvec its transpose and Jfull the matrix."""
    mh = mesh1() if dim == 1 else TensorMesh([H1[:2], H1[1:3]])
    mh.set_cell_gradient_BC("dirichlet")
    n = mh.n_cells
    W = maps.Wires(*[(p, n) for p in names])
    num = lambda p: np.r_[NUM[p[2:]], NUM[p[2:]][0]][:n]
    m = np.concatenate([num(p) for p in names])
    mk = lambda: sim(mh, kind, "mixed", newton, nt, {p: getattr(W, p) for p in names}, "scalar", solver=ctx.solver)
    s1, s2 = mk(), mk()
    v = ctx.reals("v", len(m), lo=-1, hi=1)
    w = ctx.reals("w", s1.survey.nD, lo=-1, hi=1)
    f = s2.fields(m)
    for i in range(nt):
        r = s2.getResidual(m, f[i], f[i + 1], DT[i], s2.boundary_conditions, return_g=False)
        ctx.eq(f"solved{i}", r + 1.0, np.ones(n))
    d0, d1 = ctx.dd(lambda x: s1.dpred(x), m, v)
    Jv = s2.Jvec(m, v, f=f)
    ctx.eq("dpred", s2.dpred(m, f=f), d0)
    ctx.eq("jvec", Jv, d1, fd=True, rtol=1e-6)
    ctx.eq("adjoint", vdot(w, Jv), vdot(v, s2.Jtvec(m, w, f=f)))
    ctx.eq("adjoint_nof", s2.Jtvec(m, w), s2.Jtvec(m, w, f=f))
    ctx.eq("full", s2.Jfull(m) @ v, Jv, rtol=1e-6)


@harness("C22", params={f"{k}-{w}": dict(k=k, w=w) for k in PARAMS for w in ("neg", "mixed")})
def richards_values(ctx, k, w):
    """The documented curves, for every parameter and pressure head."""
    mh = mesh1()
    names = list(PARAMS[k][1])
    W = maps.Wires(*[(p, 3) for p in names])
    c = curve(k, mh, {p: getattr(W, p) for p in names}, "array")
    pow_ = {"gamma", "beta", "n", "I"}
    parts = [np.array(NUM[p]) if p in pow_ else ctx.reals(p, 3, *PARAMS[k][1][p]) for p in names]
    P = dict(zip(names, parts))
    c.model = np.concatenate(parts)
    u = ctx.reals("u", 3, lo=-2.0, hi=-0.1)
    if w == "mixed":
        u = np.concatenate([u[:1], ctx.reals("x", 1, lo=0.0, hi=1.0), u[2:]])
    got = c(u)
    out = []
    for i in range(3):
        p = {a: b[i] for a, b in P.items()}
        h = -u[i]
        if w == "mixed" and i == 1:
            out.append(p["theta_s"] if k[1] == "t" else p["Ks"])
        elif k == "ht":
            out.append(p["theta_r"] + p["alpha"] * (p["theta_s"] - p["theta_r"]) / (p["alpha"] + h ** p["beta"]))
        elif k == "hk":
            out.append(p["Ks"] * p["A"] / (p["A"] + h ** p["gamma"]))
        elif k == "vt":
            out.append(p["theta_r"] + (p["theta_s"] - p["theta_r"]) / (1.0 + (p["alpha"] * h) ** p["n"]) ** (1.0 - 1.0 / p["n"]))
        else:
            mm = 1.0 - 1.0 / p["n"]
            te = 1.0 / (1.0 + (p["alpha"] * h) ** p["n"]) ** mm
            out.append(p["Ks"] * te ** p["I"] * (1.0 - (1.0 - te ** (1.0 / mm)) ** mm) ** 2)
    ctx.eq("value", got, np.array(out))
