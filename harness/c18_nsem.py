"""Natural source EM: finite volume simulations in 1D, 2D and 3D, and the receivers (impedance, tipper, admittance, ...)."""
import numpy as np
import scipy.sparse as sp
from discretize import TensorMesh
from simpeg import maps
from simpeg.electromagnetics import natural_source as ns
from simpeg.electromagnetics.frequency_domain import Survey
from scipy.constants import mu_0
from engine.registry import harness
from .common import mesh, warm
from .pde import sens, vdot

R = ns.receivers
FREQ = (0.3, 0.11)


# ------------------------------------------------------------------ simulations
def linear(base):
    """A receiver of class `base` (the simulations check classes) whose data are Re/Im of fixed linear
    functionals of the electric and of the magnetic field."""

    class Linear(base):
        def _coef(self, n, k):
            i = np.arange(self.nD)[:, None] + 1.0
            j = np.arange(n)[None, :] + 1.0
            return np.cos(1.3 * i * j + k) + 1j * np.sin(0.7 * i + 2.1 * j + k) * (self._component != "real" or k)

        def eval(self, src, mesh, f):
            e, h = f[src, "e"], f[src, "h"]
            out = 0.0
            for p in range(2 if mesh.dim == 3 else 1):
                out = out + self._coef(e.shape[0], 0.0 + p) @ e[:, p] + self._coef(h.shape[0], 2.0 + p) @ h[:, p]
            return getattr(out, self.component)

        def evalDeriv(self, src, mesh, f, du_dm_v=None, v=None, adjoint=False):
            ne, nh, npol = f[src, "e"].shape[0], f[src, "h"].shape[0], 2 if mesh.dim == 3 else 1
            if adjoint:
                if self.component == "imag":
                    v = -1j * v
                ge = [self._coef(ne, 0.0 + p).T @ v for p in range(npol)]
                gh = [self._coef(nh, 2.0 + p).T @ v for p in range(npol)]
                ge = ge[0] if npol == 1 else np.stack(ge, axis=-1)
                gh = gh[0] if npol == 1 else np.stack(gh, axis=-1)
                a, b = f._eDeriv(src, None, ge, adjoint=True)
                c, d = f._hDeriv(src, None, gh, adjoint=True)
                return a + c, b + d
            de = f._eDeriv(src, du_dm_v, v, adjoint=False)
            dh = f._hDeriv(src, du_dm_v, v, adjoint=False)
            if npol == 1:
                out = self._coef(ne, 0.0) @ de + self._coef(nh, 2.0) @ dh
            else:
                out = 0.0
                for p in range(npol):
                    out = out + self._coef(ne, 0.0 + p) @ de[:, p] + self._coef(nh, 2.0 + p) @ dh[:, p]
            return getattr(out, self.component)

    return Linear


LI, LT = linear(R.Impedance), linear(R.Tipper)


def kwmap(phys, n, smap):
    M = dict(id=maps.IdentityMap, exp=maps.ExpMap)[smap]
    if phys == "sigma":
        return dict(sigmaMap=M(nP=n), mu=1.3), n
    if phys == "rho":
        return dict(rhoMap=M(nP=n), mu=1.3), n
    if phys == "sigmav":
        return dict(sigmaMap=M(nP=n), mu=np.linspace(1.1, 1.6, n)), n
    if phys == "mu":
        return dict(muMap=M(nP=n), sigma=np.linspace(0.5, 0.8, n)), n
    if phys == "mui":
        return dict(muiMap=M(nP=n), sigma=np.linspace(0.5, 0.8, n)), n
    if phys == "mus":
        return dict(muMap=M(nP=n), rho=0.7), n
    w = maps.Wires(("s", n), ("m", n))
    return dict(sigmaMap=M(nP=n) * w.s, muMap=M(nP=n) * w.m), 2 * n


def fv(kind, mk, phys="sigma", smap="id", nf=1, bc=False):
    mh = warm(mesh(mk)) if mk.startswith("tree") else mesh(mk)
    n = mh.n_cells
    kw, nP = kwmap(phys, n, smap)
    L = np.linspace(0.1, 0.4, 2 * mh.dim).reshape(2, -1)
    src = ns.sources.Planewave if kind != "ps" else ns.sources.PlanewaveXYPrimary
    fr = FREQ if kind != "ps" else (2e5, 0.9e5)
    o = dict(xy="xy", yx="yx")[{"1e": "yx", "1h": "xy", "2e": "xy", "2h": "yx", "ps": "xy"}[kind]]
    rx = [LI(L, orientation=o, component="real"), LI(L[:1], orientation=o, component="imag")]
    if kind == "2h":
        rx.append(LT(L[:1], orientation="zx", component="imag"))
    sv = Survey([src(rx[: 1 + i] if i else rx, f) for i, f in enumerate(fr[:nf])])
    b = {f: np.linspace(0.1, 1, len(mh.boundary_edges)) + 0.3j for f in FREQ} if bc else None
    if kind == "1e":
        mkS = lambda solver, **o: ns.Simulation1DElectricField(mh, survey=sv, solver=solver, **kw, **o)
    elif kind == "1h":
        mkS = lambda solver, **o: ns.Simulation1DMagneticField(mh, survey=sv, solver=solver, **kw, **o)
    elif kind == "2e":
        mkS = lambda solver, **o: ns.Simulation2DElectricField(mh, survey=sv, h_bc=b, solver=solver, **kw, **o)
    elif kind == "2h":
        mkS = lambda solver, **o: ns.Simulation2DMagneticField(mh, survey=sv, e_bc=b, solver=solver, **kw, **o)
    elif mh.dim == 1:
        kw.pop("mu", None)
        sp1 = np.linspace(0.4, 0.9, mh.shape_cells[-1])
        mkS = lambda solver, **o: ns.Simulation1DPrimarySecondary(mh, survey=sv, solver=solver, **kw, **{"sigmaPrimary": sp1, **o})
    else:
        kw.pop("mu", None)
        sp1 = np.linspace(0.4, 0.9, mh.shape_cells[-1])
        mkS = lambda solver, **o: ns.Simulation3DPrimarySecondary(mh, survey=sv, solver=solver, **kw, **{"sigmaPrimary": sp1, **o})
    return mkS, mh, nP


CASES = {}
for kind, mk, phys, o, nf in [
    ("1e", "t1:4", "sigma", "", 2), ("1e", "t1:3", "sigma", "e", 1), ("1e", "t1:3", "rho", "", 1), ("1e", "t1:3", "sigmav", "", 1),
    ("1e", "t1:3", "mu", "", 2), ("1e", "t1:3", "mui", "", 1), ("1e", "t1:3", "both", "", 1), ("1e", "t1:3", "mus", "", 1),
    ("1h", "t1:4", "sigma", "", 2), ("1h", "t1:3", "sigma", "e", 1), ("1h", "t1:3", "rho", "", 1), ("1h", "t1:3", "sigmav", "", 1),
    ("1h", "t1:3", "mu", "", 2), ("1h", "t1:3", "mui", "", 1), ("1h", "t1:3", "both", "", 1), ("1h", "t1:3", "mus", "", 1),
    ("ps", "t1:3", "sigma", "f", 2), ("ps", "t1:3", "sigma", "ef", 1),
    ("2e", "t2:2x2", "sigma", "b", 2), ("2e", "t2:2x2", "rho", "eb", 1), ("2e", "t2:2x2", "mu", "b", 1), ("2e", "t2:2x2", "both", "bf", 1),
    ("2e", "t2:2x2", "sigma", "f", 2), ("2e", "t2:2x2", "sigmav", "f", 1), ("2e", "t2:2x2", "mu", "f", 1), ("2e", "t2:2x2", "both", "f", 2), ("2e", "t2:2x2", "rho", "ef", 1),
    ("2e", "t2:3x2", "mui", "f", 1),
    ("2h", "t2:2x2", "sigma", "b", 2), ("2h", "t2:2x2", "rho", "eb", 1), ("2h", "t2:2x2", "mu", "b", 1), ("2h", "t2:2x2", "both", "bf", 1),
    ("2h", "t2:2x2", "sigma", "f", 2), ("2h", "t2:2x2", "sigmav", "f", 1), ("2h", "t2:2x2", "mu", "f", 1), ("2h", "t2:2x2", "both", "f", 2), ("2h", "t2:2x2", "rho", "ef", 1),
    ("2h", "t2:3x2", "mui", "f", 1),
    ("ps", "t3:2x2x2", "sigma", "f", 1), ("ps", "t3:2x2x2", "sigma", "ef", 2),
]:
    CASES[f"{kind}-{mk}-{phys}{o}-{nf}"] = dict(kind=kind, mk=mk, phys=phys, o=o, nf=nf)


def model(ctx, n, fix, lo=0.5, name="m"):
    if fix:
        return lo + 0.1 + np.linspace(0.0, 1.3, n) * np.where(np.arange(n) % 2 == 0, 1.0, 0.7)
    return ctx.reals(name, n, lo=lo, hi=3.0)


@harness("C18", params=CASES)
def nsem_sens(ctx, kind, mk, phys, o, nf):
    """Data of the simulation: Jvec is their derivative, Jtvec the transpose, a second model is not
    influenced by the first one."""
    mkS, mh, n = fv(kind, mk, phys, "exp" if "e" in o else "id", nf, "b" in o)
    sims = [mkS(ctx.solver), mkS(ctx.solver), mkS(ctx.solver)]
    if kind == "ps":
        for s in sims:
            for src in s.survey.source_list:
                src.ePrimary(s)
    nd = sims[0].survey.nD
    m = model(ctx, n, "f" in o)
    v = ctx.reals("v", n, lo=-1, hi=1)
    w = ctx.reals("w", nd, lo=-1, hi=1)
    m0 = np.linspace(3.2, 3.6, n)
    sims[1].fields(m0)
    sens(ctx, sims[:2], m, v, w)
    if "f" in o:
        sims[1].Jvec(m0, v)
        ctx.eq("jvec_back", sims[1].Jvec(m, v), sims[2].Jvec(m, v))
        ctx.eq("dpred_back", sims[1].dpred(m), sims[2].dpred(m))


@harness("C18", params={k: dict(mk=k) for k in ("t1:3", "t3:2x2x2")})
def nsem_primary(ctx, mk):
    """Sharing a survey between simulations (other primary conductivity, then back) does not change their data."""
    mkS, mh, n = fv("ps", mk, "sigma", nf=1)
    mkN, _, _ = fv("ps", mk, "sigma", nf=1)
    sp2 = np.linspace(0.8, 0.5, mh.shape_cells[-1])
    a, b = mkS(ctx.solver), mkS(ctx.solver, sigmaPrimary=sp2)
    ref, refb = mkN(ctx.solver), fv("ps", mk, "sigma", nf=1)[0](ctx.solver, sigmaPrimary=sp2)
    m = model(ctx, n, True)
    v = ctx.reals("v", n, lo=-1, hi=1)
    d1, d2 = ref.dpred(m), refb.dpred(m)
    ctx.eq("first", a.Jvec(m, v), ref.Jvec(m, v))
    ctx.eq("other_data", b.dpred(m), d2)
    ctx.eq("other", b.Jvec(m, v), refb.Jvec(m, v))
    ctx.eq("back_data", a.dpred(m), d1)
    ctx.eq("back", a.Jvec(m, v), ref.Jvec(m, v))


# ------------------------------------------------------------------ receivers
class SMesh:
    """Interpolation only: fixed generic weights (4 edges, 4 faces, ...)."""

    def __init__(self, dim):
        self.dim = dim

    def get_interpolation_matrix(self, locs, grid):
        k = dict(Ex=0.3, Ey=1.1, Ez=2.3, Fx=0.7, Fy=1.9, Fz=2.9, CC=0.1, N=1.6)[grid]
        x = np.asarray(locs).sum(axis=1)[:, None]
        j = np.arange(3)[None, :]
        return sp.csr_matrix(1.0 + 0.5 * np.cos(1.7 * x * (j + 1) + k * (j + 2)))

    getInterpolationMat = get_interpolation_matrix


NE = 3  # entries of the stub fields


class SFields:
    """Fields given by their values; derivatives are two fixed linear maps (of the solution and of the model)."""

    def __init__(self, e, h, npol, alias=("N", "CC"), direction="yx"):
        self.v = dict(e=e, h=h)
        self.npol = npol
        self.aliasFields = {"e": ["s", alias[0], "_e"], "h": ["s", alias[1], "_h"]}
        self.field_directions = direction
        self.Au = dict(e=np.array([[1.0, 0.2j, 0.3], [0.1, 1.4, -0.6j], [0.5, 0.2, 0.8]]), h=np.array([[0.4j, 1.2, 0.3], [1.1, -0.4, 0.6], [-0.5j, 0.9, 0.8]]))
        self.Am = dict(e=[np.array([[0.3, 1j], [0.2, 0.7], [1.1, -0.4]]), np.array([[0.5, 0.2], [-0.2j, 0.9], [0.1, 0.4]])],
                       h=[np.array([[0.1, 0.6], [0.8j, 0.3], [0.2, 1.4]]), np.array([[0.2, 0.3j], [0.6, 0.5], [1.0, 0.4]])])

    def __getitem__(self, key):
        return self.v[key[1]].copy()

    def _deriv(self, k, du, v, adjoint):
        if adjoint:
            if self.npol == 1:
                return self.Au[k].T @ v, self.Am[k][0].T @ v
            return self.Au[k].T @ v, self.Am[k][0].T @ v[:, 0] + self.Am[k][1].T @ v[:, 1]
        if self.npol == 1:
            return self.Au[k] @ du + self.Am[k][0] @ v
        m = np.stack([self.Am[k][0] @ v, self.Am[k][1] @ v], axis=-1)
        return self.Au[k] @ du + m

    def _eDeriv(self, src, du, v, adjoint=False):
        return self._deriv("e", du, v, adjoint)

    def _hDeriv(self, src, du, v, adjoint=False):
        return self._deriv("h", du, v, adjoint)


BASE = dict(e=np.array([[1.0 + 0.3j, 0.2 - 0.1j], [0.4 - 0.2j, 1.3 + 0.4j], [0.6 + 0.5j, -0.3 + 0.2j]]),
            h=np.array([[0.3 - 0.4j, 1.1 + 0.2j], [1.2 + 0.1j, 0.3 + 0.6j], [-0.5 + 0.2j, 0.7 + 0.3j]]))


def receiver(kind, o, comp, L, L2):
    if kind == "C":
        return R.ApparentConductivity(L, L2)
    return dict(I=R.Impedance, T=R.Tipper, A=R.Admittance)[kind](L, L2, orientation=o, component=comp)


RX = {}
for dim, kind, os_, comps in [
    (3, "I", "xx xy yx yy", "real imag apparent_resistivity phase"),
    (3, "T", "zx zy xx xy yx yy", "real imag"),
    (3, "A", "xx xy yx yy zx zy", "real imag"),
    (3, "C", "-", "-"),
    (2, "I", "xy yx", "real imag apparent_resistivity phase"),
    (2, "T", "zx", "real imag"),
    (2, "A", "xy yx", "real imag"),
    (1, "I", "xy yx xx yy", "real imag apparent_resistivity phase"),
]:
    for o in os_.split():
        for c in comps.split():
            if dim == 1 and o in ("xx", "yy") and c == "phase":
                continue
            RX[f"{dim}{kind}{o}-{c}"] = dict(dim=dim, kind=kind, o=o, comp=c)


def data(dim):
    L, L2 = np.array([[0.15, 0.1, -0.3], [-0.2, 0.25, -0.6]])[:, :dim], np.array([[0.2, 0.15, -0.4], [-0.1, 0.2, -0.5]])[:, :dim]
    return L, L2


def sym_fields(ctx, dim, x):
    """x: the real and imaginary part of one entry of e and one of h per polarization."""
    npol = 2 if dim == 3 else 1
    e, h = BASE["e"][:, :npol].copy(), BASE["h"][:, :npol].copy()
    pe = np.zeros((NE, npol, 4), dtype=complex)
    pe[0, 0, 0] = 1.0
    pe[0, 0, 1] = 1j
    if len(x) < 4:
        x = np.concatenate([x[:1], 0.03 * np.ones(1), -0.02 * np.ones(1), x[1:]])
    ph = np.zeros((NE, npol, 4), dtype=complex)
    ph[1, npol - 1, 2] = 1.0
    ph[1, npol - 1, 3] = 1j
    return e + pe @ x, h + ph @ x


@harness("C18", params=RX)
def nsem_receiver(ctx, dim, kind, o, comp):
    """evalDeriv is the derivative of eval with respect to solution and model; its adjoint is the transpose."""
    L, L2 = data(dim)
    npol = 2 if dim == 3 else 1
    mh = SMesh(dim)
    src = ns.sources.Planewave([], 0.3)
    rx = receiver(kind, o, comp, L, L2)
    x = ctx.reals("x", 2 if comp in ("phase", "apparent_resistivity") and dim == 3 else 4, lo=-0.1, hi=0.1)
    du = ctx.reals("du", 2 * NE * npol, lo=-1, hi=1)
    v = ctx.reals("v", 2, lo=-1, hi=1)
    w = ctx.reals("w", 2, lo=-1, hi=1)
    for direction in ("yx", "xy") if dim == 1 else ("",):
        e0, h0 = sym_fields(ctx, dim, x)
        dU = du[: NE * npol] + 1j * du[NE * npol:]
        if npol == 2:
            dU = dU.reshape((NE, 2))
        f0 = SFields(e0, h0, npol, direction=direction)
        de, dh = f0._eDeriv(src, dU, v), f0._hDeriv(src, dU, v)
        if npol == 1:
            de, dh = de[:, None], dh[:, None]
        val, dval = ctx.dd(lambda t: rx.eval(src, mh, SFields(e0 + de * t, h0 + dh * t, npol, direction=direction)), np.zeros(1), np.ones(1))
        got = rx.evalDeriv(src, mh, f0, du_dm_v=dU, v=v)
        ctx.eq("eval_deriv" + direction, got, dval.reshape(-1), fd=True)
        gu, gm = rx.evalDeriv(src, mh, f0, v=w, adjoint=True)
        ctx.eq("adjoint" + direction, (vdot(gu, dU) + vdot(gm, v)).real, vdot(w, got))


DEF = {}
for dim, kind, os_ in [(3, "I", "xx xy yx yy"), (3, "T", "zx zy xx xy yx yy"), (3, "A", "xx xy yx yy zx zy"), (3, "C", "-"), (2, "I", "xy yx"), (2, "T", "zx"), (2, "A", "xy yx"), (1, "I", "xy yx xx yy")]:
    for o in os_.split():
        DEF[f"{dim}{kind}{o}"] = dict(dim=dim, kind=kind, o=o)


@harness("C18", params=DEF)
def nsem_definition(ctx, dim, kind, o):
    """The data satisfy the documented tensor relation for both polarizations, and the derived components follow."""
    L, L2 = data(dim)
    npol = 2 if dim == 3 else 1
    mh = SMesh(dim)
    src = ns.sources.Planewave([], 0.3)
    x = ctx.reals("x", 4, lo=-0.1, hi=0.1)
    P = lambda g, L, u: mh.get_interpolation_matrix(L, g) @ u
    c = lambda z: (z.real, z.imag)

    def ceq(name, a, b):
        ctx.eq(name + "_re", a.real + 1.0, b.real + 1.0)
        ctx.eq(name + "_im", a.imag + 1.0, b.imag + 1.0)

    e, h = sym_fields(ctx, dim, x)
    if kind == "C":
        f = SFields(e, h, 2)
        ex, ey, hx, hy, hz = P("Ex", L, e), P("Ey", L, e), P("Fx", L2, h), P("Fy", L2, h), P("Fz", L2, h)
        ab = lambda a: (a.real**2 + a.imag**2).sum(axis=-1)
        s = R.ApparentConductivity(L, L2).eval(src, mh, f)
        ctx.eq("appcon", s * (ab(ex) + ab(ey)) * 1e5, 1e5 * 2 * np.pi * 0.3 * mu_0 * (ab(hx) + ab(hy) + ab(hz)))
        return
    if dim == 3:
        f = SFields(e, h, 2)
        a, b = ["xx", "xy"] if o[1] in "xy" else None, None
        vals = [receiver(kind, o[0] + k, "complex", L, L2).eval(src, mh, f) for k in "xy"]
        if kind == "I":
            i, oo = (P("Fx", L2, h), P("Fy", L2, h)), P("E" + o[0], L, e)
        elif kind == "T":
            i, oo = (P("Fx", L2, h), P("Fy", L2, h)), P("F" + o[0], L, h)
        else:
            i, oo = (P("Ex", L, e), P("Ey", L, e)), P("F" + o[0], L2, h)
        for p in range(2):
            ceq(f"pol{p}", vals[0] * i[0][:, p] + vals[1] * i[1][:, p], oo[:, p])
    else:
        for direction in ("yx", "xy") if dim == 1 else ("",):
            f = SFields(e, h, 1, direction=direction)
            z = receiver(kind, o, "complex", L, L2).eval(src, mh, f)
            if dim == 1 and o in ("xx", "yy"):
                ceq("zero" + direction, z, np.zeros(2, dtype=complex))
                continue
            if dim == 1:
                top, bot = P("N", L, e[:, 0]), P("CC", L, h[:, 0])
                bot = bot if o == direction else -bot
            elif kind == "I":
                top, bot = P("Ex" if o == "xy" else "CC", L, e[:, 0]), P("CC" if o == "xy" else "Ex", L2, h[:, 0])
            elif kind == "A":
                bot, top = P("Ex" if o == "yx" else "CC", L, e[:, 0]), P("CC" if o == "yx" else "Ex", L2, h[:, 0])
            else:
                top, bot = P("Ey", L, h[:, 0]), P("Ex", L2, h[:, 0])
            ceq("ratio" + direction, z * bot, top)
    z = receiver(kind, o, "complex", L, L2).eval(src, mh, f)
    ctx.eq("real", receiver(kind, o, "real", L, L2).eval(src, mh, f), z.real)
    ctx.eq("imag", receiver(kind, o, "imag", L, L2).eval(src, mh, f), z.imag)
    if kind == "I":
        r = receiver(kind, o, "apparent_resistivity", L, L2).eval(src, mh, f)
        ctx.eq("rhoa", r * (2 * np.pi * 0.3 * mu_0), z.real**2 + z.imag**2)
        if not (dim == 1 and o in ("xx", "yy")):
            ph = receiver(kind, o, "phase", L, L2).eval(src, mh, f) * np.pi / 180
            ctx.eq("phase", np.cos(ph) * z.imag, np.sin(ph) * z.real)


# ------------------------------------------------------------------ forward equations
@harness("C18", params={f"{k}-{p}": dict(kind=k, phys=p) for k in ("1e", "1h") for p in ("sigma", "rho", "both", "mui")})
def nsem_forward_1d(ctx, kind, phys):
    """The 1D fields satisfy the discrete Faraday and Ampere laws and the boundary conditions."""
    mkS, mh, n = fv(kind, "t1:4", phys, nf=2)
    sim = mkS(ctx.solver)
    m = model(ctx, n, False)
    hh = mh.h[0]
    k = mh.n_cells
    f = sim.fields(m)
    one = np.ones(k)
    s = {"sigma": lambda: m, "rho": lambda: 1.0 / m, "both": lambda: m[:k], "mui": lambda: np.linspace(0.5, 0.8, k)}[phys]()
    mu = {"sigma": lambda: 1.3 * one, "rho": lambda: 1.3 * one, "both": lambda: m[k:], "mui": lambda: 1.0 / m}[phys]()
    for i, src in enumerate(sim.survey.source_list):
        w = 2 * np.pi * src.frequency
        e, h = f[src, "e"][:, 0], f[src, "h"][:, 0]
        if kind == "1e":
            # cell centred h, nodal e:  de/dz = i w mu h,  dh/dz = sigma e  (orientation yx)
            ctx.eq(f"faraday{i}", (e[1:] - e[:-1]) / hh, 1j * w * mu * h)
            node, cell, prop = e, h, s
        else:
            # cell centred e, nodal h:  -dh/dz = sigma e,  -de/dz = i w mu h (orientation xy)
            ctx.eq(f"ampere{i}", -(h[1:] - h[:-1]) / hh, s * e)
            node, cell, prop = h, -1.0 * e, 1j * w * mu
        d = 0.5 * prop * hh
        ctx.eq(f"inner{i}", cell[1:] - cell[:-1] + 2.0, (d[1:] + d[:-1]) * node[1:-1] + 2.0)
        ctx.eq(f"bottom{i}", cell[0] + 2.0, d[0] * node[0] + 2.0)
        ctx.eq(f"top{i}", cell[-1] + d[-1] * node[-1], 1.0 if kind == "1e" else -1.0)


@harness("C18", params={f"{k}-{p}": dict(kind=k, phys=p) for k in ("2e", "2h") for p in ("sigma", "mu", "both")})
def nsem_layered_2d(ctx, kind, phys):
    """For a layered earth the 1D solution solves the 2D problem."""
    mkS, mh, n2 = fv(kind, "t2:3x3", phys, nf=1)
    sim = mkS(ctx.solver)
    ny = mh.shape_cells[1]
    mh1 = TensorMesh([mh.h[1]], origin=[mh.origin[1]])
    kw, n1 = kwmap(phys, ny, "id")
    if phys == "mu":
        kw["sigma"] = np.array([0.5, 0.7, 0.8])
        sim.sigma = np.repeat(kw["sigma"], mh.shape_cells[0])
    src = ns.sources.Planewave([], FREQ[0])
    cls = ns.Simulation1DElectricField if kind == "2e" else ns.Simulation1DMagneticField
    s1 = cls(mh1, survey=Survey([src]), solver=ctx.solver, **kw)
    m1 = ctx.reals("m", n1, lo=0.5, hi=3.0)
    tile = np.zeros((n2, n1))
    for j in range(n2):
        tile[j, j // mh.shape_cells[0]] = 1.0
    m2 = tile @ m1
    sol = "eSolution" if kind == "2e" else "hSolution"
    u1 = s1.fields(m1)[src, sol][:, 0]
    nx = mh.shape_cells[0]
    P = np.zeros((mh.n_edges, ny + 1))
    for j in range(mh.n_edges_x):
        P[j, j // nx] = 1.0
    sim.model = m2
    u2 = P @ u1
    sign = -1.0  # polarity: Z_xy = -Z_yx
    ctx.eq("layered", sim.getA(FREQ[0]) @ u2 + 1.0, sign * sim.getRHS(FREQ[0]) + 1.0)


# ------------------------------------------------------------------ simulations with the real receivers
REAL = {
    "3d-I": ("ps", "I:xy:real I:yx:phase", 1), "3d-I2": ("ps", "I:xx:apparent_resistivity I:yy:imag", 2),
    "3d-T": ("ps", "T:zx:real T:xy:imag", 1), "3d-A": ("ps", "A:xy:real A:yx:imag A:zx:real", 2), "3d-A2": ("ps", "A:xx:imag A:yy:real A:zy:imag", 1),
    "3d-C": ("ps", "C I:xy:real", 2),
    "2e": ("2e", "I:xy:real I:xy:phase A:yx:imag", 2), "2h": ("2h", "I:yx:apparent_resistivity A:xy:real T:zx:imag", 2),
    "1e": ("1e", "I:xy:real I:yx:phase I:xx:real", 2), "1h": ("1h", "I:xy:imag I:yx:apparent_resistivity I:yy:imag", 2),
    "1p": ("p1", "I:xy:imag I:yx:apparent_resistivity I:xx:imag", 2),
}


@harness("C18", params={k: dict(kind=a, spec=b, nf=c) for k, (a, b, c) in REAL.items()})
def nsem_chain(ctx, kind, spec, nf):
    """The whole chain with the real receivers at a fixed model: Jvec, Jtvec and (3D) getJ agree."""
    mk = {"1": "t1:4", "2": "t2:2x2", "p": "t3:2x2x2"}[kind[0]]
    mk = "t1:3" if kind == "p1" else mk
    dim = int(mk[1])
    kind = "ps" if kind == "p1" else kind
    mkS, mh, n = fv(kind, mk, "sigma", nf=nf)
    L = np.array([[0.15, 0.1, -0.3], [-0.2, 0.25, -0.6], [0.05, 0.3, -0.2]])[:, :dim]
    if dim == 1:
        L = np.array([[0.9], [1.8], [0.4]])
    rx = []
    for s in spec.split():
        k, o, c = (s.split(":") + ["", ""])[:3]
        rx.append(receiver(k, o, c, L, L + 0.05))
    sims = [mkS(ctx.solver), mkS(ctx.solver)]
    src = type(sims[0].survey.source_list[0])
    sv = Survey([src(rx[i:], f) for i, f in enumerate(sims[0].survey.frequencies)])
    for s in sims:
        s.survey = sv
    m = model(ctx, n, True)
    v = ctx.reals("v", n, lo=-1, hi=1)
    w = ctx.reals("w", sv.nD, lo=-1, hi=1)
    sens(ctx, sims, m, v, w, getJ=dim == 3)
