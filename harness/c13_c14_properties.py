"""Physical properties, mappings, cached mass matrices."""
import itertools
import numpy as np
import scipy.sparse as sp
from simpeg import maps, props
from simpeg.base import BaseElectricalPDESimulation, BaseMagneticPDESimulation
from engine.registry import harness
from .common import mesh
from .pde import vdot
from . import c15_dc, c16_fdem, c17_tdem


class EM(BaseElectricalPDESimulation, BaseMagneticPDESimulation):
    pass


KIND = dict(Mcc="n_cells", Mn="n_nodes", Mf="n_faces", Me="n_edges")


def basis(mh, kind, ntensor=1):
    """matrices of the linear map property -> mass matrix (isotropic)"""
    n = mh.n_cells
    out = []
    for k in range(n * ntensor):
        e = np.zeros(n * ntensor)
        e[k] = 1.0
        if kind == "Mcc":
            out.append(np.diag(mh.cell_volumes * e))
        elif kind == "Mn":
            out.append(np.diag(mh.average_node_to_cell.T @ (mh.cell_volumes * e)))
        elif kind == "Mf":
            out.append(mh.get_face_inner_product(e).toarray())
        else:
            out.append(mh.get_edge_inner_product(e).toarray())
    return out


def dense(A):
    return A.toarray() if hasattr(A, "toarray") else A


def lin(B, p):
    return sum(B[k] * p[k] for k in range(len(B)))


MASS = {}
for mk in ("t1:3", "t2:2x2", "t3:2x1x2", "tree2", "cyl:2x2", "cyl3"):
    for pn in ("sigma", "rho", "mu", "mui"):
        if pn != "sigma" and mk not in ("t2:2x2",):
            continue
        MASS[f"{mk}:{pn}"] = dict(mk=mk, pn=pn)
for mk in ("t2:2x2", "t3:2x1x1", "tree2"):
    MASS[f"{mk}:sigma:diag"] = dict(mk=mk, pn="sigma", aniso=True)
MASS["t2:2x1:sigma:full"] = dict(mk="t2:2x1", pn="sigma", aniso="full")
MASS["t3:1x1x2:sigma:full"] = dict(mk="t3:1x1x2", pn="sigma", aniso="full")
MASS["curv2:sigma"] = dict(mk="curv2", pn="sigma")


def getmesh(mk):
    if mk == "curv2":
        from discretize import CurvilinearMesh
        X, Y = np.meshgrid([0.0, 1.0, 2.3], [0.0, 1.2, 2.0], indexing="ij")
        return CurvilinearMesh([X + 0.1 * Y, Y - 0.05 * X * Y])
    return mesh(mk)


def build(mh, pn, M=None, solver=None):
    cls = BaseElectricalPDESimulation if pn in ("sigma", "rho") else BaseMagneticPDESimulation
    kw = {pn + "Map": M} if M is not None else {}
    return cls(mh, solver=solver, **kw)


@harness("C14", params=MASS)
def mass_matrices(ctx, mk, pn, aniso=False):
    """Each mass matrix is the volume weighted average of the property, its inverse is its inverse, and every
    derivative form (matrix, product, adjoint, several columns) is the derivative of the product."""
    mh = getmesh(mk)
    n = mh.n_cells
    nt = (3 if mh.dim == 2 else 6) if aniso == "full" else (mh.dim if aniso else 1)
    nP = n * nt
    dia = mk != "curv2" and aniso != "full"
    kinds = ["Mf"] + ([] if mh.dim == 1 else ["Me"]) if aniso or not dia else ["Mcc", "Mn", "Mf", "Me"]
    if mk == "cyl3":
        kinds.remove("Mn")
    if mk.startswith("cyl:"):
        kinds = ["Mcc", "Mf", "Me"]
    if mh.dim == 1:
        kinds = ["Mcc", "Mn", "Mf"]
    B = {k: basis(mh, k, nt) for k in kinds}
    mp = maps.IdentityMap(nP=nP) if aniso else maps.ExpMap(nP=nP)
    s, s2 = build(mh, pn, mp, ctx.solver), build(mh, pn, mp, ctx.solver)
    if aniso == "full":
        m = ctx.reals("mf", nP, lo=0.5, hi=3.0)
    else:
        m = ctx.reals("m", nP, lo=0.5, hi=3.0)
    v = ctx.reals("v", nP, lo=-1, hi=1)
    P = pn.capitalize()
    p = mp * m
    s.model = m
    s2.model = m
    ctx.eq("property", getattr(s, pn), p)
    recip = dict(sigma="rho", rho="sigma", mu="mui", mui="mu")[pn]
    if not aniso:
        ctx.eq("reciprocal", getattr(s, recip), 1 / p)
        ctx.eq("reciprocal_deriv", getattr(s, recip + "Deriv") @ v, -(mp.deriv(m) @ v) / p**2)
    for k in kinds:
        N = getattr(mh, KIND[k])
        M = dense(getattr(s, k + P))
        W = lin(B[k], p)
        u = ctx.reals("u" + k, N, lo=-1, hi=1)
        w = ctx.reals("w" + k, N, lo=-1, hi=1)
        see = (lambda A: A) if mk != "curv2" else (lambda A: A @ u)
        ctx.eq(k, see(M), see(W))
        ctx.eq(k + "_cached", see(dense(getattr(s, k + P))), see(W))
        dM = lin(B[k], mp.deriv(m) @ v)
        forms(ctx, k, getattr(s, k + P + "Deriv"), dM, u, v, w, N, nP, dense_form=True)
        if dia:
            d = W.diagonal() if isinstance(W, np.ndarray) else np.diag(W)
            MI = dense(getattr(s, k + P + "I"))
            ctx.eq(k + "I", MI @ u, u / d)
            ctx.eq(k + "I_inverse", M @ (MI @ u), u)
            dd = dM.diagonal() if isinstance(dM, np.ndarray) else np.diag(dM)
            forms(ctx, k + "I", getattr(s2, k + P + "IDeriv"), -dd / d**2, u, v, w, N, nP)
        if not aniso:
            # the reciprocal property's own mass matrix
            R = recip.capitalize()
            WR = lin(B[k], 1 / p)
            ctx.eq(k + "_recip", see(dense(getattr(s, k + R))), see(WR))
            dR = lin(B[k], -(mp.deriv(m) @ v) / p**2)
            ctx.eq(k + "_recipDeriv", getattr(s, k + R + "Deriv")(u, v), dR @ u)
            ctx.eq(k + "_recipDerivT", vdot(v, getattr(s, k + R + "Deriv")(u, w, adjoint=True)), vdot(w, dR @ u))
    # nothing else of the simulation depends on the model
    for k in kinds:
        one = {"Mcc": lambda: np.diag(mh.cell_volumes), "Mn": lambda: np.diag(mh.average_node_to_cell.T @ mh.cell_volumes),
               "Mf": lambda: mh.get_face_inner_product().toarray(), "Me": lambda: mh.get_edge_inner_product().toarray()}[k]()
        ctx.eq(k + "_plain", dense(getattr(s, k)), one)
        if dia:
            ctx.eq(k + "I_plain", dense(getattr(s, k + "I")).diagonal(), 1 / one.diagonal())


def forms(ctx, lab, D, dM, u, v, w, N, nP, dense_form=False):
    """D(u, v, adjoint): derivative of (mass matrix @ u); dM: derivative of the mass matrix along v (matrix or diagonal)."""
    app = (lambda x: dM @ x) if getattr(dM, "ndim", 1) == 2 else (lambda x: dM * x)
    want = app(u)
    ctx.eq(lab + "Deriv", D(u, v), want)
    ctx.eq(lab + "DerivT", vdot(v, D(u, w, adjoint=True)), vdot(w, want))
    A = D(u)
    ctx.eq(lab + "Deriv_matrix", A @ v, want)
    ctx.eq(lab + "DerivT_matrix", vdot(v, D(u, adjoint=True) @ w), vdot(w, want))
    ctx.eq(lab + "Deriv_column", D(u[:, None], v), want)
    # several fields at once
    U = np.stack([u, 2 * u[::-1], w], axis=1)
    W = np.stack([w, u, w - u], axis=1)
    want3 = np.stack([app(U[:, i]) for i in range(3)], axis=1)
    ctx.eq(lab + "Deriv_multi", D(U, v), want3)
    ctx.eq(lab + "DerivT_multi", vdot(v, D(U, W, adjoint=True)), (W * want3).sum())


# ------------------------------------------------------------------ histories
OPS = {
    "s": ("sigma", "value"), "r": ("rho", "value"), "S": ("sigmaMap", "exp"), "R": ("rhoMap", "exp"),
    "T": ("sigmaMap", "id"), "Q": ("rhoMap", "id"), "m": ("model", 1), "k": ("model", 2), "f": ("sigma", "scalar"),
    "x": ("model", "inplace"),
}
SEQ = ["s", "r", "f", "sr", "rs", "sS", "Sm", "Smk", "SmT", "SmR", "SmQ", "RmS", "Sms", "Smsr", "SmsT", "RmrS", "Rmk", "TmS", "QmR", "SmTk", "sSm", "rSm", "sRm",
       "Smf", "fSm", "Smr", "RmsS", "Smkm", "Smx", "RmTk", "sfs", "SmsSm"]


@harness("C13", params={q: dict(seq=q) for q in SEQ})
def property_history(ctx, seq):
    """After every step of a sequence of assignments the properties, derivatives and mass matrices are those of the last
    assignments, as if set on a new simulation."""
    mh = mesh("t2:2x1")
    n = mh.n_cells
    B = {k: basis(mh, k) for k in KIND}
    s = BaseElectricalPDESimulation(mh, solver=ctx.solver)
    vals = dict(value=[ctx.reals(f"p{i}", n, lo=0.5, hi=3) for i in range(len(seq))], m=[None, ctx.reals("m1", n, lo=0.2, hi=0.9), ctx.reals("m2", n, lo=1.0, hi=2)],
                scalar=1.7)
    v = ctx.reals("v", n, lo=-1, hi=1)
    u = ctx.reals("u", mh.n_faces, lo=-1, hi=1)
    state = dict(kind=None, model=None)      # what the property is now
    for i, c in enumerate(seq):
        name, what = OPS[c]
        if name == "model":
            if what == "inplace":
                cur = vals["m"][1]
                arr = cur * 1.0
                s.model = arr
                arr[0] = cur[0] * 2.0
                s.model = arr
                state["model"] = arr
            else:
                state["model"] = vals["m"][what]
                s.model = vals["m"][what]
        elif what == "value":
            setattr(s, name, vals["value"][i])
            state["kind"] = (name, vals["value"][i])
        elif what == "scalar":
            setattr(s, name, vals["scalar"])
            state["kind"] = (name, vals["scalar"] * np.ones(n))
        else:
            M = maps.ExpMap(nP=n) if what == "exp" else maps.IdentityMap(nP=n)
            setattr(s, name, M)
            state["kind"] = (name, M)
        check_state(ctx, s, state, mh, B, u, v, f"{i}{c}")


def check_state(ctx, s, state, mh, B, u, v, lab):
    if state["kind"] is None:
        return
    name, val = state["kind"]
    if name.endswith("Map"):
        if state["model"] is None:
            return
        m = state["model"]
        p = val * m
        dp = val.deriv(m) @ v
    else:
        p, dp = val, None
    if name.startswith("sigma"):
        sg, rh = p, 1 / p
        dsg, drh = (dp, -dp / p**2) if dp is not None else (None, None)
    else:
        rh, sg = p, 1 / p
        drh, dsg = (dp, -dp / p**2) if dp is not None else (None, None)
    one = np.ones(mh.n_cells)
    ctx.eq(lab + ":sigma", s.sigma * one, sg)
    ctx.eq(lab + ":rho", s.rho * one, rh)
    for k in ("Mcc", "Mn", "Mf", "Me"):
        for nm, x in (("Sigma", sg), ("Rho", rh)):
            ctx.eq(f"{lab}:{k}{nm}", dense(getattr(s, k + nm)), lin(B[k], x))
            ctx.eq(f"{lab}:{k}{nm}I", dense(getattr(s, k + nm + "I")).diagonal(), 1 / lin(B[k], x).diagonal())
    for nm, d, x in (("Sigma", dsg, sg), ("Rho", drh, rh)):
        D = getattr(s, f"Mf{nm}Deriv")(u, v)
        DI = getattr(s, f"Mf{nm}IDeriv")(u, v)
        if d is None:
            ctx.eq(f"{lab}:d{nm}", D * np.ones(1), np.zeros(1))
            ctx.eq(f"{lab}:d{nm}I", DI * np.ones(1), np.zeros(1))
        else:
            W = lin(B["Mf"], x).diagonal()
            ctx.eq(f"{lab}:d{nm}", D, lin(B["Mf"], d) @ u)
            ctx.eq(f"{lab}:d{nm}I", DI, -(lin(B["Mf"], d) @ u) / W**2)


# ------------------------------------------------------------------ whole simulations
def sim_factory(name):
    k, _, r = name.partition("/")
    if k == "dc":
        dim, kind, mk, src, rx, phys, S = r.split("/")
        f, mh, n = c15_dc.build(int(dim), kind, mk, src, rx, phys, **(dict(storeJ=True) if S else {}))
        return f, n
    if k == "fd":
        kind, mk, src, rx, phys = r.split("/")
        f, mh, n = c16_fdem.build(kind, mk, src, rx, 2, phys, "id")
        return f, n
    if k == "td":
        kind, mk, src, rx, wave = r.split("/")
        f, mh = c17_tdem.build(kind, mk, src, rx, wave, "d")
        return f, mh.n_cells


SIMS = ["dc/3/n/t3:2x2x2/d,p/d,p/sigma/", "dc/3/n/t3:2x2x2/d,p/d/rho/S", "dc/3/cc/t3:2x2x2/d,p/d,p/rho/", "dc/3/cc/t3:2x2x2/d,p/d1,p/sigma/S",
        "dc/2/n/t2:3x2/d,p/d,p/sigma/", "dc/2/cc/t2:3x2/d,p/d/rho/", "dc/2/n/t2:3x2/d/d/sigma/S",
        "fd/e/cyl:2x2/dip,loop/b,e/sigma", "fd/b/cyl:2x2/dip/b,e/sigma", "fd/h/t3:2x2x2/line/h:xi,e:zr/rho", "fd/j/t3:2x2x2/line/j:xi,h:zr/sigma", "fd/e/cyl:2x2/dip/b,h/mu",
        "td/b/cyl:2x2/dip/dbdt,b/step", "td/e/cyl:2x2/loop/dbdt,e/ramp", "td/h/t3:2x2x2/wire/h:xa,dbdt:zm/step", "td/j/t3:2x2x2/wire/j:xa,dbdt:zm/step"]
HIST = {"a": "F1 V2 VF1 TF1 D1", "b": "D1 V2 D1 T1 V2 T2", "c": "J1 J2 G1 G2 J1 D2 V1", "d": "F1 F2 VF2 VF1 TF2 TF1 JF1", "e": "V1 T1 V1 T2 T1 V2 D1 D2"}


@harness("C13", params={f"{s}-{h}": dict(sim=s, hist=h) for s in SIMS for h in HIST})
def call_history(ctx, sim, hist):
    """Forward data and sensitivities depend on the model (and fields) passed in, not on the calls made before."""
    mkS, n = sim_factory(sim)
    s = mkS(ctx.solver)
    nd = s.survey.nD
    lo = 1.5 if sim.endswith("/mu") else 0.6
    m = {"1": lo + np.linspace(0.0, 1.3, n) * np.where(np.arange(n) % 2 == 0, 1.0, 0.7),
         "2": lo + 0.4 + np.linspace(0.9, 0.0, n)}
    v = ctx.reals("v", n, lo=-1, hi=1)
    w = ctx.reals("w", nd, lo=-1, hi=1)
    memo = {}
    has_J = not sim.startswith("td")
    if not has_J:
        hist = {"c": "D1 T2 V1"}.get(hist, hist)

    def fresh(op, k):
        if (op, k) not in memo:
            t = mkS(ctx.solver)
            M = m[k]
            memo[op, k] = dict(D=lambda: t.dpred(M), V=lambda: t.Jvec(M, v), T=lambda: t.Jtvec(M, w), J=lambda: t.getJ(M) @ v,
                               G=lambda: t.getJtJdiag(M))[op]()
        return memo[op, k]
    f = {}
    for i, op in enumerate(HIST.get(hist, hist).split()):
        k = op[-1]
        M = m[k]
        o = op[0]
        kw = {}
        if o in "JG" and (not has_J or o == "G" and sim.startswith("dc/2")):
            continue
        if op[:1] == "F":
            f[k] = s.fields(M)
            continue
        if "F" in op:
            kw = dict(f=f[k])
        if o == "D":
            got = s.dpred(M, **kw)
        elif o == "V":
            got = s.Jvec(M, v, **kw)
        elif o == "T":
            got = s.Jtvec(M, w, **kw)
        elif o == "J":
            got = s.getJ(M, **kw) @ v
        else:
            got = s.getJtJdiag(M)
        ctx.eq(f"{i}:{op}", got, fresh(o, k))
