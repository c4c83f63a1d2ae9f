"""Gravity and magnetics: integral and differential simulations."""
import os
import tempfile
import shutil
import numpy as np
import scipy.sparse as sp
import choclo
from simpeg import maps
from simpeg.potential_fields import gravity as gr, magnetics as mg
from engine.registry import harness
from .common import mesh
from .pde import vdot

RX0 = [np.array([[0.3, -0.2, 1.4], [1.1, 0.5, 2.0]]), np.array([[-0.4, 0.9, 1.1]]),
      np.array([[2.2, 0.3, 0.9], [0.1, 0.1, -2.9]])]
RX = RX0


def place(mk):
    """receivers outside the mesh"""
    global RX
    RX = [r + np.r_[1.0, 1.0, 3.2] for r in RX0] if mk.startswith("tree3") else RX0


GALL = ["gx", "gy", "gz", "gxx", "gyy", "gzz", "gxy", "gxz", "gyz", "guv"]
BALL = ["tmi", "bx", "by", "bz", "bxx", "byy", "bzz", "bxy", "bxz", "byz", "tmi_x", "tmi_y", "tmi_z"]
MU0 = choclo.constants.VACUUM_MAGNETIC_PERMEABILITY
AMP, INC, DEC = 50.0, 62.0, -17.0


def gsurvey(comps):
    return gr.Survey(gr.sources.SourceField(receiver_list=[gr.receivers.Point(RX[i], components=list(c)) for i, c in enumerate(comps)]))


def msurvey(comps):
    return mg.Survey(mg.sources.UniformBackgroundField(
        receiver_list=[mg.receivers.Point(RX[i], components=list(c)) for i, c in enumerate(comps)],
        amplitude=AMP, inclination=INC, declination=DEC))


def rows(comps):
    """(location, component) in data order."""
    return [(loc, c) for i, cs in enumerate(comps) for loc in RX[i] for c in cs]


def prisms(mh, act, layer):
    if layer is None:
        b = []
        ctr = mh.cell_centers[act]
        h = mh.h_gridded[act]
        return np.c_[ctr[:, 0] - h[:, 0] / 2, ctr[:, 0] + h[:, 0] / 2, ctr[:, 1] - h[:, 1] / 2, ctr[:, 1] + h[:, 1] / 2,
                     ctr[:, 2] - h[:, 2] / 2, ctr[:, 2] + h[:, 2] / 2]
    ctr = mh.cell_centers[act]
    h = mh.h_gridded[act]
    return np.c_[ctr[:, 0] - h[:, 0] / 2, ctr[:, 0] + h[:, 0] / 2, ctr[:, 1] - h[:, 1] / 2, ctr[:, 1] + h[:, 1] / 2,
                 layer[1], layer[0]]


def goracle(mh, act, comps, layer=None):
    """sensitivity matrix from the analytic field of a prism (g/cc; mGal and Eotvos)."""
    pr = prisms(mh, act, layer)
    P = choclo.prism
    F = dict(gx=P.gravity_e, gy=P.gravity_n, gz=P.gravity_u, gxx=P.gravity_ee, gyy=P.gravity_nn, gzz=P.gravity_uu,
             gxy=P.gravity_en, gxz=P.gravity_eu, gyz=P.gravity_nu)
    out = []
    for loc, c in rows(comps):
        if c == "guv":
            r = [0.5 * (F["gyy"](*loc, *p, 1000.0) - F["gxx"](*loc, *p, 1000.0)) for p in pr]
        else:
            r = [F[c](*loc, *p, 1000.0) for p in pr]
        out.append(np.array(r) * (1e5 if len(c) == 2 else 1e9))
    return np.array(out)


def direction():
    i, d = np.deg2rad(INC), np.deg2rad(DEC)
    return np.array([np.cos(i) * np.sin(d), np.cos(i) * np.cos(d), -np.sin(i)])


def moracle(mh, act, comps, vector, layer=None):
    """nT, susceptibility relative to the inducing field."""
    pr = prisms(mh, act, layer)
    P = choclo.prism
    F = dict(x=P.magnetic_e, y=P.magnetic_n, z=P.magnetic_u, xx=P.magnetic_ee, yy=P.magnetic_nn, zz=P.magnetic_uu,
             xy=P.magnetic_en, xz=P.magnetic_eu, yz=P.magnetic_nu)
    t = direction()

    def one(loc, c, p, M):
        if c == "tmi":
            return sum(t[k] * F[q](*loc, *p, *M) for k, q in enumerate("xyz"))
        if c.startswith("tmi_"):
            return sum(t[k] * F["".join(sorted(q + c[-1]))](*loc, *p, *M) for k, q in enumerate("xyz"))
        return F[c[1:]](*loc, *p, *M)

    out = []
    for loc, c in rows(comps):
        if vector:
            r = [one(loc, c, p, np.eye(3)[k] * AMP / MU0) for k in range(3) for p in pr]
        else:
            r = [one(loc, c, p, t * AMP / MU0) for p in pr]
        out.append(r)
    return np.array(out)


def build(which, mk, comps, engine, store, act=False, layer=None, mp="id", vector=False, parallel=False, tmp=None, **kw):
    place(mk)
    mh = mesh(mk)
    a = np.ones(mh.n_cells, dtype=bool)
    if act:
        a[1] = False
        a[-1] = False
    n = int(a.sum())
    nP = n * (3 if vector else 1)
    if mp == "id":
        M = maps.IdentityMap(nP=nP)
    elif mp == "exp":
        M = maps.ExpMap(nP=nP)
    elif mp == "proj":
        M = maps.InjectActiveCells(mh, np.arange(mh.n_cells) > 0, 0.3) if not act else maps.IdentityMap(nP=nP)
    elif mp == "tile":   # one parameter feeding two cells
        A = np.zeros((nP, nP - 1))
        A[np.arange(nP), np.maximum(np.arange(nP) - 1, 0)] = np.linspace(1, 2, nP)
        M = maps.LinearMap(sp.csr_matrix(A))
    k = dict(engine=engine, store_sensitivities=store, numba_parallel=parallel, sensitivity_dtype=np.float64, active_cells=a, **kw)
    if store == "disk":
        k["sensitivity_path"] = os.path.join(tmp, "sens" if engine == "choclo" else "sensdir")
    lay = None
    if layer:
        zt = np.linspace(-0.5, -0.3, n)
        zb = np.linspace(-1.5, -1.9, n)
        lay = (zt, zb)
    if which == "g":
        k["rhoMap"] = M
        k["survey"] = gsurvey(comps)
        s = gr.SimulationEquivalentSourceLayer(mh, *lay, **k) if lay else gr.Simulation3DIntegral(mh, **k)
    else:
        k["chiMap"] = M
        k["survey"] = msurvey(comps)
        if vector:
            k["model_type"] = "vector"
        s = mg.SimulationEquivalentSourceLayer(mh, *lay, **k) if lay else mg.Simulation3DIntegral(mh, **k)
    return s, M, mh, a, lay


CASES = {}


def integral(which, mk, comps, engine, store, **o):
    t = dict(_tier=o.pop("tier")) if "tier" in o else {}
    CASES[f"{which}:{mk}:{'+'.join('/'.join(c) for c in comps) if sum(map(len, comps)) < 9 else 'all'}:{engine}:{store}"
          + "".join(f":{k}={v}" for k, v in o.items())] = dict(which=which, mk=mk, comps=comps, engine=engine, store=store, o=o, **t)


GM = [["gz"], ["gx", "gzz"]]
for eng in ("geoana", "choclo"):
    for st in ("ram", "forward_only", "disk"):
        integral("g", "t3:2x1x2", GM, eng, st, act=True, mp="exp")
        integral("m", "t3:2x1x2", [["tmi"], ["bx", "tmi_z"]], eng, st, act=True, mp="exp")
    integral("g", "t3:2x1x1", [GALL], eng, "ram")
    integral("m", "t3:2x1x1", [BALL], eng, "ram")
    integral("m", "t3:2x1x1", [BALL], eng, "ram", vector=True)
    for st in ("ram", "forward_only"):
        integral("g", "t2:2x2", [["gz", "gxy"], ["guv"]], eng, st, layer=True, act=True)
        integral("m", "t2:2x2", [["bz", "tmi"], ["tmi_x"]], eng, st, layer=True, act=True)
        integral("m", "t2:2x1", [["bz", "tmi"], ["tmi_x"]], eng, st, layer=True, vector=True)
        integral("m", "t3:2x1x1", [["bz", "tmi"], ["tmi_y"]], eng, st, vector=True, mp="exp")
    integral("g", "t3:2x1x2", GM, eng, "ram", mp="tile")
integral("g", "t3:2x1x1", [GALL], "choclo", "forward_only")
integral("m", "t3:2x1x1", [BALL], "choclo", "forward_only")
integral("m", "t3:2x1x1", [BALL], "choclo", "forward_only", vector=True)
for st in ("ram", "forward_only"):
    integral("g", "t3:2x1x2", GM, "choclo", st, act=True, mp="exp", parallel=True)
    integral("m", "t3:2x1x2", [["tmi"], ["bx", "tmi_z"]], "choclo", st, act=True, parallel=True)
    integral("m", "t3:2x1x1", [["tmi"], ["bx", "tmi_z"]], "choclo", st, vector=True, parallel=True)
    integral("g", "t2:2x2", [["gz", "gxy"], ["guv"]], "choclo", st, layer=True, parallel=True)
    integral("m", "t2:2x2", [["bz", "tmi"], ["tmi_x"]], "choclo", st, layer=True, parallel=True)
    integral("m", "t2:2x1", [["bz", "tmi"], ["tmi_x"]], "choclo", st, layer=True, vector=True, parallel=True)
    integral("g", "tree3", [["gz"], ["gxy"]], "choclo", st, act=True)
    integral("m", "tree3", [["tmi"], ["by"]], "choclo", st, act=True)
integral("g", "tree3", [["gz"], ["gxy"]], "geoana", "ram", act=True)
integral("m", "tree3", [["tmi"], ["by"]], "geoana", "ram", act=True)
integral("g", "tree2", [["gz"], ["gxy"]], "choclo", "ram", act=True, layer=True)
integral("g", "tree2", [["gz"], ["gxy"]], "geoana", "ram", act=True, layer=True)


def integral_run(ctx, tmp, which, mk, comps, engine, store, o):
    s, M, mh, a, lay = build(which, mk, comps, engine, store, tmp=tmp, **o)
    K = goracle(mh, a, comps, lay) if which == "g" else moracle(mh, a, comps, o.get("vector", False), lay)
    ref = build(which, mk, comps, "geoana", "ram", **o)[0]
    G = np.array(ref.G)
    ctx.eq("kernel", G, K)
    s2 = build(which, mk, comps, engine, store, tmp=tmp, **o)[0]
    nP = M.nP
    nd = K.shape[0]
    m = ctx.reals("m", nP, lo=-2, hi=1)
    m2 = ctx.reals("m2", nP, lo=1.1, hi=2)
    v = ctx.reals("v", nP)
    w = ctx.reals("w", nd)
    D = M.deriv(m)
    D2 = M.deriv(m2)
    d = s.dpred(m)
    ctx.eq("dpred", d, K @ (M * m))
    ctx.eq("again", s.dpred(m2), K @ (M * m2))
    if engine == "geoana" and store == "forward_only":
        return
    ctx.eq("jvec", s.Jvec(m, v), K @ (D @ v))
    ctx.eq("jtvec", s.Jtvec(m, w), D.T @ (K.T @ w))
    ctx.eq("jvec2", s.Jvec(m2, v), K @ (D2 @ v))
    J = s.getJ(m)
    ctx.eq("getJ", J @ v, K @ (D @ v))
    ctx.eq("getJt", J.T @ w, D.T @ (K.T @ w))
    # fresh simulation whose first call is a sensitivity
    ctx.eq("first_jtvec", s2.Jtvec(m, w), D.T @ (K.T @ w))
    # diagonal of J^T W^2 J, for maps with one cell per parameter
    if o.get("mp", "id") != "tile":
        wt = ctx.reals("wt", nd, lo=0.1, hi=3)
        KD = K * K
        dd = D.diagonal()
        ctx.eq("diag", s.getJtJdiag(m), (K * K).sum(axis=0) * dd * dd)
        W = sp.diags(wt)
        ctx.eq("diagW", s.getJtJdiag(m, W=W), ((wt * wt) @ KD) * dd * dd)
        ctx.eq("diagW2", s.getJtJdiag(m2, W=W), ((wt * wt) @ KD) * D2.diagonal() * D2.diagonal())
        ctx.eq("diag_after", s.getJtJdiag(m), (K * K).sum(axis=0) * dd * dd)


@harness("C20", params=CASES)
def integral_op(ctx, which, mk, comps, engine, store, o):
    """data = kernel times mapped model, for every engine, storage mode and
    component, and all sensitivity operators are those of this linear map."""
    tmp = tempfile.mkdtemp()
    try:
        integral_run(ctx, tmp, which, mk, comps, engine, store, o)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


B3 = [["bx", "by", "bz"], ["bx", "by", "bz"]]
AMPC = {f"{e}:{s}:{'vector' if v else 'scalar'}:{'layer' if l else '3d'}:{m}": dict(eng=e, st=s, vec=v, lay=l, mp=m) for e, s, v, l, m in [
    ("geoana", "ram", False, None, "id"), ("geoana", "ram", True, None, "exp"), ("choclo", "ram", False, None, "exp"),
    ("choclo", "forward_only", False, None, "id"), ("choclo", "forward_only", True, None, "id"),
    ("choclo", "ram", False, True, "id"), ("geoana", "forward_only", False, None, "id"),
    ("choclo", "forward_only", True, True, "id")]}


@harness("C20", params=AMPC)
def amplitude(ctx, eng, st, vec, lay, mp):
    mk = "t2:2x1" if lay else "t3:2x1x1"
    mkS = lambda: build("m", mk, B3, eng, st, vector=vec, layer=lay, mp=mp, is_amplitude_data=True)
    s, M, mh, a, lay2 = mkS()
    s1 = mkS()[0]
    K = np.array(build("m", mk, B3, eng, "ram", vector=vec, layer=lay, mp=mp)[0].G)
    nP = M.nP
    n = K.shape[0] // 3
    m = ctx.reals("m", nP, lo=0.1, hi=1)
    m2 = ctx.reals("m2", nP, lo=1.1, hi=2)
    v = ctx.reals("v", nP)
    w = ctx.reals("w", n)
    b = (K @ (M * m)).reshape(n, 3)
    b2 = (K @ (M * m2)).reshape(n, 3)
    amp = np.sqrt((b * b).sum(axis=1))
    amp2 = np.sqrt((b2 * b2).sum(axis=1))
    ctx.eq("dpred", s1.dpred(m), amp)
    ctx.eq("dpred2", s1.dpred(m2), amp2)
    if eng == "geoana" and st == "forward_only":
        return
    db = (K @ (M.deriv(m) @ v)).reshape(n, 3)
    ctx.eq("jvec", s.Jvec(m, v), (b * db).sum(axis=1) / amp)
    db2 = (K @ (M.deriv(m2) @ v)).reshape(n, 3)
    Jv2 = s.Jvec(m2, v)
    ctx.eq("jvec2", Jv2, (b2 * db2).sum(axis=1) / amp2)
    ctx.eq("adjoint", vdot(w, Jv2), vdot(v, s.Jtvec(m2, w)))
    if st == "ram" and mp == "id":
        wt = ctx.reals("wt", n, lo=0.1, hi=3)
        Jn = np.stack([(b * K[:, j].reshape(n, 3)).sum(axis=1) / amp for j in range(nP)], axis=1)
        ctx.eq("diagW", s.getJtJdiag(m, W=sp.diags(wt)), ((wt * wt)[:, None] * Jn * Jn).sum(axis=0))
        Jn2 = np.stack([(b2 * K[:, j].reshape(n, 3)).sum(axis=1) / amp2 for j in range(nP)], axis=1)
        ctx.eq("diagW2", s.getJtJdiag(m2, W=sp.diags(wt)), ((wt * wt)[:, None] * Jn2 * Jn2).sum(axis=0))
        ctx.eq("diag", s.getJtJdiag(m), (Jn * Jn).sum(axis=0))


# ------------------------------------------------------------ finite volume magnetics
DIFF = {}
for mk, comps, phys, o in [
    ("t3:2x1x1", [["bx", "bz"], ["by"]], "mu", ""), ("t3:2x1x1", [["tmi"]], "mu", "f"), ("t3:2x1x1", [["tmi", "bx"], ["bz", "tmi"]], "rem", ""),
    ("t3:2x1x1", [["bx", "bz"], ["by"]], "both", "f"), ("t3:2x1x1", [["tmi", "bx"]], "both", "fS"), ("t3:2x1x1", [["bx", "by", "bz"]], "mu", "fS"),
    ("t3:2x1x1", [["tmi", "bx"], ["bz", "tmi"]], "rem", "S"), ("t3:2x2x2", [["bx", "tmi"], ["by", "bz"]], "mu", "f"),
    ("t3:2x2x2", [["bx", "tmi"]], "both", "f"), ("t3:2x1x2", [["bx", "by"]], "murem", "f"), ("t3:2x1x1", [["bx", "by"]], "remmu", ""),
    ("tree3", [["bx", "tmi"]], "mu", "fN"),
]:
    DIFF[f"{mk}:{'+'.join('/'.join(c) for c in comps)}:{phys}:{o}"] = dict(mk=mk, comps=comps, phys=phys, o=o)


def dsurvey(mh, comps):
    c = mh.nodes.min(axis=0)
    L = mh.nodes.max(axis=0) - c
    rx = [c + L * np.array([[0.3, 0.45, 0.6], [0.62, 0.7, 0.35]]), c + L * np.array([[0.55, 0.4, 0.2]])]
    return mg.Survey(mg.sources.UniformBackgroundField(
        receiver_list=[mg.receivers.Point(rx[i], components=list(k)) for i, k in enumerate(comps)],
        amplitude=AMP, inclination=INC, declination=DEC)), rx


@harness("C20", params=DIFF)
def mag_differential(ctx, mk, comps, phys, o):
    """The computed flux is divergence free, b/mu - rem/mu - b0/mu0 is (weakly) a gradient, data are
    projections of the anomalous flux, and the sensitivities are those of the data."""
    from scipy.constants import mu_0
    mh = mesh(mk)
    n = mh.n_cells
    kw = {}
    if phys == "mu":
        nP = n
        kw = dict(muMap=maps.ChiMap(nP=n))
    elif phys == "rem":
        nP = 3 * n
        kw = dict(remMap=maps.IdentityMap(nP=nP))
    elif phys == "both":
        nP = 4 * n
        wires = maps.Wires(("mu", n), ("rem", 3 * n))
        kw = dict(muMap=maps.ChiMap(nP=n) * wires.mu, remMap=maps.IdentityMap(nP=3 * n) * wires.rem)
    elif phys == "murem":
        nP = n
        kw = dict(muMap=maps.ChiMap(nP=n), rem=np.linspace(-2, 5, 3 * n))
    elif phys == "remmu":
        nP = 3 * n
        kw = dict(remMap=maps.IdentityMap(nP=nP), mu=mu_0 * np.linspace(1.1, 2.0, n))
    sv, rx = dsurvey(mh, comps)

    def mkS():
        return mg.Simulation3DDifferential(mh, survey=sv, solver=ctx.solver, storeJ="S" in o, **kw)
    s1, s2, s3 = mkS(), mkS(), mkS()
    nd = sv.nD
    Q = [[mh.get_interpolation_matrix(r, "F" + k).toarray() for k in "xyz"] for r in rx]
    D = mh.face_divergence.toarray()
    V = mh.cell_volumes
    MF = [mh.get_face_inner_product(np.eye(n)[k]).toarray() for k in range(n)]
    # rotated receivers, etc. are not part of this simulation
    vec = np.concatenate([np.full(k, b) for k, b in zip((mh.nFx, mh.nFy, mh.nFz), AMP * direction())])
    if "f" in o:
        m = np.linspace(0.3, 1.9, nP)
        m2 = np.linspace(1.3, 0.2, nP)
    else:
        m = ctx.reals("m", nP, lo=0.1, hi=1.0)
        m2 = ctx.reals("m2", nP, lo=1.1, hi=2.0)
    v = ctx.reals("v", nP, lo=-1, hi=1)
    w = ctx.reals("w", nd, lo=-1, hi=1)
    f = s1.fields(m)
    b = f["b"]
    chi = (m[:n] if phys in ("mu", "both", "murem") else (kw["mu"] / mu_0 - 1 if "mu" in kw else np.zeros(n)))
    mui = 1 / (1 + chi)          # relative
    rem = m if phys in ("rem", "remmu") else (m[n:] if phys == "both" else kw.get("rem", np.zeros(3 * n)))
    ctx.eq("divergence", D @ b + AMP, np.full(n, AMP))   # AMP sets the scale of the comparison
    if "N" not in o:
        # mu0 h = mui (b + b0 - rem) is b0 plus the gradient of a potential
        Mm = sum(mui[k] * MF[k].diagonal() for k in range(n))
        P3 = mh.get_face_inner_product_deriv(np.ones(3 * n))(np.ones(mh.n_faces)).toarray()
        Mr = P3 @ (rem * np.concatenate([mui, mui, mui]))
        M1 = mh.get_face_inner_product().diagonal()
        lhs = Mm * (b + vec) - Mr - M1 * vec
        C = mh.edge_curl.toarray()
        # gradients are orthogonal to every divergence free vector: use curls
        ctx.eq("gradient", C.T @ lhs + AMP, np.full(mh.n_edges, AMP))
    want = []
    for q, cs in zip(Q, comps):
        B = [q[k] @ b for k in range(3)]
        t = AMP * direction()
        for c in cs:
            if c == "tmi":
                want.append(np.sqrt(sum((B[k] + t[k]) ** 2 for k in range(3))) - AMP)
            else:
                want.append(B["xyz".index(c[1])])
    ctx.eq("data", s1.dpred(m, f=f), np.concatenate(want))
    sens2(ctx, mkS, s2, s3, m, m2, v, w, "f" in o or "mu" not in kw and "muMap" not in kw)


def sens2(ctx, mkS, s2, s3, m, m2, v, w, getJ):
    d0, d1 = ctx.dd(lambda x: s3.dpred(x), m, v)
    ctx.eq("dpred", s2.dpred(m), d0)
    Jv = s2.Jvec(m, v)
    ctx.eq("jvec", Jv, d1, fd=True)
    Jtw = s2.Jtvec(m, w)
    ctx.eq("adjoint", vdot(w, Jv), vdot(v, Jtw))
    if getJ:
        ctx.eq("getJ", s2.getJ(m) @ v, Jv)
        ctx.eq("getJ_again", s2.getJ(m) @ v, Jv)
    # a second model on the same simulation
    s4, s5 = mkS(), mkS()
    e0, e1 = ctx.dd(lambda x: s4.dpred(x), m2, v)
    ctx.eq("dpred_second", s2.dpred(m2), e0)
    ctx.eq("jvec_second", s2.Jvec(m2, v), e1, fd=True)
    ctx.eq("jtvec_second", vdot(v, s2.Jtvec(m2, w)), vdot(w, e1), fd=True)
    if getJ:
        ctx.eq("getJ_second", s2.getJ(m2) @ v, e1, fd=True)
