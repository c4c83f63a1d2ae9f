"""DC resistivity."""
import numpy as np
import scipy.sparse as sp
from scipy.special import k0e, k1e
from simpeg import maps
from simpeg.electromagnetics.static import resistivity as dc
from engine.registry import harness
from .common import mesh
from .pde import sens, vdot

S3 = dict(cc=dc.Simulation3DCellCentered, n=dc.Simulation3DNodal)
S2 = dict(cc=dc.Simulation2DCellCentered, n=dc.Simulation2DNodal)


def survey(dim, srcs, rxs, cur=(1.0, 2.5, -0.7), fix=False):
    def pt(x, y, z):
        return np.r_[x, y, z] if dim == 3 else np.r_[x, z]
    E = [pt(-0.55, -0.3, -0.35), pt(0.85, 0.6, -0.3), pt(0.1, 0.4, -0.7), pt(1.1, -0.2, 0.2), pt(-0.4, 0.2, -0.1), pt(0.5, 0.1, 0.1)]
    if dim == 2:
        E = [e + np.r_[0.0, 0.45] for e in E]
    out = []
    for q, k in enumerate(srcs.split(",")):
        rl = []
        for r in rxs.split(","):
            nm, _, o = r.partition(":")
            kw = {}
            if "r" in o:
                kw["data_type"] = "apparent_resistivity"
            if o[:1] in "ej" and o:
                kw["projField"], kw["orientation"] = o[0], o[1]
            a, b = np.vstack([E[2], E[3]]), np.vstack([E[4], E[5]])
            if nm == "p":
                rl.append(dc.Rx.Pole(a + 0.02 * q, **kw))
            elif nm == "d":
                rl.append(dc.Rx.Dipole(a, b + 0.01 * q, **kw))
            elif nm == "d1":
                rl.append(dc.Rx.Dipole(a[:1], b[:1] + 0.01 * q, **kw))
        c = cur[q % len(cur)]
        if k == "p":
            s = dc.Src.Pole(rl, location=E[1 - q % 2], current=c)
        elif k == "d":
            s = dc.Src.Dipole(rl, location_a=E[0], location_b=E[1], current=c)
        elif k == "c":   # two electrodes in the same cell
            s = dc.Src.Multipole(rl, location=np.vstack([E[0], E[0] + 0.01, E[1]]), current=np.r_[1.0, 0.7, -1.2] * c)
        elif k == "m":
            s = dc.Src.Multipole(rl, location=np.vstack([E[0], E[1], E[3]]), current=np.r_[1.0, -0.3, 0.5] * c)
        out.append(s)
    sv = dc.Survey(out)
    if "r" in rxs.replace("rx", ""):
        sv.set_geometric_factor("whole space" if "w" in rxs else "halfspace")
    return sv


def build(dim, kind, mk, srcs, rxs, phys="sigma", bc="Robin", **kw):
    mh = mesh(mk)
    n = mh.n_cells
    if phys.startswith("sigma"):
        pk = dict(sigmaMap=(maps.ExpMap if phys.endswith("exp") else maps.IdentityMap)(nP=n))
    elif phys == "act":
        act = np.ones(n, dtype=bool)
        act[-1] = False
        pk = dict(sigmaMap=maps.InjectActiveCells(mh, act, value_inactive=1e-2))
        n -= 1
    else:
        pk = dict(rhoMap=(maps.ExpMap if phys.endswith("exp") else maps.IdentityMap)(nP=n))
    if mk != "cyl3" or kind == "cc":
        kw["bc_type"] = bc
    cls = (S3 if dim == 3 else S2)[kind]

    def mkS(solver):
        k2 = dict(kw)
        if dim == 2:
            k2.setdefault("nky", 3)
            k2.setdefault("do_trap", True)
        return cls(mh, survey=survey(mh.dim, srcs, rxs), solver=solver, **pk, **k2)
    return mkS, mh, n


CASES = {}
for dim, kind, mk, srcs, rxs, phys, bc, o in [
    (3, "n", "t3:2x2x2", "d,p", "d,p", "sigma", "Robin", ""),
    (3, "n", "t3:2x2x2", "p", "d1", "rho", "Robin", "J"),
    (3, "n", "t3:2x2x2", "m,d", "d", "sigmaexp", "Robin", "f"),
    (3, "n", "t3:2x2x2", "d", "d", "sigma", "Neumann", ""),
    (3, "n", "t3:2x2x2", "d,p", "d:r", "sigma", "Robin", "J"),
    (3, "n", "t3:2x2x2", "d,p", "d,p", "sigma", "Robin", "Jf"),
    (3, "n", "t3:2x2x2", "d,p", "d,p", "rho", "Robin", "SJf"),
    (3, "n", "t3:2x2x2", "d,p", "d", "act", "Robin", ""),
    (3, "cc", "t3:2x2x2", "d,p", "d,p", "sigma", "Robin", ""),
    (3, "cc", "t3:2x2x2", "d,p", "d,p", "rho", "Dirichlet", ""),
    (3, "cc", "t3:2x2x2", "d", "d", "rho", "Neumann", "f"),
    (3, "cc", "t3:2x2x2", "d,p", "d1:r,p", "rhoexp", "Robin", "f"),
    (3, "cc", "t3:2x2x2", "m", "d:jx,p:ez", "rho", "Robin", "f"),
    (3, "cc", "t3:2x2x2", "d,p", "d,p", "rho", "Robin", "Jf"),
    (3, "cc", "t3:2x2x2", "d,p", "d1,p", "sigma", "Dirichlet", "SJf"),
    (3, "cc", "tree3", "d", "d", "sigma", "Robin", "f"),
    (3, "n", "tree3", "d", "d", "sigma", "Robin", "f"),
    (2, "n", "t2:2x2", "d,p", "d,p", "sigma", "Robin", ""),
    (2, "n", "t2:3x2", "d", "d1", "rho", "Robin", "f"),
    (2, "n", "t2:3x2", "d,p", "d", "sigmaexp", "Robin", "SJf"),
    (2, "n", "t2:2x2", "d,p", "d,p:r", "rho", "Neumann", "Jf"),
    (2, "cc", "t2:2x2", "d,p", "d,p", "rho", "Robin", ""),
    (2, "cc", "t2:3x2", "d,p", "d", "sigma", "Dirichlet", "f"),
    (2, "cc", "t2:3x2", "d,p", "d:r", "sigma", "Neumann", "f"),
    (2, "cc", "t2:3x2", "d,p", "d,p", "rhoexp", "Robin", "SJf"),
]:
    CASES[f"{dim}d-{kind}-{mk}-{srcs}-{rxs}-{phys}-{bc}" + ("-" + o if o else "")] = dict(
        dim=dim, kind=kind, mk=mk, srcs=srcs, rxs=rxs, phys=phys, bc=bc, o=o)


def model(ctx, n, fix, name="m"):
    if fix:
        k = {"m": 0.0, "m2": 0.3}[name]
        return 0.6 + k + np.linspace(0.0, 1.3, n) * np.where(np.arange(n) % 2 == 0, 1.0, 0.7)
    if name == "m2":
        return ctx.reals(name, n, lo=3.5, hi=5.0)
    return ctx.reals(name, n, lo=0.5, hi=3.0)


@harness("C15", params=CASES)
def dc_sens(ctx, dim, kind, mk, srcs, rxs, phys, bc, o):
    kw = dict(storeJ=True) if "S" in o else {}
    mkS, mh, n = build(dim, kind, mk, srcs, rxs, phys, bc, **kw)
    sims = [mkS(ctx.solver), mkS(ctx.solver)]
    nd = sims[0].survey.nD
    m = model(ctx, n, "f" in o)
    v = ctx.reals("v", n, lo=-1, hi=1)
    w = ctx.reals("w", nd, lo=-1, hi=1)
    f, d0, Jv, Jtw = sens(ctx, sims, m, v, w)
    if "J" in o:
        s3 = mkS(ctx.solver)
        J = s3.getJ(m)
        ctx.eq("getJ", J @ v, Jv)
        if dim == 3:
            ctx.eq("JtJdiag", s3.getJtJdiag(m), (J * J).sum(axis=0))
            W = np.linspace(0.5, 2.0, nd)
            WJ = W[:, None] * J
            ctx.eq("JtJdiag_W", mkS(ctx.solver).getJtJdiag(m, W=sp.diags(W)), (WJ * WJ).sum(axis=0))
        # another model on the same simulation: nothing is left over
        m2 = model(ctx, n, "f" in o, "m2")
        s4 = mkS(ctx.solver)
        ctx.eq("getJ_second", sims[1].getJ(m2) @ v, s4.Jvec(m2, v))
        ctx.eq("jvec_second", sims[1].Jvec(m2, v), s4.Jvec(m2, v))
        ctx.eq("jtvec_second", sims[1].Jtvec(m2, w), s4.Jtvec(m2, w))
        if dim == 3:
            J2 = s4.getJ(m2)
            ctx.eq("JtJdiag_second", s3.getJtJdiag(m2), (J2 * J2).sum(axis=0))


# ------------------------------------------------------------------ forward
def boundary_alpha(mh, bc, ky=None, surf=None):
    """coefficient of the mixed boundary condition on each boundary face."""
    bf = mh.boundary_faces
    nrm = mh.boundary_face_outward_normals
    al = np.zeros(len(bf))
    if bc != "Robin":
        return al
    top = mh.nodes[:, -1].max()
    mid = np.median(mh.nodes, axis=0)
    src = np.r_[mid[:-1], top]
    for i in range(len(bf)):
        if surf[i] if surf is not None else nrm[i, -1] > 0.5:
            continue
        rv = bf[i] - src
        r = np.sqrt(rv @ rv)
        c = rv @ nrm[i] / r
        al[i] = c / r if ky is None else ky * k1e(ky * r) / k0e(ky * r) * c
    return al


def residual(mh, kind, sig, phi, bc, ky=None, surf=None):
    """net current leaving each node / cell for the potential phi."""
    nc = mh.n_cells
    V = mh.cell_volumes
    al = boundary_alpha(mh, bc, ky, surf)
    if kind == "n":
        PE = np.stack([mh.get_edge_inner_product(np.eye(nc)[k]).diagonal() for k in range(nc)], axis=1)
        G = mh.nodal_gradient
        out = G.T @ ((PE @ sig) * (G @ phi))
        if ky is not None:
            out = out + ky**2 * ((mh.average_node_to_cell.T @ sp.diags(V)) @ sig) * phi
        Pb = mh.project_face_to_boundary_face
        N2F, C2F = (Pb @ mh.average_node_to_face).toarray(), (Pb @ mh.average_cell_to_face).toarray()
        area = Pb @ mh.face_areas
        B = N2F.T @ (al * area * C2F.T).T
        return out + (B @ sig) * phi
    PF = np.stack([mh.get_face_inner_product(np.eye(nc)[k]).diagonal() for k in range(nc)], axis=1)
    Div = sp.diags(V) @ mh.face_divergence
    G = Div.T
    if bc != "Dirichlet":
        G = G - mh.cell_gradient_weak_form_robin(al if bc == "Robin" else 0.0, 1.0, 0.0)[0]
    out = Div @ ((1.0 / (PF @ (1.0 / sig))) * (G @ phi))
    if ky is not None:
        out = out + ky**2 * V * sig * phi
    return out


def injected(mh, kind, src):
    cur = np.broadcast_to(src.current, (len(src.location),))
    if kind == "n":
        return cur @ mh.get_interpolation_matrix(src.location, "N").toarray()
    q = np.zeros(mh.n_cells)
    for c, loc in zip(cur, src.location):
        q[np.argmin(np.linalg.norm(mh.cell_centers - loc, axis=1))] += c
    return q


FWD = {}
for dim, kind, mk, srcs, rxs, phys, bc, o in [
    (3, "n", "t3:2x2x2", "d,p", "d,p:r", "sigma", "Robin", ""),
    (3, "n", "t3:2x2x2", "m,d", "d,p", "rho", "Robin", "s"),
    (3, "n", "t3:2x2x2", "d", "d", "sigma", "Neumann", ""),
    (3, "n", "tree3", "d", "d,p", "sigma", "Robin", ""),
    (3, "cc", "t3:2x2x2", "d,p", "d:r,p", "rho", "Robin", ""),
    (3, "cc", "t3:2x2x2", "m,p", "d,p", "sigma", "Dirichlet", ""),
    (3, "cc", "t3:2x2x2", "d", "d", "sigma", "Neumann", ""),
    (3, "cc", "t3:2x2x2", "c", "d,p", "rho", "Robin", "s"),
    (3, "cc", "t3:2x2x2", "d,p", "d:jx,p:ez", "rho", "Robin", ""),
    (2, "n", "t2:2x2", "d,p", "d,p:r", "sigma", "Robin", ""),
    (2, "n", "t2:3x2", "m,d", "d,p", "rho", "Robin", ""),
    (2, "n", "t2:2x2", "d,p", "d,p", "sigma", "Robin", "s"),
    (2, "cc", "t2:2x2", "d,p", "d,p:r", "rho", "Robin", ""),
    (2, "cc", "t2:3x2", "d,p", "d,p", "sigma", "Dirichlet", ""),
    (2, "cc", "t2:2x2", "d,p", "d,p", "sigma", "Neumann", ""),
    (2, "cc", "t2:2x2", "c", "d", "rho", "Robin", "s"),
]:
    FWD[f"{dim}d-{kind}-{mk}-{srcs}-{rxs}-{phys}-{bc}" + ("-" + o if o else "")] = dict(
        dim=dim, kind=kind, mk=mk, srcs=srcs, rxs=rxs, phys=phys, bc=bc, o=o)


@harness("C15", params=FWD)
def dc_forward(ctx, dim, kind, mk, srcs, rxs, phys, bc, o):
    """Current is conserved at every node/cell (with the stated boundary
    condition), and the data are differences of the potentials."""
    kw = {}
    surf = None
    if "s" in o:
        nb = len(mesh(mk).boundary_faces)
        surf = np.arange(nb) % 3 == 0
        kw["surface_faces"] = surf
    mkS, mh, n = build(dim, kind, mk, srcs, rxs, phys, bc, **kw)
    sim = mkS(ctx.solver)
    S = sim.survey.source_list
    gfac = []
    for s in S:
        for r in s.receiver_list:
            a, b = s.location[0], (s.location[1] if isinstance(s, dc.Src.Dipole) else None)
            ml, nl = (r.locations if isinstance(r.locations, list) else (r.locations, [None] * r.nD))
            def inv(p, q):
                return 0.0 if p is None or q is None else 1.0 / np.sqrt(((p - q)**2).sum())
            gfac.append([(inv(a, p) - inv(b, p) - inv(a, q) + inv(b, q)) / (2 * np.pi) for p, q in zip(ml, nl)])
    m = model(ctx, n, "f" in o)
    sig = 1.0 / m if phys == "rho" else m
    f = sim.fields(m)
    kys = [None] if dim == 3 else list(sim._quad_points)
    wts = [1.0] if dim == 3 else list(sim._quad_weights)
    data, k = [], 0
    for i, s in enumerate(S):
        q = injected(mh, kind, s)
        phis = [f[s, "phiSolution"].ravel()] if dim == 3 else [f[s, "phiSolution", t].ravel() for t in range(len(kys))]
        for j, (ky, phi) in enumerate(zip(kys, phis)):
            out = residual(mh, kind, sig, phi, bc, ky, surf)
            if bc == "Neumann" and dim == 2 and kind == "cc":
                out = out + np.eye(mh.n_cells)[0] * phi[0]
            skip = 1 if bc == "Neumann" and dim == 3 else 0   # the pinned value
            ctx.eq(f"conservation{i}_{j}", out[skip:], q[skip:])
        tot = sum(w * p for w, p in zip(wts, phis))
        ctx.eq(f"phi{i}", f[s, "phi"].ravel(), tot)
        if kind == "n":
            e = -(mh.nodal_gradient @ tot)
            ctx.eq(f"e{i}", f[s, "e"].ravel(), e)
            PE = np.stack([mh.get_edge_inner_product(np.eye(mh.n_cells)[c]).diagonal() for c in range(mh.n_cells)], axis=1)
            ctx.eq(f"j{i}", (PE @ np.ones(mh.n_cells)) * f[s, "j"].ravel(), (PE @ sig) * e)
        else:
            V = sp.diags(mh.cell_volumes)
            PF = np.stack([mh.get_face_inner_product(np.eye(mh.n_cells)[c]).diagonal() for c in range(mh.n_cells)], axis=1)
            if dim == 3:
                # the current density of the solution balances the injected current
                ctx.eq(f"divj{i}", (V @ (mh.face_divergence @ f[s, "j"].ravel()))[skip:], q[skip:])
            ctx.eq(f"e{i}", (PF @ np.ones(mh.n_cells)) * f[s, "e"].ravel(), (PF @ (1.0 / sig)) * f[s, "j"].ravel())
        for r in s.receiver_list:
            if r.projField != "phi":
                P = mh.get_interpolation_matrix
                fld, loc = f[s, r.projField].ravel(), f._GLoc(r.projField) + r.orientation
            else:
                P, fld, loc = mh.get_interpolation_matrix, tot, "N" if kind == "n" else "CC"
            d = P(r.locations[0], loc) @ fld - P(r.locations[1], loc) @ fld if isinstance(r.locations, list) else P(r.locations, loc) @ fld
            if r.data_type == "apparent_resistivity":
                d = d / np.array(gfac[k])
            data.append(d)
            k += 1
    ctx.eq("data", sim.dpred(m, f=f), np.concatenate(data))


MINI = {}
for dim, srcs, rxs, phys, bc, o in [
    (3, "d,p", "d,p", "sigma", "Robin", "f"), (3, "p,d", "d:r", "rho", "Robin", "f"), (3, "d,d", "p,d", "sigmaexp", "Robin", "fS"),
    (2, "d,p", "d,p", "sigma", "Robin", "f"), (2, "d,p", "d:r,p", "rho", "Robin", "f"), (2, "p,d", "d", "rho", "Robin", "fS"),
]:
    MINI[f"{dim}d-{srcs}-{rxs}-{phys}-{bc}-{o}"] = dict(dim=dim, srcs=srcs, rxs=rxs, phys=phys, bc=bc, o=o)


@harness("C15", params=MINI)
def dc_miniaturize(ctx, dim, srcs, rxs, phys, bc, o):
    """Solving for the reduced set of pole-pole pairs gives the same data and
    sensitivities (nodal discretisation)."""
    mkS, mh, n = build(dim, "n", "t3:2x2x2" if dim == 3 else "t2:3x2", srcs, rxs, phys, bc, **(dict(storeJ=True) if "S" in o else {}))
    mkM, _, _ = build(dim, "n", "t3:2x2x2" if dim == 3 else "t2:3x2", srcs, rxs, phys, bc, miniaturize=True,
                      **(dict(storeJ=True) if "S" in o else {}))
    a, b = mkS(ctx.solver), mkM(ctx.solver)
    m = model(ctx, n, "f" in o)
    v = ctx.reals("v", n, lo=-1, hi=1)
    w = ctx.reals("w", a.survey.nD, lo=-1, hi=1)
    ctx.eq("dpred", b.dpred(m), a.dpred(m))
    Jv = a.Jvec(m, v)
    ctx.eq("jvec", b.Jvec(m, v), Jv)
    ctx.eq("jtvec", b.Jtvec(m, w), a.Jtvec(m, w))
    ctx.eq("getJ", b.getJ(m) @ v, Jv)


@harness("C15", params={"rho2": dict(nl=2, phys="rho"), "sigma2": dict(nl=2, phys="sigma"), "rho3": dict(nl=3, phys="rho"),
                        "thick2": dict(nl=2, phys="thick")})
def dc_layers(ctx, nl, phys):
    locs = np.c_[np.r_[2.0, 5.0], np.r_[0.5, -1.0], np.zeros(2)]
    def mkS():
        rx = [dc.Rx.Pole(locs), dc.Rx.Dipole(locs, locs + np.r_[3.0, 0, 0], data_type="apparent_resistivity")]
        src = [dc.Src.Dipole(rx[:1], np.r_[-1.0, 0, 0], np.r_[12.0, 0, 0], current=2.0), dc.Src.Pole(rx[1:], np.r_[-1.0, 0, 0])]
        h = np.r_[1.3, 2.1][: nl - 1]
        kw = {}
        if phys == "rho":
            kw = dict(rhoMap=maps.IdentityMap(nP=nl), thicknesses=h)
        elif phys == "sigma":
            kw = dict(sigmaMap=maps.IdentityMap(nP=nl), thicknesses=h)
        else:
            kw = dict(rho=np.r_[1.0, 3.0, 0.4][:nl], thicknessesMap=maps.IdentityMap(nP=nl - 1))
        return dc.Simulation1DLayers(survey=dc.Survey(src), hankel_filter="kong_61_2007b", **kw), h
    s1, h = mkS()
    s2, _ = mkS()
    for s in (s1, s2):
        s.dpred(np.ones(nl - 1 if phys == "thick" else nl))
    lam = s1._lambdas
    n = nl - 1 if phys == "thick" else nl
    m = ctx.reals("m", n, lo=0.5, hi=3.0)
    v = ctx.reals("v", n, lo=-1, hi=1)
    d0, d1 = ctx.dd(lambda x: s1.dpred(x), m, v)
    ctx.eq("jvec", s2.Jvec(m, v), d1, fd=True)
    w = ctx.reals("w", s1.survey.nD, lo=-1, hi=1)
    ctx.eq("adjoint", vdot(w, s2.Jvec(m, v)), vdot(v, s2.Jtvec(m, w)))
    rho = 1.0 / m if phys == "sigma" else m
    if nl == 2 and phys != "thick":
        k = (rho[1] - rho[0]) / (rho[1] + rho[0])
        E = np.exp(-2 * lam * h[0])
        ctx.eq("kernel", s2.fields(m), rho[0] * (1 + k * E) / (1 - k * E))
    # a uniform ground has its own resistivity
    r = ctx.real("r", lo=0.5, hi=3.0)
    u = np.ones(nl) * (1.0 / r if phys == "sigma" else r)
    if phys != "thick":
        d = s2.dpred(u)
        ctx.le("uniform_hi", d[2:], 1.01 * np.ones(2) * r)
        ctx.le("uniform_lo", 0.99 * np.ones(2) * r, d[2:])
