"""Induced polarization, spectral induced polarization, self potential."""
import numpy as np
import scipy.sparse as sp
from simpeg import maps
from simpeg.electromagnetics.static import resistivity as dc, induced_polarization as ip, spectral_induced_polarization as sip, self_potential as spot
from engine.registry import harness
from .common import mesh
from .pde import vdot
from . import c15_dc

IPS = {(3, "cc"): ip.Simulation3DCellCentered, (3, "n"): ip.Simulation3DNodal, (2, "cc"): ip.Simulation2DCellCentered, (2, "n"): ip.Simulation2DNodal}
SIPS = {(3, "cc"): sip.Simulation3DCellCentered, (3, "n"): sip.Simulation3DNodal, (2, "cc"): sip.Simulation2DCellCentered, (2, "n"): sip.Simulation2DNodal}
DCS = {(3, "cc"): dc.Simulation3DCellCentered, (3, "n"): dc.Simulation3DNodal, (2, "cc"): dc.Simulation2DCellCentered, (2, "n"): dc.Simulation2DNodal}


def survey(mh, srcs, rxs):
    sv = c15_dc.survey(mh.dim, srcs, ",".join(r.partition(":")[0] for r in rxs.split(",")))
    for src in sv.source_list:
        for rx, r in zip(src.receiver_list, rxs.split(",")):
            if r.endswith(":c"):
                rx.data_type = "apparent_chargeability"
    return sv


def background(n, k=0):
    return 0.7 + 0.1 * k + np.linspace(0.0, 1.1, n) * np.where(np.arange(n) % 2 == 0, 1.0, 0.4 + 0.2 * k)


def eta_map(mh, kind):
    n = mh.n_cells
    if kind == "id":
        return maps.IdentityMap(nP=n), n
    act = np.ones(n, dtype=bool)
    act[-1] = False
    if kind == "act":
        return maps.InjectActiveCells(mh, act, value_inactive=0.0), n - 1
    if kind == "actv":
        return maps.InjectActiveCells(mh, act, value_inactive=0.05), n - 1
    if kind == "exp":
        return maps.ExpMap(nP=n), n


def dim_kw(dim, **kw):
    if dim == 2:
        kw.update(nky=3, do_trap=True)
    return kw


def dc_sim(ctx, dim, kind, mh, sv):
    return DCS[dim, kind](mh, survey=sv, sigmaMap=maps.IdentityMap(nP=mh.n_cells), solver=ctx.solver, **dim_kw(dim))


def dc_of(ctx, dim, kind, mh, srcs, rxs, sig):
    """DC data (volts) and their sensitivity with respect to the conductivity."""
    r = ",".join(x.partition(":")[0] for x in rxs.split(","))
    s = dc_sim(ctx, dim, kind, mh, survey(mh, srcs, r))
    return s.dpred(sig), (lambda d: dc_sim(ctx, dim, kind, mh, survey(mh, srcs, r)).Jvec(sig, d))


def scale_of(sv, d):
    out = np.ones(sv.nD)
    sl = sv.get_all_slices()
    for src in sv.source_list:
        for rx in src.receiver_list:
            if rx.data_type == "apparent_chargeability":
                out[sl[src, rx]] = 1.0 / np.asarray(d[sl[src, rx]], dtype=float)
    return out


IPC = {}
for dim, kind, mk, srcs, rxs, phys, em, o in [
    (3, "n", "t3:2x2x2", "d,p", "d,p", "sigma", "id", ""), (3, "n", "t3:2x2x2", "d,p", "d:c,p", "rho", "id", ""),
    (3, "n", "t3:2x2x2", "d,p", "d:c", "sigma", "act", "S"), (3, "cc", "t3:2x2x2", "d,p", "d,p:c", "rho", "id", ""),
    (3, "cc", "t3:2x2x2", "d,p", "d:c", "sigma", "act", ""), (3, "cc", "t3:2x2x2", "d,p", "d:c,p", "sigma", "id", "S"),
    (2, "n", "t2:3x2", "d,p", "d,p:c", "sigma", "id", ""), (2, "n", "t2:3x2", "d,p", "d:c", "rho", "act", "S"),
    (2, "cc", "t2:3x2", "d,p", "d,p:c", "rho", "id", ""), (2, "cc", "t2:3x2", "d,p", "d:c", "sigma", "id", "S"),
]:
    IPC[f"{dim}d-{kind}-{srcs}-{rxs}-{phys}-{em}{o}"] = dict(dim=dim, kind=kind, mk=mk, srcs=srcs, rxs=rxs, phys=phys, em=em, o=o)


@harness("C19", params=IPC)
def ip_response(ctx, dim, kind, mk, srcs, rxs, phys, em, o):
    """IP data are the linear response of the DC data to the chargeability, and the sensitivities are theirs."""
    mh = mesh(mk)
    n = mh.n_cells
    em_, nP = eta_map(mh, em)
    sig = background(n)
    kw = dict(storeJ=True) if "S" in o else {}

    def mkS(sg=sig, **k):
        pk = dict(sigma=sg) if phys == "sigma" else dict(rho=1.0 / sg)
        return IPS[dim, kind](mh, survey=survey(mh, srcs, rxs), etaMap=em_, solver=ctx.solver, **pk, **dim_kw(dim, **kw), **k)
    s, t = mkS(), mkS()
    nd = s.survey.nD
    d0, J = dc_of(ctx, dim, kind, mh, srcs, rxs, sig)
    scale = scale_of(s.survey, d0)
    m = ctx.reals("m", nP, lo=0.01, hi=0.2)
    m2 = ctx.reals("m2", nP, lo=0.3, hi=0.9)
    v = ctx.reals("v", nP, lo=-1, hi=1)
    w = ctx.reals("w", nd, lo=-1, hi=1)

    def data(x):
        return scale * J(-sig * (em_ * x))
    ctx.eq("data", s.dpred(m), data(m))
    Jv = scale * J(-sig * (em_.deriv(m, v)))
    ctx.eq("jvec", t.Jvec(m, v), Jv)
    ctx.eq("jvec_after", s.Jvec(m, v), Jv)
    ctx.eq("adjoint", vdot(w, Jv), vdot(v, t.Jtvec(m, w)))
    ctx.eq("data_later", t.dpred(m2), data(m2))
    ctx.eq("data_again", t.dpred(m), data(m))
    f = t.fields(m2)
    ctx.eq("data_fields", t.dpred(m2, f=f), data(m2))
    ctx.eq("jvec_later", t.Jvec(m2, v, f=f), Jv)
    ws = np.linspace(0.5, 2.0, nd)
    cols = np.stack([np.asarray(scale * J(-sig * em_.deriv(np.full(nP, 0.1), e)), dtype=float) for e in np.eye(nP)], axis=1)
    if dim == 3:
        ctx.eq("JtJdiag", mkS().getJtJdiag(np.full(nP, 0.1)), (cols ** 2).sum(axis=0))
    ctx.eq("JtJdiag_W", t.getJtJdiag(m, W=sp.diags(ws)), ((ws[:, None] * cols) ** 2).sum(axis=0))


@harness("C19", params={f"{d}-{k}-{e}": dict(dim=d, kind=k, em=e) for d, k in [(3, "n"), (2, "cc")] for e in ("exp", "actv")})
def ip_nonlinear_map(ctx, dim, kind, em):
    """The same when the chargeability is not a linear function of the model."""
    mh = mesh("t3:2x2x2" if dim == 3 else "t2:3x2")
    em_, nP = eta_map(mh, em)
    sig = background(mh.n_cells)
    s = IPS[dim, kind](mh, survey=survey(mh, "d,p", "d"), etaMap=em_, solver=ctx.solver, sigma=sig, **dim_kw(dim))
    t = IPS[dim, kind](mh, survey=survey(mh, "d,p", "d"), etaMap=em_, solver=ctx.solver, sigma=sig, **dim_kw(dim))
    d0, J = dc_of(ctx, dim, kind, mh, "d,p", "d", sig)
    m = ctx.reals("m", nP, lo=0.01, hi=0.2)
    v = ctx.reals("v", nP, lo=-1, hi=1)
    ctx.eq("jvec", t.Jvec(m, v), J(-sig * (em_.deriv(m, v))))
    ctx.eq("data_nonlinear", s.dpred(m), J(-sig * (em_ * m)))


@harness("C19", params={f"{d}-{k}{o}": dict(dim=d, kind=k, o=o) for d, k in [(3, "n"), (3, "cc"), (2, "n"), (2, "cc")] for o in ("", "S")})
def ip_background(ctx, dim, kind, o):
    """After the background changes the data and sensitivities are those of the new background; fields and factors of
    the background simulation can be passed in."""
    mk = "t3:2x2x2" if dim == 3 else "t2:3x2"
    mh = mesh(mk)
    n = mh.n_cells
    em_ = maps.IdentityMap(nP=n)
    sig, sig2 = background(n), background(n, 2)[::-1].copy()
    rxs, srcs = "d:c,p", "d,p"
    kw = dim_kw(dim, **(dict(storeJ=True) if o else {}))

    def mkS(sg, **k):
        return IPS[dim, kind](mh, survey=survey(mh, srcs, rxs), etaMap=em_, solver=ctx.solver, sigma=sg, **kw, **k)
    s, fresh = mkS(sig), mkS(sig2)
    b = dc_sim(ctx, dim, kind, mh, survey(mh, srcs, "d,p"))
    m = ctx.reals("m", n, lo=0.01, hi=0.2)
    w = ctx.reals("w", s.survey.nD, lo=-1, hi=1)
    s.dpred(m)
    s.Jvec(m, m)
    s.sigma = sig2
    want = fresh.dpred(m)
    ctx.eq("data", s.dpred(m), want)
    ctx.eq("jtvec", s.Jtvec(m, w), fresh.Jtvec(m, w))
    f = b.fields(sig2)
    sv = b.survey
    for src in sv.source_list:
        src.receiver_list[0].data_type = "apparent_chargeability"
    p = IPS[dim, kind](mh, survey=sv, etaMap=em_, solver=ctx.solver, sigma=sig2, Ainv=b.Ainv, _f=f, **kw)
    ctx.eq("given_fields", p.dpred(m), want)
    ctx.eq("given_fields_jt", p.Jtvec(m, w), fresh.Jtvec(m, w))


# ------------------------------------------------------------------ spectral IP
def sip_survey(mh, srcs, rxs, times):
    sv = c15_dc.survey(mh.dim, srcs, ",".join(r.partition(":")[0] for r in rxs.split(",")))
    out = []
    for src in sv.source_list:
        rl = []
        for rx, r in zip(src.receiver_list, rxs.split(",")):
            kw = dict(data_type="apparent_chargeability") if r.endswith(":c") else {}
            if "!" in r:
                kw["storeProjections"] = False
            if isinstance(rx, dc.receivers.Pole):
                rl.append(sip.receivers.Pole(rx.locations, times=times, **kw))
            else:
                rl.append(sip.receivers.Dipole(rx.locations[0], rx.locations[1], times=times, **kw))
        if isinstance(src, dc.sources.Pole):
            out.append(sip.sources.Pole(rl, location=src.location[0], current=float(src.current[0])))
        else:
            out.append(sip.sources.Dipole(rl, src.location[0], src.location[1], current=float(src.current[0])))
    return sip.Survey(out)


SIPC = {}
for dim, kind, srcs, rxs, phys, par, pulse, o in [
    (3, "n", "d", "d", "sigma", "eta", 2, ""), (3, "n", "d,p", "d,p", "sigma", "eta,taui,c", 2, "f"), (3, "cc", "d,p", "d,p", "rho", "eta,tau", 0, "f"),
    (3, "cc", "d", "d:c", "rho", "eta,tau,c", 1, "f"), (3, "n", "d,p", "d:c,p", "sigma", "eta,taui,c", 0, "f"),
    (3, "n", "d,p", "d,p", "sigma", "eta,tau,c", 2, "Sf"), (3, "cc", "d,p", "d:c", "rho", "eta,taui", 2, "Sf"), (3, "cc", "d,p", "d,p:c", "sigma", "eta", 2, "S"),
    (2, "n", "d,p", "d,p", "sigma", "eta,taui,c", 2, "Sf"), (2, "cc", "d,p", "d:c", "rho", "eta,tau", 0, "Sf"), (2, "cc", "d", "d,p:c", "sigma", "eta", 2, "S"),
]:
    SIPC[f"{dim}d-{kind}-{srcs}-{rxs}-{phys}-{par}-{pulse}{o}"] = dict(dim=dim, kind=kind, srcs=srcs, rxs=rxs, phys=phys, par=par, pulse=pulse, o=o)
T = [0.1, 0.35]


def peta(eta, taui, c, t, n_pulse, period=8.0):
    """pseudo chargeability of the Cole-Cole decay (stretched exponential)"""
    def off(t):
        return eta * np.exp(-((t * taui) ** c))
    if n_pulse == 0:
        return off(t)
    out = 0.0
    for i in range(n_pulse):
        ti = t + period / 2 * i
        out = out + (-1) ** i * (n_pulse - i) / n_pulse * (off(ti) - off(ti + period / 4))
    return out


@harness("C19", params=SIPC)
def sip_response(ctx, dim, kind, srcs, rxs, phys, par, pulse, o):
    """Data at each time are the IP response to the decayed chargeability (time by time, in survey order);
    sensitivities are the derivatives."""
    mh = mesh("t3:2x2x2" if dim == 3 else "t2:3x2")
    n = mh.n_cells
    sig = background(n)
    pars = par.split(",")
    wires = maps.Wires(*[(p, n) for p in pars])
    mk = {p + "Map": getattr(wires, p) for p in pars}

    def mkS(S=None):
        sv = sip_survey(mh, srcs, rxs, T)
        sv._n_pulse = pulse
        pk = dict(sigma=sig) if phys == "sigma" else dict(rho=1.0 / sig)
        # ``c`` and ``tau`` constants where they are not in the model
        k = dict(c=0.5, tau=0.4)
        k.update(mk)
        if "taui" in pars:
            k["tau"] = None
        return SIPS[dim, kind](mh, survey=sv, solver=ctx.solver, **pk, **k, **dim_kw(dim, **(dict(storeJ=True) if "S" in o and dim == 3 else {})))
    s, t = mkS(), mkS()
    nd = s.survey.nD
    d0, J = dc_of(ctx, dim, kind, mh, srcs, rxs, sig)
    scale = scale_of(survey(mh, srcs, rxs), d0)
    rng = {"eta": (0.01, 0.2), "tau": (0.2, 0.9), "taui": (0.2, 0.9), "c": (0.3, 0.9)}

    def values(k):
        out = []
        for p in pars:
            lo, hi = rng[p]
            if "f" in o:
                out.append(lo + (hi - lo) * np.linspace(0.1 + 0.2 * k, 0.6 + 0.3 * k, n) ** (1 + 0.3 * k))
            else:
                out.append(ctx.reals(f"{p}{k}", n, lo=lo, hi=hi))
        return np.concatenate(out)
    m, m2 = values(0), values(1)
    if "f" not in o:
        m2 = m2 + 0.3
    v = ctx.reals("v", len(m), lo=-1, hi=1)
    w = ctx.reals("w", nd, lo=-1, hi=1)

    def pe(x, t):
        q = {p: x[i * n:(i + 1) * n] for i, p in enumerate(pars)}
        ti = q["taui"] if "taui" in q else 1.0 / q["tau"] if "tau" in q else 1.0 / 0.4
        return peta(q["eta"], ti, q.get("c", 0.5), t, pulse)

    def dpe(x, v, t):
        return ctx.dd(lambda y: pe(y, t), x, v)[1]

    def data(x):
        return np.concatenate([scale * J(-sig * pe(x, t)) for t in T])
    ctx.eq("data", s.dpred(m), data(m))
    Jv = np.concatenate([scale * J(-sig * dpe(m, v, t)) for t in T])
    ctx.eq("jvec", t.Jvec(m, v, f=t.fields(m)), Jv, fd=True)
    Jtw = t.Jtvec(m, w)
    ctx.eq("adjoint", vdot(w, Jv), vdot(v, Jtw), fd=True)
    f = t.fields(m)
    Jv2 = np.concatenate([scale * J(-sig * dpe(m2, v, t)) for t in T])
    ctx.eq("jvec_later", t.Jvec(m2, v, f=f), Jv2, fd=True)
    ctx.eq("jtvec_later", vdot(w, Jv2), vdot(v, t.Jtvec(m2, w, f=f)), fd=True)
    ctx.eq("data_later", t.dpred(m2), data(m2))
    ctx.eq("jtvec_again", t.Jtvec(m, w, f=t.fields(m)), Jtw)
    ctx.eq("data_again", t.dpred(m), data(m))
    if "S" in o:
        ws = np.linspace(0.5, 2.0, nd)
        g = mkS()
        f = g.fields(m)
        M = [g.Jvec(m, e, f=f) for e in np.eye(len(m))]
        M = np.stack(M, axis=1)
        ctx.eq("JtJdiag", mkS().getJtJdiag(m, W=sp.diags(ws)), ((ws[:, None] * M) ** 2).sum(axis=0))


# ------------------------------------------------------------------ self potential
@harness("C19", params={f"{q}-{bc}-{phys}{S}": dict(q=q, bc=bc, phys=phys, S=S) for q in ("id", "act", "cd", "hh", "exp") for bc, phys in (("Robin", "sigma"), ("Dirichlet", "rho")) for S in ("", "S")})
def sp_response(ctx, q, bc, phys, S):
    """The potential solves the conduction equation with the given charge accumulation."""
    mh = mesh("t3:2x2x2")
    n = mh.n_cells
    sig = background(n)
    if q == "cd":
        qm = spot.CurrentDensityMap(mh)
    elif q == "hh":
        qm = spot.HydraulicHeadMap(mh, background(n, 1))
    else:
        qm = eta_map(mh, q)[0]
    nP = qm.nP
    loc = np.array([[-0.4, 0.3, -0.2], [0.5, 0.1, 0.1], [0.3, -0.2, 0.4]])

    def mkS(sg=sig):
        rx = [spot.receivers.Pole(loc[:2]), spot.receivers.Dipole(loc[1:], loc[:2])] if hasattr(spot, "receivers") else [dc.receivers.Pole(loc[:2]), dc.receivers.Dipole(loc[1:], loc[:2])]
        sv = spot.Survey([spot.sources.StreamingCurrents(rx)])
        pk = dict(sigma=sg) if phys == "sigma" else dict(rho=1.0 / sg)
        return spot.Simulation3DCellCentered(mh, survey=sv, qMap=qm, solver=ctx.solver, bc_type=bc, storeJ=bool(S), **pk)
    s, t = mkS(), mkS()
    P = mh.get_interpolation_matrix(loc, "CC").toarray()
    P = np.vstack([P[:2], P[1:] - P[:2]])
    A = dense_A(mh, sig, bc)
    G = P @ np.linalg.solve(A, np.diag(mh.cell_volumes))
    m = ctx.reals("m", nP, lo=0.1, hi=1)
    m2 = ctx.reals("m2", nP, lo=2, hi=3)
    v = ctx.reals("v", nP, lo=-1, hi=1)
    w = ctx.reals("w", len(P), lo=-1, hi=1)
    ctx.eq("data", s.dpred(m), G @ (qm * m))
    Jv = t.Jvec(m, v)
    ctx.eq("jvec", Jv, G @ (qm.deriv(m, v)))
    ctx.eq("adjoint", vdot(w, Jv), vdot(v, t.Jtvec(m, w)))
    ctx.eq("data2", t.dpred(m2), G @ (qm * m2))
    ctx.eq("jvec2", t.Jvec(m2, v), G @ (qm.deriv(m2, v)))
    ctx.eq("adjoint2", vdot(w, t.Jvec(m2, v)), vdot(v, t.Jtvec(m2, w)))
    D = G @ dense(qm.deriv(m2))
    ctx.eq("getJ", t.getJ(m2), D)
    ctx.eq("JtJdiag", t.getJtJdiag(m2), (D * D).sum(axis=0))


def dense(A):
    return A.toarray() if hasattr(A, "toarray") else A


def dense_A(mh, sig, bc):
    """-div sigma grad with the mixed (or zero potential) boundary condition, assembled with cell centre differences."""
    V = np.diag(mh.cell_volumes)
    D = V @ mh.face_divergence.toarray()
    Gr = D.T.copy()
    if bc == "Robin":
        al = c15_dc.boundary_alpha(mh, "Robin")
        B, _ = mh.cell_gradient_weak_form_robin(al, np.ones(len(al)), 0)
        Gr = Gr - B.toarray()
    M = mh.get_face_inner_product(1.0 / sig, invert_matrix=True).toarray()
    return D @ M @ Gr
