"""Frequency domain EM."""
import numpy as np
from simpeg import maps
from simpeg.electromagnetics import frequency_domain as fdem
from engine.registry import harness
from .common import mesh
from .pde import sens, vdot, jextras

SIM = dict(e=fdem.Simulation3DElectricField, b=fdem.Simulation3DMagneticFluxDensity,
           h=fdem.Simulation3DMagneticField, j=fdem.Simulation3DCurrentDensity)
RX = dict(e=fdem.Rx.PointElectricField, b=fdem.Rx.PointMagneticFluxDensity, bs=fdem.Rx.PointMagneticFluxDensitySecondary,
          h=fdem.Rx.PointMagneticField, hs=fdem.Rx.PointMagneticFieldSecondary, j=fdem.Rx.PointCurrentDensity)
FREQ = (0.3, 0.11)


def build(kind, mk, src, rxs, nf=1, phys="sigma", smap="id"):
    mh = mesh(mk)
    cyl = mk.startswith("cyl:")
    n = mh.n_cells
    eb = kind in "eb"
    srcs = []
    for fi in range(nf):
        for q, k in enumerate(src.split(",")):
            rl = []
            for r in rxs.split(","):
                r, _, o = r.partition(":")
                ori = o[0] if o else ("y" if (r in ("e", "j") and cyl) else "z")
                comp = dict(r="real", i="imag", b="both")[o[1:] or "ri"[(fi + len(rl)) % 2]]
                loc = np.array([[0.9, 0.0, -0.25], [1.6, 0.0, -0.6]]) if cyl else (np.array([[0.15, 0.1, -0.3], [-0.2, 0.25, -0.6]]) if "x1x" not in mk else np.array([[0.15, -0.3, -0.3], [-0.2, -0.4, -0.6]]))
                rl.append(RX[r](loc + 0.05 * q, orientation=ori, component=comp))
            fr = FREQ[fi]
            S = fdem.Src
            loc = np.r_[0.0, 0.0, -0.1]
            rng = np.random.RandomState(3 + q)
            ne, nfc = mh.n_edges, mh.n_faces
            if k == "dip":
                s = S.MagDipole(rl, fr, location=loc, orientation="z", mu=1.3)
            elif k == "dipb":
                s = S.MagDipole_Bfield(rl, fr, location=loc, orientation="z", mu=1.3)
            elif k == "loop":
                s = S.CircularLoop(rl, fr, location=loc, radius=1.3, current=2.0, orientation="z", mu=1.3)
            elif k == "line":
                s = S.LineCurrent(rl, fr, location=np.array([[-0.3, -0.2, -0.3], [0.8, -0.2, -0.3]]), current=3.0)
            elif k == "rawe":
                s = S.RawVec_e(rl, fr, s_e=rng.rand(ne if eb else nfc) + 1j * rng.rand(ne if eb else nfc))
            elif k == "rawm":
                s = S.RawVec_m(rl, fr, s_m=rng.rand(nfc if eb else ne) + 0.5j)
            elif k == "raw":
                s = S.RawVec(rl, fr, s_e=rng.rand(ne if eb else nfc) + 0.25j, s_m=rng.rand(nfc if eb else ne) - 0.5j)
            srcs.append(s)
    sv = fdem.Survey(srcs)
    M = dict(id=maps.IdentityMap, exp=maps.ExpMap)[smap]
    nP = n
    if phys == "sigma":
        kw = dict(sigmaMap=M(nP=n), mu=1.3)
    elif phys == "rho":
        kw = dict(rhoMap=M(nP=n), mu=1.3)
    elif phys == "mu":
        kw = dict(muMap=M(nP=n), sigma=0.8)
    elif phys == "mui":
        kw = dict(muiMap=M(nP=n), sigma=0.8)
    elif phys == "both":
        w = maps.Wires(("s", n), ("m", n))
        kw = dict(sigmaMap=M(nP=n) * w.s, muMap=M(nP=n) * w.m)
        nP = 2 * n
    return (lambda solver, **o: SIM[kind](mh, survey=sv, solver=solver, **kw, **o)), mh, nP


CASES = {}
for k, mk, src, rx, nf, phys, o in [
    ("e", "cyl:2x2", "dip,loop", "b,e", 2, "sigma", ""),
    ("e", "cyl:2x2", "dip", "h,bs,j", 1, "sigma", "e"),
    ("e", "cyl:2x2", "dip", "b,j", 1, "sigma", "J"),
    ("e", "cyl:2x2", "rawe,rawm", "b,j,h", 1, "both", ""),
    ("e", "cyl:2x2", "dip", "b,e,h", 1, "mu", ""),
    ("e", "t3:2x2x2", "line", "e:xr,b:yi,j:zr", 1, "sigma", ""),
    ("b", "cyl:2x2", "dip,loop", "b,e", 2, "sigma", ""),
    ("b", "cyl:2x2", "dip", "h,bs,j", 1, "sigma", "e"),
    ("b", "cyl:2x2", "loop", "b,e", 1, "sigma", "fJ"),
    ("b", "cyl:2x2", "rawe,raw", "b,e,j,h", 1, "both", "f"),
    ("b", "cyl:2x2", "dip", "b,h", 1, "mu", "f"),
    ("b", "t3:2x2x2", "dipb", "b:xr,e:yi", 1, "sigma", "f"),
    ("h", "t3:2x2x2", "dip", "h:xr,j:yi,e:zr,b:xi", 1, "sigma", ""),
    ("h", "t3:2x2x2", "rawe,raw", "h:xr,b:yi,e:zr", 1, "both", "f"),
    ("h", "t3:2x2x2", "line", "h:xi,b:yr,j:zr", 1, "rho", "e"),
    ("h", "t3:2x2x2", "rawe", "h:xi,e:zr", 1, "sigma", "fJ"),
    ("j", "t3:2x2x2", "dip", "h:xr,j:yi,e:zr,b:xi", 1, "sigma", "f"),
    ("j", "t3:2x2x2", "rawe,raw", "h:xr,b:yi,e:zr,j:xr", 1, "both", "f"),
    ("j", "t3:2x2x2", "line,rawm", "h:xi,b:yr,e:zr", 1, "rho", "ef"),
    ("j", "t3:2x2x2", "rawm", "j:xi,h:zr", 1, "sigma", "fJ"),
]:
    CASES[f"{k}-{mk}-{src}-{rx}-{nf}-{phys}" + ("-" + o if o else "")] = dict(
        kind=k, mk=mk, src=src, rxs=rx, nf=nf, phys=phys, o=o)


def model(ctx, n, fix, lo=0.5):
    if fix:
        return lo + 0.1 + np.linspace(0.0, 1.3, n) * np.where(np.arange(n) % 2 == 0, 1.0, 0.7)
    return ctx.reals("m", n, lo=lo, hi=3.0)


@harness("C16", params=CASES)
def fdem_sens(ctx, kind, mk, src, rxs, nf, phys, o):
    mkS, mh, n = build(kind, mk, src, rxs, nf, phys, "exp" if "e" in o else "id")
    sims = [mkS(ctx.solver), mkS(ctx.solver)]
    nd = sims[0].survey.nD
    m = model(ctx, n, "f" in o, 1.5 if phys == "mu" else 0.5)
    v = ctx.reals("v", n, lo=-1, hi=1)
    w = ctx.reals("w", nd, lo=-1, hi=1)
    f, d0, Jv, Jtw = sens(ctx, sims, m, v, w)
    if "J" in o:
        jextras(ctx, mkS(ctx.solver), m, v, Jv, nd)


FWD = {}
for k, mk, src, phys, o in [
    ("e", "cyl:2x2", "raw", "both", ""), ("e", "t3:2x2x2", "raw,line", "sigma", ""), ("e", "cyl:2x2", "dip,loop", "sigma", ""),
    ("e", "cyl:2x2", "raw", "sigma", "p"),
    ("b", "cyl:2x2", "raw", "both", ""), ("b", "t3:2x2x2", "raw", "sigma", ""), ("b", "cyl:2x2", "dip,loop", "sigma", ""),
    ("b", "cyl:2x2", "raw", "sigma", "p"),
    ("h", "t3:2x1x2", "raw", "both", ""), ("h", "t3:2x2x2", "raw,line", "rho", ""), ("h", "t3:2x1x2", "raw", "sigma", "p"),
    ("j", "t3:2x1x2", "raw", "both", ""), ("j", "t3:2x2x2", "raw,line", "rho", ""), ("j", "t3:2x1x2", "raw", "sigma", "pf"),
]:
    FWD[f"{k}-{mk}-{src}-{phys}" + o] = dict(kind=k, mk=mk, src=src, phys=phys, o=o)


@harness("C16", params=FWD)
def fdem_forward(ctx, kind, mk, src, phys, o):
    """Computed fields satisfy the discrete Maxwell equations and the
    constitutive relations at every frequency, and data are their projections."""
    rx = dict(e="e,b,j,h", b="e,b,j,h", h="h,j,e,b", j="h,j,e,b")[kind]
    if not mk.startswith("cyl"):
        rx = ",".join(r + ":x" + "ri"[i % 2] for i, r in enumerate(rx.split(",")))
    mkS, mh, n = build(kind, mk, src, rx, 2, phys)
    nc = mh.n_cells
    one = np.ones(nc)
    eps = 0.37
    sim = mkS(ctx.solver, permittivity=eps * one) if "p" in o else mkS(ctx.solver)
    C = mh.edge_curl
    PE = np.stack([mh.get_edge_inner_product(np.eye(nc)[k]).diagonal() for k in range(nc)], axis=1)
    PF = np.stack([mh.get_face_inner_product(np.eye(nc)[k]).diagonal() for k in range(nc)], axis=1)
    prim = []
    for s in sim.survey.source_list:
        prim.append(s.bPrimary(sim) if src in ("dip", "loop", "dip,loop") else 0.0)
    S = [s for s in sim.survey.source_list]
    sme = []
    for s in S:
        if isinstance(s, fdem.Src.LineCurrent):
            sme.append((0.0, s.Mejs(sim) if kind in "eb" else s.Mfjs(sim)))
        elif isinstance(s, fdem.Src.RawVec):
            sme.append((s._s_m, s._s_e))
        else:
            sme.append((0.0, 0.0))
    m = model(ctx, n, "f" in o)
    if "f" in o:  # symbolic source strengths instead of a symbolic model
        for i, s in enumerate(S):
            a, c = ctx.reals(f"amp{i}", 2, lo=0.5, hi=2.0)
            s._s_e, s._s_m = a * s._s_e, c * s._s_m
            sme[i] = (s._s_m, s._s_e)
    sig, mu = m[:nc], (m[nc:] if phys == "both" else 1.3 * one)
    rho = 1.0 / sig if phys != "rho" else sig
    sig = 1.0 / rho if phys == "rho" else sig
    f = sim.fields(m)
    for i, s in enumerate(S):
        om = 2 * np.pi * s.frequency
        q_m, q_e = sme[i]
        y = sig + (1j * om * eps if "p" in o else 0.0) * one
        e, b, h, j = (f[s, x].ravel() for x in "ebhj")
        if kind in "eb":
            Me, Mfi = PE @ y, PF @ (1.0 / mu)
            wgt = Mfi if kind == "b" else 1.0  # the b formulation scales this equation
            ctx.eq(f"faraday{i}", wgt * (C @ e), wgt * (-1j * om * b + q_m))
            ctx.eq(f"ampere{i}", C.T @ (Mfi * (b - prim[i])), Me * e + q_e)
            if not o:
                ctx.eq(f"j{i}", (PE @ one) * j, (PE @ sig) * e)
            ctx.eq(f"h{i}", (PF @ one) * h, Mfi * b)
        else:
            Mfr, Mem = PF @ (1.0 / y), PE @ mu
            if kind == "j":
                # equation (3) of the j formulation is scaled by the resistivity matrix
                ctx.eq(f"faraday{i}", C.T @ (Mfr * j), -1j * om * Mem * h + q_m)
                ctx.eq(f"ampere{i}", Mfr * (C @ h), Mfr * (j + q_e))
            else:
                ctx.eq(f"faraday{i}", C.T @ (Mfr * j), -1j * om * Mem * h + q_m)
                ctx.eq(f"ampere{i}", C @ h, j + q_e)
            if not o:
                ctx.eq(f"e{i}", (PF @ one) * e, (PF @ rho) * j)
            ctx.eq(f"b{i}", (PE @ one) * b, Mem * h)
    out = []
    for s in S:
        for r in s.receiver_list:
            P = mh.get_interpolation_matrix(r.locations, f._GLoc(r.projField) + "xyz"[int(np.argmax(np.abs(r.orientation)))])
            d = P @ f[s, r.projField].ravel()
            out.append(d.real if r.component == "real" else d.imag)
    ctx.eq("data", sim.dpred(m, f=f), np.concatenate(out))
