"""Time domain EM."""
import numpy as np
from simpeg import maps
from simpeg.electromagnetics import time_domain as tdem
from engine.registry import harness
from .common import mesh
from .pde import sens, vdot

SIM = dict(e=tdem.Simulation3DElectricField, b=tdem.Simulation3DMagneticFluxDensity,
           h=tdem.Simulation3DMagneticField, j=tdem.Simulation3DCurrentDensity)
RX = dict(e=tdem.Rx.PointElectricField, b=tdem.Rx.PointMagneticFluxDensity, dbdt=tdem.Rx.PointMagneticFluxTimeDerivative,
          h=tdem.Rx.PointMagneticField, j=tdem.Rx.PointCurrentDensity, dhdt=tdem.Rx.PointMagneticFieldTimeDerivative)
STEPS = dict(u=[0.5, 0.5], n=[0.5, 0.5, 1.25], d=[1.0, 0.5, 1.5], one=[1.0], g=[0.5, 1.0, 2.0])


def waveform(kind):
    S = tdem.Src
    return dict(step=lambda: S.StepOffWaveform(), ramp=lambda: S.RampOffWaveform(0.7),
                vtem=lambda: S.VTEMWaveform(off_time=1.8, peak_time=0.8),
                trap=lambda: S.TrapezoidWaveform(ramp_on=np.r_[0.0, 0.4], ramp_off=np.r_[0.9, 1.8]),
                pwl=lambda: S.PiecewiseLinearWaveform(np.r_[0.0, 0.6, 2.0], np.r_[1.0, 0.6, 0.0]))[kind]()


def build(kind, mk, src, rxs, wave="step", steps="n", smap="id"):
    mh = mesh(mk)
    dt = STEPS[steps]
    T = np.cumsum(dt)
    rl = []
    for r in rxs.split(","):
        r, _, o = r.partition(":")
        ori = o[0] if o else ("y" if (r in "ej" and mk.startswith("cyl")) else "z")
        tt = dict(m=[T[0] * 0.5, T[-1] * 0.7], l=[T[-1]], a=[T[0], T[-1] * 0.55, T[-1]])[o[1:] or "m"]
        loc = np.array([[0.9, 0.0, -0.25], [1.6, 0.0, -0.6]]) if mk.startswith("cyl") else np.array([[0.15, 0.1, -0.3], [-0.2, 0.25, -0.6]])
        if mk.startswith("cyl") and ori == "y":
            loc = loc
        rl.append(RX[r](loc, np.array(tt), orientation=ori))
    S = tdem.Src
    srcs = []
    for k in src.split(","):
        w = waveform(wave)
        if k == "dip":
            s = S.MagDipole(rl, location=np.r_[0.0, 0.0, -0.1], orientation="z", mu=1.3, waveform=w)
        elif k == "loop":
            s = S.CircularLoop(rl, location=np.r_[0.0, 0.0, -0.1], radius=1.3, current=2.0, orientation="z", mu=1.3, waveform=w)
        elif k == "gal":
            s = S.LineCurrent(rl, location=np.array([[-0.3, -0.2, -0.3], [0.8, -0.2, -0.3]]), current=3.0, waveform=w)
        elif k == "wire":
            s = S.LineCurrent(rl, location=np.array([[-0.4, -0.3, -0.3], [0.6, -0.3, -0.3], [0.6, 0.4, -0.3], [-0.4, 0.4, -0.3], [-0.4, -0.3, -0.3]]), current=1.5, waveform=w)
        srcs.append(s)
    sv = tdem.Survey(srcs)
    mu = 1.3
    kw = dict(mu=mu)
    n = mh.n_cells
    mp = dict(id=maps.IdentityMap, exp=maps.ExpMap)[smap](nP=n)
    return lambda solver: SIM[kind](mh, survey=sv, time_steps=np.array(dt), sigmaMap=mp, solver=solver, **kw), mh


CASES = {}
for k, mk, src, rx, wave, steps, o in [
    ("b", "cyl:2x2", "dip", "dbdt,b", "step", "n", ""),
    ("b", "cyl:2x2", "loop,dip", "e,j", "vtem", "d", ""),
    ("b", "cyl:2x2", "loop", "h,dhdt", "trap", "d", "e"),
    ("b", "t3:2x2x2", "wire", "b:za,e:xm", "pwl", "n", ""),
    ("e", "cyl:2x2", "dip", "dbdt,e,j", "ramp", "d", ""),
    ("e", "cyl:2x2", "loop,dip", "dhdt,j", "trap", "u", "e"),
    ("e", "t3:2x2x2", "gal", "e:xm,dbdt:za", "step", "d", ""),
    ("e", "t3:2x2x2", "gal,wire", "j:yl", "step", "one", ""),
    ("h", "t3:2x2x2", "wire", "h:xa,dbdt:zm", "step", "d", ""),
    ("h", "t3:2x2x2", "gal", "h:xa,j:ym,e:xl", "step", "d", ""),
    ("h", "t3:2x2x2", "wire", "b:xa,dhdt:ym", "ramp", "u", ""),
    ("h", "t3:2x2x2", "dip", "e:xa,j:ym", "trap", "d", ""),
    ("j", "t3:2x2x2", "wire", "j:xa,dbdt:zm", "step", "d", "f"),
    ("j", "t3:2x2x2", "gal", "e:xa,dhdt:zm", "step", "d", "f"),
    ("j", "t3:2x2x2", "dip", "j:xa,dbdt:zm", "ramp", "d", "f"),
    ("j", "t3:2x2x2", "wire,gal", "j:xa,dbdt:zm", "trap", "n", "f"),
]:
    CASES[f"{k}-{mk}-{src}-{wave}-{steps}-{rx}" + ("-" + o if o else "")] = dict(
        kind=k, mk=mk, src=src, rxs=rx, wave=wave, steps=steps, fix="f" in o, smap="exp" if "e" in o else "id")


@harness("C17", params=CASES)
def tdem_sens(ctx, kind, mk, src, rxs, wave, steps, smap="id", fix=False):
    mkS, mh = build(kind, mk, src, rxs, wave, steps, smap)
    n = mh.n_cells
    sims = [mkS(ctx.solver), mkS(ctx.solver)]
    nd = sims[0].survey.nD
    if fix:
        m = np.linspace(0.6, 2.3, n) * np.where(np.arange(n) % 2 == 0, 1.0, 0.7)
    else:
        m = ctx.reals("m", n, lo=0.5, hi=3.0)
    v = ctx.reals("v", n, lo=-1, hi=1)
    w = ctx.reals("w", nd, lo=-1, hi=1)
    sens(ctx, sims, m, v, w)


def edge_product(mh, sig):
    n = mh.n_cells
    cols = [mh.get_edge_inner_product(np.eye(n)[k]).diagonal() for k in range(n)]
    return np.stack(cols, axis=1) @ sig


def face_product(mh, sig):
    n = mh.n_cells
    cols = [mh.get_face_inner_product(np.eye(n)[k]).diagonal() for k in range(n)]
    return np.stack(cols, axis=1) @ sig


FWD = {}
for k, mk, src, wave, steps, o in [
    ("b", "cyl:2x2", "loop,dip", "vtem", "d", ""),
    ("b", "cyl:2x2", "dip", "step", "g", ""),
    ("b", "t3:2x2x2", "wire", "pwl", "n", ""),
    ("e", "cyl:2x2", "dip", "ramp", "d", ""),
    ("e", "cyl:2x2", "dip,loop", "step", "g", ""),
    ("e", "t3:2x2x2", "gal", "trap", "d", ""),
    ("e", "t3:2x2x2", "gal", "step", "g", ""),
    ("h", "t3:2x2x2", "gal", "ramp", "d", ""),
    ("h", "t3:2x2x2", "wire,gal", "trap", "n", ""),
    ("j", "t3:2x2x2", "gal,wire", "ramp", "g", ""),
    ("j", "t3:2x2x2", "gal", "step", "d", "f"),
    ("j", "t3:2x2x2", "dip", "ramp", "d", ""),
]:
    FWD[f"{k}-{mk}-{src}-{wave}-{steps}" + ("-" + o if o else "")] = dict(kind=k, mk=mk, src=src, wave=wave, steps=steps, fix="f" in o)


@harness("C17", params=FWD)
def tdem_forward(ctx, kind, mk, src, wave, steps, fix=False):
    """The computed fields satisfy the backward Euler discretisation of the
    quasi-static Maxwell equations at every time step."""
    rx = dict(b="b,dbdt,e", e="e,dbdt", h="h,j", j="j,dhdt")[kind]
    if not mk.startswith("cyl"):
        rx = ",".join(r + ":ya" for r in rx.split(","))
    mkS, mh = build(kind, mk, src, rx, wave, steps)
    n = mh.n_cells
    sim = mkS(ctx.solver)
    dts = STEPS[steps]
    ts = np.r_[0.0, np.cumsum(dts)]
    C = mh.edge_curl
    mu = 1.3
    PE = np.stack([mh.get_edge_inner_product(np.eye(n)[k]).diagonal() for k in range(n)], axis=1)
    PF = np.stack([mh.get_face_inner_product(np.eye(n)[k]).diagonal() for k in range(n)], axis=1)
    se = []
    for s in sim.survey.source_list:
        if isinstance(s, tdem.Src.LineCurrent):
            q = s.Mejs(sim) if kind in "eb" else s.Mfjs(sim)
        else:
            b = s._bSrc(sim)
            q = C.T @ ((PF @ (np.ones(n) / mu)) * b) if kind in "eb" else C @ (b / mu)
        se.append([q * s.waveform.eval(t) for t in ts])
    if fix:
        m = np.linspace(0.6, 2.3, n) * np.where(np.arange(n) % 2 == 0, 1.0, 0.7)
    else:
        m = ctx.reals("m", n, lo=0.5, hi=3.0)
    f = sim.fields(m)
    rho = 1.0 / m

    def g(s, name, k):
        return f[s, name, k].ravel()

    for i, s in enumerate(sim.survey.source_list):
        for k, dt in enumerate(dts):
            if kind == "b":
                b0, b1, e1 = g(s, "b", k), g(s, "b", k + 1), g(s, "e", k + 1)
                ctx.eq(f"faraday{i}{k}", (b1 - b0) / dt, -(C @ e1))
                ctx.eq(f"ampere{i}{k}", C.T @ ((PF @ (np.ones(n) / mu)) * b1), (PE @ m) * e1 + se[i][k + 1])
                ctx.eq(f"dbdt{i}{k}", g(s, "dbdt", k + 1), -(C @ e1))
                ctx.eq(f"h{i}{k}", g(s, "h", k + 1), b1 / mu)
                ctx.eq(f"dhdt{i}{k}", g(s, "dhdt", k + 1), -(C @ e1) / mu)
                ctx.eq(f"j{i}{k}", (PE @ np.ones(n)) * g(s, "j", k + 1), (PE @ m) * e1)
            elif kind == "e":
                e0, e1 = g(s, "e", k), g(s, "e", k + 1)
                ctx.eq(f"maxwell{i}{k}", C.T @ ((PF @ (np.ones(n) / mu)) * (C @ e1)),
                       -(PE @ m) * (e1 - e0) / dt - (se[i][k + 1] - se[i][k]) / dt)
                ctx.eq(f"dbdt{i}{k}", g(s, "dbdt", k + 1), -(C @ e1))
                ctx.eq(f"dhdt{i}{k}", g(s, "dhdt", k + 1), -(C @ e1) / mu)
                ctx.eq(f"j{i}{k}", (PE @ np.ones(n)) * g(s, "j", k + 1), (PE @ m) * e1)
            elif kind == "h":
                h0, h1, j1 = g(s, "h", k), g(s, "h", k + 1), g(s, "j", k + 1)
                ctx.eq(f"faraday{i}{k}", (PE @ (mu * np.ones(n))) * (h1 - h0) / dt, -(C.T @ ((PF @ rho) * j1)))
                ctx.eq(f"ampere{i}{k}", C @ h1, j1 + se[i][k + 1])
                ctx.eq(f"e{i}{k}", (PF @ np.ones(n)) * g(s, "e", k + 1), (PF @ rho) * j1)
                ctx.eq(f"b{i}{k}", g(s, "b", k + 1), mu * h1)
                ctx.eq(f"dbdt{i}{k}", (PE @ np.ones(n)) * g(s, "dbdt", k + 1), -(C.T @ ((PF @ rho) * j1)))
                ctx.eq(f"dhdt{i}{k}", (PE @ np.ones(n)) * mu * g(s, "dhdt", k + 1), -(C.T @ ((PF @ rho) * j1)))
            else:
                j0, j1 = g(s, "j", k), g(s, "j", k + 1)
                Mf = PF @ rho
                dh = C.T @ (Mf * j1)
                # the discrete equation, weighted with the (invertible) resistivity matrix
                ctx.eq(f"maxwell{i}{k}", Mf * (C @ (dh / (PE @ (mu * np.ones(n))))),
                       -Mf * (j1 - j0) / dt - Mf * (se[i][k + 1] - se[i][k]) / dt)
                ctx.eq(f"dhdt{i}{k}", (PE @ np.ones(n)) * mu * g(s, "dhdt", k + 1), -dh)
                ctx.eq(f"dbdt{i}{k}", (PE @ np.ones(n)) * g(s, "dbdt", k + 1), -dh)
                ctx.eq(f"e{i}{k}", (PF @ np.ones(n)) * g(s, "e", k + 1), Mf * j1)
    # data: linear interpolation in time of the interpolated fields
    d = sim.dpred(m, f=f)
    out = []
    for s in sim.survey.source_list:
        for r in s.receiver_list:
            loc = f._GLoc(r.projField) + "xyz"[int(np.argmax(np.abs(r.orientation)))]
            P = mh.get_interpolation_matrix(r.locations, loc)
            for t in r.times:
                k = int(np.searchsorted(ts, t) - 1)
                a = (t - ts[k]) / dts[k]
                out.append((1 - a) * (P @ g(s, r.projField, k)) + a * (P @ g(s, r.projField, k + 1)))
    ctx.eq("data", d, np.concatenate(out))
