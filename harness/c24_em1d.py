"""Layered-earth EM (frequency and time domain): Hankel and Fourier transforms of an arbitrary reflection coefficient.

The reflection coefficient itself comes from the geoana package; here it is either an arbitrary table of complex numbers
(one unknown per frequency and wavenumber), or an arbitrary-looking smooth function of the layer properties with exact
derivatives.  Digital filters are replaced by short ones: the simulations are linear in the filter weights.
"""
import contextlib
from collections import namedtuple

import numpy as np
from scipy.constants import mu_0
from scipy.interpolate import InterpolatedUnivariateSpline
from scipy.special import roots_legendre

from simpeg import maps
from simpeg.electromagnetics import frequency_domain as fd, time_domain as td
from simpeg.electromagnetics.frequency_domain import simulation_1d as fd1
from simpeg.electromagnetics.time_domain import simulation_1d as td1
from engine.registry import harness
from .pde import sens, vdot, jextras

HF = namedtuple("HankelFilter", "base j0 j1")(np.r_[0.4, 1.1, 2.9], np.r_[0.7, 0.9, -0.4], np.r_[0.2, 0.8, 0.5])
CF = namedtuple("CosineFilter", "base cos")(0.5 * 1.6 ** np.arange(4), np.r_[0.6, 1.1, -0.7, 0.3])
H = namedtuple("H", "mod sim rx src")
DOM = {"fd": H(fd1, fd1.Simulation1DLayered, fd.receivers, fd.sources), "td": H(td1, td1.Simulation1DLayered, td.receivers, td.sources)}


@contextlib.contextmanager
def kernel(forward, gradient=None):
    """the layered earth seen by the simulations."""
    old = [(m, m.rTE_forward, m.rTE_gradient) for m in (fd1, td1)]
    try:
        for m, _, _ in old:
            m.rTE_forward, m.rTE_gradient = forward, gradient
        yield
    finally:
        for m, f, g in old:
            m.rTE_forward, m.rTE_gradient = f, g


class Smooth:
    """a smooth function of the properties of the layers, with its derivatives."""

    @staticmethod
    def coef(freq, lamb, n, k):
        f = np.log(np.asarray(freq, float))[None, :, None]
        la = np.log(np.asarray(lamb, float))[None, None, :]
        i = np.arange(n)[:, None, None]
        return np.cos(1.3 * f + 0.7 * la + i + k) + 1j * np.sin(0.6 * f - 1.1 * la + 2 * i + k)

    @classmethod
    def forward(cls, freq, lamb, sigma, mu, thick):
        n = len(thick) + 1
        A, B, C, D = (cls.coef(freq, lamb, n, k) for k in range(4))
        s, u = sigma[:, :, None], mu[:, :, None] / mu_0
        out = 0.0
        for k in range(n):
            out = out + A[k] * s[k] + B[k] * s[k] * s[k] + C[k] * u[k] * s[(k + 1) % n]
            if k < n - 1:
                out = out + D[k] * (thick[k] * s[k] + thick[k] * thick[k] * u[k + 1])
        return out

    @classmethod
    def gradient(cls, freq, lamb, sigma, mu, thick):
        n = len(thick) + 1
        A, B, C, D = (cls.coef(freq, lamb, n, k) for k in range(4))
        s, u = sigma[:, :, None], mu[:, :, None] / mu_0
        ds, du, dt = [], [], []
        for k in range(n):
            ds.append(A[k] + 2 * B[k] * s[k] + C[k - 1] * u[k - 1] + (D[k] * thick[k] if k < n - 1 else 0.0))
            du.append((C[k] * s[(k + 1) % n] + (D[k - 1] * thick[k - 1] * thick[k - 1] if k else 0.0)) / mu_0)
            if k < n - 1:
                dt.append(D[k] * (s[k] + 2 * thick[k] * u[k + 1]))
        shape = (len(freq), len(lamb))
        full = [np.stack([x + np.zeros(shape) for x in g]) if g else np.zeros((0,) + shape) for g in (ds, dt, du)]
        return tuple(full)


class Table:
    """one unknown complex number per frequency and wavenumber."""

    def __init__(self, ctx):
        self.ctx, self.tab = ctx, {}

    def __call__(self, freq, lamb):
        k = (round(float(np.log(freq)), 8), round(float(np.log(lamb)), 8))
        if k not in self.tab:
            i = len(self.tab)
            self.tab[k] = self.ctx.reals(f"K{i}", 2, lo=-1, hi=1)
        a = self.tab[k]
        return a[0] + 1j * a[1]

    def forward(self, freq, lamb, sigma, mu, thick):
        return np.stack([np.stack([self(f, la) for la in lamb]) for f in freq])


def short(sim):
    sim._fhtfilt = HF
    if hasattr(sim, "_fftfilt"):
        sim._fftfilt = CF
    return sim


SQUARE = np.array([[-3.0, -2, 2], [4, -2, 2], [4, 3, 2], [-3, 3, 2], [-3, -2, 2]])
TRI = np.array([[0.0, -2, 3], [5, 1, 3], [-1, 4, 3], [0, -2, 3]])
TIMES = np.r_[1.0, 5.0, 22.0]


def receivers(dom, kinds, nloc=1, src="dip", times=TIMES, offset=False):
    """one receiver per (class, orientation, component)."""
    R = DOM[dom].rx
    if src == "loop":
        locs = np.array([[0.0, 0, 2.5]] * nloc) + np.arange(nloc)[:, None] * np.r_[0, 0, 1.0]
    else:
        locs = np.array([[7.0, 3, 2.5], [-2.0, 6.0, 4.0], [1.0, -8.0, 3.0]])[:nloc]
    if offset:
        locs = locs - np.r_[0, 0, 2.0]
    out = []
    for k, (cls, o, c) in enumerate(kinds):
        l = locs if src == "loop" else locs + k * np.r_[0.5, -0.3, 0.4]
        if dom == "fd":
            kw = {}
            if ":" in cls:
                cls, kw["data_type"] = cls.split(":")
            out.append(getattr(R, cls)(l, orientation=o, component=c, use_source_receiver_offset=offset, **kw))
        else:
            out.append(getattr(R, cls)(l, times, orientation=o, use_source_receiver_offset=offset))
    return out


def source(dom, kind, rxs, freq=3.0, wave=None, o=(0.6, 0.0, 0.8)):
    S = DOM[dom].src
    kw = dict(frequency=freq) if dom == "fd" else dict(waveform=wave or S.StepOffWaveform())
    if kind == "dip":
        return S.MagDipole(rxs, location=np.r_[0, 0, 2.0], orientation=np.r_[o], moment=2.5, **kw)
    if kind == "loop":
        return S.CircularLoop(rxs, location=np.r_[0, 0, 2.0], orientation="z", radius=3.0, current=1.7, n_turns=2, **kw)
    return S.LineCurrent(rxs, location=SQUARE if kind == "wire" else TRI, current=1.3, **kw)


def survey(dom, srcs):
    return (fd if dom == "fd" else td).Survey(srcs)


SEC, TOT, PPM = "PointMagneticFieldSecondary", "PointMagneticField", "PointMagneticFieldSecondary:ppm"
KFD = {"dip": [(SEC, "z", "both"), (TOT, "x", "real"), (PPM, "y", "imag")], "loop": [(SEC, "z", "imag"), (PPM, "z", "both"), (TOT, "z", "both")],
       "wire": [(SEC, "z", "both")], "tri": [(SEC, "z", "imag"), (SEC, "z", "real")]}
HT, BT, DB = "PointMagneticField", "PointMagneticFluxDensity", "PointMagneticFluxTimeDerivative"
KTD = {"dip": [(HT, "z", None), (DB, "x", None)], "loop": [(BT, "z", None), (DB, "z", None)], "wire": [(DB, "z", None)], "tri": [(BT, "z", None), (HT, "z", None)]}

SE = {}
for dom in DOM:
    for pr in ("sigma", "rho", "mu", "thick", "all"):
        SE[f"{dom}-dip-{pr}"] = dict(dom=dom, kinds=("dip",), props=pr)
    SE[f"{dom}-dip-ip"] = dict(dom=dom, kinds=("dip",), props="all", eta=True)
    SE[f"{dom}-dip-ips"] = dict(dom=dom, kinds=("dip",), props="sigma", eta="scalar")
    SE[f"{dom}-loop-all"] = dict(dom=dom, kinds=("loop", "dip"), props="all")
    SE[f"{dom}-wire-all"] = dict(dom=dom, kinds=("wire",), props="all")
    for k in ("dip", "loop", "wire"):
        SE[f"{dom}-{k}-h"] = dict(dom=dom, kinds=(k,) if k == "wire" else (k, "dip"), props="h")
    SE[f"{dom}-mixed-h"] = dict(dom=dom, kinds=("tri", "dip", "wire"), props="h+sigma")


@harness("C24", params=SE)
def sensitivities(ctx, dom, kinds, props, eta=False):
    """sensitivities are the derivatives of the data in the conductivity, permeability, thicknesses and heights."""
    nl = 3
    wr = [("s", nl), ("u", nl), ("t", nl - 1), ("h", len(kinds))]
    use = {"sigma": "s", "rho": "s", "mu": "u", "thick": "t", "all": "sut", "h": "h", "h+sigma": "hs"}[props]
    wr = [w for w in wr if w[0] in use]
    W = maps.Wires(*wr)
    nP = sum(w[1] for w in wr)

    def make():
        srcs = [source(dom, k, receivers(dom, (KFD if dom == "fd" else KTD)[k], nloc=2, src=k), freq=(7.0, 2.0, 4.0)[i]) for i, k in enumerate(kinds)]
        kw = {}
        if "s" in use:
            if props == "rho":
                kw["rhoMap"] = W.s
            else:
                kw["sigmaMap"] = W.s
        else:
            kw["sigma"] = np.r_[0.5, 1.5, 0.8]
        if "u" in use:
            kw["muMap"] = maps.LinearMap(mu_0 * np.eye(nl)) * W.u
        if "t" in use:
            kw["thicknessesMap"] = W.t
        else:
            kw["thicknesses"] = np.r_[0.7, 1.2]
        if "h" in use:
            kw["hMap"] = W.h
        if eta:
            kw.update(dict(eta=0.3, tau=0.02, c=0.6) if eta == "scalar" else
                      dict(eta=np.r_[0.3, 0.0, 0.5], tau=np.r_[0.02, 1.0, 0.3], c=np.r_[0.6, 0.5, 0.9], dchi=np.r_[0.1, 0.2, 0.0], tau1=np.full(3, 1e-3), tau2=np.full(3, 2.0)))
        return short(DOM[dom].sim(survey=survey(dom, srcs), n_points_per_path=2, **kw))
    sims = [make() for _ in range(3)]
    nD = sims[0].survey.nD
    m = ctx.reals("m", nP, lo=0.3, hi=2.0)
    v = ctx.reals("v", nP, lo=-1, hi=1)
    w = ctx.reals("w", nD, lo=-1, hi=1)
    with kernel(Smooth.forward, Smooth.gradient):
        for s in sims:
            s._compute_coefficients()
        f, d0, Jv, Jtw = sens(ctx, sims[:2], m, v, w, getJ=True)
        jextras(ctx, sims[2], m, v, Jv, nD)


def field(src, kind, rx_loc, freq, h0, tab, cur=None):
    """secondary magnetic field vector (z only for loops) from the definition of the Hankel transforms."""
    def hankel(which, fun, rho, z):
        w = {0: HF.j0, 1: HF.j1}[which]
        out = 0.0
        for b, wk in zip(HF.base, w):
            la = b / rho
            out = out + wk * fun(la) * np.exp(-la * z) * tab(freq, la) / rho
        return out
    if kind == "dip":
        d = rx_loc - src.location
        rho = np.hypot(d[0], d[1])
        z = 2 * h0 + d[2]
        T = np.empty((3, 3), dtype=object)
        for i in range(2):
            for j in range(2):
                T[i, j] = hankel(0, lambda la: la**2 * d[i] * d[j] / rho**2, rho, z) + hankel(1, lambda la: la * ((i == j) / rho - 2 * d[i] * d[j] / rho**3), rho, z)
            T[i, 2] = hankel(1, lambda la: la**2 * d[i] / rho, rho, z)
            T[2, i] = -T[i, 2]
        T[2, 2] = hankel(0, lambda la: la**2, rho, z)
        return T / (4 * np.pi)
    if kind == "loop":
        z = 2 * h0 + rx_loc[2] - src.location[2]
        return src.n_turns * src.current * src.radius / 2 * hankel(1, lambda la: la, src.radius, z)
    x, wq = roots_legendre(2)
    out = 0.0
    P = src.location
    z = 2 * h0 + rx_loc[2] - P[:, 2].mean()
    for a, b in zip(P[:-1], P[1:]):
        L = np.linalg.norm(b - a)
        for xi, wi in zip(x, wq):
            p = a + (b - a) * (xi + 1) / 2
            d = rx_loc - p
            t = (b - a) / L
            out = out + src.current * wi * L / 2 / (4 * np.pi) * hankel(1, lambda la: la * (t[0] * d[1] - t[1] * d[0]) / np.hypot(d[0], d[1]), np.hypot(d[0], d[1]), z)
    return out


@harness("C24", params={"plain": dict(), "offset": dict(offset=True), "topo": dict(topo=-3.0), "h": dict(hm=True)})
def dipole_field(ctx, offset=False, topo=None, hm=False):
    """frequency-domain data of a magnetic dipole for every orientation of source and receiver, every moment and every layered earth."""
    rx = receivers("fd", [(SEC, "z", "both")], nloc=2, offset=offset)[0]
    src = source("fd", "dip", [rx])
    kw = dict(hMap=maps.IdentityMap(nP=1), sigma=np.ones(1)) if hm else dict(sigmaMap=maps.IdentityMap(nP=1))
    sim = short(fd1.Simulation1DLayered(survey=fd.Survey([src]), topo=None if topo is None else np.r_[0, 0, topo], **kw))
    so = ctx.reals("so", 3, lo=0.2, hi=1)
    ro = ctx.reals("ro", 3, lo=0.2, hi=1)
    mom = ctx.real("mom", lo=0.5, hi=3)
    src._orientation, rx._orientation, src._moment = so, ro, mom
    h = 1.7 if hm else 2.0 - (topo or 0.0)
    tab = Table(ctx)
    with kernel(tab.forward):
        d = sim.dpred(np.r_[h if hm else 1.0])
    for i in range(2):
        T = field(src, "dip", rx.locations[i] + (src.location if offset else 0.0), 3.0, h, tab)
        u = 0.0
        for a in range(3):
            for b in range(3):
                u = u + ro[a] * T[a, b] * so[b] * mom
        ctx.eq(f"real{i}", d[2 * i], u.real)
        ctx.eq(f"imag{i}", d[2 * i + 1], u.imag)


@harness("C24", params={k + s: dict(kind=k, hm=bool(s)) for k in ("loop", "wire", "tri") for s in ("", "-h")})
def loop_field(ctx, kind, hm):
    """frequency-domain data of a circular loop and of wire paths, for every layered earth."""
    rxs = receivers("fd", [(SEC, "z", "both"), (SEC, "z", "imag")], nloc=2, src=kind)
    src = source("fd", kind, rxs)
    kw = dict(hMap=maps.IdentityMap(nP=1), sigma=np.ones(1)) if hm else dict(sigmaMap=maps.IdentityMap(nP=1))
    sim = short(fd1.Simulation1DLayered(survey=fd.Survey([src]), n_points_per_path=2, topo=np.r_[0, 0, -1.0], **kw))
    src._current = ctx.real("cur", lo=0.5, hi=3)
    h = 1.7 if hm else (3.0 if kind == "tri" else 2.0) + 1.0
    tab = Table(ctx)
    with kernel(tab.forward):
        d = sim.dpred(np.r_[h if hm else 1.0])
    k = 0
    for rx in rxs:
        for loc in rx.locations:
            u = field(src, kind, loc, 3.0, h, tab)
            if rx.component == "both":
                ctx.eq(f"real{k}", d[k], u.real)
                k += 1
            ctx.eq(f"imag{k}", d[k], u.imag)
            k += 1


@harness("C24", params={"dip": dict(kind="dip"), "dipx": dict(kind="dip", off=True), "loop": dict(kind="loop")})
def primary_and_ppm(ctx, kind, off=False):
    """total fields add, and ppm data divide by, the free-space field of the source along the receiver."""
    o = np.r_[0.48, 0.6, 0.64]
    kinds = [(SEC, o, "both"), (TOT, o, "both"), (PPM, o, "both")] if kind == "dip" else [(SEC, "z", "both"), (TOT, "z", "both"), (PPM, "z", "both")]
    rxs = receivers("fd", kinds, nloc=2, src=kind, offset=off)
    for r in rxs[1:]:
        r.locations = rxs[0].locations
    src = source("fd", kind, rxs)
    sim = short(fd1.Simulation1DLayered(survey=fd.Survey([src]), sigmaMap=maps.IdentityMap(nP=1)))
    tab = Table(ctx)
    with kernel(tab.forward):
        d = sim.dpred(np.r_[1.0])
    sec, tot, ppm = d[:4], d[4:8], d[8:]
    for i, loc in enumerate(rxs[0].locations):
        r = loc + (src.location if off else 0.0) - src.location
        R = np.linalg.norm(r)
        if kind == "dip":
            mv = 2.5 * np.r_[0.6, 0, 0.8]
            p = (3 * (mv @ r) * r / R**2 - mv) @ o / (4 * np.pi * R**3)
        else:
            p = 2 * 1.7 * 9 / (2 * (9 + r[2]**2)**1.5)
        ctx.eq(f"total_real{i}", tot[2 * i], sec[2 * i] + p)
        ctx.eq(f"total_imag{i}", tot[2 * i + 1], sec[2 * i + 1])
        ctx.eq(f"ppm_real{i}", ppm[2 * i] * p, sec[2 * i] * 1e6)
        ctx.eq(f"ppm_imag{i}", ppm[2 * i + 1] * p, sec[2 * i + 1] * 1e6)


@harness("C24", params={"fd": dict(dom="fd"), "td": dict(dom="td")})
def survey_parts(ctx, dom):
    """the data of a survey are those of its sources one by one, in order, whatever their frequencies and waveforms; another survey can be set later."""
    KK = KFD if dom == "fd" else KTD
    kinds = ("wire", "dip", "loop", "dip") if dom == "fd" else ("wire", "dip", "loop")
    freqs = (9.0, 2.0, 9.0, 5.0)
    tri = None if dom == "fd" else td.sources.TriangularWaveform(start_time=-1.5, off_time=0.5, peak_time=-0.5)
    waves = (None, None, tri, None)

    def src(i):
        return source(dom, kinds[i], receivers(dom, KK[kinds[i]], nloc=2, src=kinds[i], times=TIMES), freq=freqs[i], wave=waves[i])

    def sim(idx):
        return short(DOM[dom].sim(survey=survey(dom, [src(i) for i in idx]), n_points_per_path=2, sigmaMap=maps.IdentityMap(nP=1)))
    n = len(kinds)
    whole, parts = sim(range(n)), [sim([i]) for i in range(n)]
    later = sim([1, 0])
    tab = Table(ctx)
    with kernel(tab.forward):
        if dom == "td":
            d = whole.dpred(np.r_[1.0])
            # sources in another order
            other = short(DOM[dom].sim(survey=survey(dom, [src(i) for i in (2, 0, 1)]), n_points_per_path=2, sigmaMap=maps.IdentityMap(nP=1)))
            d2 = other.dpred(np.r_[1.0])
            n2 = parts[2].survey.nD
            ctx.eq("reordered", np.concatenate([d2[n2:], d2[:n2]]), d)
        else:
            d = whole.dpred(np.r_[1.0])
            one = [p.dpred(np.r_[1.0]) for p in parts]
            ctx.eq("concatenated", d, np.concatenate(one))
        later.dpred(np.r_[1.0])
        later.survey = survey(dom, [src(i) for i in range(n)])
        ctx.eq("survey_replaced", later.dpred(np.r_[1.0]), d)


@harness("C24", params={"dip": dict(kind="dip"), "loop": dict(kind="loop"), "wire": dict(kind="wire"), "one": dict(kind="dip", one=True)})
def step_off(ctx, kind, one=False):
    """step-off data are the cosine transform of the frequency-domain field, at the times of the transform."""
    # times at which the digital filter is evaluated without interpolation
    times = 4.0 * 1.6 ** -np.arange(6.0)[::-1]
    if one:
        times = times[:1]
    o = "z"
    rxs = receivers("td", [(HT, o, None), (BT, o, None), (DB, o, None)], nloc=2, src=kind, times=times)
    for r in rxs[1:]:
        r.locations = rxs[0].locations
    src = source("td", kind, rxs)
    sim = short(td1.Simulation1DLayered(survey=td.Survey([src]), n_points_per_path=2, sigmaMap=maps.IdentityMap(nP=1)))
    tab = Table(ctx)
    with kernel(tab.forward):
        d = sim.dpred(np.r_[1.0])
    n = len(times)
    k = 0
    for tag, (scale, part, power) in dict(h=(1.0, "imag", 1), b=(mu_0, "imag", 1), dbdt=(mu_0, "real", 0)).items():
        blk = d[k:k + 2 * n].reshape((n, 2)) / scale     # every location at a time, then the next time
        k += 2 * n
        for i, loc in enumerate(rxs[0].locations):
            for j in (0,) if one else (0, 2, 5):
                t = times[j]
                out = 0.0
                for b, c in zip(CF.base, CF.cos):
                    om = b / t
                    u = field(src, kind, loc, om / (2 * np.pi), 2.0, tab)
                    if kind == "dip":
                        u = (u[2, 0] * 0.6 + u[2, 2] * 0.8) * 2.5
                    out = out + c * (-2 / np.pi) * getattr(u, part) / om**power / t
                ctx.eq(f"{tag}_{i}_{j}", blk[j, i], out, rtol=1e-6)


WV = {"ramp": lambda: (td.sources.RampOffWaveform(off_time=0.8), np.r_[-3.0, 0.0, 0.8], [1.0, 1.0, 0.0]),
      "tri": lambda: (td.sources.TriangularWaveform(start_time=-1.0, peak_time=-0.4, off_time=0.3), np.r_[-1.0, -0.4, 0.3], [0.0, 1.0, 0.0]),
      "trap": lambda: (td.sources.TrapezoidWaveform(ramp_on=np.r_[-1.0, -0.6], ramp_off=np.r_[0.0, 0.5]), np.r_[-1.0, -0.6, 0.0, 0.5], [0.0, 1.0, 1.0, 0.0]),
      "pw": lambda: (td.sources.PiecewiseLinearWaveform(np.r_[-2.0, -1.0, 0.0, 0.2, 3.0], np.r_[0.0, 2.0, 1.0, -0.5, 0.0]), np.r_[-2.0, -1.0, 0.0, 0.2, 3.0], [0.0, 2.0, 1.0, -0.5, 0.0])}


@harness("C24", params={k: dict(wv=k) for k in WV})
def waveforms(ctx, wv):
    """the data of a piecewise linear current are minus the superposition of step-off data weighted by its slope, for every layered earth."""
    wave, nodes, cur = WV[wv]()
    times = np.r_[1.0, 1.7, 2.5]
    rx = receivers("td", [(BT, "z", None)], nloc=1, src="loop", times=times)[0]
    step = source("td", "loop", [receivers("td", [(BT, "z", None)], nloc=1, src="loop", times=times)[0]])
    sim = short(td1.Simulation1DLayered(survey=td.Survey([source("td", "loop", [rx], wave=wave)]), sigmaMap=maps.IdentityMap(nP=1)))
    sim._compute_coefficients()
    om = 2 * np.pi * sim._frequencies
    tab = Table(ctx)
    with kernel(tab.forward):
        d = sim.dpred(np.r_[1.0])
    # step-off response at the times of the transform (longest wavenumbers first), interpolated in log time as t * response
    nt = len(om) - len(CF.base) + 1
    tn = CF.base[0] / om[:nt]
    S = []
    for t in tn:
        out = 0.0
        for b, c in zip(CF.base, CF.cos):
            u = field(step, "loop", rx.locations[0], b / t / (2 * np.pi), 2.0, tab)
            out = out + mu_0 * c * (-2 / np.pi) * u.imag / (b / t)
        S.append(out)
    order = np.argsort(tn)
    cards = []
    for i in range(nt):
        e = np.zeros(nt)
        e[i] = 1.0
        cards.append(InterpolatedUnivariateSpline(np.log(tn[order]), e[order], k=min(5, nt - 1)))
    for j, t in enumerate(times):
        tot = 0.0
        for i in range(nt):
            c = 0.0
            for a, b, ca, cb in zip(nodes[:-1], nodes[1:], cur[:-1], cur[1:]):
                lo, hi = t - min(b, t), t - a
                if a >= t or ca == cb:
                    continue
                lo_ = max(lo, tn.min())
                # the interpolant is held below the first time of the transform
                if hi <= lo_:
                    continue
                pts = np.unique(np.r_[lo_, np.clip(tn, lo_, hi), hi])
                xg, wg = roots_legendre(12)
                for p, q in zip(pts[:-1], pts[1:]):
                    tt = p + (q - p) * (xg + 1) / 2
                    c -= (cb - ca) / (b - a) * np.sum(wg * (q - p) / 2 * cards[i](np.log(tt)) / tt)
            tot = tot + c * S[i]
        ctx.eq(f"time{j}", d[j] / mu_0 + 1.0, tot / mu_0 + 1.0, rtol=1e-4)


@harness("C24")
def layer_properties(ctx):
    """the complex conductivity and permeability of the layers follow the documented relaxation models, for single and per-layer parameters."""
    f = np.r_[3.0, 0.4]
    w = 2 * np.pi * f
    rx = receivers("fd", [(SEC, "z", "both")])[0]

    def make(**kw):
        return fd1.Simulation1DLayered(survey=fd.Survey([source("fd", "dip", [rx])]), sigmaMap=maps.IdentityMap(nP=2), thicknesses=np.r_[1.0], **kw)
    a = make(eta=0.4, tau=0.2, c=0.7)
    b = make(eta=np.r_[0.4, 0.1], tau=np.r_[0.2, 0.9], c=np.r_[0.7, 0.5], mu=np.r_[1.5, 2.0] * mu_0, dchi=np.r_[0.3, 0.6], tau1=np.r_[1e-3, 1e-2], tau2=np.r_[2.0, 3.0])
    c = make(eta=np.r_[0.4, 0.1], dchi=0.3, tau1=1e-3, tau2=np.r_[2.0, 3.0], mu=np.r_[1.5, 2.0] * mu_0)
    e = make(dchi=0.3)
    m = ctx.reals("m", 2, lo=0.1, hi=2)
    for s, eta, tau, cc, mu, dchi, t1, t2 in ((a, (.4, .4), (.2, .2), (.7, .7), (1, 1), (0, 0), (1e-10,) * 2, (10,) * 2),
                                              (b, (.4, .1), (.2, .9), (.7, .5), (1.5, 2), (.3, .6), (1e-3, 1e-2), (2, 3)),
                                              (c, (.4, .1), (1, 1), (.5, .5), (1.5, 2), (.3, .3), (1e-3, 1e-3), (2, 3)),
                                              (e, (0, 0), (1, 1), (.5, .5), (1, 1), (.3, .3), (1e-10,) * 2, (10,) * 2)):
        tag = "abce"[[a, b, c, e].index(s)]
        s.model = m
        sg, um = s.compute_complex_sigma(f), s.compute_complex_mu(f)
        ctx.check("shapes_" + tag, sg.shape == (2, 2) and um.shape == (2, 2))
        for k in range(2):
            for j in range(2):
                z = 1 - eta[k] / (1 + (1 - eta[k]) * (1j * w[j] * tau[k])**cc[k])
                ctx.eq(f"sigma_{tag}{k}{j}", sg[k, j] + 0j, m[k] * z)
                x = mu[k] + dchi[k] * (1 - np.log((1 + 1j * w[j] * t2[k]) / (1 + 1j * w[j] * t1[k])) / np.log(t2[k] / t1[k]))
                ctx.eq(f"mu_{tag}{k}{j}", um[k, j] / mu_0 + 0j * m[0], x + 0 * m[0])
