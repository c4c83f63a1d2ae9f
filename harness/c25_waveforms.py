"""Transmitter waveforms: current and its rate of change."""
import numpy as np
from simpeg.electromagnetics.time_domain import sources as so
from engine.registry import harness


def line(t, a, b):
    return (t - a) / (b - a)


def make(ctx, k, sym=True):
    """(waveform, list of (from, to, f)) with parameters of the waveform symbolic."""
    a = ctx.real("a", lo=-5, hi=-4)
    d = ctx.reals("d", 3, lo=0.3, hi=2)
    b = a + d[0]
    c = b + d[1]
    e = c + d[2]
    up, down, one = lambda p, q: (lambda t: line(t, p, q)), lambda p, q: (lambda t: 1 - line(t, p, q)), lambda t: 1.0
    if k == "step":
        return so.StepOffWaveform(off_time=b), [(None, b, one)], []
    if k == "ramp":
        return so.RampOffWaveform(ramp_start=b, ramp_end=c), [(None, b, one), (b, c, down(b, c))], [b, c]
    if k == "ramp1":
        return so.RampOffWaveform(c - a), [(None, 0.0, one), (0.0, c - a, down(0.0, c - a))], [0.0, c - a]
    if k == "ramp2":
        return so.RampOffWaveform(b, c), [(None, b, one), (b, c, down(b, c))], [b, c]
    if k == "trap":
        return so.TrapezoidWaveform(ramp_on=np.r_[a, b], ramp_off=np.r_[c, e]), [(a, b, up(a, b)), (b, c, one), (c, e, down(c, e))], [a, b, c, e]
    if k == "tri":
        return so.TriangularWaveform(start_time=a, peak_time=b, off_time=c), [(a, b, up(a, b)), (b, c, down(b, c))], [a, b, c]
    if k == "tri_moved":
        w = so.TriangularWaveform(start_time=a, peak_time=b - d[0] / 2, off_time=c)
        w.peak_time = b
        return w, [(a, b, up(a, b)), (b, c, down(b, c))], [a, b, c]
    if k == "quarter":
        return (so.QuarterSineRampOnWaveform(ramp_on=np.r_[a, b], ramp_off=np.r_[c, e]),
                [(a, b, lambda t: np.sin(np.pi / 2 * line(t, a, b))), (b, c, one), (c, e, down(c, e))], [a, b, c, e])
    if k == "half":
        return (so.HalfSineWaveform(ramp_on=np.r_[a, b], ramp_off=np.r_[c, e]),
                [(a, b, lambda t: np.sin(np.pi / 2 * line(t, a, b))), (b, c, one), (c, e, lambda t: np.cos(np.pi / 2 * line(t, c, e)))], [a, b, c, e])
    if k == "vtem":
        r = 2.3
        p, o = d[0], d[0] + d[1]
        return (so.VTEMWaveform(off_time=o, peak_time=p, ramp_on_rate=r),
                [(0.0, p, lambda t: (1 - np.exp(-r * t / p)) / (1 - np.exp(-r))), (p, o, down(p, o))], [0.0, p, o])
    if k == "expo":
        r = ctx.real("r", lo=0.5, hi=2)
        return (so.ExponentialWaveform(start_time=a, peak_time=b, off_time=c, ramp_on_tau=r),
                [(a, b, lambda t: (1 - np.exp(-(t - a) / r)) / (1 - np.exp(-(b - a) / r))), (b, c, down(b, c))], [a, b, c])
    i = ctx.reals("i", 4, lo=-2, hi=2)
    o = [2, 0, 3, 1] if k == "piece_unsorted" else [0, 1, 2, 3]
    T = [a, b, c, e]
    w = so.PiecewiseLinearWaveform(times=np.r_[T[o[0]], T[o[1]], T[o[2]], T[o[3]]], currents=np.r_[i[o[0]], i[o[1]], i[o[2]], i[o[3]]])
    seg = [(None, a, lambda t: i[0])] + [(T[j], T[j + 1], lambda t, j=j: i[j] + (i[j + 1] - i[j]) * line(t, T[j], T[j + 1])) for j in range(3)] + [(e, None, lambda t: i[3])]
    return w, seg, T


KINDS = ["step", "ramp", "ramp1", "ramp2", "trap", "tri", "tri_moved", "quarter", "half", "vtem", "expo", "piece", "piece_unsorted"]
INIT = dict(step=True, ramp=True, ramp1=True, ramp2=True)


@harness("C25", params={k: dict(k=k) for k in KINDS})
def waveform(ctx, k):
    w, seg, nodes = make(ctx, k)
    t = ctx.real("t", lo=-6, hi=3)
    for q in nodes + [s for s in seg[0][:2] if s is not None]:
        ctx.assume(abs(t - q) > 1e-3)
    f = None
    for lo, hi, g in seg:
        if (lo is None or bool(t > lo)) and (hi is None or bool(t < hi)):
            f = g
            break
    if f is None:
        f = lambda x: 0.0 * x
    val, der = ctx.dd(lambda x: f(x) + 0.0 * x, t, 1.0)
    ctx.eq("current", w.eval(t), val)
    if k != "step":
        ctx.eq("rate", w.eval_deriv(t), der, fd=True)
        arr = w.eval_deriv(np.r_[t, t])
        ctx.eq("rates", arr, np.r_[der, der], fd=True)
        ctx.eq("nodes", w.time_nodes, np.r_[tuple(nodes)])
    if not k.startswith("piece"):
        ctx.check("initial", w.has_initial_fields == INIT.get(k, False))
        if k not in ("quarter", "half", "expo"):
            ctx.check("non_negative", w.eval(t) >= -1e-9)


@harness("C25", params={k: dict(k=k) for k in KINDS if k != "step"})
def at_nodes(ctx, k):
    """continuous where the pieces meet, and off at the off time."""
    w, seg, nodes = make(ctx, k)
    for j, q in enumerate(nodes):
        v = [g(q) for i, (lo, hi, g) in enumerate(seg) if lo is q or hi is q or (k == "ramp1" and i == 1)]
        ctx.eq(f"node{j}", w.eval(q) + 1.0, v[0] + 1.0)
    if not k.startswith("piece"):
        ctx.eq("off", w.eval(w.off_time) + 1.0, 1.0)
        ctx.eq("off_time", w.off_time, nodes[-1])
