"""Line currents on tensor meshes: exact integration of the edge basis functions along the wire."""
import numpy as np
from simpeg.electromagnetics import frequency_domain as fd, time_domain as td
from simpeg.electromagnetics.utils import segmented_line_current_source_term
from engine.registry import harness
from .common import mesh

M = "t3:2x2x2"


def hats(nodes, x):
    """1D hat functions of all nodes at x."""
    n = len(nodes)
    out = [0.0] * n
    i = 0
    while i < n - 2 and not bool(x <= nodes[i + 1]):
        i += 1
    s = (x - nodes[i]) / (nodes[i + 1] - nodes[i])
    out[i], out[i + 1] = 1 - s, s
    return out


def nodal(mh, p):
    X, Y, Z = (hats(g, q) for g, q in zip((mh.nodes_x, mh.nodes_y, mh.nodes_z), p))
    return np.array([x * y * z for z in Z for y in Y for x in X])


# each end: per coordinate either a number or a symbolic interval; cells break at x=0.2, y=-0.1, z=-0.5
CFG = {
    "cell": (((-0.7, 0.1),) * 1 + ((-0.5, -0.2), (-1.2, -0.6)), ((-0.7, 0.1), (-0.5, -0.2), (-1.2, -0.6))),
    "cell8": (((0.3, 1.6), (0.0, 1.0), (-0.4, 0.5)), ((0.3, 1.6), (0.0, 1.0), (-0.4, 0.5))),
    "along_x": (((-0.7, 0.1), 0.3, -0.9), ((0.3, 1.5), 0.3, -0.9)),
    "back_x": (((0.3, 1.5), 0.3, (-0.9, -0.6)), ((-0.7, 0.1), 0.3, -0.9)),
    "along_y": ((0.5, (-0.5, -0.2), (-1.2, -0.6)), (0.5, (0.0, 1.0), -0.7)),
    "along_z": ((0.5, 0.4, (-1.2, -0.6)), (0.5, 0.4, (-0.4, 0.5))),
    "down_z": ((0.5, (0.1, 0.4), (-0.4, 0.5)), (0.5, 0.4, (-1.2, -0.6))),
    "edge": (((-0.7, 0.1), -0.1, -0.5), ((0.3, 1.5), -0.1, -0.5)),
    "face": (((-0.7, 0.1), (-0.5, -0.2), -0.5), ((-0.7, 0.1), (0.0, 1.0), -0.5)),
    "plane": ((-0.5, -0.4, -0.9), ((0.3, 1.5), 0.5, -0.9)),
    "plane2": ((-0.5, (-0.5, -0.2), -0.9), (0.9, 0.5, -0.9)),
    "node": ((-0.8, -0.6, -1.3), ((0.3, 1.5), (-0.5, -0.2), -1.3)),
    "border": ((1.7, (-0.6, 1.15), 0.6), (1.7, (-0.6, 1.15), 0.6)),
}


def pick(ctx, name, spec):
    return [ctx.real(f"{name}{i}", lo=s[0], hi=s[1]) if isinstance(s, tuple) else s for i, s in enumerate(spec)]


@harness("C26", params={k: dict(k=k) for k in CFG}, max_paths=200)
def one_segment(ctx, k):
    mh = mesh(M)
    G = mh.nodal_gradient
    nx, ny = mh.n_edges_x, mh.n_edges_y
    A, B = (pick(ctx, n, s) for n, s in zip("AB", CFG[k]))
    locs = np.array([A, B])
    s = segmented_line_current_source_term(mh, locs)
    # current enters and leaves at the ends only
    ctx.eq("charge", G.T @ s + 1.0, nodal(mh, B) - nodal(mh, A) + 1.0)
    # the moment is the vector between the ends
    for i, sl in enumerate((slice(0, nx), slice(nx, nx + ny), slice(nx + ny, None))):
        ctx.eq(f"moment{i}", s[sl].sum() + 1.0, B[i] - A[i] + 1.0)
    ctx.eq("reversed", segmented_line_current_source_term(mh, np.array([B, A])), -s)


@harness("C26", params={"cell": dict(lo=(-0.8, -0.6, -1.3), i=(0, 0, 0)), "last": dict(lo=(0.2, -0.1, -0.5), i=(1, 1, 1))})
def in_cell(ctx, lo, i):
    """inside one cell: every edge carries the integral of its basis function."""
    mh = mesh(M)
    h = np.array([mh.h[d][i[d]] for d in range(3)])
    a, b = ctx.reals("a", 3, lo=0.02, hi=0.98), ctx.reals("b", 3, lo=0.02, hi=0.98)
    A, B = a * h + np.array(lo), b * h + np.array(lo)
    s = segmented_line_current_source_term(mh, np.array([[A[0], A[1], A[2]], [B[0], B[1], B[2]]]))
    E = mh.edges
    tang = mh.edge_tangents
    exp = []
    for e in range(mh.n_edges):
        d = int(np.argmax(np.abs(tang[e])))
        o = [q for q in range(3) if q != d]
        ok = abs(E[e, d] - (lo[d] + h[d] / 2)) < 1e-9
        f = []
        for q in o:
            r = (E[e, q] - lo[q]) / h[q]
            if abs(r) < 1e-9:
                f.append(((1 - a[q]), (1 - b[q])))
            elif abs(r - 1) < 1e-9:
                f.append((a[q], b[q]))
            else:
                ok = False
                f.append((0.0, 0.0))
        if not ok:
            exp.append(0.0)
            continue
        (f0, f1), (g0, g1) = f
        # integral of the product of two linear functions
        exp.append((B[d] - A[d]) * ((2 * f0 * g0 + f0 * g1 + f1 * g0 + 2 * f1 * g1) / 6))
    ctx.eq("edges", s, np.array(exp))


@harness("C26", params={"fdem": dict(t=False), "tdem": dict(t=True)}, max_paths=100)
def sources(ctx, t):
    """sources carry the current along the whole wire, on the mesh they are used with."""
    m1, m2 = mesh(M), mesh("t3:2x2x2")
    m2.origin = m2.origin - np.r_[0.3, 0.2, 0.1]
    I = ctx.real("I", lo=0.5, hi=4)
    xs = ctx.reals("x", 3, lo=0.3, hi=1.3)
    x4 = ctx.reals("y", 2, lo=0.3, hi=1.3)
    w = lambda a, b: np.array([[a, 0.2, -0.9], [b, 0.3, -0.9], [b, 0.3, -0.7]])
    mk = (lambda loc, I: td.sources.LineCurrent([], location=loc, current=I)) if t else (lambda loc, I: fd.sources.LineCurrent([], frequency=1.0, location=loc, current=I))

    class Sim:
        _formulation = "EB"

        def __init__(self, m):
            self.mesh = m
    q1, q2 = Sim(m1), Sim(m2)
    seg = lambda m, p: segmented_line_current_source_term(m, p[:2]) + segmented_line_current_source_term(m, p[1:])
    L = w(xs[0], xs[1])
    src = mk(L, I)
    ctx.eq("first", src.Mejs(q1), I * seg(m1, L))
    ctx.eq("other_mesh", src.Mejs(q2), I * seg(m2, L))
    ctx.eq("again", src.Mejs(q1), I * seg(m1, L))
    ctx.eq("dc", src.getRHSdc(q1), I * (nodal(m1, L[2]) - nodal(m1, L[0])))
    L2 = w(x4[0], x4[1])
    src.location = L2
    src.current = I + 1.0
    ctx.eq("moved", src.Mejs(q1), (I + 1.0) * seg(m1, L2))
    if t:
        ctx.eq("s_e", src.s_e(q1, 0.0), (I + 1.0) * seg(m1, L2))
        ctx.check("kind", src.srcType == "galvanic")
    else:
        ctx.eq("s_e", src.s_e(q1), (I + 1.0) * seg(m1, L2))


@harness("C26", params={"x": dict(k="x"), "xy": dict(k="xy")})
def closed_loop(ctx, k):
    """a closed wire has no sources of charge."""
    mh = mesh(M)
    x = [ctx.real("x0", lo=-0.7, hi=0.1), ctx.real("x1", lo=0.3, hi=1.5)]
    y = [-0.3, 0.7] if k == "x" else [-0.3, ctx.real("y1", lo=0.1, hi=0.9)]
    P = np.array([[x[0], y[0], -0.9], [x[1], y[0], -0.9], [x[1], y[1], -0.9], [x[0], y[1], -0.9], [x[0], y[0], -0.9]])
    s = segmented_line_current_source_term(mh, P)
    ctx.eq("charge", mh.nodal_gradient.T @ s + 1.0, np.ones(mh.n_nodes))
    # magnetic moment: area enclosed
    E = mh.edges
    nx, ny = mh.n_edges_x, mh.n_edges_y
    ctx.eq("area", -(s[:nx] * E[:nx, 1]).sum(), (x[1] - x[0]) * (y[1] - y[0]))


@harness("C26", params={f"{i}": dict(i=i) for i in range(3)})
def outside(ctx, i):
    """wires leaving the mesh are refused."""
    mh = mesh(M)
    d = ctx.real("d", lo=0.01, hi=5)
    for up in (0, 1):
        P = np.array([[0.0, 0.0, -1.0], [0.5, 0.2, -0.8], [0.7, 0.3, -0.4]], dtype=object)
        P[1, i] = [1.7, 1.15, 0.6][i] + d if up else [-0.8, -0.6, -1.3][i] - d
        try:
            segmented_line_current_source_term(mh, np.array(P.tolist()))
            ok = False
        except ValueError:
            ok = True
        ctx.check(f"refused{up}", ok)
