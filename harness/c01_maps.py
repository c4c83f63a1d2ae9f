"""C01: the derivative a mapping reports is the derivative of the mapping."""
import numpy as np
import scipy.sparse as sp
from simpeg import maps
from engine.registry import harness
from harness.common import mesh


def _obj(spec):
    """build map -> (map factory, nP, lo, hi)."""
    return spec


def run_map(ctx, make, n, lo=None, hi=None):
    mp, ref, mp3 = make(ctx), make(ctx), make(ctx)
    m = ctx.reals("m", n, lo, hi)
    v = ctx.reals("v", n)
    v0 = v.copy()
    m0 = m.copy()
    f, df = ctx.dd(lambda x: mp * x, m, v)
    D = mp.deriv(m)
    Dv = D @ v
    ctx.eq("deriv", Dv, df, fd=True)
    ctx.eq("deriv_v", mp.deriv(m, v=v), Dv)
    ctx.eq("transform_again", mp * m, f)
    ctx.eq("v_unchanged", v, v0)
    ctx.eq("m_unchanged", m, m0)
    # a second point: nothing may be left over from the first one
    m2 = ctx.reals("m2", n, lo, hi)
    D2 = ref.deriv(m2) @ v
    ctx.eq("deriv_second", mp.deriv(m2) @ v, D2)
    a = m.copy()
    mp3 * a
    mp3.deriv(a)
    a[...] = m2
    ctx.eq("deriv_inplace", mp3.deriv(a) @ v, D2)
    ctx.eq("transform_inplace", mp3 * a, ref * m2)
    if hasattr(D, "shape") and not isinstance(mp.shape[0], str):
        ctx.check("shape", tuple(D.shape) == tuple(mp.shape) and np.shape(f) == (mp.shape[0],))


SIMPLE = {
    "Identity": dict(make=lambda c: maps.IdentityMap(nP=3), n=3),
    "IdentityMesh": dict(make=lambda c: maps.IdentityMap(mesh("t2:2x2")), n=4),
    "Exp": dict(make=lambda c: maps.ExpMap(nP=3), n=3, lo=-4, hi=4),
    "ExpMesh": dict(make=lambda c: maps.ExpMap(mesh("t3:2x1x2")), n=4, lo=-4, hi=4),
    "Log": dict(make=lambda c: maps.LogMap(nP=3), n=3, lo=1e-3, hi=10),
    "Reciprocal": dict(make=lambda c: maps.ReciprocalMap(nP=3), n=3, lo=1e-3, hi=10),
    "ReciprocalNeg": dict(make=lambda c: maps.ReciprocalMap(nP=3), n=3, lo=-10, hi=-1e-3),
    "Sigmoid": dict(make=lambda c: maps.LogisticSigmoidMap(nP=3), n=3, lo=-4, hi=4),
    "SigmoidB": dict(make=lambda c: maps.LogisticSigmoidMap(nP=3, lower_bound=np.r_[-1.0, 0.5, 2.0], upper_bound=np.r_[1.0, 3.5, 2.5]), n=3, lo=-4, hi=4),
    "SigmoidScalar": dict(make=lambda c: maps.LogisticSigmoidMap(nP=3, lower_bound=-1.5, upper_bound=4.0), n=3, lo=-4, hi=4),
    "Chi": dict(make=lambda c: maps.ChiMap(nP=3), n=3),
    "MuRelative": dict(make=lambda c: maps.MuRelative(nP=3), n=3),
    "EffSusc": dict(make=lambda c: maps.EffectiveSusceptibilityMap(50000.0, nP=3), n=3),
    "Weighting": dict(make=lambda c: maps.Weighting(nP=3, weights=np.r_[0.5, 2.0, 3.0]), n=3),
    "WeightingDefault": dict(make=lambda c: maps.Weighting(mesh("t2:2x2")), n=4),
    "Complex": dict(make=lambda c: maps.ComplexMap(nP=4), n=4),
    "ComplexMesh": dict(make=lambda c: maps.ComplexMap(mesh("t1:3")), n=6),
    "Linear": dict(make=lambda c: maps.LinearMap(np.arange(6.0).reshape(2, 3) - 2, b=np.r_[1.0, -3.0]), n=3),
    "LinearSparse": dict(make=lambda c: maps.LinearMap(sp.csr_matrix(np.arange(6.0).reshape(2, 3) - 2)), n=3),
    "Projection": dict(make=lambda c: maps.Projection(4, np.r_[2, 0, 2]), n=4),
    "ProjectionSlice": dict(make=lambda c: maps.Projection(5, slice(1, 5, 2)), n=5),
    "ProjectionBool": dict(make=lambda c: maps.Projection(4, np.r_[True, False, True, True]), n=4),
    "SurjectFull": dict(make=lambda c: maps.SurjectFull(mesh("t2:2x2")), n=1),
    "Vertical1D2": dict(make=lambda c: maps.SurjectVertical1D(mesh("t2:3x2")), n=2),
    "Vertical1D3": dict(make=lambda c: maps.SurjectVertical1D(mesh("t3:2x3x2")), n=2),
    "Vertical1D1": dict(make=lambda c: maps.SurjectVertical1D(mesh("t1:3")), n=3),
    "2Dto3Dx": dict(make=lambda c: maps.Surject2Dto3D(mesh("t3:2x3x2"), normal="x"), n=6),
    "2Dto3Dy": dict(make=lambda c: maps.Surject2Dto3D(mesh("t3:2x3x2"), normal="y"), n=4),
    "2Dto3Dz": dict(make=lambda c: maps.Surject2Dto3D(mesh("t3:2x3x2"), normal="z"), n=6),
    "Units": dict(make=lambda c: maps.SurjectUnits([np.r_[True, False, False, True], np.r_[False, True, False, False], np.r_[False, False, True, False]]), n=3),
    "Units2": dict(make=lambda c: maps.SurjectUnits(np.array([[1, 0, 0, 1, 0], [0, 1, 1, 0, 1]], dtype=bool)), n=2),
    "Inject": dict(make=lambda c: maps.InjectActiveCells(mesh("t2:2x2"), np.r_[True, False, True, True], value_inactive=-3.5), n=3),
    "InjectVec": dict(make=lambda c: maps.InjectActiveCells(mesh("t2:2x2"), np.r_[False, False, True, True], value_inactive=np.r_[7.0, -2.0]), n=2),
    "InjectIdx": dict(make=lambda c: maps.InjectActiveCells(mesh("t2:2x2"), np.r_[3, 1], value_inactive=1e-8), n=2),
    "InjectNC": dict(make=lambda c: maps.InjectActiveCells(None, np.r_[True, False, True], value_inactive=2.0, nC=3), n=2),
    "Spherical": dict(make=lambda c: maps.SphericalSystem(nP=6), n=6, lo=[0.5] * 2 + [-1.2] * 2 + [-3.0] * 2, hi=[3.0] * 2 + [1.2] * 2 + [3.0] * 2),
    "SphericalMesh": dict(make=lambda c: maps.SphericalSystem(mesh("t1:3"), nP=9), n=9, lo=[0.5] * 3 + [-1.2] * 3 + [-3.0] * 3, hi=[3.0] * 3 + [1.2] * 3 + [3.0] * 3),
    "M2M": dict(make=lambda c: maps.Mesh2Mesh([mesh("t2:2x3"), mesh("t2:3x3")]), n=9),
    "M2MAct": dict(make=lambda c: maps.Mesh2Mesh([mesh("t2:2x3"), mesh("t2:3x3")], active_cells=np.r_[[True, False, True, True, True, True]]), n=9),
    "M2M3": dict(make=lambda c: maps.Mesh2Mesh([mesh("t3:2x2x2"), mesh("t3:3x2x2")]), n=12),
}
harness("C01", params=SIMPLE)(run_map)


def _tile(c, components=1):
    from discretize import TreeMesh
    g = mesh("tree2")
    l = TreeMesh([np.ones(4), np.ones(4)], diagonal_balance=False)
    l.refine(1, finalize=True)
    act = np.ones(g.n_cells, bool)
    act[-1] = False
    return maps.TileMap(g, act, l, components=components)


def _ntile():
    return mesh("tree2").n_cells - 1


COMBO = {
    "Tile": dict(make=_tile, n=_ntile()),
    "Tile2": dict(make=lambda c: _tile(c, 2), n=2 * _ntile()),
    "ExpInject": dict(make=lambda c: maps.ExpMap(mesh("t2:2x2")) * maps.InjectActiveCells(mesh("t2:2x2"), np.r_[True, False, True, True], value_inactive=-3.5), n=3, lo=-3, hi=3),
    "InjectExp": dict(make=lambda c: maps.InjectActiveCells(mesh("t2:2x2"), np.r_[True, False, True, True], value_inactive=1e-8) * maps.ExpMap(nP=3), n=3, lo=-3, hi=3),
    "ThreeDeep": dict(make=lambda c: maps.SurjectVertical1D(mesh("t2:2x3")) * maps.ExpMap(nP=3) * maps.LinearMap(np.arange(12.0).reshape(3, 4) / 4 - 1, b=np.r_[1.0, 2.0, 3.0]) * maps.ReciprocalMap(nP=4), n=4, lo=0.3, hi=2),
    "RecipLogExp": dict(make=lambda c: maps.ReciprocalMap(nP=3) * maps.LogMap(nP=3) * maps.ExpMap(nP=3), n=3, lo=0.3, hi=2),
    "SumExpLin": dict(make=lambda c: maps.ExpMap(nP=3) + maps.LinearMap(np.arange(9.0).reshape(3, 3)), n=3, lo=-2, hi=2),
    "SumIdExp": dict(make=lambda c: maps.IdentityMap(nP=3) + maps.ExpMap(nP=3), n=3, lo=-2, hi=2),
    "SumIdExpRecip": dict(make=lambda c: maps.SumMap([maps.IdentityMap(nP=3), maps.ExpMap(nP=3), maps.ReciprocalMap(nP=3)]), n=3, lo=0.2, hi=2),
    "SumSurject": dict(make=lambda c: maps.SumMap([maps.SurjectVertical1D(mesh("t2:2x3")) * maps.Projection(5, slice(0, 3)), maps.SurjectFull(mesh("t2:2x3")) * maps.Projection(5, slice(4, 5)) ]), n=5),
    "ComboSum": dict(make=lambda c: maps.ExpMap(nP=2) * maps.SumMap([maps.Projection(4, slice(0, 2)), maps.Projection(4, slice(2, 4))]), n=4, lo=-1, hi=1),
    "WiresExp": dict(make=lambda c: maps.ExpMap(nP=2) * maps.Wires(("a", 2), ("b", 3), ("c", 2)).c, n=7, lo=-1, hi=1),
}


@harness("C01", params=COMBO)
def compose(ctx, make, n, lo=None, hi=None):
    run_map(ctx, make, n, lo, hi)


def _lohi(*pairs):
    return dict(lo=[p[0] for p in pairs], hi=[p[1] for p in pairs])


S = (0.3, 2.0)      # property values
P = (-0.9, 0.9)     # positions
W = (0.4, 1.5)      # widths
PARAM = {
    "Circle": dict(make=lambda c: maps.ParametricCircleMap(mesh("t2:2x2"), slope=0.7), n=5, **_lohi(S, S, P, P, W)),
    "CircleLin": dict(make=lambda c: maps.ParametricCircleMap(mesh("t2:2x2"), logSigma=False, slope=2.0), n=5, **_lohi(S, S, P, P, W)),
    "Poly2x": dict(make=lambda c: maps.ParametricPolyMap(mesh("t2:2x2"), 2, normal="x", slope=1.5), n=5, **_lohi(S, S, P, P, P)),
    "Poly2y": dict(make=lambda c: maps.ParametricPolyMap(mesh("t2:2x2"), 2, logSigma=False, normal="y", slope=1.5), n=5, **_lohi(S, S, P, P, P)),
    "Poly2act": dict(make=lambda c: maps.ParametricPolyMap(mesh("t2:2x2"), 1, normal="y", slope=1.5, active_cells=np.r_[True, False, True, True]), n=4, **_lohi(S, S, P, P)),
    "Poly3x": dict(make=lambda c: maps.ParametricPolyMap(mesh("t3:2x1x2"), [1, 1], normal="x", slope=1.5), n=6, **_lohi(S, S, P, P, P, P)),
    "Poly3y": dict(make=lambda c: maps.ParametricPolyMap(mesh("t3:2x1x2"), [1, 2], normal="y", slope=1.5), n=8, **_lohi(S, S, P, P, P, P, P, P)),
    "Poly3z": dict(make=lambda c: maps.ParametricPolyMap(mesh("t3:2x2x1"), [2, 1], logSigma=False, normal="z", slope=1.5), n=8, **_lohi(S, S, P, P, P, P, P, P)),
    "Spline2x": dict(make=lambda c: maps.ParametricSplineMap(mesh("t2:2x2"), np.r_[-1.0, 0.0, 1.0, 2.0], normal="x", slope=1.5), n=6, **_lohi(S, S, P, P, P, P)),
    "Spline2y": dict(make=lambda c: maps.ParametricSplineMap(mesh("t2:2x2"), np.r_[-1.0, 0.0, 1.0, 2.0], normal="y", slope=1.5), n=6, **_lohi(S, S, P, P, P, P)),
    "Spline3x": dict(make=lambda c: maps.ParametricSplineMap(mesh("t3:1x2x2"), np.r_[-1.0, 0.5, 2.0], ptsv=np.r_[-1.5, 0.8], order=2, normal="x", slope=1.5), n=8, **_lohi(S, S, P, P, P, P, P, P)),
    "Layer2": dict(make=lambda c: maps.ParametricLayer(mesh("t2:2x2"), slope=1.5), n=4, **_lohi(S, S, P, W)),
    "Layer3": dict(make=lambda c: maps.ParametricLayer(mesh("t3:1x2x2"), slope=1.5), n=4, **_lohi(S, S, P, W)),
    "Layer3act": dict(make=lambda c: maps.ParametricLayer(mesh("t3:1x2x2"), slope=1.5, active_cells=np.r_[True, True, False, True]), n=4, **_lohi(S, S, P, W)),
    "LayerSlopeDefault": dict(make=lambda c: maps.ParametricLayer(mesh("t2:2x2"), slopeFact=0.5), n=4, **_lohi(S, S, P, W)),
    "Block1": dict(make=lambda c: maps.ParametricBlock(mesh("t1:3"), slope=1.5, p=4), n=4, **_lohi(S, S, (0.5, 3.0), W)),
    "Block2": dict(make=lambda c: maps.ParametricBlock(mesh("t2:2x2"), slope=1.5, p=4), n=6, **_lohi(S, S, P, W, P, W)),
    "Block3": dict(make=lambda c: maps.ParametricBlock(mesh("t3:1x2x2"), slope=1.5, p=2), n=8, **_lohi(S, S, P, W, P, W, P, W)),
    "Block2def": dict(make=lambda c: maps.ParametricBlock(mesh("t2:2x2")), n=6, **_lohi(S, S, P, W, P, W)),
    "Block2act": dict(make=lambda c: maps.ParametricBlock(mesh("t2:2x2"), slope=1.5, p=4, active_cells=np.r_[True, False, True, True]), n=6, **_lohi(S, S, P, W, P, W)),
    "Ellipsoid2": dict(make=lambda c: maps.ParametricEllipsoid(mesh("t2:2x2"), slope=1.5), n=6, **_lohi(S, S, P, W, P, W)),
    "Ellipsoid3": dict(make=lambda c: maps.ParametricEllipsoid(mesh("t3:1x2x2"), slope=1.5), n=8, **_lohi(S, S, P, W, P, W, P, W)),
    "Casing": dict(make=lambda c: maps.ParametricCasingAndLayer(mesh("cyl:2x2"), slope=1.5), n=10, **_lohi(S, S, S, S, P, W, (0.5, 1.0), (0.1, 0.3), (-1.0, -0.6), (0.2, 0.6))),
    "BlockInLayer2": dict(make=lambda c: maps.ParametricBlockInLayer(mesh("t2:2x2"), slope=1.5), n=7, **_lohi(S, S, S, P, W, P, W)),
    "BlockInLayer3": dict(make=lambda c: maps.ParametricBlockInLayer(mesh("t3:1x2x2"), slope=1.5), n=9, **_lohi(S, S, S, P, W, P, P, W, W)),
}


@harness("C01", params=PARAM)
def parametric(ctx, make, n, lo=None, hi=None):
    run_map(ctx, make, n, lo, hi)
