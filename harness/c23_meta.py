"""Meta simulations: several simulations behaving as one."""
import warnings
import numpy as np
import scipy.sparse as sp
from simpeg import maps
from simpeg.potential_fields import gravity as gr
from simpeg.meta import MetaSimulation, SumMetaSimulation, RepeatedSimulation
from simpeg.electromagnetics.static import resistivity as dc
from simpeg.utils.solver_utils import get_default_solver
from engine.registry import harness
from .common import mesh
from .pde import vdot
from .c15_dc import build as dcbuild
from .c20_potential import RX0

Solver = get_default_solver()
warnings.simplefilter("ignore")


def grav(k, mp="id", nd=None):
    mh = mesh(["t3:2x2x1", "t3:2x1x2", "t3:2x2x1"][k % 3])
    comps = [["gz"], ["gx", "gzz"], ["gy"]][k % 3] if nd is None else ["gz"] * nd
    locs = RX0[0] + 0.3 * k
    m = maps.IdentityMap(nP=4) if mp == "id" else maps.ExpMap(nP=4)

    def mk(solver=None):
        sv = gr.Survey(gr.sources.SourceField([gr.receivers.Point(locs, components=comps)]))
        return gr.Simulation3DIntegral(mh, survey=sv, rhoMap=m, engine="choclo", sensitivity_dtype=np.float64)
    return mk


def dcs(k):
    mkS, mh, n = dcbuild(3, ["n", "cc"][k % 2], "t3:2x2x2", ["d", "p"][k % 2], ["d,p", "d1"][k % 2], "sigma")
    return mkS


def simlist(kind):
    if kind == "grav":
        return [grav(0), grav(1), grav(2)]
    if kind == "gravexp":
        return [grav(0, "exp"), grav(1)]
    if kind == "sum":
        return [grav(0), grav(0, "exp"), grav(1, nd=1)]
    if kind == "dc":
        return [dcs(0), dcs(1)]
    if kind == "mixed":
        return [dcs(0), grav(1)]
    raise KeyError(kind)


def mappings(kind, ns, nP):
    """maps of nP parameters to ns[i] cells"""
    rng = np.random.default_rng(3)
    out = []
    a = 0
    for i, n in enumerate(ns):
        k = np.arange(n)
        if kind == "proj":      # every parameter used at most once per simulation
            out.append(maps.Projection(nP, (k + 3 * i) % nP))
        elif kind == "scaled":  # projections with a factor
            P = 2.0**i * sp.diags(np.where(k % 2, 1.0, 1.01)) @ sp.csr_matrix((np.ones(n), (k, (k + 2 * i) % nP)), shape=(n, nP))
            out.append(maps.LinearMap(P))
        elif kind == "part":    # disjoint parts of the model
            out.append(maps.Projection(nP, k + a))
            a += n
        elif kind == "dense":
            out.append(maps.LinearMap(rng.uniform(0.1, 1, (n, nP))))
        elif kind == "exp":
            out.append(maps.ExpMap(nP=n) * maps.LinearMap(sp.csr_matrix((np.full(n, 0.5), (k, (k + 3 * i) % nP)), shape=(n, nP))))
    return out


CASES = {}
for cls, sims, mp, nP in [
    ("meta", "grav", "proj", 6), ("meta", "grav", "dense", 3), ("meta", "gravexp", "exp", 5), ("meta", "grav", "scaled", 6),
    ("meta", "dc", "proj", 9), ("meta", "mixed", "scaled", 8), ("meta", "dc", "dense", 2),
    ("sum", "sum", "part", 12), ("sum", "sum", "dense", 3), ("sum", "sum", "exp", 5),
    ("rep", "grav", "proj", 6), ("rep", "grav", "dense", 3), ("rep", "gravexp", "scaled", 5), ("rep", "dc", "scaled", 8),
]:
    CASES[f"{cls}-{sims}-{mp}{nP}"] = dict(cls=cls, sims=sims, mp=mp, nP=nP)


def make(solver, cls, sims, mps):
    s = simlist(sims)
    if cls == "rep":
        return RepeatedSimulation(s[0](solver), mps), [s[0]] * 3, s[0](solver)
    return (MetaSimulation if cls == "meta" else SumMetaSimulation)([k(solver) for k in s], mps), s, None


@harness("C23", params=CASES)
def meta(ctx, cls, sims, mp, nP):
    ns = {"dc": [8, 8], "mixed": [8, 4], "gravexp": [4, 4]}.get(sims, [4, 4, 4])
    if cls == "rep":
        ns = [ns[0]] * 3
    mps = mappings(mp, ns, nP)
    big, mks, _ = make(ctx.solver, cls, sims, mps)
    other, _, _ = make(ctx.solver, cls, sims, mps)
    parts = [k(ctx.solver) for k in mks]       # the same simulations on their own
    subs = list(other.simulations) if cls != "rep" else [other.simulation]
    nds = [p.survey.nD for p in parts]
    nd = nds[0] if cls == "sum" else sum(nds)
    ctx.check("n_data", big.survey.nD == nd and list(big.survey.vnD) == ([nd] if cls == "sum" else nds))
    m = ctx.reals("m", nP, lo=1.0, hi=1.3)
    m2 = ctx.reals("m2", nP, lo=1.4, hi=1.8)
    v = ctx.reals("v", nP, lo=-1, hi=1)
    w = ctx.reals("w", nd, lo=-1, hi=1)
    off = np.r_[0, np.cumsum(nds)]

    def join(ds):
        if cls == "sum":
            return sum(ds[1:], ds[0])
        return np.concatenate(ds)

    def data(x):
        return join([p.dpred(q * x) for p, q in zip(parts, mps)])

    def jv(x, y):
        return join([k(ctx.solver).Jvec(q * x, q.deriv(x) @ y) for k, q in zip(mks, mps)])

    d0, d1 = ctx.dd(lambda x: big.dpred(x), m, v)
    ctx.eq("dpred", d0, data(m))
    f = other.fields(m)
    ctx.eq("dpred_f", other.dpred(m, f=f), d0)
    Jv = other.Jvec(m, v, f=f)
    ctx.eq("jvec", Jv, d1, fd=True)
    Jtw = other.Jtvec(m, w, f=f)
    ctx.eq("adjoint", vdot(w, Jv), vdot(v, Jtw))
    # another model, one of the simulations used on its own, and back
    ctx.eq("dpred_m2", other.dpred(m2), data(m2))
    subs[-1].dpred(mps[-1] * (0.9 * m))
    ctx.eq("dpred_m2_again", other.dpred(m2), data(m2))
    subs[0].dpred(mps[0] * (0.9 * m))
    ctx.eq("jvec_m2", other.Jvec(m2, v), jv(m2, v))
    subs[0].dpred(mps[0] * (0.9 * m))
    ctx.eq("adjoint_m2", vdot(w, jv(m2, v)), vdot(v, other.Jtvec(m2, w)))
    ctx.eq("jvec_f_again", other.Jvec(m, v, f=f), Jv)
    ctx.eq("jtvec_f_again", other.Jtvec(m, w, f=f), Jtw)
    solver = ctx.solver
    if mp in ("proj", "scaled", "part") and (cls != "sum" or mp == "part"):
        def diag(x, ws):
            tot = 0.0
            for i, (k, q) in enumerate(zip(mks, mps)):
                J = k(solver).getJ(q * x)
                J = J @ (q.deriv(x).toarray())
                s = ws if cls == "sum" else ws[off[i]:off[i + 1]]
                tot = tot + ((s[:, None] * J) ** 2).sum(axis=0)
            return tot
        one = np.ones(nd)
        if sims in ("dc", "mixed"):    # numeric models, any weights
            m, m2, solver = np.linspace(0.6, 1.4, nP), np.linspace(2.4, 1.7, nP), Solver
            other = make(Solver, cls, sims, mps)[0]
            ws = ctx.reals("ws", nd, lo=1.1, hi=2)
        else:
            ws, solver = np.linspace(0.5, 2, nd), ctx.solver
        ctx.eq("diag", other.getJtJdiag(m), diag(m, one))
        ctx.eq("diag_W", other.getJtJdiag(m, W=sp.diags(ws)), diag(m, ws))
        ctx.eq("diag_m2_W", other.getJtJdiag(m2, W=sp.diags(ws)), diag(m2, ws))
        ctx.eq("diag_after", other.getJtJdiag(m), diag(m, one))
    # replacing the mappings
    if mp != "exp" and sims != "mixed" and solver is ctx.solver:
        new = mps[1:] + mps[:1] if mp != "part" else mps[::-1]
        other.dpred(m)
        other.mappings = new
        ctx.eq("dpred_new_mappings", other.dpred(m), join([p.dpred(q * m) for p, q in zip(parts, new)]))


@harness("C23")
def meta_rejects(ctx):
    """inconsistent numbers of mappings, parameters or data are rejected."""
    mk = [grav(0), grav(1), grav(0)]
    ps = mappings("proj", [4] * 3, 6)
    m = ctx.reals("m", 6)

    def fails(f):
        try:
            f()
        except ValueError:
            return True
        return False
    ctx.check("count", fails(lambda: MetaSimulation([k() for k in mk], ps[:2])))
    ctx.check("inputs", fails(lambda: MetaSimulation([k() for k in mk], ps[:2] + [maps.Projection(5, np.arange(4))])))
    ctx.check("outputs", fails(lambda: MetaSimulation([k() for k in mk], ps[:2] + [maps.Projection(6, np.arange(3))])))
    ctx.check("sum_data", fails(lambda: SumMetaSimulation([k() for k in mk], ps)))
    s = mk[0]()
    ctx.check("unique", fails(lambda: MetaSimulation([s, s], ps[:2])))
    ctx.check("model", fails(lambda: MetaSimulation([k() for k in mk], ps).dpred(m[:5])))
