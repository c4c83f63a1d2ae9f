"""Checks shared by the PDE based simulations."""
import numpy as np
import scipy.sparse as sp


def vdot(a, b):
    a = np.asarray(a) if not hasattr(a, "dot") else a
    return (a * b).sum()


def sens(ctx, sims, m, v, w, getJ=False, second=False, fields_arg=True, names=("jvec", "adjoint")):
    """sims: two identically configured simulations (the first one is used for
    the forward derivative, the second one for the sensitivities)."""
    s1, s2 = sims
    d0, d1 = ctx.dd(lambda x: s1.dpred(x), m, v)
    f = s2.fields(m)
    ctx.eq("dpred_f", s2.dpred(m, f=f), d0)
    Jv = s2.Jvec(m, v, f=f)
    ctx.eq(names[0], Jv, d1, fd=True)
    Jtw = s2.Jtvec(m, w, f=f)
    ctx.eq(names[1], vdot(w, Jv), vdot(v, Jtw))
    if getJ:
        J = s2.getJ(m, f=f)
        ctx.eq("getJ", J @ v, Jv)
    if second:
        # the same calls again: no state carried over
        ctx.eq("jvec_again", s2.Jvec(m, v), Jv)
        ctx.eq("jtvec_again", s2.Jtvec(m, w), Jtw)
    return f, d0, Jv, Jtw


def jextras(ctx, sim, m, v, Jv, nd, w=None):
    """explicit sensitivity matrix and approximate Hessian diagonal."""
    J = sim.getJ(m)
    ctx.eq("getJ", J @ v, Jv)
    ctx.eq("JtJdiag", sim.getJtJdiag(m), (J * J).sum(axis=0))
    W = np.linspace(0.5, 2.0, J.shape[0])
    WJ = W[:, None] * J
    ctx.eq("JtJdiag_W", sim.getJtJdiag(m, W=sp.diags(W)), (WJ * WJ).sum(axis=0))
