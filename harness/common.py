"""Small meshes and helpers shared by all harnesses."""
import numpy as np
import discretize
from discretize import TensorMesh, TreeMesh, CylindricalMesh


def mesh1(n=3):
    return TensorMesh([np.r_[1.0, 1.5, 0.75, 2.0, 1.25, 0.5][:n]])


def mesh2(nx=2, ny=2):
    hx = np.r_[1.0, 1.5, 0.75, 1.25][:nx]
    hy = np.r_[0.5, 1.25, 2.0, 0.75][:ny]
    return TensorMesh([hx, hy], origin=[-0.8, -0.6])


def mesh3(nx=2, ny=2, nz=2):
    hx = np.r_[1.0, 1.5, 0.75, 1.25][:nx]
    hy = np.r_[0.5, 1.25, 2.0, 0.75][:ny]
    hz = np.r_[0.8, 1.1, 0.6, 1.7][:nz]
    return TensorMesh([hx, hy, hz], origin=[-0.8, -0.6, -1.3])


def warm(m):
    """compute the compiled mesh operators before symbolic execution starts."""
    for a in dir(type(m)):
        if m.dim < 3 and ("edge_curl" in a or a.endswith("_z") or "_z_" in a or "boundary_edge" in a or "project_edge" in a):
            continue   # compiled code of the tree mesh crashes on these in 2D
        if a.startswith(("average_", "face_div", "nodal_grad", "edge_curl", "cell_gradient", "cell_volumes", "face_areas",
                         "edge_lengths", "boundary_", "project_", "stencil_")):
            try:
                getattr(m, a)
            except Exception:
                pass
    for f in (m.get_face_inner_product, m.get_edge_inner_product):
        f(np.ones(m.n_cells))
    return m


def mesh(kind):
    """mesh by label, e.g. 't1:3', 't2:2x3', 't3:2x2x3', 'cyl', 'cyl3', 'tree2', 'tree3'."""
    k, _, s = kind.partition(":")
    dims = [int(x) for x in s.split("x")] if s else []
    if k == "t1":
        return mesh1(*dims)
    if k == "t2":
        return mesh2(*dims)
    if k == "t3":
        return mesh3(*dims)
    if k == "cyl":
        nr, nz = dims or (2, 3)
        return CylindricalMesh([np.r_[1.0, 1.5, 2.0][:nr], 1, np.r_[0.8, 1.1, 0.6, 0.9][:nz]], origin=[0, 0, -1.2])
    if k == "cyl3":
        return CylindricalMesh([np.r_[1.0, 1.5], np.r_[0.5, 0.25, 0.25] * 2 * np.pi, np.r_[0.8, 1.1]], origin=[0, 0, -1.2])
    if k == "tree2":
        m = TreeMesh([np.ones(4), np.ones(4)], diagonal_balance=False)
        m.refine(1, finalize=False)
        m.insert_cells(np.array([[0.5, 0.5]]), [2], finalize=True)
        return warm(m)
    if k == "tree3":
        m = TreeMesh([np.ones(4), np.ones(4), np.ones(4)], diagonal_balance=False)
        m.refine(1, finalize=False)
        m.insert_cells(np.array([[0.5, 0.5, 0.5]]), [2], finalize=True)
        return warm(m)
    raise KeyError(kind)


def dense(A):
    return A.toarray() if hasattr(A, "toarray") else A


def apply_deriv(D, v):
    """matrix-like deriv object applied to v (Identity/Zero aware)."""
    return D * v
