"""Symbolic linear systems.

A linear solve with a symbolic matrix returns a vector of fresh "X" atoms x
together with the facts the SMT queries may use about it:

* the defining equations  A x = b,
* for every pair of solves with the same matrix  A x = b,  A^T y = c  the
  bilinear consequence  y.b = x.c,
* solves with the same matrix whose right-hand sides are linearly dependent
  (numeric coefficients) share atoms (uniqueness of the solution),
* a matrix with one pinned row whose other rows sum to zero (pure Neumann
  problems) has the constant vector as the solution for that row.

Nothing else is assumed, in particular no numeric values."""
import numpy as np
import scipy.linalg as sla

from . import poly
from .poly import Sym, _sym, _atoms

MATS = []        # Mat
SOLVES = []      # Solve


class Mat:
    pass


class Solve:
    pass


def reset():
    MATS.clear()
    SOLVES.clear()
    _dual_cache.clear()
    _eq_cache.clear()


def _terms_rows(A):
    out = []
    for r in A.rows:
        d = {}
        for j, v in r.items():
            t = _sym(v).t
            if t:
                d[j] = t
        out.append(d)
    return out


def _transpose(rows):
    out = [dict() for _ in rows]
    for i, r in enumerate(rows):
        for j, t in r.items():
            out[j][i] = t
    return out


def _conj(rows):
    return [{j: Sym(t).conj().t for j, t in r.items()} for r in rows]


def _same_terms(a, b, scale):
    if a is b:
        return True
    for m, c in a.items():
        d = b.get(m, 0)
        if abs(c - d) > 1e-10 * max(abs(c), abs(d)) and abs(c - d) > 1e-13 * scale:
            return False
    for m, d in b.items():
        if m not in a and abs(d) > 1e-13 * scale:
            return False
    return True


def _scale(rows):
    return max([abs(c) for r in rows for t in r.values() for c in t.values()] + [0.0])


def _same(a, b):
    if len(a) != len(b):
        return False
    sc = max(_scale(a), 1e-300)
    empty = {}
    for r, s in zip(a, b):
        for j in r.keys() | s.keys():
            if not _same_terms(r.get(j, empty), s.get(j, empty), sc):
                return False
    return True


def register(A):
    """-> (Mat, transposed, conjugated)."""
    rows = _terms_rows(A)
    tr = _transpose(rows)
    cj = None
    for M in MATS:
        if M.n != len(rows):
            continue
        if _same(M.rows, rows):
            return M, False, False
        if _same(M.rows, tr):
            return M, True, False
        if M.cplx:
            if cj is None:
                cj = _conj(rows)
            if _same(M.rows, cj):
                return M, False, True
            if _same(M.rows, _transpose(cj)):
                return M, True, True
    M = Mat()
    M.n = len(rows)
    M.rows = rows
    M.trows = tr
    M.cplx = any(Sym(t).is_complex() for r in rows for t in r.values())
    M.sym = _same(rows, tr)
    M.pin, M.rsym = _pinned(M)
    M.id = len(MATS)
    MATS.append(M)
    return M, False, False


def _pinned(M):
    """row k of A is a multiple of e_k and all other rows sum to zero (a
    Neumann problem with one pinned value): then A 1 = a e_k, so that
    x = (b_k / a) 1 + x' with x'_k = 0.  Second value: the matrix without row
    and column k is symmetric."""
    if M.n < 2:
        return None, False
    for k, r in enumerate(M.rows):
        if list(r) != [k] or list(r[k]) != [()]:
            continue
        for i, q in enumerate(M.rows):
            if i == k:
                continue
            tot, mag = {}, 0.0
            for t in q.values():
                for m, c in t.items():
                    tot[m] = tot.get(m, 0.0) + c
                    mag = max(mag, abs(c))
            if any(abs(c) > 1e-12 * mag for c in tot.values()):
                return None, False
        red = [{j: t for j, t in r.items() if j != k} for i, r in enumerate(M.rows) if i != k]
        red = [{(j if j < k else j - 1): t for j, t in r.items()} for r in red]
        return (k, r[k][()]), _same(red, _transpose(red))
    return None, False


def solve(A_info, b):
    """b: list of Sym -> list of Sym."""
    M, T, cj = A_info
    if cj:
        x = solve((M, T, False), [v.conj() for v in b])
        return [v.conj() for v in x]
    T = T and not M.sym
    if M.pin is not None and not T and _sym(b[M.pin[0]]).t:
        k, a = M.pin
        base = _sym(b[k]) * (1.0 / a)
        rest = [Sym({}) if i == k else v for i, v in enumerate(b)]
        return [v + base for v in solve((M, False, False), rest)]
    keys = {}
    for i, v in enumerate(b):
        for m, c in v.t.items():
            keys[(i, m)] = c
    if not keys or max(abs(c) for c in keys.values()) < 1e-14:
        return [Sym({}) for _ in b]
    mine = [s for s in SOLVES if s.mat is M and s.T == T]
    for s in mine:
        if s.hash == hash(frozenset(keys)):
            # same support: scalar multiple?
            k0 = max(keys, key=lambda k: abs(keys[k]))
            al = keys[k0] / s.flat[k0]
            if all(abs(c - al * s.flat[k]) <= 1e-9 * (abs(c)) + 1e-13 * abs(keys[k0]) for k, c in keys.items()):
                return [x * al for x in s.x]
    cand = [s for s in mine if s.keyset & keys.keys()]
    if len(cand) > 1 or (cand and len(cand[0].keyset) != len(keys)):
        lam = _combine(keys, [s.flat for s in cand])
        if lam is not None:
            out = [Sym({}) for _ in b]
            for l, s in zip(lam, cand):
                if l:
                    out = [o + x * l for o, x in zip(out, s.x)]
            return out
    s = Solve()
    s.mat, s.T = M, T
    s.b = b
    s.flat = keys
    s.keyset = keys.keys()
    s.hash = hash(frozenset(keys))
    s.id = len(SOLVES)
    s.cplx = M.cplx or any(v.is_complex() for v in b)
    s.x = []
    for i in range(M.n):
        a = poly._new_atom("X", (s.id, i, 0, False), f"x{s.id}_{i}", None, None, False)
        if s.cplx:
            c = poly._new_atom("X", (s.id, i, 0, True), f"cx{s.id}_{i}", None, None, False)
            _atoms[a].conj = c
            _atoms[c].conj = a
        s.x.append(Sym({((a, 1),): 1}))
    if M.pin is not None and not T:
        s.x[M.pin[0]] = Sym({})
    SOLVES.append(s)
    return s.x


def _combine(target, cols, tol=1e-9):
    """numeric multipliers with target = sum lam*cols, or None."""
    idx = {k: i for i, k in enumerate(target)}
    for c in cols:
        for k in c:
            if k not in idx:
                idx[k] = len(idx)
    n, m = len(idx), len(cols)
    if n * m > 2e7:
        return None
    A = np.zeros((n, m))
    b = np.zeros(n)
    for k, v in target.items():
        b[idx[k]] = v
    for j, c in enumerate(cols):
        for k, v in c.items():
            A[idx[k], j] = v
    lam, mag, res = _lsq(A, b)
    if lam is None or np.any(np.abs(res) > tol * mag):
        return None
    lam[np.abs(lam) < 1e-12 * np.abs(lam).max()] = 0.0
    return lam


def _lsq(A, b):
    """row/column scaled least squares; returns (lam, magnitude per row, residual)."""
    cs = np.abs(A).max(axis=0)
    ok = cs > 0
    if not ok.any():
        return None, None, None
    A2 = A[:, ok] / cs[ok]
    rs = np.maximum(np.abs(A2).max(axis=1), np.abs(b))
    rs[rs == 0] = 1.0
    try:
        l2 = sla.lstsq(A2 / rs[:, None], b / rs, cond=1e-11, lapack_driver="gelsy", check_finite=False)[0]
    except Exception:
        return None, None, None
    # refine on the support
    supp = np.abs(l2) > 1e-9 * max(np.abs(l2).max(), 1e-300)
    if supp.any() and not supp.all():
        try:
            l3 = np.zeros_like(l2)
            l3[supp] = sla.lstsq((A2 / rs[:, None])[:, supp], b / rs, cond=1e-13, lapack_driver="gelsy", check_finite=False)[0]
            l2 = l3
        except Exception:
            pass
    lam = np.zeros(A.shape[1])
    lam[ok] = l2 / cs[ok]
    contrib = A * lam
    res = b - contrib.sum(axis=1)
    mag = np.abs(b) + np.abs(contrib).sum(axis=1)
    return lam, mag, res


# ------------------------------------------------------------------ evaluation
def numeric(sid, env, cache):
    k = ("X", sid)
    if k in cache:
        return cache[k]
    s = SOLVES[sid]
    km = ("XM", s.mat.id)
    A = cache.get(km)
    if A is None:
        n = s.mat.n
        A = np.zeros((n, n), dtype=complex if s.mat.cplx else float)
        for i, r in enumerate(s.mat.rows):
            for j, t in r.items():
                v = poly.evaluate(Sym(t), env, cache)
                A[i, j] = v if s.mat.cplx else poly._re(v)
        cache[km] = A
    b = np.array([poly.evaluate(v, env, cache) for v in s.b])
    x = np.linalg.solve(A.T if s.T else A, b)
    cache[k] = x
    return x


# ------------------------------------------------------------------ hypotheses
_dual_cache = {}
_eq_cache = {}


def _dual(s, t):
    """y.b - x.c for A x = b, A^T y = c."""
    k = (s.id, t.id)
    v = _dual_cache.get(k)
    if v is None:
        v = (poly.dot(t.x, s.b) - poly.dot(s.x, t.b))
        v = _sym(v).t
        _dual_cache[k] = v
    return v


def _eqs(s):
    v = _eq_cache.get(s.id)
    if v is None:
        rows = s.mat.trows if s.T else s.mat.rows
        v = []
        for r, b in zip(rows, s.b):
            js = list(r)
            v.append((_sym(poly.dot([Sym(r[j]) for j in js], [s.x[j] for j in js])) - b).t)
        _eq_cache[s.id] = v
    return v


def _closure_complex(hs):
    out = []
    I = Sym({((poly.I_ID, 1),): 1})
    for h in hs:
        H = Sym(h)
        if H.is_complex():
            C = H.conj()
            for q in (H, H * I, C, C * I):
                out.append(q.t)
        else:
            out.append(h)
    return out


def hypotheses(kind):
    hs = []
    if kind == "dual":
        for i, s in enumerate(SOLVES):
            for t in SOLVES[i + 1:]:
                if s.mat is t.mat and (s.T != t.T or s.mat.sym or (s.mat.rsym and not s.T)):
                    hs.append(_dual(s, t))
    elif kind == "eq":
        for s in SOLVES:
            hs.extend(_eqs(s))
    return _closure_complex(hs)


def reduce_by(kind, diffs, cap=30_000_000):
    """Try to write every diff (term dict) as numeric combination of the
    hypotheses. Returns list of (combined hypothesis term dict or None)."""
    hs = hypotheses(kind)
    byq = {}
    for n, h in enumerate(hs):
        for m in h:
            byq.setdefault(m, []).append(n)
    out = []
    for d in diffs:
        res = None
        for level in (0, 1):
            res = _reduce_one(d, hs, byq, level, cap)
            if res is not None:
                break
        out.append(res)
    return out


def _reduce_one(d, hs, byq, level, cap):
    sel, front, seen = set(), set(d), set(d)
    while front:
        new = set()
        for m in front:
            for n in byq.get(m, ()):
                if n not in sel:
                    sel.add(n)
                    for q in hs[n]:
                        if q not in seen:
                            seen.add(q)
                            new.add(q)
        front = new
        if level == 0:
            break
        if len(sel) * len(seen) > cap:
            return None
    sel = sorted(sel)
    if not sel or len(sel) * len(seen) > cap:
        return None
    idx = {m: i for i, m in enumerate(seen)}
    A = np.zeros((len(idx), len(sel)))
    b = np.zeros(len(idx))
    for m, c in d.items():
        b[idx[m]] = c
    for j, n in enumerate(sel):
        for m, c in hs[n].items():
            A[idx[m], j] = c
    lam, mag, res = _lsq(A, b)
    if lam is None or np.any(np.abs(res) > 1e-7 * mag):
        return None
    comb = {}
    contrib = A @ lam
    for m, i in idx.items():
        if contrib[i] != 0 or m in d:
            # agree with the difference up to rounding
            comb[m] = d.get(m, 0.0)
    return {m: c for m, c in comb.items() if c}
