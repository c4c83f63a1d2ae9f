"""Sparse matrices with symbolic entries, and the scipy.sparse patches."""
import sys

import numpy as np
import scipy.sparse as sp
from scipy.sparse import _base as spb

from . import linsys, poly
from .poly import Gap, Sym, SymBool, dot as pdot, ssum, _add_into, _mul_terms, _sym
from .sa import SA, STATE, demote, has_sym, is_sym, matmul, raw, to_sa, wrap, NP


def _iszero(x):
    if x.__class__ is Sym:
        return not x.t
    return not is_sym(x) and x == 0


class SymSparse:
    __array_ufunc__ = None
    __array_priority__ = 2000.0
    ndim = 2
    format = "csr"
    dtype = np.dtype(object)

    def __init__(self, rows, shape):
        self.rows = rows
        self._shape = (int(shape[0]), int(shape[1]))

    @property
    def __class__(self):
        return sp.csr_matrix

    shape = property(lambda self: self._shape)

    # ---------------------------------------------------------------- builders
    @staticmethod
    def from_any(A):
        if type(A) is SymSparse:
            return A
        if sp.issparse(A):
            A = sp.csr_matrix(A)
            rows = []
            ip, ix, d = A.indptr, A.indices, A.data
            for i in range(A.shape[0]):
                r = {}
                for k in range(ip[i], ip[i + 1]):
                    j = int(ix[k])
                    v = d[k].item()
                    r[j] = r[j] + v if j in r else v
                rows.append(r)
            return SymSparse(rows, A.shape)
        a = raw(to_sa(A))
        if a.ndim == 1:
            a = a[None, :]
        rows = [{j: a[i, j] for j in range(a.shape[1]) if not _iszero(a[i, j])} for i in range(a.shape[0])]
        return SymSparse(rows, a.shape)

    @staticmethod
    def from_coo(data, i, j, shape=None):
        i, j = np.asarray(demote(i)).astype(int).ravel(), np.asarray(demote(j)).astype(int).ravel()
        if shape is None:
            shape = (int(i.max()) + 1, int(j.max()) + 1)
        rows = [{} for _ in range(shape[0])]
        data = raw(to_sa(data)).ravel()
        for v, a, b in zip(data, i, j):
            if b >= shape[1] or a >= shape[0]:
                raise ValueError("index exceeds matrix dimension")
            r = rows[a]
            b = int(b)
            if is_sym(v) and v.__class__ is SymBool:
                v = v.ind()
            r[b] = r[b] + v if b in r else v
        return SymSparse(rows, shape)

    @staticmethod
    def diag(v, n=None, m=None, offset=0):
        v = raw(to_sa(v)).ravel()
        if n is None:
            n = m = len(v) + abs(offset)
        rows = [{} for _ in range(n)]
        for k in range(len(v)):
            i, j = (k, k + offset) if offset >= 0 else (k - offset, k)
            if i < n and j < m:
                x = v[k]
                if x.__class__ is SymBool:
                    x = x.ind()
                rows[i][j] = x
        return SymSparse(rows, (n, m))

    # ------------------------------------------------------------------- views
    @property
    def T(self):
        return self.transpose()

    def transpose(self, *a, **k):
        rows = [{} for _ in range(self._shape[1])]
        for i, r in enumerate(self.rows):
            for j, v in r.items():
                rows[j][i] = v
        return SymSparse(rows, self._shape[::-1])

    def _map(self, f):
        return SymSparse([{j: f(v) for j, v in r.items()} for r in self.rows], self._shape)

    def conj(self, *a, **k):
        return self._map(lambda v: v.conj() if is_sym(v) else np.conj(v).item())

    conjugate = conj

    @property
    def H(self):
        return self.conj().T

    getH = lambda self: self.H

    @property
    def real(self):
        return self._map(lambda v: v.real)

    @property
    def imag(self):
        return self._map(lambda v: v.imag)

    def copy(self):
        return SymSparse([dict(r) for r in self.rows], self._shape)

    def _same(self, *a, **k):
        return self

    tocsr = tocsc = tocoo = tolil = todia = tobsr = asformat = todok = _same

    def astype(self, *a, **k):
        return self

    def eliminate_zeros(self):
        self.rows = [{j: v for j, v in r.items() if not _iszero(v)} for r in self.rows]

    def sum_duplicates(self):
        pass

    def sort_indices(self):
        pass

    def sorted_indices(self):
        return self

    @property
    def nnz(self):
        return sum(len(r) for r in self.rows)

    getnnz = lambda self, *a: self.nnz

    @property
    def size(self):
        return self.nnz

    @property
    def data(self):
        return to_sa([r[j] for r in self.rows for j in sorted(r)])

    @data.setter
    def data(self, v):
        v = raw(to_sa(v)).ravel()
        k = 0
        for r in self.rows:
            for j in sorted(r):
                r[j] = v[k]
                k += 1

    @property
    def indices(self):
        return np.array([j for r in self.rows for j in sorted(r)], dtype=int)

    @property
    def indptr(self):
        return np.r_[0, np.cumsum([len(r) for r in self.rows])].astype(int)

    @property
    def row(self):
        return np.array([i for i, r in enumerate(self.rows) for j in sorted(r)], dtype=int)

    @property
    def col(self):
        return self.indices

    def toarray(self, *a, **k):
        out = np.empty(self._shape, dtype=object)
        out[...] = 0.0
        for i, r in enumerate(self.rows):
            for j, v in r.items():
                out[i, j] = v
        return out.view(SA)

    todense = toarray
    A = property(toarray)

    def numeric(self):
        """csr_matrix if free of symbols else None."""
        for r in self.rows:
            for v in r.values():
                if is_sym(v):
                    if v.__class__ is SymBool or v.const() is None:
                        return None
        i, j, d = [], [], []
        for a, r in enumerate(self.rows):
            for b, v in r.items():
                i.append(a); j.append(b); d.append(v.const() if is_sym(v) else v)
        return sp.csr_matrix((np.array(d) if d else np.zeros(0), (i, j)), shape=self._shape)

    def diagonal(self, k=0):
        n = min(self._shape)
        if k:
            raise Gap("diagonal(k)")
        return to_sa([self.rows[i].get(i, 0.0) for i in range(n)])

    def trace(self):
        return ssum(self.diagonal())

    def sum(self, axis=None, **k):
        if axis is None:
            return ssum([v for r in self.rows for v in r.values()])
        if axis in (1, -1):
            return to_sa([ssum(list(r.values())) for r in self.rows])[:, None]
        t = self.T
        return to_sa([ssum(list(r.values())) for r in t.rows])[None, :]

    def mean(self, axis=None):
        if axis is None:
            return self.sum() / (self._shape[0] * self._shape[1])
        return self.sum(axis) / self._shape[axis]

    def max(self, axis=None, **k):
        return self.toarray().max(axis)

    def min(self, axis=None, **k):
        return self.toarray().min(axis)

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key, slice(None))
        ri, ci = key

        def norm(ix, n):
            if isinstance(ix, slice):
                return np.arange(n)[ix], False
            if isinstance(ix, np.ndarray) and ix.dtype == object:
                from .sa import _fix_key
                ix = _fix_key(ix)
            if np.ndim(ix) == 0 and not isinstance(ix, (bool, np.bool_)):
                return np.array([int(ix) % n if int(ix) < 0 else int(ix)]), True
            return np.arange(n)[np.asarray(ix).ravel()], False
        r, rs = norm(ri, self._shape[0])
        c, cs = norm(ci, self._shape[1])
        if rs and cs:
            return self.rows[r[0]].get(int(c[0]), 0.0)
        if not isinstance(ri, slice) and not isinstance(ci, slice) and not rs and not cs and np.ndim(ri) == 1:
            return to_sa([self.rows[a].get(int(b), 0.0) for a, b in zip(r, c)])[None, :]
        if isinstance(ci, slice) and ci == slice(None):
            return SymSparse([dict(self.rows[a]) for a in r], (len(r), self._shape[1]))
        pos = {}
        for k, b in enumerate(c):
            pos.setdefault(int(b), []).append(k)
        rows = []
        for a in r:
            d = {}
            for j, v in self.rows[a].items():
                for k in pos.get(j, ()):
                    d[k] = v
            rows.append(d)
        return SymSparse(rows, (len(r), len(c)))

    def getrow(self, i):
        return self[i, :]

    def getcol(self, j):
        return self[:, j]

    def __iter__(self):
        for i in range(self._shape[0]):
            yield self[i, :]

    def __len__(self):
        raise TypeError("sparse array length is ambiguous")

    # -------------------------------------------------------------- arithmetic
    def _ew(self, o, sign):
        o = SymSparse.from_any(o)
        if o._shape != self._shape:
            raise ValueError("inconsistent shapes")
        rows = []
        for a, b in zip(self.rows, o.rows):
            r = dict(a)
            for j, v in b.items():
                v = v if sign > 0 else -v
                r[j] = r[j] + v if j in r else v
            rows.append(r)
        return SymSparse(rows, self._shape)

    def __add__(self, o):
        if np.ndim(o) == 0 and not sp.issparse(o):
            if _iszero(o):
                return self.copy()
            return NotImplemented
        if isinstance(o, np.ndarray):
            return self.toarray() + o
        if sp.issparse(o):
            return self._ew(o, 1)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if sp.issparse(o):
            return self._ew(o, -1)
        if isinstance(o, np.ndarray):
            return self.toarray() - o
        if np.ndim(o) == 0 and _iszero(o):
            return self.copy()
        return NotImplemented

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return self._map(lambda v: -v)

    def __abs__(self):
        return self._map(abs)

    def sign(self):
        return self._map(lambda v: v.sign() if is_sym(v) else np.sign(v))

    def sqrt(self):
        return self._map(lambda v: v.sqrt() if is_sym(v) else np.sqrt(v))

    def scale(self, s):
        return self._map(lambda v: v * s)

    def __truediv__(self, o):
        if np.ndim(o) == 0:
            if isinstance(o, np.ndarray):
                o = o.item()
            return self._map(lambda v: v / o)
        raise Gap("sparse / array")

    def power(self, n, dtype=None):
        return self._map(lambda v: v ** n)

    def __pow__(self, n):
        if self._shape[0] != self._shape[1]:
            raise TypeError("matrix is not square")
        r = self
        for _ in range(int(n) - 1):
            r = r @ self
        return r

    def multiply(self, o):
        if np.ndim(o) == 0 and not sp.issparse(o):
            return self.scale(o)
        if sp.issparse(o):
            o = SymSparse.from_any(o)
        else:
            o = np.broadcast_to(raw(to_sa(o)), self._shape)
            return SymSparse([{j: v * o[i, j] for j, v in r.items()} for i, r in enumerate(self.rows)], self._shape)
        if o._shape != self._shape:
            ra = np.broadcast_to(raw(o.toarray()), self._shape)
            return self.multiply(ra)
        return SymSparse([{j: v * b[j] for j, v in a.items() if j in b}
                          for a, b in zip(self.rows, o.rows)], self._shape)

    def _vec(self, x):
        x = raw(to_sa(x))
        if x.shape[0] != self._shape[1]:
            raise ValueError(f"dimension mismatch {self._shape} @ {x.shape}")
        if x.ndim == 1:
            return to_sa([pdot(list(r.values()), [x[j] for j in r]) for r in self.rows]) \
                if self.rows else SA(np.empty(0, object))
        out = np.empty((self._shape[0], x.shape[1]), dtype=object)
        for i, r in enumerate(self.rows):
            vs = list(r.values())
            for k in range(x.shape[1]):
                out[i, k] = pdot(vs, [x[j, k] for j in r])
        return out.view(SA)

    def __matmul__(self, o):
        if type(o) is SymSparse or sp.issparse(o):
            o = SymSparse.from_any(o)
            if self._shape[1] != o._shape[0]:
                raise ValueError(f"matmul: dimension mismatch {self._shape} @ {o._shape}")
            rows = []
            for r in self.rows:
                acc = {}
                for j, v in r.items():
                    for k, w in o.rows[j].items():
                        p = v * w
                        acc[k] = acc[k] + p if k in acc else p
                rows.append(acc)
            return SymSparse(rows, (self._shape[0], o._shape[1]))
        if isinstance(o, (np.ndarray, list)):
            return self._vec(o)
        if np.isscalar(o) or is_sym(o):
            raise ValueError("Scalar operands are not allowed, use '*' instead")
        return NotImplemented

    def __rmatmul__(self, o):
        if sp.issparse(o):
            return SymSparse.from_any(o) @ self
        if isinstance(o, (np.ndarray, list)):
            o = raw(to_sa(o))
            if o.ndim == 1:
                return self.T._vec(o)
            return self.T._vec(o.T).T
        return NotImplemented

    def __mul__(self, o):
        if is_sym(o) or (np.ndim(o) == 0 and np.isscalar(o)):
            return self.scale(o)
        if isinstance(o, np.ndarray) and o.ndim == 0:
            return self.scale(o.item())
        return self.__matmul__(o)

    def __rmul__(self, o):
        if is_sym(o) or (np.ndim(o) == 0 and np.isscalar(o)):
            return self.scale(o)
        if isinstance(o, np.ndarray) and o.ndim == 0:
            return self.scale(o.item())
        return self.__rmatmul__(o)

    def dot(self, o):
        return self * o

    def __eq__(self, o):
        raise Gap("sparse ==")

    def __ne__(self, o):
        raise Gap("sparse !=")

    __hash__ = object.__hash__

    def __repr__(self):
        return f"<SymSparse {self._shape}>"

    def __deepcopy__(self, memo):
        return self.copy()

    def reshape(self, *shape, **k):
        return wrap(raw(self.toarray()).reshape(*shape))

    def nonzero(self):
        return self.row, self.col

    def setdiag(self, values, k=0):
        if k:
            raise Gap("setdiag k")
        n = min(self._shape)
        v = np.broadcast_to(raw(to_sa(values)), (n,))
        for i in range(n):
            self.rows[i][i] = v[i]

    def __setitem__(self, key, val):
        i, j = key
        if np.ndim(i) == 0 and np.ndim(j) == 0 and not isinstance(i, slice) and not isinstance(j, slice):
            self.rows[int(i)][int(j)] = val
            return
        raise Gap("sparse setitem")


# ---------------------------------------------------------------- scipy patching
_ORIG = {}


def _sparse_symbolic(x):
    return type(x) is SymSparse


def _needs(x):
    """x is an array/matrix that requires the symbolic path."""
    if type(x) is SymSparse:
        return True
    if isinstance(x, np.ndarray) and x.dtype == object:
        return True
    return is_sym(x)


def csr_times(A, o):
    """numeric sparse A times SA / Sym."""
    if is_sym(o):
        return SymSparse.from_any(A).scale(o)
    if o.ndim == 0:
        return SymSparse.from_any(A).scale(o.item())
    if not has_sym(o):
        return A @ demote(o)
    A = A.tocsr()
    x = raw(o)
    if x.shape[0] != A.shape[1]:
        raise ValueError(f"matmul: dimension mismatch {A.shape} @ {x.shape}")
    ip, ix, d = A.indptr, A.indices, A.data
    dl = d.tolist()

    def col(xc):
        out = np.empty(A.shape[0], dtype=object)
        terms = [v.t if v.__class__ is Sym else _sym(v).t for v in xc]
        for i in range(A.shape[0]):
            acc = {}
            for k in range(ip[i], ip[i + 1]):
                t = terms[ix[k]]
                if not t:
                    continue
                c = dl[k]
                if c == 0:
                    continue
                if isinstance(c, complex):
                    for m, cc in _mul_terms(t, poly._tonum(c)).items():
                        _add_into(acc, m, cc)
                elif c == 1:
                    for m, cc in t.items():
                        _add_into(acc, m, cc)
                else:
                    for m, cc in t.items():
                        _add_into(acc, m, cc * c)
            out[i] = Sym(acc) if acc else 0.0
        return out
    if x.ndim == 1:
        return col(x).view(SA)
    if x.shape[1] == 0:
        return np.empty((A.shape[0], 0), dtype=object).view(SA)
    return np.stack([col(x[:, k]) for k in range(x.shape[1])], axis=1).view(SA)


def _patch_spbase():
    o_mm = spb._spbase._matmul_dispatch
    o_rmm = spb._spbase._rmatmul_dispatch

    def mm(self, other):
        if type(other) is SymSparse:
            return NotImplemented
        if STATE["active"] and _needs(other):
            return csr_times(self, other)
        return o_mm(self, other)

    def rmm(self, other):
        if type(other) is SymSparse:
            return NotImplemented
        if STATE["active"] and _needs(other):
            if is_sym(other):
                return csr_times(self, other)
            o = other
            if o.ndim == 1:
                return csr_times(self.T.tocsr(), o)
            if o.ndim == 0:
                return csr_times(self, o)
            return csr_times(self.T.tocsr(), o.T).T
        return o_rmm(self, other)

    spb._spbase._matmul_dispatch = mm
    spb._spbase._rmatmul_dispatch = rmm

    # plain binary operators
    def binop(cls, name, fn):
        if name not in cls.__dict__:
            return
        orig = cls.__dict__[name]

        def f(self, other, *a, **k):
            if STATE["active"] and _needs(other):
                return fn(self, other)
            return orig(self, other, *a, **k)
        setattr(cls, name, f)

    def add(self, o):
        if type(o) is SymSparse:
            return o._ew(self, 1)
        return SymSparse.from_any(self) + o

    def sub(self, o):
        if type(o) is SymSparse:
            return SymSparse.from_any(self)._ew(o, -1)
        return SymSparse.from_any(self) - o

    def rsub(self, o):
        if type(o) is SymSparse:
            return o._ew(self, -1)
        return (-SymSparse.from_any(self)) + o

    def mult(self, o):
        if is_sym(o):
            return SymSparse.from_any(self).scale(o)
        if isinstance(o, np.ndarray) and not has_sym(o):
            return self.multiply(demote(o))
        return SymSparse.from_any(self).multiply(o)

    def div(self, o):
        if is_sym(o):
            return SymSparse.from_any(self) / o
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                return SymSparse.from_any(self) / o.item()
            if not has_sym(o):
                return self / demote(o)
        raise Gap("sparse division")

    import scipy.sparse._compressed as spc
    import scipy.sparse._data as spd
    import scipy.sparse._csr as scsr
    import scipy.sparse._coo as scoo
    import scipy.sparse._dia as sdia
    import scipy.sparse._lil as slil
    classes = [spb._spbase, spc._cs_matrix, spd._data_matrix, scsr._csr_base, scoo._coo_base,
               sdia._dia_base, slil._lil_base]
    for cls in classes:
        binop(cls, "__add__", add)
        binop(cls, "__radd__", add)
        binop(cls, "__sub__", sub)
        binop(cls, "__rsub__", rsub)
        binop(cls, "multiply", mult)
        binop(cls, "__truediv__", div)
    # spmatrix.__mul__ / __rmul__ go through the dispatchers; scalars handled there.


def _mk_ctor(cls):
    def __new__(c, arg1=None, *args, **kw):
        if STATE["active"] and arg1 is not None:
            shape = kw.get("shape", args[0] if args else None)
            if type(arg1) is SymSparse:
                return arg1.copy()
            if isinstance(arg1, np.ndarray) and arg1.dtype == object:
                if has_sym(arg1):
                    return SymSparse.from_any(arg1)
            if isinstance(arg1, tuple) and len(arg1) >= 2 and not np.isscalar(arg1[0]):
                data = arg1[0]
                if isinstance(data, (list, tuple)) and any(is_sym(x) for x in data):
                    data = to_sa(data)
                if isinstance(data, np.ndarray) and data.dtype == object:
                    if has_sym(data):
                        if len(arg1) == 2:
                            i, j = arg1[1]
                            return SymSparse.from_coo(data, i, j, shape)
                        _, ind, ptr = arg1
                        n = len(ptr) - 1
                        major = np.repeat(np.arange(n), np.diff(ptr))
                        if "csc" in cls.__name__:
                            if shape is None:
                                shape = (int(np.max(ind)) + 1, n)
                            return SymSparse.from_coo(data, ind, major, shape)
                        if shape is None:
                            shape = (n, int(np.max(ind)) + 1)
                        return SymSparse.from_coo(data, major, ind, shape)
        return object.__new__(c)
    return __new__


def _dem(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return demote(x)
    if type(x) is tuple:
        return tuple(_dem(y) for y in x)
    return x


def _mk_init(cls):
    orig = cls.__init__

    def __init__(self, arg1=None, *args, **kw):
        if STATE["active"]:
            arg1 = _dem(arg1)
        if arg1 is None:
            return orig(self, *args, **kw)
        return orig(self, arg1, *args, **kw)
    return __init__


def p_diags(diagonals, offsets=0, shape=None, format=None, dtype=None, **kw):
    if STATE["active"]:
        ds = diagonals
        if isinstance(ds, np.ndarray) and ds.ndim == 1 or (
                isinstance(ds, (list, tuple)) and len(ds) and (np.ndim(ds[0]) == 0)):
            ds = [ds]
            offs = [offsets] if np.ndim(offsets) == 0 else list(offsets)
        else:
            offs = list(np.atleast_1d(offsets))
        ds = [to_sa(d) if isinstance(d, (list, tuple)) and any(is_sym(x) for x in d) else d for d in ds]
        if any(isinstance(d, np.ndarray) and d.dtype == object for d in ds):
            if any(has_sym(d) for d in ds):
                if shape is None:
                    n = max(len(d) + abs(int(o)) for d, o in zip(ds, offs))
                    shape = (n, n)
                R = None
                for d, o in zip(ds, offs):
                    o = int(o)
                    ln = min(shape[0] + min(o, 0), shape[1] - max(o, 0))
                    if len(d) == 1 and ln > 1:
                        d = to_sa([d[0]] * ln)
                    S = SymSparse.diag(d, shape[0], shape[1], o)
                    R = S if R is None else R + S
                return R
            diagonals = [demote(d) for d in ds]
            offsets = offs
    return _ORIG["diags"](diagonals, offsets=offsets, shape=shape, format=format, dtype=dtype, **kw)


def p_spdiags(data, diags, m=None, n=None, format=None):
    if STATE["active"] and isinstance(data, np.ndarray) and data.dtype == object:
        if has_sym(data):
            if m is None:
                m = n = data.shape[-1]
            elif n is None:
                m, n = m
            d2 = data if data.ndim == 2 else data[None, :]
            R = None
            for row, o in zip(d2, np.atleast_1d(diags)):
                o = int(o)
                row = raw(row)
                rows = [{} for _ in range(m)]
                for j in range(min(n, len(row))):
                    i = j - o
                    if 0 <= i < m:
                        rows[i][j] = row[j]
                S = SymSparse(rows, (m, n))
                R = S if R is None else R + S
            return R
        data = demote(data)
    return _ORIG["spdiags"](data, diags, m, n, format)


def _anysym(bl):
    return any(_needs(b) for b in bl)


def p_vstack(blocks, format=None, dtype=None, **kw):
    blocks = list(blocks)
    if STATE["active"] and _anysym(blocks):
        bs = [SymSparse.from_any(b) for b in blocks]
        n = bs[0].shape[1]
        if any(b.shape[1] != n for b in bs):
            raise ValueError("vstack: incompatible dimensions")
        rows = [dict(r) for b in bs for r in b.rows]
        return SymSparse(rows, (len(rows), n))
    return _ORIG["vstack"](blocks, format=format, dtype=dtype, **kw)


def p_hstack(blocks, format=None, dtype=None, **kw):
    blocks = list(blocks)
    if STATE["active"] and _anysym(blocks):
        bs = [SymSparse.from_any(b) for b in blocks]
        m = bs[0].shape[0]
        if any(b.shape[0] != m for b in bs):
            raise ValueError("hstack: incompatible dimensions")
        rows = [{} for _ in range(m)]
        off = 0
        for b in bs:
            for i, r in enumerate(b.rows):
                for j, v in r.items():
                    rows[i][j + off] = v
            off += b.shape[1]
        return SymSparse(rows, (m, off))
    return _ORIG["hstack"](blocks, format=format, dtype=dtype, **kw)


def p_bmat(blocks, format=None, dtype=None):
    rows = [list(r) for r in blocks]
    if STATE["active"] and any(_anysym([b for b in r if b is not None]) for r in rows):
        nr = [next(b.shape[0] for b in r if b is not None) for r in rows]
        nc = [next(rows[i][j].shape[1] for i in range(len(rows)) if rows[i][j] is not None)
              for j in range(len(rows[0]))]
        return p_vstack([p_hstack([SymSparse([{} for _ in range(nr[i])], (nr[i], nc[j])) if b is None
                                   else SymSparse.from_any(b) for j, b in enumerate(r)])
                         for i, r in enumerate(rows)])
    return _ORIG["bmat"](blocks, format=format, dtype=dtype)


def p_block_diag(mats, format=None, dtype=None):
    mats = list(mats)
    if STATE["active"] and _anysym(mats):
        bs = [SymSparse.from_any(b) for b in mats]
        n = sum(b.shape[1] for b in bs)
        rows = []
        off = 0
        for b in bs:
            for r in b.rows:
                rows.append({j + off: v for j, v in r.items()})
            off += b.shape[1]
        return SymSparse(rows, (len(rows), n))
    return _ORIG["block_diag"](mats, format=format, dtype=dtype)


def p_kron(A, B, format=None):
    if STATE["active"] and (_needs(A) or _needs(B)):
        if isinstance(A, np.ndarray) and not has_sym(A):
            A = demote(A)
        if isinstance(B, np.ndarray) and not has_sym(B):
            B = demote(B)
        if not _needs(A) and not _needs(B):
            return _ORIG["kron"](A, B, format=format)
        A, B = SymSparse.from_any(A), SymSparse.from_any(B)
        rows = []
        for ra in A.rows:
            for rb in B.rows:
                r = {}
                for j, v in ra.items():
                    for k, w in rb.items():
                        r[j * B.shape[1] + k] = v * w
                rows.append(r)
        return SymSparse(rows, (A.shape[0] * B.shape[0], A.shape[1] * B.shape[1]))
    return _ORIG["kron"](A, B, format=format)


def p_find(A):
    if type(A) is SymSparse:
        i, j, v = [], [], []
        for a, r in enumerate(A.rows):
            for b, x in r.items():
                if not _iszero(x):
                    i.append(a)
                    j.append(b)
                    v.append(x)
        return np.array(i, dtype=int), np.array(j, dtype=int), to_sa(v)
    return _ORIG["find"](A)


def install(repl):
    """patch scipy.sparse; fill repl: id(original) -> replacement."""
    _patch_spbase()
    for nm in ("csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix", "csr_array", "csc_array",
               "coo_array", "bsr_matrix", "dia_matrix"):
        cls = getattr(sp, nm)
        cls.__new__ = _mk_ctor(cls)
        cls.__init__ = _mk_init(cls)
    for nm, f in dict(diags=p_diags, spdiags=p_spdiags, vstack=p_vstack, hstack=p_hstack,
                      bmat=p_bmat, block_diag=p_block_diag, kron=p_kron, find=p_find).items():
        o = getattr(sp, nm)
        _ORIG[nm] = o
        repl[id(o)] = f
        setattr(sp, nm, f)
    if hasattr(sp, "diags_array"):
        _ORIG["diags_array"] = sp.diags_array

        def p_diags_array(diagonals, *, offsets=0, shape=None, format=None, dtype=None):
            if STATE["active"]:
                r = None
                ds = diagonals if not (isinstance(diagonals, np.ndarray) and diagonals.ndim == 1) else [diagonals]
                if any(isinstance(d, np.ndarray) and d.dtype == object for d in ds):
                    return p_diags(diagonals, offsets, shape, format, dtype)
            return _ORIG["diags_array"](diagonals, offsets=offsets, shape=shape, format=format, dtype=dtype)
        repl[id(sp.diags_array)] = p_diags_array
        sp.diags_array = p_diags_array


# ------------------------------------------------------------------ solver stub
def _row_split(A):
    """A = A0 + eps*A1 (SymSparse pair; A1 None if zero)."""
    r0, r1, any1 = [], [], False
    for r in A.rows:
        a, b = {}, {}
        for j, v in r.items():
            if v.__class__ is Sym and v.has_eps():
                x, y = v.split_eps()
                any1 = True
                b[j] = y
                if x.t:
                    a[j] = x
            elif not _iszero(v):
                a[j] = v
        r0.append(a)
        r1.append(b)
    return SymSparse(r0, A.shape), (SymSparse(r1, A.shape) if any1 else None)


def _mat_key(A):
    return tuple(tuple(sorted((j, poly._key(_sym(v).t)) for j, v in r.items() if not _iszero(v))) for r in A.rows)


def make_solver():
    from pymatsolver.solvers import Base
    import scipy.sparse.linalg as spl

    class SymSolver(Base):
        """Exact linear solve: numeric matrices by LU, symbolic ones by an
        opaque inverse, EPS part by the resolvent identity."""
        _transpose_class = None

        def __init__(self, A, **kwargs):
            self.kwargs = kwargs
            if type(A) is not SymSparse:
                A = SymSparse.from_any(A) if not sp.issparse(A) else A
            self._mat = A
            self._lu = None
            if type(A) is SymSparse:
                num = A.numeric()
                if num is not None:
                    self._A0, self._A1 = num, None
                else:
                    a0, a1 = _row_split(A)
                    n0 = a0.numeric()
                    self._A0 = n0 if n0 is not None else a0
                    self._A1 = a1
            else:
                self._A0, self._A1 = A, None
            if type(self._A0) is SymSparse:
                self._B = linsys.register(self._A0)
            else:
                self._B = None
                self._lu = spl.splu(sp.csc_matrix(self._A0))

        shape = property(lambda self: self._mat.shape)
        A = property(lambda self: self._mat)

        @property
        def T(self):
            return SymSolver(self._mat.T, **self.kwargs)

        transpose = lambda self: self.T

        def conjugate(self):
            return SymSolver(self._mat.conj(), **self.kwargs)

        def clean(self):
            pass

        def __del__(self):
            pass

        def _s0(self, x):
            if self._B is not None:
                xr = raw(to_sa(x))
                cols = xr.reshape(xr.shape[0], -1)
                out = np.empty(cols.shape, dtype=object)
                for c in range(cols.shape[1]):
                    out[:, c] = linsys.solve(self._B, [_sym(v) for v in cols[:, c]])
                return wrap(out.reshape(xr.shape))
            return numeric_solve(self._lu, x, np.iscomplexobj(self._A0))

        def solve(self, rhs):
            if type(rhs) is SymSparse:
                rhs = rhs.toarray()
            elif sp.issparse(rhs):
                rhs = rhs.toarray()
            rhs = demote(rhs) if isinstance(rhs, np.ndarray) else np.asarray(rhs)
            if rhs.shape[0] != self.shape[0]:
                raise ValueError("Expected a vector of length %d" % self.shape[0])
            if isinstance(rhs, np.ndarray) and rhs.dtype == object:
                r0, r1 = eps0(rhs), eps1(rhs)
            else:
                r0, r1 = rhs, None
            x = self._s0(demote(r0))
            if self._A1 is not None:
                c = self._A1 @ x
                r1 = -1.0 * to_sa(c) if r1 is None else to_sa(r1) - to_sa(c)
            if r1 is not None:
                x = to_sa(x) + poly.EPS * to_sa(self._s0(r1))
            return x

        def _solve_single(self, rhs):
            return self.solve(rhs)

        _solve_multiple = _solve_single

        def __mul__(self, o):
            return self.solve(o)

        __matmul__ = __mul__

        def __rmul__(self, o):
            return self.T.solve(np.asarray(o).T if not isinstance(o, SA) else o.T).T

        __rmatmul__ = __rmul__

    return SymSolver


def eps0(x):
    x = to_sa(x)
    return wrap(np.frompyfunc(lambda v: v.split_eps()[0] if v.__class__ is Sym else v, 1, 1)(raw(x)))


def eps1(x):
    out = np.frompyfunc(lambda v: v.split_eps()[1] if v.__class__ is Sym else 0.0, 1, 1)(raw(x))
    return None if all(_iszero(v) for v in out.flat) else wrap(out)


def numeric_solve(lu, x, cplx):
    """LU solve applied to every coefficient column of a symbolic rhs."""
    if isinstance(x, np.ndarray) and x.dtype != object:
        if np.iscomplexobj(x) and not cplx:
            return lu.solve(np.ascontiguousarray(x.real)) + 1j * lu.solve(np.ascontiguousarray(x.imag))
        return lu.solve(np.ascontiguousarray(x))
    xr = raw(x)
    shp = xr.shape
    cols = xr.reshape(shp[0], -1)
    out = np.empty(cols.shape, dtype=object)
    for c in range(cols.shape[1]):
        monos = {}
        ent = []
        for i in range(shp[0]):
            t = _sym(cols[i, c]).t
            ent.append(t)
            for m in t:
                if m not in monos:
                    monos[m] = len(monos)
        if not monos:
            out[:, c] = 0.0
            continue
        M = np.zeros((shp[0], len(monos)), dtype=complex if cplx else float)
        for i, t in enumerate(ent):
            for m, v in t.items():
                M[i, monos[m]] = v
        S = lu.solve(M)
        acc = [dict() for _ in range(shp[0])]
        I1 = ((poly.I_ID, 1),)
        for m, k in monos.items():
            colv = S[:, k]
            big = np.max(np.abs(colv)) if len(colv) else 0
            for i in range(shp[0]):
                v = colv[i]
                if abs(v) <= 1e-16 * big:
                    continue
                if cplx:
                    if v.real:
                        _add_into(acc[i], m, float(v.real))
                    if v.imag:
                        mm, spc = poly.mono_mul(m, I1)
                        if spc:
                            for m3, c3 in poly._reduce_mono(mm, float(v.imag)).items():
                                _add_into(acc[i], m3, c3)
                        else:
                            _add_into(acc[i], mm, float(v.imag))
                else:
                    _add_into(acc[i], m, float(v))
        for i in range(shp[0]):
            out[i, c] = Sym(acc[i])
    return out.reshape(shp).view(SA)
