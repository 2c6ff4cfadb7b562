"""Problems, containers and an independent numpy oracle for the Python estimators."""
import numpy as np
import scipy.sparse as sp
from sparseglm import estimators as E

KINDS = ["Lasso", "ElasticNet", "MCPRegressor", "MultiTaskLasso", "MultiTaskElasticNet", "BlockMCPRegressor"]
MULTI = {"MultiTaskLasso", "MultiTaskElasticNet", "BlockMCPRegressor"}
EXTRA = {"Lasso": None, "MultiTaskLasso": None, "ElasticNet": "l1_ratio", "MultiTaskElasticNet": "l1_ratio", "MCPRegressor": "gamma", "BlockMCPRegressor": "gamma"}


def make(kind, alpha, extra=None, **k):
    a = {"alpha": alpha, "verbose": False, **k}
    if EXTRA[kind]:
        a[EXTRA[kind]] = extra
    return getattr(E, kind)(**a)


def data(n, p, t, k):
    """integer-valued problem number k: dense X (n, p), Y (n, t), float64, no null column, entries in -3..3 / -9..9"""
    X = np.array([[((i * 5 + j * 3 + (i + 1) * (j + k + 1) * 7 + k * 11) % 7) - 3 for j in range(p)] for i in range(n)], float)
    if k % 3 == 1:  # sparser
        X[(np.add.outer(np.arange(n), 2 * np.arange(p)) + k) % 3 == 0] = 0
    for j in range(p):
        if not X[:, j].any():
            X[j % n, j] = 1 + j % 3
    Y = np.array([[((i * 7 + l * 5 + k * 3 + i * i * (l + 1)) % 19) - 9 for l in range(t)] for i in range(n)], float)
    return X, Y


def alpha_max(X, Y):
    return max(np.sqrt(((X[:, j] @ Y) ** 2).sum()) for j in range(X.shape[1])) / X.shape[0]


def good_gamma(X):
    """a gamma for which every one-coordinate MCP problem is strongly convex"""
    return float(max(1.5, 2.0 * X.shape[0] / min((X[:, j] ** 2).sum() for j in range(X.shape[1]))))


def violation(kind, X, Y, W, alpha, extra=None):
    """largest distance of 0 to the subdifferential, groups = features; W (p, t)"""
    n = X.shape[0]
    G = X.T @ (X @ W - Y) / n
    v = 0.0
    for j in range(X.shape[1]):
        g, w = G[j], W[j]
        nw = np.sqrt((w ** 2).sum())
        if EXTRA[kind] == "gamma":
            if nw == 0:
                d = max(0.0, np.sqrt((g ** 2).sum()) - alpha)
            elif nw < alpha * extra:
                d = np.sqrt(((g + alpha * w / nw - w / extra) ** 2).sum())
            else:
                d = np.sqrt((g ** 2).sum())
        else:
            r = 1.0 if EXTRA[kind] is None else extra
            if nw == 0:
                d = max(0.0, np.sqrt((g ** 2).sum()) - alpha * r)
            else:
                d = np.sqrt(((g + alpha * (1 - r) * w + alpha * r * w / nw) ** 2).sum())
        v = max(v, d)
    return v


def wide(a, axes):
    """a strided view with poisoned gaps"""
    if a.ndim == 1:
        b = np.full(2 * len(a), 777, a.dtype) if a.dtype.kind != "b" else np.ones(2 * len(a), bool)
        b[::2] = a
        return b[::2]
    sh = [s * (2 if i in axes else 1) for i, s in enumerate(a.shape)]
    b = np.full(sh, 77).astype(a.dtype)
    ix = tuple(slice(None, None, 2) if i in axes else slice(None) for i in range(2))
    b[ix] = a
    return b[ix]


DENSE = ["C", "F", "strided rows", "strided columns", "strided both", "reversed rows", "reversed columns", "read-only", "list", "matrix slice", "big-endian"]


def dense(a, how, dtype=np.float64):
    """the same numbers in another container"""
    a = np.asarray(a).astype(dtype)
    if how == "C": return np.ascontiguousarray(a)
    if how == "F": return np.asfortranarray(a)
    if how == "strided rows": return wide(a, {0})
    if how == "strided columns": return wide(a, {a.ndim - 1})
    if how == "strided both": return wide(a, {0, 1})
    if how == "reversed rows": return np.ascontiguousarray(a[::-1])[::-1]
    if how == "reversed columns": return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if how == "read-only":
        b = np.asfortranarray(a).copy("F"); b.setflags(write=False); return b
    if how == "list": return a.tolist()
    if how == "matrix slice":
        if a.ndim == 1:
            b = np.full((len(a), 3), 77).astype(a.dtype); b[:, 1] = a; return b[:, 1]
        b = np.full((a.shape[0] + 2, a.shape[1] + 2), 77).astype(a.dtype); b[1:-1, 1:-1] = a; return b[1:-1, 1:-1]
    if how == "big-endian": return a.astype(a.dtype.newbyteorder(">"))
    raise KeyError(how)


SPARSE = ["csc", "csr", "coo", "lil", "dok", "dia", "bsr", "csc array", "csc unsorted", "csc explicit zeros", "coo duplicates", "csr unsorted"]


def sparse(a, how, dtype=np.float64):
    a = np.asarray(a).astype(dtype)
    b = how.split()[0]
    if how == "csc array": return sp.csc_array(a)
    if how in ("csc unsorted", "csr unsorted"):
        m = sp.csc_matrix(a) if b == "csc" else sp.csr_matrix(a)
        d, i = m.data.copy(), m.indices.copy()
        for s, e in zip(m.indptr[:-1], m.indptr[1:]):
            d[s:e], i[s:e] = d[s:e][::-1], i[s:e][::-1]
        return type(m)((d, i, m.indptr.copy()), shape=m.shape)
    if how == "csc explicit zeros":
        n, p = a.shape
        return sp.csc_matrix((a.T.ravel().copy(), np.tile(np.arange(n, dtype=np.int32), p), np.arange(0, n * p + 1, n, dtype=np.int32)), shape=(n, p))
    if how == "coo duplicates":
        m = sp.coo_matrix(a)
        r, c = np.concatenate([m.row, m.row]), np.concatenate([m.col, m.col])
        return sp.coo_matrix((np.concatenate([m.data * 2, -m.data]), (r, c)), shape=a.shape)
    return {"csc": sp.csc_matrix, "csr": sp.csr_matrix, "coo": sp.coo_matrix, "lil": sp.lil_matrix, "dok": sp.dok_matrix, "dia": sp.dia_matrix, "bsr": sp.bsr_matrix}[b](a)


def snapshot(x):
    """every byte of an input"""
    if sp.issparse(x):
        parts = [x.format, x.shape, str(x.dtype)]
        for f in ("data", "indices", "indptr", "row", "col", "offsets", "rows"):
            if hasattr(x, f):
                v = getattr(x, f)
                parts.append((f, v.tolist(), str(v.dtype)) if isinstance(v, np.ndarray) else (f, repr(v)))
        if x.format == "dok":
            parts.append(sorted((k, float(v)) for k, v in x.items()))
        return repr(parts)
    if isinstance(x, np.ndarray):
        return repr((x.tolist(), str(x.dtype), x.strides, x.flags.writeable))
    return repr(x)


def rel(a, b):
    return float(np.abs(np.asarray(a) - np.asarray(b)).max(initial=0.0)) / (1.0 + float(np.abs(np.asarray(b)).max(initial=0.0)))
