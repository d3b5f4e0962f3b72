"""Enumerators of bounded spaces and exact synthetic data."""
import itertools

import numpy as np


# ---------------------------------------------------------------- graphs
def all_graphs(n):
    """All simple directed graphs on n nodes as 0/1 matrices A[to, from]."""
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    for m in itertools.product([0, 1], repeat=len(pairs)):
        A = np.zeros((n, n), int)
        for v, (i, j) in zip(m, pairs):
            A[i, j] = v
        yield A


def is_dag(A):
    A = (np.nan_to_num(np.asarray(A, float)) != 0).astype(int)
    n = len(A)
    P = np.eye(n, dtype=int)
    for _ in range(n):
        P = (P @ A > 0).astype(int)
        if not P.any():
            return True
    return not P.any()


_dag_cache = {}


def dags(n):
    """All labelled DAGs on n nodes (1, 3, 25, 543, 29281 for n = 1..5), A[to, from] in {0,1}."""
    if n not in _dag_cache:
        seen, out = set(), []
        for perm in itertools.permutations(range(n)):
            slots = [(perm[b], perm[a]) for a in range(n) for b in range(a + 1, n)]  # a before b
            for bits in itertools.product([0, 1], repeat=len(slots)):
                key = frozenset(s for s, v in zip(slots, bits) if v)
                if key not in seen:
                    seen.add(key)
                    A = np.zeros((n, n), int)
                    for t, f in key:
                        A[t, f] = 1
                    out.append(A)
        out.sort(key=lambda A: (A.sum(), A.tobytes()))
        _dag_cache[n] = out
    return _dag_cache[n]


def unlabelled_dags(n):
    """One representative per isomorphism class (1, 2, 6, 31, 302 for n = 1..5)."""
    seen, out = set(), []
    perms = [list(p) for p in itertools.permutations(range(n))]
    for A in dags(n):
        if A.tobytes() in seen:
            continue
        out.append(A)
        for p in perms:
            seen.add(np.ascontiguousarray(A[np.ix_(p, p)]).tobytes())
    return out


def topo_ok(order, A):
    """Is `order` a permutation in which every edge A[to, from] != 0 goes forward?"""
    n = len(A)
    if order is None or sorted(int(v) for v in order) != list(range(n)):
        return False
    pos = {int(v): k for k, v in enumerate(order)}
    return all(pos[j] < pos[i] for i in range(n) for j in range(n) if A[i, j] != 0)


def dag_from_id(n, k):
    return dags(n)[k]


def weights(A, alphabet, variant):
    """Deterministically give every edge a weight from the alphabet; `variant` rotates the assignment."""
    B = np.zeros(A.shape)
    k = variant
    for i, j in zip(*np.where(A != 0)):
        B[i, j] = alphabet[k % len(alphabet)]
        k += 1 + (i + 2 * j) % 2
    return B


# ---------------------------------------------------------------- exact data
def levels(L, kind):
    """L support points of a non-Gaussian distribution, zero mean and unit variance."""
    u = (np.arange(L) + 0.5) / L
    x = [np.linspace(-1, 1, L), -np.log(1 - u), u ** 2, np.sign(u - 0.5) * np.abs(u - 0.5) ** 3][kind % 4]
    x = x - x.mean()
    return x / x.std()


def exact_noise(n, L, kinds=None, scales=None):
    """Full-factorial design: the empirical joint law of the columns is exactly a product measure."""
    kinds = list(range(n)) if kinds is None else kinds
    scales = [1.0] * n if scales is None else scales
    return np.array(list(itertools.product(*[s * levels(L, k) for k, s in zip(kinds, scales)])), float)


def lingam_data(B, L, kinds=None, scales=None, mean=None):
    n = len(B)
    X = exact_noise(n, L, kinds, scales) @ np.linalg.inv(np.eye(n) - B).T
    if mean is not None:
        X = X + np.asarray(mean)
    return X


def rng(*key):
    """Deterministic generator for fixed (not sampled) auxiliary data."""
    import zlib
    return np.random.RandomState(zlib.crc32(repr(key).encode()) & 0x7FFFFFFF)


def chunks(n, k):
    """Split range(n) in k nearly equal [lo, hi) ranges."""
    k = max(1, min(k, n))
    e = [round(i * n / k) for i in range(k + 1)]
    return [(e[i], e[i + 1]) for i in range(k) if e[i] < e[i + 1]]


def same(a, b, tol=1e-8):
    """Structural equality of results: NaN == NaN, floats within tol."""
    import pandas as pd

    if isinstance(a, (pd.DataFrame, pd.Series)):
        a = a.to_dict("list") if isinstance(a, pd.DataFrame) else a.tolist()
    if isinstance(b, (pd.DataFrame, pd.Series)):
        b = b.to_dict("list") if isinstance(b, pd.DataFrame) else b.tolist()
    if isinstance(a, np.ndarray) and a.dtype != object and isinstance(b, np.ndarray) and b.dtype != object:
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fiub" and b.dtype.kind in "fiub":
            return bool(np.allclose(a.astype(float), b.astype(float), rtol=tol, atol=tol, equal_nan=True))
        return a.tolist() == b.tolist()
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(b, np.ndarray):
        b = b.tolist()
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return a == b
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        return bool(np.allclose(float(a), float(b), rtol=tol, atol=tol, equal_nan=True))
    except (TypeError, ValueError):
        return a == b


def uneven(idx, m):
    """Do draws of rows 0..m-1 neglect a stretch of the rows?  (A stretch expected >= 150 times and drawn less than half as often,
    or a single row never drawn in >= 28 m draws.)"""
    idx = np.ravel(np.asarray(idx))
    if len(idx) >= 28 * m and len(np.unique(idx)) < m:
        return True
    b = min(10, m, len(idx) // 150)
    return b >= 2 and bool((np.histogram(idx, bins=np.linspace(0, m, b + 1))[0] < len(idx) / b / 2 * 0.99).any())
