"""C04  Directed paths and total effects computed from an adjacency matrix.

Explored space: every directed graph (cyclic ones included) on 3 and 4 variables and every DAG on 5 variables,
times a coefficient alphabet (cancelling, tiny, missing/NaN), times every (source, target) pair, times thresholds
on both sides of and exactly at the coefficients. Reference: recursive enumeration of simple paths on the set of
surviving edges; total effect cross-checked with (I - B)^-1."""
import itertools

import numpy as np

from mc.gen import all_graphs, chunks, dags, is_dag, same

PROPERTY = "C04"
BOUNDS = "all digraphs n<=4, all DAGs n=5, structured DAGs n=6..40; alphabet {2,-1,1,-.5,.001,NaN,1e-13,-3e8,2e-30}; thresholds at/below/above"
ASSUMPTIONS = ["source != target (a path from a variable to itself is not a supported query)"]
NAN = float("nan")
ALPHA = {
    "gen": [0.5, -1.0, 2.0, 1.5],
    "cancel": [1.0, -1.0, 1.0],
    "tiny": [0.7, 0.001, -0.3],
    "nan": [0.5, NAN, -1.0],
    "ints": [1, 2, -3],
    "extreme": [1e-13, -3e8, 2e-30],
}
THRESH = {"gen": [0.0, 1.0], "cancel": [0.0], "tiny": [0.0, 0.001, 0.3, 0.5], "nan": [0.0, 0.6], "ints": [0.0, 2], "extreme": [0.0, 1e-20]}


def assign(A, alpha):
    vals = ALPHA[alpha]
    B = np.zeros(A.shape, dtype=int if alpha == "ints" else float)
    for k, (i, j) in enumerate(zip(*np.where(A != 0))):
        B[i, j] = vals[(k + i + 2 * j) % len(vals)]
    return B


def ref_paths(B, s, t, thr):
    """(cyclic?, {path: effect}) by plain recursion; cyclic means a cycle is reachable from s before t."""
    n = len(B)
    succ = {j: [i for i in range(n) if not np.isnan(float(B[i, j])) and abs(B[i, j]) > thr] for j in range(n)}
    out, cyc = {}, [False]

    def go(path, eff):
        cur = path[-1]
        if cur == t:
            out[tuple(path)] = eff
            return
        for k in succ[cur]:
            if k in path:
                cyc[0] = True
                continue
            go(path + [k], eff * B[k, cur])

    go([s], 1.0)
    return cyc[0], out


def check_matrix(rec, B, thresholds, pairs=None):
    from lingam.utils import calculate_total_effect, find_all_paths

    n = len(B)
    acyclic = is_dag(B)
    Bz = np.nan_to_num(B.astype(float))
    T = np.linalg.inv(np.eye(n) - Bz) if acyclic else None
    before = B.copy()
    for s, t in pairs or itertools.permutations(range(n), 2):
        for thr in thresholds:
            rec.state((B.tobytes(), str(B.dtype), s, t, thr))
            cyc, want = ref_paths(B, s, t, thr)
            out = rec.call(find_all_paths, B, s, t, thr) if thr else rec.call(find_all_paths, B, s, t)
            info = dict(B=B, source=s, target=t, threshold=thr, got=repr(out)[:300], want=sorted(want.items()))
            if cyc:
                if not out.raised(ValueError):
                    rec.fail("a cycle on the way must be rejected with ValueError", **info)
                continue
            if not out.ok:
                rec.fail("path search raised on a graph without a reachable cycle", **info)
                continue
            paths, effects = out.value
            got = [tuple(int(v) for v in p) for p in paths]
            if len(got) != len(effects) or sorted(got) != sorted(want):
                rec.fail("set of directed paths differs from exhaustive enumeration", **info)
            elif not all(same(e, want[p]) for p, e in zip(got, effects)):
                rec.fail("path effect is not the product of its coefficients", **info)
        out = rec.call(calculate_total_effect, B, s, t)
        rec.trace()
        cyc, want = ref_paths(B, s, t, 0.0)
        info = dict(B=B, source=s, target=t, got=repr(out)[:300])
        if cyc:
            if not out.raised(ValueError):
                rec.fail("total effect over a reachable cycle must be rejected", **info)
        elif not out.ok:
            rec.fail("total effect raised", **info)
        else:
            if not same(float(out.value), float(sum(want.values()))):
                rec.fail("total effect is not the sum over directed paths", **info, want=sum(want.values()))
            if T is not None and not same(float(out.value), T[t, s]):
                rec.fail("total effect differs from (I-B)^-1", **info, want=T[t, s])
    if not same(before, B):
        rec.fail("the adjacency matrix passed in was modified", B=before, after=B)


def graphs_n(rec, n, alpha, lo, hi):
    for k, A in enumerate(all_graphs(n)):
        if lo <= k < hi:
            check_matrix(rec, assign(A, alpha), THRESH[alpha])
    rec.sample({"n": n, "alphabet": ALPHA[alpha], "graphs": [lo, hi]})


def dags_n(rec, n, alpha, lo, hi):
    for A in dags(n)[lo:hi]:
        check_matrix(rec, assign(A, alpha), THRESH[alpha][:1])
    rec.sample({"n": n, "alphabet": ALPHA[alpha], "dags": [lo, hi]})


def structured(rec):
    """Dense and layered DAGs up to 12 variables, sparse ones up to 40, under relabelling by every rotation/reversal."""
    for n in (6, 7, 8, 12, 17, 40):
        for shape in ("full", "chain", "ladder", "fan"):
            if shape == "full" and n > 8 or shape == "ladder" and n > 17:
                continue
            A = np.zeros((n, n), int)
            for i in range(n):
                for j in range(i):
                    if shape == "full" or (shape == "chain" and j == i - 1) or (shape == "ladder" and i - j <= 2) \
                            or (shape == "fan" and (j == 0 or i == n - 1)):
                        A[i, j] = 1
            for r in range(0, n, 3):
                for rev in (False, True):
                    p = [(i + r) % n for i in range(n)]
                    if rev:
                        p = p[::-1]
                    B = np.zeros((n, n))
                    W = assign(A, "gen") / 2
                    for i in range(n):
                        for j in range(n):
                            B[p[i], p[j]] = W[i, j]
                    check_matrix(rec, B, [0.0, 0.3], pairs=[(p[0], p[n - 1]), (p[1], p[n - 2]), (p[n - 1], p[0]), (p[0], p[n // 2])])
            # a back edge makes it cyclic: must be rejected
            A2 = A.copy()
            A2[0, 1] = 1
            check_matrix(rec, assign(A2, "gen") / 2, [0.0], pairs=[(0, n - 1), (2, n - 1)])


def discrete_flags(rec):
    """Total effect through discrete variables is refused iff some directed path enters one."""
    from lingam.utils import calculate_total_effect

    for A in dags(3):
        B = assign(A, "gen")
        for flags in itertools.product([True, False], repeat=3):
            for s, t in itertools.permutations(range(3), 2):
                rec.state((B.tobytes(), flags, s, t))
                for form in (list, np.array):
                    _, want = ref_paths(B, s, t, 0)
                    out = rec.call(calculate_total_effect, B, s, t, is_continuous=form(flags))
                    rec.trace()
                    bad = any(not flags[v] for p in want for v in p[1:])
                    info = dict(B=B, s=s, t=t, is_continuous=flags, got=repr(out))
                    if bad != out.raised(ValueError):
                        rec.fail("total effect along a discrete variable must be refused, and only then", **info)
                    elif not bad and not (out.ok and same(float(out.value), float(sum(want.values())))):
                        rec.fail("total effect with continuity flags is wrong", **info)


def bad_arguments(rec):
    from lingam.utils import calculate_total_effect

    B = np.tril(np.ones((3, 3)), -1)
    for s, t in [(0, 0), (2, 2), (-1, 2), (0, 3), (3, 0), (0, -1)]:
        out = rec.call(calculate_total_effect, B, s, t)
        rec.state(("arg", s, t))
        rec.trace()
        if not out.raised(ValueError):
            rec.fail("invalid source/target accepted", s=s, t=t, got=repr(out))
    for shape in [(2, 3), (3, 2)]:
        out = rec.call(calculate_total_effect, np.zeros(shape), 0, 1)
        rec.state(("shape", shape))
        rec.trace()
        if not out.raised(ValueError):
            rec.fail("non-square matrix accepted", shape=shape, got=repr(out))


def tasks(tier):
    dags(5)  # enumerate once, before the workers fork
    t = [("structured", {}), ("discrete_flags", {}), ("bad_arguments", {})]
    for a in ALPHA:
        t.append(("graphs_n", {"n": 2, "alpha": a, "lo": 0, "hi": 4}))
        t.append(("graphs_n", {"n": 3, "alpha": a, "lo": 0, "hi": 64}))
        if tier == "thorough" or a in ("gen", "nan", "tiny"):
            for lo, hi in chunks(4096, 16):
                t.append(("graphs_n", {"n": 4, "alpha": a, "lo": lo, "hi": hi}))
        if tier == "thorough" or a == "gen":
            for lo, hi in chunks(29281, 32):
                t.append(("dags_n", {"n": 5, "alpha": a, "lo": lo, "hi": hi}))
    return t
