"""C05  Bootstrap summaries are exact recounts of the recorded replicates.

Explored space: every sequence (length <= 3 or 4) of replicate adjacency matrices drawn from an alphabet of
matrices over 2 and 3 variables (all orientations, both signs, sub-threshold, exactly-at-threshold, missing NaN),
times every query of the result object with every option. Reference: a pure-Python recount."""
import contextlib
import io
import itertools
import math
import statistics

import numpy as np

from mc.gen import chunks, dags, same

PROPERTY = "C05"
BOUNDS = "replicate sequences len<=4 over a 10-matrix alphabet (n=2), len<=3 over a 30-matrix alphabet (n=3), plus n=12; lagged and panel results: the explorers of C11 and C12"
ASSUMPTIONS = ["ties in count may be listed in any order"]
NAN = float("nan")


def pool2():
    out = []
    for v in (0.0, 0.5, -0.5, 0.005, NAN):
        for pos in ((0, 1), (1, 0)):
            M = np.zeros((2, 2))
            M[pos] = v
            if v == 0.0 and pos == (1, 0):
                continue
            out.append(M)
    M = np.full((2, 2), NAN)
    np.fill_diagonal(M, 0)
    out.append(M)
    return out


def pool3():
    out = []
    vals = [0.5, -0.5, 0.005, 1.0, -2.0]
    for k, A in enumerate(dags(3)):
        B = np.zeros((3, 3))
        for m, (i, j) in enumerate(zip(*np.where(A != 0))):
            B[i, j] = vals[(m + k) % len(vals)]
        out.append(B)
    for a, b in ((0, 1), (0, 2), (1, 2)):
        B = np.zeros((3, 3))
        B[a, b] = B[b, a] = NAN
        c = 3 - a - b
        B[c, a] = 0.5
        out.append(B)
    B = np.zeros((3, 3))
    B[1, 0] = -0.5
    B[2, 0] = 0.3
    B[2, 1] = 0.6  # 0 -> 2 cancels exactly: .3 - .3
    out.append(B)
    return out


def effects_of(B):
    Z = np.nan_to_num(B)
    n = len(Z)
    T = np.linalg.inv(np.eye(n) - Z) - np.eye(n)
    T[np.abs(T) < 1e-12] = 0
    return T


def keep(v, thr):
    return not math.isnan(v) and abs(v) > thr


def sgn(v):
    return 1 if v > 0 else -1


def ref_edges(M, thr):
    n, m = M.shape
    return [(j, i, M[i, j]) for i in range(n) for j in range(m) if keep(M[i, j], thr)]


def ref_paths(M, s, t, thr):
    n = len(M)
    out = []

    def go(path, eff):
        if path[-1] == t:
            out.append((tuple(path), eff))
            return
        for k in range(n):
            if keep(M[k, path[-1]], thr) and k not in path:
                go(path + [k], eff * M[k, path[-1]])

    go([s], 1.0)
    return out


def descending(xs):
    return all(a >= b for a, b in zip(xs, xs[1:]))


def topn_ok(got, want, n):
    """got: list of (key, count) as reported; want: dict key -> count; the n largest in descending order."""
    k = len(want) if n is None else min(n, len(want))
    if len(got) != k or len(set(g[0] for g in got)) != k:
        return False
    if not descending([c for _, c in got]):
        return False
    if any(want.get(key) != c for key, c in got):
        return False
    return sorted((c for _, c in got), reverse=True) == sorted(want.values(), reverse=True)[:k]


def examine(rec, mats, make, square=True):
    ams = np.array(mats)
    n, m = ams[0].shape
    tes = np.array([effects_of(M) if n == m else M[:, :] for M in ams])
    r = make(ams, tes)
    rec.state(ams.tobytes())
    R = len(mats)
    before = (ams.copy(), tes.copy())
    for thr in (None, 0.01, 0.5):
        th = thr or 0.0
        edges = [ref_edges(M, th) for M in mats]
        for sign in (False, True):
            # --- causal directions
            want = {}
            for es in edges:
                for f, t, v in es:
                    k = (f, t) + ((sgn(v),) if sign else ())
                    want[k] = want.get(k, 0) + 1
            for nd in (None, 1, 2, 3, 5, 50):
                cdc = rec.must("direction counts", r.get_causal_direction_counts, n_directions=nd,
                               min_causal_effect=thr, split_by_causal_effect_sign=sign, _detail=dict(mats=mats))
                if cdc is None:
                    continue
                cols = ["from", "to"] + (["sign"] if sign else [])
                got = [(tuple(int(cdc[c][i]) for c in cols), int(cdc["count"][i])) for i in range(len(cdc["count"]))]
                if set(cdc) != set(cols + ["count"]) or not topn_ok(got, want, nd):
                    rec.fail("direction counts differ from recount", mats=mats, thr=thr, sign=sign, top=nd,
                             got=cdc, want=list(want.items()))
            # --- DAGs
            wantd = {}
            for es in edges:
                k = tuple(sorted((f, t) + ((sgn(v),) if sign else ()) for f, t, v in es))
                wantd[k] = wantd.get(k, 0) + 1
            for nd in (None, 1, 2, 3, 5):
                d = rec.must("dag counts", r.get_directed_acyclic_graph_counts, n_dags=nd, min_causal_effect=thr,
                             split_by_causal_effect_sign=sign, _detail=dict(mats=mats))
                if d is None:
                    continue
                cols = ["from", "to"] + (["sign"] if sign else [])
                got = []
                bad = False
                for g, c in zip(d["dag"], d["count"]):
                    if set(g) != set(cols):
                        bad = True
                        break
                    got.append((tuple(sorted(zip(*[[int(v) for v in g[c_]] for c_ in cols]))), int(c)))
                if bad or len(d["dag"]) != len(d["count"]) or not topn_ok(got, wantd, nd):
                    rec.fail("DAG counts differ from recount", mats=mats, thr=thr, sign=sign, top=nd, got=d,
                             want=list(wantd.items()))
        # --- probabilities
        p = rec.must("probabilities", r.get_probabilities, min_causal_effect=thr, _detail=dict(mats=mats))
        wantp = np.zeros((n, m))
        for es in edges:
            for f, t, v in es:
                wantp[t, f] += 1
        wantp /= R
        if p is not None:
            if n != m:
                p = np.hstack(p) if len(p) == m // n and all(q.shape == (n, n) for q in p) else np.full((1, 1), NAN)
            if not same(np.asarray(p), wantp):
                rec.fail("bootstrap probabilities differ from recount", mats=mats, thr=thr, got=p, want=wantp)
        # --- total effects
        te = rec.must("total effects", r.get_total_causal_effects, min_causal_effect=thr, _detail=dict(mats=mats))
        if te is not None:
            want = {}
            for i in range(n):
                for j in range(m):
                    hits = [T[i, j] for T in tes if keep(T[i, j], th)]
                    if hits:
                        nz = [T[i, j] for T in tes if keep(T[i, j], 0.0)]
                        want[(j, i)] = (len(hits) / R, statistics.median(nz))
            got = {(int(f), int(t)): (p_, e) for f, t, p_, e in
                   zip(te["from"], te["to"], te["probability"], te["effect"])}
            if len(te["from"]) != len(want) or set(got) != set(want) or \
                    not all(same(list(got[k]), list(want[k])) for k in want) or not descending(te["probability"]):
                rec.fail("total causal effects differ from recount", mats=mats, thr=thr, got=te, want=list(want.items()))
        # --- paths
        if square:
            for s, t in itertools.permutations(range(min(n, 3)), 2):
                want = {}
                for M in mats:
                    for q, e in ref_paths(M, s, t, th):
                        want.setdefault(q, []).append(e)
                out = rec.must("paths", r.get_paths, s, t, min_causal_effect=thr, _detail=dict(mats=mats, s=s, t=t))
                if out is None:
                    continue
                got = {tuple(int(v) for v in q): (e, pr) for q, e, pr in
                       zip(out["path"], out["effect"], out["probability"])}
                if len(out["path"]) != len(want) or set(got) != set(want) or \
                        not all(same(list(got[q]), [statistics.median(want[q]), len(want[q]) / R]) for q in want) or \
                        not descending(list(out["probability"])):
                    rec.fail("path probabilities differ from recount", mats=mats, s=s, t=t, thr=thr, got=out,
                             want=list(want.items()))
    if not same(before[0], ams) or not same(before[1], tes):
        rec.fail("querying the result changed the recorded replicates", mats=mats)
    if not (same(np.asarray(r.adjacency_matrices_), ams) and same(np.asarray(r.total_effects_), tes)):
        rec.fail("recorded replicates are not returned unchanged", mats=mats)
    rec.trace()


def _make(ams, tes):
    from lingam.bootstrap import BootstrapResult

    return BootstrapResult(ams, tes, resampled_indices=None)


def seqs(n, depth, lo, hi):
    pool = pool2() if n == 2 else pool3()
    k = 0
    for L in range(1, depth + 1):
        for c in itertools.combinations_with_replacement(range(len(pool)), L):
            # counts do not depend on the order of the replicates except through ties and medians: explore both
            # the sorted sequence and its reversal
            if lo <= k < hi:
                yield [pool[i] for i in c]
                if L > 1:
                    yield [pool[i] for i in c[::-1]]
            k += 1


def n_seqs(n, depth):
    p = len(pool2() if n == 2 else pool3())
    return sum(math.comb(p + L - 1, L) for L in range(1, depth + 1))


def sequences(rec, n, depth, lo, hi):
    for mats in seqs(n, depth, lo, hi):
        examine(rec, mats, _make)
    rec.sample({"replicates": mats})


def wide(rec):
    """12 variables (two-digit indices in paths), lagged (n x kn) matrices, larger replicate counts."""
    n = 12
    base = np.zeros((n, n))
    for i in range(1, n):
        base[i, i - 1] = 0.9
    for i in range(2, n, 3):
        base[i, i - 2] = -0.6
    mats = []
    for k in range(6):
        M = base.copy()
        M[11, 10 - k] = 0.7
        M[10, 1] = 0.2 * (k % 2)
        M[k + 1, k] = 0
        mats.append(M)
    p = list(range(n))
    for rot in (0, 5, 11):
        q = p[rot:] + p[:rot]
        examine(rec, [M[np.ix_(q, q)] for M in mats], _make, square=True)
    from lingam.bootstrap import BootstrapResult
    r = BootstrapResult(np.array(mats), np.array([effects_of(M) for M in mats]))
    for s, t in ((0, 11), (1, 11), (10, 11), (1, 10), (11, 1)):
        want = {}
        for M in mats:
            for pth, e in ref_paths(M, s, t, 0.0):
                want.setdefault(pth, []).append(e)
        out = rec.must("paths", r.get_paths, s, t)
        if out is None:
            continue
        rec.trace()
        got = {tuple(v): (e, pr) for v, e, pr in zip(out["path"], out["effect"], out["probability"])}
        if set(got) != set(want) or not all(same(list(got[k]), [statistics.median(want[k]), len(want[k]) / 6]) for k in want):
            rec.fail("path probabilities differ from recount (12 variables)", s=s, t=t)
    # lag-expanded replicates
    rs = []
    for k in range(4):
        M = np.zeros((2, 6))
        M[1, 0] = 0.5
        M[0, 2 + k] = (-1) ** k * 0.7
        M[1, 3] = 0.005 * k
        rs.append(M)
    examine(rec, rs, _make, square=False)
    for M in rs:
        examine(rec, [M], _make, square=False)
    # many replicates: probability is count / number of replicates
    P = pool2()
    examine(rec, [P[i % len(P)] for i in range(23)], _make)
    P = pool3()
    for R in (150, 307):  # a replicate seen once among many
        examine(rec, [P[i % 7] for i in range(R - 1)] + [P[20]], _make)
        examine(rec, [P[(i * i) % len(P)] for i in range(R)], _make)
    for R, a, b in ((150, 140, 131), (150, 127, 128), (300, 255, 256), (300, 200, 90)):
        ms = np.zeros((R, 3, 3))  # counts on either side of the byte boundaries next to small ones
        ms[:a, 1, 0] = 0.5
        ms[R - b:, 2, 1] = -0.8
        ms[10:13, 2, 0] = 0.7
        examine(rec, list(ms), _make)
    # resampled indices are handed back
    idx = [np.arange(5), np.arange(5)[::-1]]
    b = BootstrapResult(np.zeros((2, 2, 2)), np.zeros((2, 2, 2)), resampled_indices=idx)
    if not same(list(b.resampled_indices_), idx):
        rec.fail("resampled indices not returned")


def printing(rec):
    """The printed report lists exactly the rows and percentages of the summary it is given."""
    import re

    from lingam.utils import print_causal_directions, print_dagc

    P = pool3()
    labels = ["alpha", "beta", "gamma"]
    for a, b in itertools.product(range(len(P)), repeat=2):
        mats = [P[a], P[b], P[a]]
        r = _make(np.array(mats), np.array([effects_of(M) for M in mats]))
        for sign in (False, True):
            for lab in (None, labels):
                nm = lab or ["x0", "x1", "x2"]
                cdc = r.get_causal_direction_counts(split_by_causal_effect_sign=sign)
                dagc = r.get_directed_acyclic_graph_counts(split_by_causal_effect_sign=sign)
                rec.state(("print", a, b, sign, lab is None))
                for what, f, arg in (("cdc", print_causal_directions, cdc), ("dagc", print_dagc, dagc)):
                    buf = io.StringIO()

                    def run():
                        with contextlib.redirect_stdout(buf):
                            f(arg, 3, labels=lab) if lab else f(arg, 3)

                    rec.must("print", run)
                    lines = [ln.strip() for ln in buf.getvalue().splitlines() if ln.strip()]
                    want = []
                    if what == "cdc":
                        for i, (fr, to, co) in enumerate(zip(cdc["from"], cdc["to"], cdc["count"])):
                            s_ = "" if not sign else ("(b>0)" if cdc["sign"][i] > 0 else "(b<0)")
                            want.append((nm[to], nm[fr], s_, f"{100 * co / 3:.1f}%"))
                    else:
                        for i, (g, co) in enumerate(zip(dagc["dag"], dagc["count"])):
                            want.append((f"DAG[{i}]", f"{100 * co / 3:.1f}%"))
                            for k, (fr, to) in enumerate(zip(g["from"], g["to"])):
                                s_ = "" if not sign else ("(b>0)" if g["sign"][k] > 0 else "(b<0)")
                                want.append((nm[to], nm[fr], s_, None))
                    got = []
                    for ln in lines:
                        m = re.match(r"^(DAG\[\d+\]): (.*)$", ln)
                        if m:
                            got.append((m.group(1), m.group(2)))
                            continue
                        m = re.match(r"^(\w+) <--- (\w+)\s*(\(b[<>]0\))?\s*(?:\(([\d.]+%)\))?$", ln)
                        got.append((m.group(1), m.group(2), m.group(3) or "", m.group(4)) if m else ln)
                    if got != want:
                        rec.fail("printed report differs from the summary", got=got, want=want)
                    rec.trace()
    rec.sample({"printed": lines})


def bad_arguments(rec):
    r = _make(np.array(pool2()[:2]), np.array(pool2()[:2]))
    for v in (0, -1, "3", 1.5):
        for f in (lambda: r.get_causal_direction_counts(n_directions=v),
                  lambda: r.get_directed_acyclic_graph_counts(n_dags=v)):
            out = rec.call(f)
            rec.state(("arg", str(v)))
            if not out.raised(ValueError):
                rec.fail("invalid top-n accepted", value=v, got=repr(out))
    for v in (0.0, -1.0):
        for f in (lambda: r.get_causal_direction_counts(min_causal_effect=v),
                  lambda: r.get_directed_acyclic_graph_counts(min_causal_effect=v),
                  lambda: r.get_probabilities(min_causal_effect=v),
                  lambda: r.get_total_causal_effects(min_causal_effect=v),
                  lambda: r.get_paths(0, 1, min_causal_effect=v)):
            out = rec.call(f)
            rec.state(("thr", v))
            if not out.raised(ValueError):
                rec.fail("invalid threshold accepted", value=v, got=repr(out))
    rec.trace()


def tasks(tier):
    from checks.c11 import tasks as lagged
    from checks.c12 import tasks as panel
    t = [("wide", {}), ("printing", {}), ("bad_arguments", {})]
    t += [("c11." + f, kw) for f, kw in lagged(tier) if f == "boot_paths"] + [("c12." + f, kw) for f, kw in panel(tier) if f == "tables"]
    d2, d3 = (4, 3) if tier == "quick" else (6, 3)
    for n, d in ((2, d2), (3, d3)):
        N = n_seqs(n, d)
        for lo, hi in chunks(N, 32 if tier == "quick" else 128):
            t.append(("sequences", {"n": n, "depth": d, "lo": lo, "hi": hi}))
    return t
