"""C19  Multi-group estimation is symmetric and shares one structure.

All ordered selections of 2-3 (quick) groups from a family of data sets with different sizes, scales and graphs x every
permutation of the groups x every multi-group estimator, with the genuine tests and with arbitrary fixed verdict functions
in place of the statistical tests. Oracles: permutation of the groups, copies of one group, duplication of the whole list,
and an independent implementation of the pooled order search."""
import itertools

import numpy as np

from mc.catalog import linear
from mc.gen import chunks, dags, lingam_data, rng, same, weights
from mc.ref import direct_order

PROPERTY = "C19"
BOUNDS = "up to 8 groups and 7 variables for the pooled order, 5 groups under rotations; all ordered pairs and triples of distinct groups from families of 5 data sets (n=2,3,4) x all group permutations x estimators x genuine tests and 6 verdict functions; all DAGs n=3 on exact data"
ASSUMPTIONS = ["order ties are not resolved by this check (margin 1e-9)"]


def family(n):
    r = rng("c19", n)
    out = []
    for k, m in enumerate((24, 30, 18, 40, 24)):
        X = linear(n, 20 + k, m=m, perm=list(range(n)) if k % 2 else None)
        out.append(X * [1.0, 0.02, 50.0, 3.0, 1.0][k] + r.uniform(-1, 1, n))
    return out


def pk_of(n):
    pk = -np.ones((n, n), int)
    pk[0, 1] = 0
    if n > 2:
        pk[2, 0] = 1
    return pk


def makers(n):
    import lingam
    from sklearn.linear_model import LinearRegression
    return {
        "direct": (lambda: lingam.MultiGroupDirectLiNGAM(), lambda: lingam.DirectLiNGAM()),
        "direct-pk": (lambda: lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk_of(n)), lambda: lingam.DirectLiNGAM(prior_knowledge=pk_of(n))),
        "direct-soft": (lambda: lingam.MultiGroupDirectLiNGAM(prior_knowledge=pk_of(n), apply_prior_knowledge_softly=True),
                        lambda: lingam.DirectLiNGAM(prior_knowledge=pk_of(n), apply_prior_knowledge_softly=True)),
        "rcd": (lambda: lingam.MultiGroupRCD(MLHSICR=False), lambda: lingam.RCD(MLHSICR=False)),
        "rcd-3": (lambda: lingam.MultiGroupRCD(max_explanatory_num=3, MLHSICR=False), lambda: lingam.RCD(max_explanatory_num=3, MLHSICR=False)),
        "rcd-fcorr": (lambda: lingam.MultiGroupRCD(independence="fcorr", MLHSICR=False), lambda: lingam.RCD(independence="fcorr", MLHSICR=False)),
        "camuv": (lambda: lingam.MultiGroupCAMUV(), lambda: lingam.CAMUV()),
        "camuv-fcorr": (lambda: lingam.MultiGroupCAMUV(independence="fcorr", num_explanatory_vals=3), lambda: lingam.CAMUV(independence="fcorr", num_explanatory_vals=3)),
        "camuv-pk": (lambda: lingam.MultiGroupCAMUV(prior_knowledge=[(0, 1)]), lambda: lingam.CAMUV(prior_knowledge=[(0, 1)])),
    }


def env(salt, name):
    import contextlib

    from checks.c06 import salted
    from mc.env import replaced
    from mc.oracle import LinGam
    from pygam import LinearGAM
    st = contextlib.ExitStack()
    if salt is not None:
        st.enter_context(salted(salt))
    if name.startswith("camuv"):
        st.enter_context(replaced((LinearGAM, LinGam)))
    return st


def structure(m):
    """What all groups share."""
    out = {}
    for a in ("causal_order_", "ancestors_list_"):
        if hasattr(m, a):
            v = getattr(m, a)
            out[a] = [sorted(int(x) for x in s) for s in v] if a == "ancestors_list_" else [int(x) for x in v]
    return out


def matrices(m, k):
    if hasattr(m, "adjacency_matrices_"):
        return [np.asarray(B, float) for B in m.adjacency_matrices_]
    return [np.asarray(m.adjacency_matrix_, float)] * k


def pattern(B):
    return np.where(np.isnan(B), 2, (np.abs(B) > 1e-12).astype(int))


def symmetric(rec, n, name, salts, size, part=(0, 1)):
    fam = family(n)
    multi, single = makers(n)[name]
    for salt in salts:
        with env(salt, name):
            sels = list(itertools.combinations(range(len(fam)), size))
            for sel in sels[part[0]::part[1]]:
                groups = [fam[k] for k in sel]
                m = multi()
                o = rec.call(m.fit, [g.copy() for g in groups])
                info = dict(estimator=name, verdicts=salt, groups=sel)
                if not o.ok:
                    rec.fail("fitting several groups failed", got=repr(o), **info)
                    continue
                S, Bs = structure(m), matrices(m, size)
                if len(Bs) != size or any(B.shape != (n, n) for B in Bs):
                    rec.fail("there is not one coefficient matrix per group", **info)
                    continue
                if not name.startswith("direct") and any((pattern(B) != pattern(Bs[0])).any() for B in Bs):
                    rec.fail("groups do not share parents and unknown pairs", got=Bs, **info)
                eff = queries(rec, m, groups, n)
                for p in itertools.permutations(range(size)) if size < 5 else [tuple(range(size))[::-1]] + [tuple((i + k) % size for i in range(size)) for k in range(1, size)]:
                    rec.state((n, name, salt, sel, p))
                    m2 = multi()
                    G2 = [groups[q].copy() for q in p]
                    o = rec.call(m2.fit, G2)
                    if not o.ok:
                        rec.fail("fitting permuted groups failed", permutation=p, got=repr(o), **info)
                        continue
                    if structure(m2) != S:
                        rec.fail("the common structure depends on the order of the groups", permutation=p, got=structure(m2), want=S, **info)
                        continue
                    B2 = matrices(m2, size)
                    if not all(same(B2[i], Bs[q], 1e-7) for i, q in enumerate(p)):
                        rec.fail("permuting the groups does not permute the coefficient matrices", permutation=p, got=B2, want=[Bs[q] for q in p], **info)
                        continue
                    if eff is not None:
                        e2 = queries(rec, m2, G2, n)
                        if not all(same([v[i] for v in e2], [v[q] for v in eff], 1e-7) for i, q in enumerate(p)):
                            rec.fail("effects or diagnostics are not listed in the order of the groups", permutation=p, **info)
                    rec.trace()


def queries(rec, m, groups, n):
    """List of per-group answers of every query."""
    if not hasattr(m, "estimate_total_effect"):
        return None
    out = []
    for i, j in itertools.permutations(range(n), 2):
        a, b = rec.call(m.estimate_total_effect, groups, i, j), rec.call(m.estimate_total_effect2, i, j)
        for o in (a, b):
            out.append([float(v) for v in o.value] if o.ok else [type(o.exc).__name__] * len(groups))
    p = rec.call(m.get_error_independence_p_values, groups)
    out.append([np.asarray(v) for v in p.value] if p.ok else [type(p.exc).__name__] * len(groups))
    return out


def copies(rec, n, name, salts):
    """Copies of one data set give that data set's own result; repeating the whole list changes nothing."""
    fam = family(n)
    multi, single = makers(n)[name]
    for salt in salts:
        with env(salt, name):
            for k, X in enumerate(fam):
                s = single()
                o = rec.call(s.fit, X.copy())
                if not o.ok:
                    continue
                for c in (2, 3):
                    rec.state(("copies", n, name, salt, k, c))
                    m = multi()
                    o = rec.call(m.fit, [X.copy() for _ in range(c)])
                    info = dict(estimator=name, verdicts=salt, group=k, copies=c)
                    if not o.ok:
                        rec.fail("fitting copies of one group failed", got=repr(o), **info)
                        continue
                    if "causal_order_" in structure(m) and structure(m) != structure(s):
                        rec.fail("copies of one group give another structure than the group alone", got=structure(m), want=structure(s), **info)
                        continue
                    if not all(same(B, np.asarray(s.adjacency_matrix_, float), 1e-7) for B in matrices(m, c)):
                        rec.fail("copies of one group give other coefficients than the group alone", got=matrices(m, c)[0], want=s.adjacency_matrix_, **info)
                    rec.trace()
            if name.startswith("direct") or salt is not None:
                for sel in itertools.combinations(range(len(fam)), 2):
                    groups = [fam[k] for k in sel]
                    a, b = multi(), multi()
                    if not rec.call(a.fit, groups).ok or not rec.call(b.fit, groups + groups).ok:
                        continue
                    rec.state(("twice", n, name, salt, sel))
                    if structure(a) != structure(b) or not all(same(x, y, 1e-7) for x, y in zip(matrices(a, 2) * 2, matrices(b, 4))):
                        rec.fail("listing every group twice changes the result", estimator=name, verdicts=salt, groups=sel)
                    rec.trace()


def pooled(rec, n, sizes):
    import lingam
    fam = family(n) + [linear(n, 40 + k, m=12 + 9 * k) for k in range(3)]
    for size in sizes:
        for sel in itertools.combinations(range(len(fam)), size):
            groups = [fam[k] for k in sel]
            want = direct_order(groups)
            rec.state(("pooled", n, sel))
            if want is None:
                rec.note("ties")
                continue
            m = lingam.MultiGroupDirectLiNGAM()
            o = rec.call(m.fit, groups)
            if not o.ok or [int(v) for v in m.causal_order_] != want:
                rec.fail("the common order is not the one of the pooled evidence", groups=sel, n=n, got=repr(o) if not o.ok else m.causal_order_, want=want)
            rec.trace()


def exact(rec, lo, hi, L):
    """Groups sharing one graph but not its coefficients: each group's own coefficients, in the order given."""
    import lingam
    for k in range(lo, hi):
        A = dags(3)[k]
        Ws = [weights(A, al, k) for al in ([1.2, -0.8], [-0.6, 1.5, 0.9], [2.0, 0.7])]
        kinds = [[0, 1, 2], [1, 2, 0], [2, 0, 1]]
        data = [lingam_data(W, L, kinds=kd, scales=[1.0, 1.3, 0.8], mean=[c, 0, -c]) for c, (W, kd) in enumerate(zip(Ws, kinds))]
        for p in itertools.permutations(range(3)):
            for size in (2, 3):
                q = p[:size]
                rec.state(("exact", k, q))
                m = lingam.MultiGroupDirectLiNGAM()
                o = rec.call(m.fit, [data[i] for i in q])
                if not o.ok:
                    rec.fail("fitting several groups failed", got=repr(o), graph=A)
                    continue
                for B, i in zip(m.adjacency_matrices_, q):
                    if not same(np.asarray(B), Ws[i], 1e-6):
                        rec.fail("a group's coefficients are not its own", graph=A, groups=q, group=i, got=B, want=Ws[i])
                        break
                rec.trace()


def tasks(tier):
    th = tier == "thorough"
    dags(3)
    salts = list(range(1, 20 if th else 7))
    t = []
    for n in (2, 3, 4):
        for name in makers(n):
            stat = not name.startswith("direct")
            base = [None] if not stat or n < 4 or th else []
            if stat:
                for s in salts if n < 4 or th else salts[:2]:
                    t.append(("symmetric", dict(n=n, name=name, salts=[s], size=2)))
                    if n == 3:
                        t.append(("symmetric", dict(n=n, name=name, salts=[s], size=3, part=(s % 3, 3) if not th else (0, 1))))
                t.append(("copies", dict(n=n, name=name, salts=salts)))
            else:
                t.append(("copies", dict(n=n, name=name, salts=[None])))
            for b in base:
                for part in range(3):
                    t.append(("symmetric", dict(n=n, name=name, salts=[b], size=2, part=(part, 3))))
                if not stat or th:
                    t.append(("symmetric", dict(n=n, name=name, salts=[b], size=3)))
        t.append(("pooled", dict(n=n, sizes=[2, 3, 4] if th else [2, 3])))
        t.append(("pooled", dict(n=n, sizes=[5, 6, 7, 8] if n < 4 or th else [7, 8])))
        for name in makers(n):
            if n < 4 and (name.startswith("direct") or n == 2):
                t.append(("symmetric", dict(n=n, name=name, salts=[None if name.startswith("direct") else 2], size=5)))
    t.append(("pooled", dict(n=7, sizes=[2])))
    for lo, hi in chunks(25, 5):
        t.append(("exact", dict(lo=lo, hi=hi, L=6)))
    return t
