"""C17  Bootstrap with imputation respects observed values and plug-in contracts.

Every missingness pattern of a small table is run through the real function with recording plug-ins (pass-through, in
place, one matrix per data set or one for all) and with the default ones; every plug-in misbehaviour is injected at every
position of the run."""
import itertools

import numpy as np
import pandas as pd

from mc.gen import chunks, rng, same, uneven

PROPERTY = "C17"
BOUNDS = "tables of up to 1100 x 8, up to 12 replicates and 10 imputations; all missingness patterns of a 3x2 table and all single/double missing cells of an 8x3 table x imputer/discovery plug-in kinds x every misbehaviour at every replicate"
ASSUMPTIONS = ["scikit-learn's IterativeImputer keeps observed values of the resample it is given"]


def plugins():
    from lingam.tools import BaseMultiGroupCDModel, BaseMultipleImputation

    class Imputer(BaseMultipleImputation):
        def __init__(self, repeats, inplace=False, form="array", fault=None, at=0):
            self.r, self.inplace, self.form, self.fault, self.at = repeats, inplace, form, fault, at
            self.seen, self.given = [], []

        def fit_transform(self, X):
            k = len(self.seen)
            self.seen.append(np.array(X, copy=True))
            Y = []
            for q in range(self.r):
                Z = X if self.inplace and q == self.r - 1 else np.array(X, copy=True)
                Z[np.isnan(Z)] = 100 * k + q + np.arange(int(np.isnan(Z).sum())) / 16
                Y.append(Z)
            if self.fault and k == self.at:
                return self.fault(Y)
            self.given.append([y.copy() for y in Y])
            return np.array(Y) if self.form == "array" else Y

    class Model(BaseMultiGroupCDModel):
        def __init__(self, kind="each", fault=None, at=0):
            self.kind, self.fault, self.at = kind, fault, at
            self.raw, self.sets, self.given = [], [], []

        def before_imputation(self, X):
            self.raw.append(np.array(X, copy=True))

        def fit(self, X_list):
            k = len(self.sets)
            self.sets.append([np.array(x, copy=True) for x in X_list])
            n = X_list[0].shape[1]
            order = list(np.roll(np.arange(n), k))
            B = [np.tril(np.full((n, n), k + q / 10 + 1), -1) for q in range(len(X_list))]
            B = B[0] if self.kind == "one" else B
            if self.fault and k == self.at:
                return self.fault(order, B)
            self.given.append((order, np.array(B)))
            return (order, B) if self.kind != "arrays" else (np.array(order), np.array(B))

    return Imputer, Model


def results(rec, X, n_sampling, imp, model, out, info):
    if not out.ok:
        rec.fail("imputation bootstrap failed", got=repr(out), **info)
        return
    orders, mats, idx, imps = out.value
    idx = np.asarray(idx)
    if idx.shape != (n_sampling, len(X)) or idx.min() < 0 or idx.max() >= len(X):
        rec.fail("resample indices do not identify rows", got=idx, **info)
        return
    if len(X) >= 8 and any((a == np.arange(len(X))).all() for a in idx):
        rec.fail("a replicate is the data themselves, not a resample", **info)
    if len(X) >= 8 and any((a == b).all() for a, b in itertools.combinations(idx, 2)):
        rec.fail("two replicates use the same resample", **info)
    if uneven(idx, len(X)):
        rec.fail("some rows are not drawn", **info)
    r = len(imps[0])
    for k in range(n_sampling):
        S = X[idx[k]]
        miss = np.isnan(S)
        if imp is not None and not same(imp.seen[k], S, 0):
            rec.fail("the imputer was not given the resample of the reported rows", replicate=k, **info)
        if model is not None:
            if not same(model.raw[k], S, 0):
                rec.fail("the discovery plug-in was not shown the resample before imputation", replicate=k, **info)
            if len(model.sets[k]) != r:
                rec.fail("the discovery plug-in was not given all imputed data sets", replicate=k, **info)
                continue
            for q, Z in enumerate(model.sets[k]):
                if np.isnan(Z).any() or not same(Z[~miss], S[~miss], 1e-12):
                    rec.fail("an imputed data set has missing values or changed observed ones", replicate=k, repeat=q, **info)
                if imp is not None and not same(Z, imp.given[k][q], 1e-12):
                    rec.fail("the discovery plug-in was not given the imputer's data sets in order", replicate=k, repeat=q, **info)
                if not same(np.asarray(imps[k][q]), np.where(miss, Z, np.nan), 1e-12):
                    rec.fail("recorded imputation is not the imputed values at the missing cells", replicate=k, repeat=q, got=imps[k][q], **info)
            if not same(np.asarray(orders[k]), np.asarray(model.given[k][0]), 0) or not same(np.asarray(mats[k]), model.given[k][1], 0):
                rec.fail("order or matrices of a replicate are not those returned for its data sets", replicate=k, **info)
        else:
            if (np.isnan(np.asarray(imps[k])) != ~miss[None]).any():
                rec.fail("recorded imputation is not at exactly the missing cells", replicate=k, **info)
    rec.trace()


def patterns(rec, shape, masks, n_sampling=2):
    """Recording plug-ins."""
    from lingam.tools import bootstrap_with_imputation as boot
    Imputer, Model = plugins()
    m, n = shape
    base = np.arange(m * n, dtype=float).reshape(m, n) * 1.5 - 2
    for bits in masks:
        X = base.copy()
        X.flat[list(bits)] = np.nan
        for c, (rep, inplace, form, kind, data) in enumerate(itertools.product((1, 2) if m < 20 else (1, 6), (False, True), ("array", "list"), ("each", "one", "arrays"), ("array", "frame", "list"))):
            if (c + sum(bits)) % 4:
                continue
            imp, model = Imputer(rep, inplace, form), Model(kind)
            D = {"array": X.copy(), "frame": pd.DataFrame(X), "list": X.tolist()}[data]
            rec.state((shape, bits, c))
            out = rec.call(boot, D, n_sampling, imp=imp, cd_model=model, random_state=c)
            results(rec, X, n_sampling, imp, model, out, dict(data=X, imputer=dict(repeats=rep, inplace=inplace, form=form), model=kind, input=data))


def defaults(rec, lo, hi, n_sampling=2):
    """Default imputer and default discovery, each combined with a recording partner, and reproducibility."""
    import lingam
    from lingam.tools import bootstrap_with_imputation as boot
    Imputer, Model = plugins()
    m, n = 14, 3
    r = rng("c17")
    base = (r.uniform(-1, 1, (m, n)) ** 3) @ np.array([[1, 0.8, -0.5], [0, 1, 1.2], [0, 0, 1.0]])
    base = np.round(base, 3) + r.uniform(-2, 2, n)
    cells = list(itertools.combinations(range(m * n), 2))[:: 21]
    pk = -np.ones((n, n), int)
    pk[0, 2] = 0
    for k in range(lo, min(hi, len(cells))):
        X = base.copy()
        X.flat[list(cells[k])] = np.nan
        info = dict(missing=[divmod(c, n) for c in cells[k]])
        rec.state(("default", k))
        model = Model()
        out = rec.call(boot, X.copy(), n_sampling, 2, cd_model=model, random_state=k)
        results(rec, X, n_sampling, None, model, out, dict(info, plugins="default imputer"))
        for soft, p in ((False, None), (False, pk), (True, pk)):
            imp = Imputer(2 + (k + soft) % 3)
            out = rec.call(boot, X.copy(), n_sampling, imp=imp, prior_knowledge=p, apply_prior_knowledge_softly=soft, random_state=k)
            results(rec, X, n_sampling, imp, None, out, dict(info, plugins="default discovery"))
            if out.ok:
                for q in range(n_sampling):
                    ref = lingam.MultiGroupDirectLiNGAM(prior_knowledge=p, apply_prior_knowledge_softly=soft)
                    ref.fit(imp.given[q])
                    if not same(np.asarray(out.value[0][q]), np.asarray(ref.causal_order_), 0) or not same(np.asarray(out.value[1][q]), np.asarray(ref.adjacency_matrices_), 1e-9):
                        rec.fail("default discovery is not the joint fit of the imputed data sets", replicate=q, prior=p, soft=soft, **info)
        if out.ok and k % 4 == 0:
            out = rec.call(boot, X.copy(), 1, cd_model=Model("one"), random_state=k)
            if not out.ok or len(out.value[3][0]) != 10:
                rec.fail("the default number of imputations is not ten", got=repr(out)[:200], **info)
            elif any(len(np.unique(np.asarray(out.value[3][0])[:, a, b])) < 2 for a, b in np.argwhere(np.isnan(X[np.asarray(out.value[2])[0]]))):
                rec.fail("repeated imputations of a missing value do not vary", got=out.value[3], **info)
        a = rec.call(boot, X.copy(), n_sampling, 2, random_state=k)
        np.random.seed(99)
        b = rec.call(boot, X.copy(), n_sampling, 2, random_state=k)
        if a.ok != b.ok or a.ok and not all(same(np.asarray(u), np.asarray(v), 0) for u, v in zip(a.value, b.value)):
            rec.fail("equal seeds do not give equal results", **info)
        results(rec, X, n_sampling, None, None, a, dict(info, plugins="defaults"))


def faults(rec, n_sampling):
    """Every misbehaviour at every replicate must end in an error and leave nothing running afterwards."""
    from lingam.tools import bootstrap_with_imputation as boot
    Imputer, Model = plugins()
    m, n = 6, 3
    X = np.arange(m * n, dtype=float).reshape(m, n) ** 1.5
    X[1, 2] = X[4, 0] = X[4, 1] = np.nan
    X[:, 1] = np.where(np.arange(m) % 2, np.nan, X[:, 1])

    def poke(f):
        def g(Y):
            Y = [y.copy() for y in Y]
            return f(Y)
        return g

    def cell(v, q=-1, i=-1, j=-1):
        def g(Y):
            Y[q][i, j] = v
            return Y
        return g

    bad_imp = {
        "nan left": cell(np.nan), "inf": cell(np.inf), "rows missing": lambda Y: [y[:-1] for y in Y], "columns missing": lambda Y: [y[:, :-1] for y in Y],
        "extra column": lambda Y: [np.c_[y, y[:, 0]] for y in Y], "not a list of tables": lambda Y: Y[0], "text": lambda Y: np.array(Y).astype(str),
        "nothing": lambda Y: None, "empty": lambda Y: [], "ragged": lambda Y: [Y[0], Y[1][:-1]], "transposed": lambda Y: [y.T for y in Y],
        "flat": lambda Y: np.array(Y).reshape(-1), "raises": lambda Y: (_ for _ in ()).throw(KeyError("plug-in")),
    }
    many_imp = {f"{v} left in data set {q}": cell(v, q, i, j) for v in (np.nan, np.inf) for q, i, j in ((0, 0, 0), (2, 1, 2), (5, 3, 1), (6, 5, 0))}
    many_cd = {"order swapped for a repeat": lambda o, B: (list(o[:-1]) + [o[0]], B),
               **{f"{v} in matrix {q}": (lambda v, q: lambda o, B: (o, [np.where((np.arange(len(B)) == q)[k] * np.eye(n), v, b) for k, b in enumerate(B)]))(v, q)
                  for v in (np.nan, np.inf) for q in range(7)}}
    bad_cd = {
        "list": lambda o, B: [o, B], "triple": lambda o, B: (o, B, 0), "nothing": lambda o, B: None, "only order": lambda o, B: (o,),
        "order nan": lambda o, B: ([np.nan] + list(o[1:]), B), "order duplicate": lambda o, B: ([o[0]] * len(o), B), "order short": lambda o, B: (o[:-1], B),
        "order long": lambda o, B: (list(o) + [len(o)], B), "order one-based": lambda o, B: ([v + 1 for v in o], B), "order negative": lambda o, B: ([v - 1 for v in o], B),
        "order fractional": lambda o, B: ([v / 2 for v in o], B), "order none": lambda o, B: (None, B),
        "matrix nan": lambda o, B: (o, [np.where(np.eye(n), np.nan, b) for b in B]), "matrix inf": lambda o, B: (o, [b + np.inf for b in B]),
        "matrix small": lambda o, B: (o, [b[:-1, :-1] for b in B]), "matrix rows": lambda o, B: (o, [b[:-1] for b in B]), "matrix none": lambda o, B: (o, None),
        "nested": lambda o, B: (o, [B]), "nested twice": lambda o, B: (o, [[[b] for b in B]]), "matrix vector": lambda o, B: (o, B[0][0]), "each nested": lambda o, B: (o, [[b] for b in B]),
        "one matrix too few": lambda o, B: (o, B[:-1]), "one matrix too many": lambda o, B: (o, B + [B[0]]), "no matrices": lambda o, B: (o, []),
        "matrix text": lambda o, B: (o, "B"), "ragged": lambda o, B: (o, [B[0], B[1][:-1]]), "raises": lambda o, B: (_ for _ in ()).throw(KeyError("plug-in")),
    }
    for at in range(n_sampling):
        for name, f in [*bad_imp.items(), *many_imp.items()]:
            imp, model = Imputer(7 if name in many_imp else 2, fault=poke(f), at=at), Model()
            rec.state(("imp", name, at))
            out = rec.call(boot, X.copy(), n_sampling, imp=imp, cd_model=model, random_state=at)
            if out.ok or not isinstance(out.exc, (ValueError, KeyError) if name == "raises" else ValueError):
                rec.fail("an imputer violating its contract is not rejected", fault=name, replicate=at, got=repr(out)[:200])
            if len(model.sets) > at:
                rec.fail("discovery was run on data violating the imputer's contract", fault=name, replicate=at)
            rec.trace()
        for name, f in [*bad_cd.items(), *many_cd.items()]:
            imp, model = Imputer(7 if name in many_cd else 2), Model(fault=f, at=at)
            rec.state(("cd", name, at))
            out = rec.call(boot, X.copy(), n_sampling, imp=imp, cd_model=model, random_state=at)
            if out.ok or not isinstance(out.exc, (ValueError, KeyError) if name == "raises" else ValueError):
                rec.fail("a discovery plug-in violating its contract is not rejected", fault=name, replicate=at, got=repr(out)[:200])
            if len(imp.seen) > at + 1:
                rec.fail("the run went on after a contract violation", fault=name, replicate=at)
            rec.trace()
    ok = lambda **k: boot(**{**dict(X=X.copy(), n_sampling=2, imp=Imputer(2), cd_model=Model(), random_state=0), **k})

    class Stranger:
        def fit_transform(self, X):
            return [X]

        def before_imputation(self, X):
            pass

        def fit(self, L):
            return [0, 1, 2], np.zeros((1, 3, 3))

    for name, k in [("imputer of another class", dict(imp=Stranger())), ("model of another class", dict(cd_model=Stranger())), ("no sampling", dict(n_sampling=0)),
                    ("negative sampling", dict(n_sampling=-1)), ("no repeats", dict(n_repeats=0)), ("fractional", dict(n_sampling=1.5)),
                    ("prior shape", dict(prior_knowledge=np.zeros((2, 2)))), ("vector data", dict(X=[1.0, 2.0])), ("infinite data", dict(X=np.full((4, 3), np.inf)))]:
        rec.state(("arg", name))
        out = rec.call(ok, **k)
        if not out.raised(ValueError, TypeError):
            rec.fail("an invalid request is not rejected", case=name, got=repr(out)[:200])
    if not rec.call(ok).ok:
        rec.fail("a valid request is rejected")


def tasks(tier):
    th = tier == "thorough"
    small = [c for k in range(7) for c in itertools.combinations(range(6), k)]
    big = [c for k in (1, 2) for c in itertools.combinations(range(24), k)]
    t = [("faults", dict(n_sampling=4 if th else 3))]
    for lo, hi in chunks(len(small), 4):
        t.append(("patterns", dict(shape=(3, 2), masks=small[lo:hi])))
    for lo, hi in chunks(len(big), 8):
        t.append(("patterns", dict(shape=(8, 3), masks=big[lo:hi], n_sampling=3)))
    t.append(("patterns", dict(shape=(12, 2), masks=[(0, 3, 22), (5, 23)], n_sampling=30)))
    t.append(("patterns", dict(shape=(400, 2), masks=[(0, 3, 799), (5,), (798, 400, 2, 9)], n_sampling=12)))
    t.append(("patterns", dict(shape=(1100, 8), masks=[(0, 3, 799), tuple(range(7, 8800, 13))], n_sampling=2)))
    for lo, hi in chunks(41, 41 if th else 14):
        t.append(("defaults", dict(lo=lo, hi=hi)))
    return t
