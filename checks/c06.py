"""C06  Bootstrap replicates are refits of the recorded resamples.

The resampling draw is the environment: it is replaced by an enumerated choice and every sequence of draws up to a
depth is executed on the real bootstrap. Each replicate is compared with a fresh, identically configured estimator
fitted on that draw's data, and its total effects with the path sums of that replicate's own matrix. Runs with the
genuine draw check that the default draw really is a bootstrap draw (n rows, with replacement, differing replicates)."""
import contextlib
import itertools

import numpy as np

from mc.env import replaced
from mc.gen import is_dag, rng, same, uneven

PROPERTY = "C06"
BOUNDS = "runs of up to 130 replicates, 12 variables, 2100 rows, 4 lags; all sequences of length <=3 over 4 draws (5 draws / length 4 thorough) per estimator configuration; invalid counts"
ASSUMPTIONS = ["the reduced-form fit of the time-series models is statsmodels' (checked in C11)"]


def patterns(n, m):
    """Draws: index vectors of length m into n rows."""
    k = np.arange(m)
    return [
        (k * 1) % n,
        (n - 1 - k // 2) % n,
        np.where(k % 3 == 0, 0, (k * 2) % n),
        (k * k + 3 * k + 1) % n,
        (k // 2) % n,
    ]


class Draws:
    """Stand-in for the resampling function: follows a fixed sequence of draws."""

    def __init__(self, seq):
        self.seq, self.calls, self.idx = list(seq), 0, []

    def __call__(self, *arrays, replace=True, n_samples=None, random_state=None, stratify=None, **k):
        n = len(arrays[0])
        m = n if n_samples is None else int(n_samples)
        c = self.seq[self.calls] if self.calls < len(self.seq) else 0
        self.calls += 1
        idx = patterns(n, m)[c]
        self.idx.append(idx)
        out = []
        for a in arrays:
            out.append(a.iloc[idx] if hasattr(a, "iloc") else np.asarray(a)[idx])
        return out[0] if len(out) == 1 else out


@contextlib.contextmanager
def watching(cls):
    """Record the data handed to every outermost fit of `cls`."""
    log, depth = [], [0]
    orig = cls.fit

    def fit(self, X, *a, **k):
        if depth[0] == 0:
            if isinstance(X, (list, tuple)):
                log.append([np.array(x, float) for x in X])
            else:
                log.append(np.array(X, float))
        depth[0] += 1
        try:
            return orig(self, X, *a, **k)
        finally:
            depth[0] -= 1

    own = "fit" in vars(cls)
    setattr(cls, "fit", fit)
    try:
        yield log
    finally:
        if own:
            cls.fit = orig
        else:
            del cls.fit


@contextlib.contextmanager
def salted(salt, graded=False):
    """Replace the statistical tests by an arbitrary but fixed function of the data, so that resamples lead to many
    different structures (edges, unknown pairs, unresolved blocks). salt None: the genuine tests. graded: p-values of all sizes."""
    if salt is None:
        yield
        return
    import zlib

    from lingam.hsic import hsic_test_gamma
    from lingam.utils import f_correlation
    from scipy.stats import pearsonr, shapiro

    def code(tag, x, y):
        x, y = np.asarray(x, float), np.asarray(y, float)
        x, y = x.reshape(len(x), -1), y.reshape(len(y), -1)
        x, y = (x - x.mean(0)) / (x.std(0) + 1e-12), (y - y.mean(0)) / (y.std(0) + 1e-12)
        q = 0
        for a in x.T:
            for b in y.T:
                q += int(np.round(100 * np.mean(a * a * b + a * b * b))) + 7 * int(np.round(100 * np.mean(a ** 3 + b ** 3)))
        return zlib.crc32(repr((salt, tag, q)).encode())

    def bit(tag, x, y, share):
        return code(tag, x, y) % 100 < share

    def hs(x, y, *a, **k):
        if graded:
            return (0.1 + code("s", x, y) % 997 / 997, 10.0 ** (-(code("h", x, y) % 1000) / 350))
        return (0.1 + code("s", x, y) % 997 / 997, 0.8 if bit("h", x, y, 50) else 1e-8)

    def fc(x, y, *a, **k):
        return 0.1 if bit("h", x, y, 50) else 0.9

    def pr(x, y, *a, **k):
        if graded:
            return (0.5, 10.0 ** (-(code("p", x, y) % 1000) / 350))
        return (0.5, 1e-8 if bit("p", x, y, 75) else 0.8)

    with replaced((hsic_test_gamma, hs), (f_correlation, fc), (pearsonr, pr), (shapiro, lambda x, *a, **k: (0.5, 0.0))):
        yield


def path_sums(B):
    """Total effects implied by a matrix: sum over all directed paths (NaN = unknown direction, no edge)."""
    B = np.nan_to_num(np.asarray(B, float))
    n = len(B)
    T, P = np.zeros((n, n)), np.eye(n)
    for _ in range(n):
        P = B @ P
        T += P
    np.fill_diagonal(T, 0)
    return T


# ------------------------------------------------------------------ configurations
def base(n, key=0, m=40):
    B = np.zeros((n, n))
    w = [1.2, -0.9, 0.7, 1.1, -0.6, 0.8]
    for c, (i, j) in enumerate((i, j) for i in range(n) for j in range(i)):
        B[i, j] = w[(c + key) % 6]
    p = [(v * 2 + 1 + key) % n if n % 2 else (v + 1 + key) % n for v in range(n)]
    r = rng("c06", n, key)
    X = r.uniform(-1, 1, (m, n)) ** 3 @ np.linalg.inv(np.eye(n) - B).T
    return X[:, p]


def singles():
    import lingam

    pk = -np.ones((3, 3), int)
    pk[0, 1] = 0
    from sklearn.linear_model import LinearRegression
    return {
        "direct": (lingam.DirectLiNGAM, {}, 3, {}),
        "direct4": (lingam.DirectLiNGAM, {}, 4, {}),
        "direct-kernel": (lingam.DirectLiNGAM, {"measure": "kernel"}, 3, {"m": 24}),
        "direct-pk": (lingam.DirectLiNGAM, {"prior_knowledge": pk}, 3, {}),
        "direct-soft": (lingam.DirectLiNGAM, {"prior_knowledge": pk, "apply_prior_knowledge_softly": True}, 3, {}),
        "ica": (lingam.ICALiNGAM, {"random_state": 3}, 3, {}),
        "highdim": (lingam.HighDimDirectLiNGAM, {}, 3, {}),
        "rcd": (lingam.RCD, {}, 3, {}),
        "rcd-fcorr": (lingam.RCD, {"independence": "fcorr", "cor_alpha": 0.05, "max_explanatory_num": 1}, 3, {"m": 24}),
        "rcd4": (lingam.RCD, {"max_explanatory_num": 3}, 4, {}),
        "parce-fcorr": (lingam.BottomUpParceLiNGAM, {"independence": "fcorr", "ind_corr": 0.5}, 3, {"m": 24}),
        "parce": (lingam.BottomUpParceLiNGAM, {}, 3, {}),
        "parce-alpha": (lingam.BottomUpParceLiNGAM, {"alpha": 0.5}, 3, {}),
        "parce4": (lingam.BottomUpParceLiNGAM, {"alpha": 0.3}, 4, {}),
    }


def order_pairs(model):
    """Ordered pairs (from, to) whose total effect is recorded."""
    if hasattr(model, "ancestors_list_"):
        return [(f, t) for t, anc in enumerate(model.ancestors_list_) for f in anc]
    out = []
    o = list(model.causal_order_)
    for c, f in enumerate(o):
        for t in o[c + 1:]:
            for ff in (f if hasattr(f, "__iter__") else [f]):
                for tt in (t if hasattr(t, "__iter__") else [t]):
                    out.append((int(ff), int(tt)))
    return out


def expected_effects(model, B):
    B = np.asarray(B)
    n = len(B)
    T = path_sums(B)
    out = np.zeros((n, n))
    for f, t in order_pairs(model):
        out[t, f] = np.nan if np.isnan(B[f]).any() else T[t, f]
    return out


def single(rec, name, depth, nchoices, first=None, salt=None):
    with salted(salt):
        _single(rec, name, depth, nchoices, first, salt)


def _single(rec, name, depth, nchoices, first, salt):
    cls, kw, n, dk = singles()[name]
    from sklearn.utils import resample
    X = base(n, **dk)
    P = patterns(len(X), len(X))
    fresh = {}
    for c in range(nchoices):
        m = cls(**kw)
        out = rec.call(m.fit, X[P[c]])
        fresh[c] = (m, out)
    for d in range(1, depth + 1):
        for seq in itertools.product(range(nchoices), repeat=d):
            if first is not None and seq[0] != first:
                continue
            rec.state((name, salt, seq))
            dr = Draws(seq)
            m = cls(**kw)
            n_sampling = [d, np.int64(d)][d % 2]
            with replaced((resample, dr)), watching(cls) as log:
                out = rec.call(m.bootstrap, X, n_sampling)
            if not out.ok:
                if all(fresh[c][1].ok and is_dag(fresh[c][0].adjacency_matrix_) for c in seq):
                    rec.fail("bootstrap failed on data every replicate of which can be fitted", estimator=name, draws=seq, got=repr(out))
                continue
            res = out.value
            if len(res.adjacency_matrices_) != d or len(res.total_effects_) != d:
                rec.fail("number of replicates differs from the number requested", estimator=name, draws=seq,
                         got=len(res.adjacency_matrices_))
                continue
            idx = res.resampled_indices_
            if dr.calls == d:
                models = [fresh[c][0] for c in seq]
                want_idx = [P[c] for c in seq]
            else:  # the draw was made some other way: use what was recorded / handed to fit
                rec.note("draw not intercepted")
                if idx is not None:
                    datas, want_idx = [X[np.asarray(i)] for i in idx], None
                elif len(log) == d:
                    datas, want_idx = log, None
                else:
                    rec.note("resample not observable")
                    continue
                models = []
                for D in datas:
                    mm = cls(**kw)
                    rec.call(mm.fit, D)
                    models.append(mm)
            if idx is not None:
                if len(idx) != d:
                    rec.fail("recorded resample indices do not match the number of replicates", estimator=name, draws=seq)
                    continue
                if want_idx is not None and not all(np.array_equal(np.ravel(a), b) for a, b in zip(idx, want_idx)):
                    rec.fail("recorded resample indices are not the rows used", estimator=name, draws=seq, got=idx[0])
                    continue
            elif "direct" in name or "ica" in name or "highdim" in name:
                rec.fail("resample indices are not recorded", estimator=name)
                continue
            for k, mm in enumerate(models):
                if not same(np.asarray(res.adjacency_matrices_[k]), np.asarray(mm.adjacency_matrix_)):
                    rec.fail("a replicate is not the model a fresh estimator gives on its resample", estimator=name,
                             draws=seq, replicate=k, got=res.adjacency_matrices_[k], want=mm.adjacency_matrix_)
                    break
                if not is_dag(mm.adjacency_matrix_):
                    rec.note("cyclic replicate (arbitrary verdicts): effects not defined")
                    continue
                want = expected_effects(mm, mm.adjacency_matrix_)
                if not same(np.asarray(res.total_effects_[k]), want, 1e-7):
                    rec.fail("recorded total effects are not those of the replicate's own matrix", estimator=name,
                             draws=seq, replicate=k, got=res.total_effects_[k], want=want, B=mm.adjacency_matrix_)
                    break
            rec.trace()
    rec.sample({"estimator": name, "draws": seq})


def groups():
    import lingam

    return {
        "mgdirect": (lingam.MultiGroupDirectLiNGAM, {}, 2),
        "mgdirect3": (lingam.MultiGroupDirectLiNGAM, {}, 3),
        "mgdirect-four": (lingam.MultiGroupDirectLiNGAM, {}, 2),
        "mgrcd-four": (lingam.MultiGroupRCD, {"max_explanatory_num": 1}, 2),
        "mgrcd": (lingam.MultiGroupRCD, {}, 2),
        "mgrcd-fcorr": (lingam.MultiGroupRCD, {"independence": "fcorr", "cor_alpha": 0.3}, 2),
    }


def group(rec, name, depth, nchoices, first=None, salt=None):
    with salted(salt):
        _group(rec, name, depth, nchoices, first, salt)


def _group(rec, name, depth, nchoices, first, salt):
    cls, kw, g = groups()[name]
    from sklearn.utils import resample
    Xs = [base(4 if "four" in name else 3, 0, m=30 + 4 * k) * (1 + 0.2 * k) for k in range(g)]
    fresh = {}

    def fresh_for(cs):
        if cs not in fresh:
            m = cls(**kw)
            out = rec.call(m.fit, [X[patterns(len(X), len(X))[c]] for X, c in zip(Xs, cs)])
            fresh[cs] = (m, out)
        return fresh[cs]

    for d in range(1, depth + 1):
        for seq in itertools.product(range(nchoices), repeat=d * g):
            if first is not None and seq[0] != first:
                continue
            rec.state((name, salt, seq))
            dr = Draws(seq)
            m = cls(**kw)
            with replaced((resample, dr)), watching(cls) as log:
                out = rec.call(m.bootstrap, Xs, d)
            if dr.calls == d * g:
                # which draw went to which group in which order is the library's choice: it is read off the row counts
                reps = [tuple(seq[k * g:(k + 1) * g]) for k in range(d)]
                if any([len(i) for i in dr.idx[k * g:(k + 1) * g]] != [len(X) for X in Xs] for k in range(d)):
                    reps = None
            else:
                reps = None
            if not out.ok:
                if reps is None or all(fresh_for(r)[1].ok and is_dag(fresh_for(r)[0].adjacency_matrices_[0]) for r in reps):
                    rec.fail("bootstrap failed on data every replicate of which can be fitted", estimator=name, draws=seq, got=repr(out))
                continue
            res = out.value
            if len(res) != g or any(len(r.adjacency_matrices_) != d or len(r.total_effects_) != d for r in res):
                rec.fail("results are not one per group with the requested number of replicates", estimator=name, draws=seq)
                continue
            models = []
            for k in range(d):
                if reps is not None:
                    models.append(fresh_for(reps[k])[0])
                elif len(log) == d:
                    mm = cls(**kw)
                    rec.call(mm.fit, log[k])
                    models.append(mm)
            if len(models) != d:
                rec.note("resample not observable")
                continue
            bad = False
            for k, mm in enumerate(models):
                for q in range(g):
                    A = np.asarray(mm.adjacency_matrices_[q])
                    if not same(np.asarray(res[q].adjacency_matrices_[k]), A):
                        rec.fail("a replicate is not the model a fresh estimator gives on its resample", estimator=name,
                                 draws=seq, replicate=k, group=q, got=res[q].adjacency_matrices_[k], want=A)
                        bad = True
                        break
                    if not is_dag(A):
                        rec.note("cyclic replicate (arbitrary verdicts): effects not defined")
                        continue
                    want = expected_effects(mm, A)
                    if not same(np.asarray(res[q].total_effects_[k]), want, 1e-7):
                        rec.fail("recorded total effects are not those of the replicate's own matrix", estimator=name,
                                 draws=seq, replicate=k, group=q, got=res[q].total_effects_[k], want=want, B=A)
                        bad = True
                        break
                if bad:
                    break
            rec.trace()
    rec.sample({"estimator": name, "draws": seq})


# ------------------------------------------------------------------ time series
def unrolled_effects(mats, p, lags):
    """Row block t, column blocks t, t-1, ...: path sums on the graph unrolled over lags+1 time points."""
    K = lags + 1
    U = np.zeros((p * K, p * K))  # block 0 = t, block k = t-k
    for a in range(K):
        for k in range(len(mats)):
            if a + k < K:
                U[a * p:(a + 1) * p, (a + k) * p:(a + k + 1) * p] = mats[k]
    T, P = np.zeros_like(U), np.eye(len(U))
    for _ in range(len(U)):
        P = U @ P
        T += P
    T = T[:p]
    np.fill_diagonal(T[:, :p], 0)
    return T


def series(p, m=60, key=0):
    r = rng("c06ts", p, key)
    E = r.uniform(-1, 1, (m, p)) ** 3
    B0 = np.tril(np.full((p, p), 0.6), -1)
    M = 0.4 * np.eye(p) - 0.2 * np.triu(np.ones((p, p)), 1)
    X = np.zeros((m, p))
    S = np.linalg.inv(np.eye(p) - B0)
    for t in range(m):
        X[t] = S @ E[t] + (M @ X[t - 1] if t else 0)
    return X


def var(rec, p, lags, prune, criterion, nchoices, depth):
    import lingam
    from sklearn.utils import resample
    X = series(p, key=lags)
    cls = lingam.VARLiNGAM
    mk = lambda crit: cls(lags=lags, criterion=crit, prune=prune)
    m0 = cls(lags=lags, criterion=None, prune=False)
    if rec.must("fit", m0.fit, X) is None:
        return
    A = [np.asarray(a) for a in m0.adjacency_matrices_]
    inv = np.linalg.inv(np.eye(p) - A[0])
    coefs = [inv @ a for a in A[1:]]
    R = np.asarray(m0.residuals_)
    cache = {}

    def sim(c):
        if c not in cache:
            e = R[patterns(len(R), len(X))[c]]
            Y = np.zeros_like(X)
            for t in range(len(X)):
                Y[t] = e[t] + (sum(M @ Y[t - k - 1] for k, M in enumerate(coefs)) if t >= lags else 0)
            mm = mk(None)
            cache[c] = (Y, mm, rec.call(mm.fit, Y))
        return cache[c]

    for d in range(1, depth + 1):
        for seq in itertools.product(range(nchoices), repeat=d):
            rec.state(("var", p, lags, prune, criterion, seq))
            dr = Draws(seq)
            m = mk(criterion)
            with replaced((resample, dr)), watching(cls) as log:
                out = rec.call(m.bootstrap, X, d)
            info = dict(lags=lags, prune=prune, criterion=criterion, draws=seq)
            if not out.ok:
                rec.fail("bootstrap failed", got=repr(out), **info)
                continue
            res = out.value
            if len(res.adjacency_matrices_) != d or len(res.total_effects_) != d:
                rec.fail("number of replicates differs from the number requested", **info)
                continue
            if dr.calls != d:
                if len(log) < d:
                    rec.note("resample not observable")
                    continue
                models = []
                for D in log[-d:]:
                    mm = mk(None)
                    rec.call(mm.fit, D)
                    models.append(mm)
            else:
                models = [sim(c)[1] for c in seq]
                if not all(sim(c)[2].ok for c in seq):
                    continue
            for k, mm in enumerate(models):
                want = np.concatenate([np.asarray(a) for a in mm.adjacency_matrices_], axis=1)
                got = np.asarray(res.adjacency_matrices_[k])
                if not same(got, want, 1e-6):
                    rec.fail("a replicate is not the model a fresh estimator gives on its resampled series", replicate=k,
                             got=got, want=want, **info)
                    break
                T = unrolled_effects([want[:, i * p:(i + 1) * p] for i in range(lags + 1)], p, lags)
                if not same(np.asarray(res.total_effects_[k]), T, 1e-6):
                    rec.fail("recorded total effects are not those of the replicate's own matrices", replicate=k,
                             got=res.total_effects_[k], want=T, **info)
                    break
            rec.trace()


def varma(rec, order, prune, criterion, seqs):
    import lingam
    from sklearn.utils import resample
    p = 2
    X = series(p, m=50, key=9)
    cls = lingam.VARMALiNGAM
    mk = lambda crit, pr: cls(order=order, criterion=crit, prune=pr, random_state=1)
    m0 = mk(None, False)
    if rec.must("fit", m0.fit, X) is None:
        return
    psi, omega = [[np.asarray(a) for a in q] for q in m0.adjacency_matrices_]
    I = np.eye(p)
    inv = np.linalg.inv(I - psi[0])
    ar = [inv @ a for a in psi[1:]]
    ma = [inv @ a @ (I - psi[0]) for a in omega]
    R = np.asarray(m0.residuals_)
    P, Q = len(ar), len(ma)
    for seq in seqs:
        d = len(seq)
        rec.state(("varma", order, prune, criterion, seq))
        info = dict(order=order, prune=prune, criterion=criterion, draws=seq)
        dr = Draws(seq)
        m = mk(criterion, prune)
        with replaced((resample, dr)), watching(cls) as log:
            out = rec.call(m.bootstrap, X, d)
        if not out.ok:
            rec.fail("bootstrap failed", got=repr(out), **info)
            continue
        res = out.value
        if len(res.adjacency_matrices_) != d or len(res.total_effects_) != d:
            rec.fail("number of replicates differs from the number requested", **info)
            continue
        if dr.calls == d:
            datas = []
            for c in seq:
                e = R[patterns(len(R), len(X))[c]]
                Y = np.zeros_like(X)
                for t in range(len(X)):
                    Y[t] = e[t]
                    if t >= max(P, Q):
                        Y[t] += sum(M @ Y[t - k - 1] for k, M in enumerate(ar)) + sum(M @ e[t - k - 1] for k, M in enumerate(ma))
                datas.append(Y)
            if len(log) >= d and not all(same(a, b, 1e-6) for a, b in zip(log[-d:], datas)):
                rec.fail("the resampled series does not follow the originally fitted model", **info)
                continue
            if len(log) >= d:
                datas = log[-d:]  # identical up to rounding; the optimiser amplifies rounding
        elif len(log) >= d:
            datas = log[-d:]
        else:
            rec.note("resample not observable")
            continue
        for k, D in enumerate(datas):
            mm = mk(None, prune)
            if not rec.call(mm.fit, D).ok:
                continue
            a, b = mm.adjacency_matrices_
            want = np.concatenate([*a, *b], axis=1)
            got = np.asarray(res.adjacency_matrices_[k])
            if not same(got, want, 1e-5):
                rec.fail("a replicate is not the model a fresh estimator gives on its resampled series", replicate=k,
                         got=got, want=want, **info)
                break
            T = unrolled_effects([want[:, i * p:(i + 1) * p] for i in range(P + 1)], p, P)
            if not same(np.asarray(res.total_effects_[k]), T, 1e-5):
                rec.fail("recorded total effects are not those of the replicate's own matrices", replicate=k,
                         got=res.total_effects_[k], want=T, **info)
                break
        rec.trace()


def genuine_series(rec, kind, p, order, m, count, seed):
    """Default draw: the innovations of every replicate series under the fitted model are rows of its residuals, drawn with replacement, anew."""
    import lingam
    X = series(p, m=m, key=7)
    P, Q = (order, 0) if kind == "var" else order
    cls = lingam.VARLiNGAM if kind == "var" else lingam.VARMALiNGAM
    mk = lambda prune: cls(lags=P, criterion=None, prune=prune) if kind == "var" else cls(order=order, criterion=None, prune=prune, random_state=1)
    m0 = mk(False)
    if rec.must("fit", m0.fit, X) is None:
        return
    psi, omega = (m0.adjacency_matrices_, []) if kind == "var" else m0.adjacency_matrices_
    psi, I = [np.asarray(a) for a in psi], np.eye(p)
    inv = np.linalg.inv(I - psi[0])
    ar = [inv @ a for a in psi[1:]]
    ma = [inv @ np.asarray(a) @ (I - psi[0]) for a in omega]
    R = np.asarray(m0.residuals_)
    rec.state(("genuine series", kind, p, order, m, count, seed))
    np.random.seed(seed)
    with watching(cls) as log:
        out = rec.call(mk(False).bootstrap, X, count)
    info = dict(kind=kind, variables=p, order=order, rows=m, seed=seed)
    if not out.ok:
        rec.fail("bootstrap failed", got=repr(out), **info)
        return
    if len(out.value.adjacency_matrices_) != count:
        rec.fail("number of replicates differs from the number requested", **info)
        return
    if len(log) < count:
        rec.note("resample not observable")
        return
    drawn = []
    for k, Y in enumerate(log[-count:]):
        rec.state(("genuine series", kind, p, order, m, seed, k))
        Y = np.asarray(Y)
        if Y.shape != X.shape:
            rec.fail("a resample does not have as many rows as the data", replicate=k, **info)
            return
        e = np.zeros_like(Y)
        for t in range(m):
            e[t] = Y[t]
            if t >= max(P, Q):
                e[t] -= sum(M @ Y[t - i - 1] for i, M in enumerate(ar)) + (sum(M @ e[t - i - 1] for i, M in enumerate(ma)) if ma else 0)
        dist = np.abs(e[:, None, :] - R[None]).sum(2)
        if dist.min(1).max() > 1e-6:
            rec.fail("the resampled series does not follow the originally fitted model", replicate=k, **info)
            return
        drawn.append(dist.argmin(1))
        if len(set(drawn[-1].tolist())) >= min(m, len(R)):
            rec.fail("the draw is not with replacement", replicate=k, **info)
            return
        mm = mk(False)
        if kind == "var" and rec.call(mm.fit, Y).ok:
            want = np.concatenate([np.asarray(a) for a in mm.adjacency_matrices_], axis=1)
            if not same(np.asarray(out.value.adjacency_matrices_[k]), want, 1e-6):
                rec.fail("a replicate is not the model a fresh estimator gives on its resampled series", replicate=k,
                         got=out.value.adjacency_matrices_[k], want=want, **info)
                return
    if len({d.tobytes() for d in drawn}) != count:
        rec.fail("replicates reuse one draw", **info)
    if uneven(drawn, len(R)):
        rec.fail("some rows are not drawn", **info)
    rec.trace()


def longitudinal(rec, T, n_lags, p, seeds, n_sampling, start, m=30):
    """The draw is numpy's global generator here: every seed in a range is run and the drawn rows are observed."""
    import lingam
    cls = lingam.LongitudinalLiNGAM
    r = rng("c06l", T, p)
    Xs, prev = [], None
    for t in range(T):
        E = r.uniform(-1, 1, (m, p)) ** 3
        X = E @ np.linalg.inv(np.eye(p) - np.tril(np.full((p, p), 0.8), -1)).T
        if prev is not None:
            X = X + 0.5 * prev[:, ::-1]
        X = X + t
        Xs.append(X)
        prev = X
    for s in seeds:
        rec.state(("long", T, n_lags, p, s, n_sampling, start))
        np.random.seed(s)
        model = cls(n_lags=n_lags)
        with watching(cls) as log:
            out = rec.call(model.bootstrap, Xs, n_sampling, **({} if start is None else {"start_from_t": start}))
        info = dict(T=T, n_lags=n_lags, p=p, seed=s)
        if not out.ok:
            rec.fail("bootstrap failed", got=repr(out), **info)
            continue
        res = out.value
        if len(res.adjacency_matrices_) != n_sampling or len(res.total_effects_) != n_sampling:
            rec.fail("number of replicates differs from the number requested", **info)
            continue
        if len(log) != n_sampling:
            rec.note("resample not observable")
            continue
        prev_idx = []
        for k in range(n_sampling):
            D = [np.asarray(x) for x in log[k]]
            # rows are identified by value: all time points must use the same rows
            idx = [[int(np.argmin(np.abs(Xs[t] - row).sum(1))) for row in D[t]] for t in range(T)]
            if any(D[t].shape != Xs[t].shape or not np.array_equal(Xs[t][idx[t]], D[t]) for t in range(T)):
                rec.fail("a replicate's data are not rows of the given data", replicate=k, **info)
                break
            if any(idx[t] != idx[0] for t in range(T)):
                rec.fail("time points of a replicate use different samples", replicate=k, **info)
                break
            if len(set(idx[0])) == m:
                rec.fail("the draw is not with replacement", replicate=k, **info)
                break
            prev_idx.append(tuple(idx[0]))
            mm = cls(n_lags=n_lags)
            if not rec.call(mm.fit, D).ok:
                continue
            want = np.asarray(mm.adjacency_matrices_)
            if not same(np.asarray(res.adjacency_matrices_[k]), want):
                rec.fail("a replicate is not the model a fresh estimator gives on its resample", replicate=k,
                         got=res.adjacency_matrices_[k], want=want, **info)
                break
            U = np.zeros((T * p, T * p))
            for t in range(T):
                for lag in range(n_lags + 1):
                    if t - lag >= 0 and not np.isnan(want[t, lag]).any():
                        U[t * p:(t + 1) * p, (t - lag) * p:(t - lag + 1) * p] = want[t, lag]
            P = path_sums(U)
            s0 = max(1 if start is None else start, n_lags)  # no model before n_lags
            P[:, :s0 * p] = 0
            if not same(np.asarray(res.total_effects_[k]), P, 1e-7):
                rec.fail("recorded total effects are not those of the replicate's own matrices", replicate=k,
                         got=res.total_effects_[k], want=P, **info)
                break
        if len(prev_idx) == n_sampling and len(set(prev_idx)) != n_sampling:
            rec.fail("replicates reuse one draw", **info)
        if uneven(prev_idx, m):
            rec.fail("some rows are not drawn", **info)
        rec.trace()


# ------------------------------------------------------------------ the genuine draw, and rejected counts
def genuine(rec):
    """Default draw: n rows drawn with replacement, differing between replicates, replicate = refit of those rows."""
    import lingam
    for name, rows in (("direct", 40), ("direct-pk", 40), ("ica", 40), ("highdim", 40), ("rcd", 40), ("parce", 40),
                       ("direct", 11), ("direct", 301), ("ica", 301), ("highdim", 301), ("direct", 2100), ("direct-soft", 1001)):
        cls, kw, n, dk = singles()[name]
        X = base(n, m=rows)
        for seed in range(3):
            np.random.seed(seed)
            m = cls(**kw)
            rec.state(("genuine", name, seed))
            with watching(cls) as log:
                out = rec.call(m.bootstrap, X, 3)
            if not out.ok:
                continue
            res = out.value
            rows = res.resampled_indices_
            if rows is None:
                if len(log) != 3:
                    continue
                rows = [[int(np.argmin(np.abs(X - r).sum(1))) for r in D] for D in log]
            rows = [np.ravel(np.asarray(r)) for r in rows]
            if any(len(r) != len(X) for r in rows):
                rec.fail("a resample does not have as many rows as the data", estimator=name)
                continue
            if any(len(set(r.tolist())) == len(X) for r in rows):
                rec.fail("the draw is not with replacement", estimator=name)
                continue
            if len({tuple(r.tolist()) for r in rows}) != 3:
                rec.fail("replicates reuse one draw", estimator=name)
                continue
            if uneven(rows, len(X)):
                rec.fail("some rows are not drawn", estimator=name)
                continue
            for k in range(3):
                mm = cls(**kw)
                if rec.call(mm.fit, X[rows[k]]).ok and not same(np.asarray(res.adjacency_matrices_[k]), np.asarray(mm.adjacency_matrix_)):
                    rec.fail("a replicate is not the model a fresh estimator gives on its recorded rows", estimator=name, replicate=k)
                    break
            rec.trace()


def long_run(rec, name, n, rows, count, salt=3):
    """Many replicates and more variables: every one of them is the refit of its rows, with its own path sums, and draws do not recur."""
    import lingam
    cls, kw = {"direct": (lingam.DirectLiNGAM, {}), "ica": (lingam.ICALiNGAM, {"random_state": 3}), "highdim": (lingam.HighDimDirectLiNGAM, {}),
               "rcd": (lingam.RCD, {}), "parce": (lingam.BottomUpParceLiNGAM, {"alpha": 0.01})}[name]
    X = base(n, 1, m=rows)
    np.random.seed(5)
    rec.state(("long run", name, n, rows, count, salt))
    with salted(salt if name in ("rcd", "parce") else None):
        with watching(cls) as log:
            out = rec.call(cls(**kw).bootstrap, X, count)
        if not out.ok:
            rec.fail("bootstrap failed", estimator=name, variables=n, got=repr(out))
            return
        res = out.value
        if len(res.adjacency_matrices_) != count or len(res.total_effects_) != count:
            rec.fail("number of replicates differs from the number requested", estimator=name, got=len(res.adjacency_matrices_), want=count)
            return
        if len(log) != count:
            return
        seen, drawn = set(), []
        for k, D in enumerate(log):
            rec.state(("long run", name, n, salt, k))
            mm = cls(**kw)
            if D.tobytes() in seen:
                rec.fail("replicates reuse one draw", estimator=name, replicate=k)
                return
            seen.add(D.tobytes())
            if res.resampled_indices_ is not None and not np.array_equal(X[np.ravel(res.resampled_indices_[k])], D):
                rec.fail("recorded resample indices are not the rows used", estimator=name, replicate=k)
                return
            drawn.append(np.abs(D[:, None, :] - X[None]).sum(2).argmin(1))
            if not rec.call(mm.fit, D).ok:
                continue
            B = np.asarray(mm.adjacency_matrix_)
            if not same(np.asarray(res.adjacency_matrices_[k]), B):
                rec.fail("a replicate is not the model a fresh estimator gives on its resample", estimator=name, replicate=k,
                         got=res.adjacency_matrices_[k], want=B)
                return
            if is_dag(B) and not same(np.asarray(res.total_effects_[k]), expected_effects(mm, B), 1e-7):
                rec.fail("recorded total effects are not those of the replicate's own matrix", estimator=name, replicate=k,
                         got=res.total_effects_[k], want=expected_effects(mm, B), B=B)
                return
            rec.trace()
        if uneven(drawn, rows):
            rec.fail("some rows are not drawn", estimator=name, rows=rows)


def genuine_groups(rec, count=2, sizes=((30, 44, 25), (301, 120, 60), (12, 12, 12))):
    """Default draw: every group contributes as many of its own rows as it has, drawn with replacement, anew per replicate."""
    for name, rows in itertools.product(("mgdirect", "mgdirect3", "mgrcd"), sizes):
        cls, kw, g = groups()[name]
        if "rcd" in name and max(rows) > 100:
            continue
        Xs = [base(3, k, m=rows[k]) for k in range(g)]
        for seed in range(2):
            np.random.seed(seed)
            rec.state(("genuine", name, rows, seed))
            with watching(cls) as log:
                out = rec.call(cls(**kw).bootstrap, Xs, count)
            if not out.ok or len(log) != count:
                continue
            drawn = []
            for D in log:
                if [len(x) for x in D] != [len(x) for x in Xs]:
                    rec.fail("a resample does not have as many rows as the data", estimator=name, got=[len(x) for x in D], want=rows)
                    break
                idx = []
                for x, X in zip(D, Xs):
                    dist = np.abs(x[:, None, :] - X[None]).sum(2)
                    if dist.min(1).max() > 0:
                        rec.fail("a resample contains rows its group does not have", estimator=name)
                        break
                    idx.append(tuple(dist.argmin(1).tolist()))
                    if len(set(idx[-1])) == len(X):
                        rec.fail("the draw is not with replacement", estimator=name)
                        break
                drawn.append(tuple(idx))
            if len(drawn) == count and any(len({d[g_] for d in drawn}) != count for g_ in range(len(Xs))):
                rec.fail("replicates reuse one draw", estimator=name)
            for g_, X in enumerate(Xs):
                if len(drawn) == count and uneven([d[g_] for d in drawn], len(X)):
                    rec.fail("some rows are not drawn", estimator=name, group=g_)
            rec.trace()


def invalid(rec):
    import lingam
    X3 = base(3)
    ts = series(2)
    for name, (cls, kw, n, dk) in singles().items():
        for bad in (0, -1, 2.5, "3", None, 1.0):
            rec.state(("inv", name, repr(bad)))
            out = rec.call(cls(**kw).bootstrap, base(n), bad)
            if out.ok or not isinstance(out.exc, (ValueError, TypeError)):
                rec.fail("an invalid number of replicates is not rejected", estimator=name, count=repr(bad), got=repr(out)[:200])
            rec.trace()
    for name, (cls, kw, g) in groups().items():
        for bad in (0, -1, 2.5, "3", None):
            rec.state(("inv", name, repr(bad)))
            out = rec.call(cls(**kw).bootstrap, [X3, X3 * 1.1], bad)
            if out.ok or not isinstance(out.exc, (ValueError, TypeError)):
                rec.fail("an invalid number of replicates is not rejected", estimator=name, count=repr(bad), got=repr(out)[:200])
            rec.trace()
    for name, mk, data in (("var", lambda: lingam.VARLiNGAM(lags=1), ts),
                           ("longitudinal", lambda: lingam.LongitudinalLiNGAM(), [X3, X3[::-1] * 1.3])):
        for bad in (-1, 2.5, "3", None):
            rec.state(("inv", name, repr(bad)))
            out = rec.call(mk().bootstrap, data, bad)
            if out.ok:
                rec.fail("an invalid number of replicates is not rejected", estimator=name, count=repr(bad))
            rec.trace()


def tasks(tier):
    th = tier != "quick"
    T = [("genuine", {}), ("genuine_groups", {}), ("invalid", {})]
    for name in singles():
        slow = "kernel" in name or "fcorr" in name
        d, c = (2, 4) if slow else (3, 4)
        if th:
            d, c = (3, 4) if slow else (4, 5)
        for f in range(c):
            T.append(("single", dict(name=name, depth=d, nchoices=c, first=f)))
    for name in groups():
        d, c = (1, 3) if "3" in name else (2, 2)
        if "rcd" in name:
            d, c = (2, 2)
        if th:
            d, c = (2, 3)
        for f in range(c):
            T.append(("group", dict(name=name, depth=d, nchoices=c, first=f)))
    for salt in range(24 if th else 10):
        for name in ("rcd", "rcd4", "rcd-fcorr", "parce", "parce4", "parce-fcorr"):
            T.append(("single", dict(name=name, depth=2, nchoices=5 if th else 4, salt=salt)))
        for name in ("mgrcd", "mgrcd-fcorr", "mgrcd-four"):
            T.append(("group", dict(name=name, depth=2 if th else 1, nchoices=3, salt=salt)))
    for p, lags, prune, crit in itertools.product((2, 3), (1, 2), (False, True), (None, "bic")):
        T.append(("var", dict(p=p, lags=lags, prune=prune, criterion=crit, nchoices=4 if th else 3, depth=3 if th else 2)))
    seqs = [(0,), (2, 1), (1, 3)] + ([(3, 2, 1), (2, 2)] if th else [])
    for order, prune, crit in [((1, 1), False, None), ((1, 1), True, None), ((2, 1), False, None), ((1, 2), False, None)] + ([((1, 1), False, "bic"), ((2, 2), False, None)] if th else []):
        for s in seqs:
            T.append(("varma", dict(order=order, prune=prune, criterion=crit, seqs=[s])))
    T += [("long_run", dict(name=nm, n=n, rows=r, count=c)) for nm, n, r, c in
          (("direct", 3, 30, 130), ("direct", 9, 40, 4), ("direct", 12, 40, 1), ("ica", 3, 30, 40), ("ica", 8, 60, 3), ("highdim", 3, 30, 40),
           ("highdim", 7, 40, 3), ("rcd", 3, 30, 25), ("rcd", 6, 30, 3), ("parce", 3, 30, 25), ("parce", 7, 30, 3),
           ("direct", 3, 15, 30), ("ica", 3, 15, 30), ("highdim", 3, 15, 30), ("rcd", 3, 15, 30), ("parce", 3, 15, 30))]
    T += [("long_run", dict(name=nm, n=n, rows=30, count=2, salt=s)) for nm in ("parce",) for n in (5, 6, 8) for s in range(10, 26)]
    T.append(("genuine_groups", dict(count=30, sizes=((15, 17, 14),))))
    for p, lags, m, count in ((2, 1, 60, 20), (2, 1, 18, 30), (2, 2, 300, 4), (3, 1, 1200, 2), (4, 2, 120, 4)):
        T += [("genuine_series", dict(kind="var", p=p, order=lags, m=m, count=count, seed=sd)) for sd in (0, 1)]
    for order, m, count in (((1, 1), 60, 3), ((2, 1), 200, 2)):
        T.append(("genuine_series", dict(kind="varma", p=2, order=order, m=m, count=count, seed=0)))
    for lags in (3, 4):
        T.append(("var", dict(p=2, lags=lags, prune=False, criterion=None, nchoices=3, depth=1)))
    T.append(("var", dict(p=5, lags=1, prune=False, criterion=None, nchoices=2, depth=1)))
    T.append(("longitudinal", dict(T=3, n_lags=1, p=2, seeds=[1, 2], n_sampling=2, start=None, m=230)))
    T.append(("longitudinal", dict(T=6, n_lags=3, p=2, seeds=[1], n_sampling=2, start=None)))
    T.append(("longitudinal", dict(T=3, n_lags=1, p=5, seeds=[1], n_sampling=2, start=None, m=60)))
    T.append(("longitudinal", dict(T=3, n_lags=1, p=2, seeds=[1], n_sampling=40, start=None)))
    for TT, L, p, st in ((2, 1, 2, None), (3, 1, 2, None), (3, 1, 3, None), (3, 2, 2, 2), (4, 2, 2, 2), (4, 2, 2, None), (3, 1, 2, 0)):
        T.append(("longitudinal", dict(T=TT, n_lags=L, p=p, seeds=list(range(12 if th else 4)), n_sampling=2, start=st)))
    return T
