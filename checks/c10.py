"""C10  Latent-confounder results are structurally coherent.

The statistical tests are the environment: every question put to an independence / correlation / normality test is a
choice point (identified by the numbers it was asked about, so the same question always gets the same answer within one
execution). All answer sequences within a bounded number of deviations from a default assignment are explored on the
real estimators; every execution is checked for structural coherence and compared with a reference implementation of
the published procedure that reads the same answers."""
import contextlib
import itertools
import zlib

import numpy as np

from mc.env import explore, replaced
from mc.gen import dags, lingam_data, rng, weights
from mc.oracle import LinGam, dependence

PROPERTY = "C10"
BOUNDS = ("default assignments at n=5..9 and for 3 and 5 groups; n=2: all answer sequences; n=3: all sequences within 2 deviations (thorough 3) of 10 default assignments; n=4: within 1 (2), CAM-UV within 2 of all-dependent; many further default assignments at n=4; "
          "two groups; exact verdicts with every single hidden common cause on 3 observed variables")
ASSUMPTIONS = ["a statistical test is a function of the numbers it is given (same numbers, same answer), symmetric in its two arguments",
               "additive-model regression replaced by least squares (its fit is trusted)"]


# ------------------------------------------------------------------ the environment
STEP = 0.8  # the stand-in for the numerical optimiser moves every coefficient to this multiple of its start
ALPHA = {"ind": 0.1, "cor": 0.01, "gauss": 0.001}
_proj = {}


def col_key(x):
    x = np.ravel(np.asarray(x, float))
    x = x - x.mean()
    s = np.sqrt(np.mean(x * x))
    if s < 1e-9:
        return ("const", len(x))
    x = x / s
    if len(x) not in _proj:
        _proj[len(x)] = rng("proj", len(x)).normal(size=(2, len(x)))
    r = _proj[len(x)]
    return tuple(round(float(v), 4) + 0.0 for v in r @ x / np.sqrt(len(x)))


def key_of(x):
    x = np.asarray(x, float)
    if x.ndim == 1:
        x = x[:, None]
    return tuple(sorted(col_key(c) for c in x.T))


class Answers:
    """Memoised answers of one execution."""

    def __init__(self, chooser, salt, levels, exact=False):
        self.ch, self.salt, self.levels, self.exact = chooser, salt, levels, exact
        self.memo = {}
        self.bw = "mdbs"
        self.alpha, self.limit, self.level = ALPHA, 0.5, None
        self.optimised = []

    def default(self, kind, key, n):
        if self.salt == "all0":
            return 0
        if self.salt == "all1":
            return n - 1 if kind == "ind" else 0
        h = zlib.crc32(repr((self.salt, kind, key)).encode())
        if kind != "ind":
            return 0 if h % 8 else 1
        if isinstance(self.salt, str):  # mostly dependent
            return (0, 0, 0, 0, 0, 1, n - 1, n - 1)[h % 8]
        return h % n

    def ask(self, kind, *xs, how=()):
        key = (kind,) + tuple(sorted(key_of(x) for x in xs)) + how
        if key not in self.memo:
            if self.exact:
                if kind == "gauss":
                    c = 0
                elif kind == "cor":
                    a, b = (np.ravel(x) - np.mean(x) for x in xs)
                    c = int(abs(a @ b) / np.sqrt((a @ a) * (b @ b) + 1e-300) < 1e-8)
                else:
                    c = 9 if dependence(*xs) < 1e-9 else 0
                self.memo[key] = self.levels[kind][min(c, len(self.levels[kind]) - 1)]
                return self.memo[key]
            lv = self.levels[kind]
            c = (self.default(kind, key, len(lv)) + self.ch.choose(len(lv))) % len(lv)
            # answers differ slightly from each other so that no comparison depends on how ties are broken
            p = lv[c] * (1 + 1e-3 * (zlib.crc32(repr(key).encode()) % 997) / 997) if lv[c] else 0.0
            self.memo[key] = p
        return self.memo[key]

    def ind(self, x, y, bw=None):
        bw = bw or self.bw
        return self.ask("ind", x, y, how=() if bw == "mdbs" else (bw,))

    def cor(self, x, y):
        return self.ask("cor", x, y)

    def gauss(self, x):
        return self.ask("gauss", x)

    @contextlib.contextmanager
    def installed(self):
        from lingam.hsic import hsic_test_gamma
        from lingam.utils import f_correlation
        from pygam import LinearGAM
        from scipy.optimize import fmin_l_bfgs_b
        from scipy.stats import pearsonr, shapiro

        def hs(x, y, bw_method="mdbs"):
            p = self.ind(x, y, bw_method)
            return (1e6 if p == 0 else -2 * np.log(p), p)

        def fc(x, y, *a, **k):
            for v in (x, y):
                if np.size(v) != len(v):
                    raise ValueError("f_correlation takes two single variables")
            return 1 - self.ind(x, y, "mdbs")

        def optimise(func, x0, *a, **k):
            x0 = np.asarray(x0, float)
            self.optimised.append((float(func(x0)), float(func(STEP * x0))))
            return STEP * x0, self.optimised[-1][1], {}

        with replaced((hsic_test_gamma, hs), (f_correlation, fc), (LinearGAM, LinGam), (fmin_l_bfgs_b, optimise),
                      (pearsonr, lambda x, y, *a, **k: (0.5, self.cor(x, y))), (shapiro, lambda x, *a, **k: (0.5, self.gauss(x)))):
            yield


# ------------------------------------------------------------------ reference procedures
def ols(X, y, Z):
    Z = sorted(Z)
    if not Z:
        return X[:, y], np.zeros(0)
    A = np.c_[np.ones(len(X)), X[:, Z]]
    c = np.linalg.lstsq(A, X[:, y], rcond=None)[0]
    return X[:, y] - A @ c, c[1:]


def pooled(ps):
    from scipy.stats import chi2
    if len(ps) == 1:
        return ps[0]
    if min(ps) == 0:
        return 0.0
    return float(chi2.sf(-2 * np.sum(np.log(ps)), 2 * len(ps)))


def spread(x):
    d = (x[:, None] - x[None, :]) ** 2
    d = d[np.triu_indices(len(x), 1)]
    return np.sqrt(0.5 * np.median(d[d > 0]))


def centred(x, w):
    K = np.exp(-(x[:, None] - x[None, :]) ** 2 / (2 * w * w))
    return K - K.mean(0)[None, :] - K.mean(1)[:, None] + K.mean()


def dependences(y, Z, c):
    """Sum of the HSIC statistics between the residual and every regressor (the objective of MLHSICR)."""
    K = centred(y - Z @ c, spread(y) - sum(b * spread(z) for b, z in zip(c, Z.T)))
    return float(sum(np.sum(K * centred(z, spread(z))) / len(y) for z in Z.T))


def ref_rcd(XS, q, fcorr, ind_corr, max_expl, ml=False):
    n = XS[0].shape[1]
    gauss = lambda cols: pooled([q.gauss(c) for c in cols]) > q.alpha["gauss"]
    corr = lambda a, b: pooled([q.cor(x, y) for x, y in zip(a, b)]) < q.alpha["cor"]
    objectives = []

    def indep(a, b):
        ps = [q.ind(x, y, "mdbs" if fcorr else None) for x, y in zip(a, b)]
        return max(1 - p for p in ps) < ind_corr if fcorr else pooled(ps) > q.alpha["ind"]

    M = [set() for _ in range(n)]
    seen, size = {}, 2
    while True:
        changed = False
        for U in itertools.combinations(range(n), size):
            H = set.intersection(*[M[v] for v in U])
            if seen.get(U) == H:
                continue
            Y = [{v: ols(X, v, H)[0] for v in U} for X in XS]
            if any(gauss([y[v] for y in Y]) for v in U):
                continue
            if not all(corr([y[a] for y in Y], [y[b] for y in Y]) for a, b in itertools.combinations(U, 2)):
                continue
            sinks = []
            for s in U:
                rest = [v for v in U if v != s]
                if any(s in M[v] for v in rest) or set(rest) <= M[s]:
                    continue
                res, moved = [], []
                for y in Y:
                    Z = np.column_stack([y[v] for v in rest] + [y[s]])
                    r, c = ols(Z, len(rest), range(len(rest)))
                    res.append(r)
                    if ml and len(rest) > 1:
                        moved.append((y[s], Z[:, :-1], c))
                if all(indep(res, [y[v] for y in Y]) for v in rest):
                    sinks.append(s)
                elif moved:
                    objectives += [(dependences(a, Z, c), dependences(a, Z, STEP * c)) for a, Z, c in moved]
                    if all(indep([a - Z @ (STEP * c) for a, Z, c in moved], [y[v] for y in Y]) for v in rest):
                        sinks.append(s)
            if len(sinks) == 1:
                new = M[sinks[0]] | (set(U) - set(sinks))
                changed |= new != M[sinks[0]]
                M[sinks[0]] = new
            seen[U] = H
        if changed:
            size = 2
        elif size < max_expl + 1:
            size += 1
        else:
            break
    P = [{j for j in M[i] if corr([ols(X, j, M[i] & M[j])[0] for X in XS], [ols(X, i, M[i] - {j})[0] for X in XS])} for i in range(n)]
    Bs = []
    conf = [(i, j) for i, j in itertools.combinations(range(n), 2) if i not in P[j] and j not in P[i]
            and corr([ols(X, i, P[i])[0] for X in XS], [ols(X, j, P[j])[0] for X in XS])]
    for X in XS:
        B = np.zeros((n, n))
        for i in range(n):
            if P[i]:
                B[i, sorted(P[i])] = ols(X, i, P[i])[1]
        for i, j in conf:
            B[i, j] = B[j, i] = np.nan
        Bs.append(B)
    return {"ancestors": M, "parents": P, "B": Bs, "objectives": objectives}


def ref_camuv(XS, q, fcorr, alpha, ind_corr, max_vals, pk=()):
    n = XS[0].shape[1]
    score = lambda ps: -max(1 - p for p in ps) if fcorr else pooled(ps)
    limit = -ind_corr if fcorr else alpha
    # kernel correlation compares two variables: with several explanatory ones the largest counts
    cols = lambda y: [y] if not fcorr or np.ndim(y) == 1 else [y[:, k] for k in range(y.shape[1])]
    val = lambda a, b: score([q.ind(x, c) for x, y in zip(a, b) for c in cols(y)])
    indep = lambda a, b: val(a, b) > limit
    res = lambda i, Z: [ols(X, i, Z)[0] for X in XS]
    N = [{j for j in range(n) if j != i and not indep([X[:, min(i, j)] for X in XS], [X[:, max(i, j)] for X in XS])} for i in range(n)]
    P = [set() for _ in range(n)]
    Y = [X.copy() for X in XS]
    t = 2
    while True:
        changed = False
        for S in itertools.combinations(range(n), t):
            if any(a in P[b] or b in P[a] for a, b in itertools.combinations(S, 2)):
                continue
            best, child = None, None
            for c in S:
                rest = [v for v in S if v != c]
                if any((r, c) in pk for r in rest) or any(r not in N[c] for r in rest):
                    continue
                v = val(res(c, set(rest) | P[c]), [y[:, rest] for y in Y])
                if (v > 0 or fcorr and v > -1) and (best is None or v > best):
                    best, child = v, c
            if child is None or not best > limit:
                continue
            rest = [v for v in S if v != child]
            if any(indep([y[:, child] for y in Y], [y[:, r] for y in Y]) for r in rest):
                continue
            P[child] |= set(rest)
            changed = True
            for y, r in zip(Y, res(child, P[child])):
                y[:, child] = r
        if changed:
            t = 2
        else:
            t += 1
            if t > max_vals:
                break
    for i in range(n):
        P[i] = {j for j in P[i] if not indep(res(i, P[i] - {j}), res(j, P[j]))}
    B = np.zeros((n, n))
    for i in range(n):
        for j in P[i]:
            B[i, j] = 1
    for i, j in itertools.combinations(range(n), 2):
        if i not in P[j] and j not in P[i] and j in N[i] and not indep(res(i, P[i]), res(j, P[j])):
            B[i, j] = B[j, i] = np.nan
    return {"parents": P, "B": [B]}


class Squares:
    """A user-given regressor: least squares on the variables and their squares."""

    def fit(self, X, y):
        self.c = np.linalg.lstsq(self._d(X), np.ravel(y), rcond=None)[0]
        return self

    def predict(self, X):
        return self._d(X) @ self.c

    def _d(self, X):
        X = np.asarray(X, float)
        return np.c_[np.ones(len(X)), X, X ** 2]


def ref_parce(X, q, fcorr, alpha, ind_corr, before=(), squares=False):
    """before: required order pairs (a, b), a earlier than b."""
    from scipy.stats import chi2
    n = X.shape[1]
    rest, tail = list(range(n)), []
    while len(rest) > 1:
        best, sink = None, None
        for s in rest:
            if any(a == s and b in rest for a, b in before):
                continue
            Z = [v for v in rest if v != s]
            r = X[:, s] - Squares().fit(X[:, Z], X[:, s]).predict(X[:, Z]) if squares == 1 else ols(X, s, Z)[0]
            ps = [q.ind(X[:, v], r) for v in Z]
            if fcorr:
                v = -max(1 - p for p in ps)
            else:
                v = -np.inf if min(ps) == 0 else 2 * np.sum(np.log(ps))
            if sink is None or v > best:
                best, sink = v, s
        if sink is None:
            raise ValueError("contradictory")
        if fcorr:
            ok = -best < ind_corr
        else:
            p = 0.0 if best == -np.inf else float(np.exp(best / 2)) if len(rest) == 2 else float(chi2.sf(-best, 2 * (len(rest) - 1)))
            ok = p >= alpha / (n - 1)
        if not ok:
            break
        tail.insert(0, sink)
        rest.remove(sink)
    return ([sorted(rest)] if len(rest) > 1 else [[v] for v in rest]) + [[v] for v in tail]


# ------------------------------------------------------------------ coherence
def coherent(B, ancestors=None, X=None, parents_regression=True):
    B = np.asarray(B, float)
    n = len(B)
    if B.shape != (n, n) or np.isinf(B).any():
        return "matrix is not square and finite or unknown"
    for i in range(n):
        if not B[i, i] == 0:
            return "non-zero diagonal"
        for j in range(n):
            if i == j:
                continue
            if np.isnan(B[i, j]) != np.isnan(B[j, i]):
                return "unknown pair is not symmetric (or coexists with an edge)"
            if not np.isnan(B[i, j]) and B[i, j] != 0 and B[j, i] != 0:
                return "edges in both directions"
    if ancestors is not None:
        if len(ancestors) != n:
            return "not one ancestor set per variable"
        for i in range(n):
            pa = {j for j in range(n) if not np.isnan(B[i, j]) and B[i, j] != 0}
            if not pa <= set(ancestors[i]):
                return "a parent is not among the ancestors"
            if i in ancestors[i]:
                return "a variable is its own ancestor"
            if any(i in ancestors[j] for j in ancestors[i]):
                return "two variables are ancestors of each other"
            if X is not None and pa:
                if not np.allclose(B[i, sorted(pa)], ols(X, i, pa)[1], atol=1e-6, rtol=1e-6):
                    return "coefficients are not the regression on the reported parents"
    return None


def dat(n, k, m=12):
    r = rng("c10", n, k)
    B = np.tril(r.choice([1.0, -0.7, 0.5], size=(n, n)), -1)
    return (r.uniform(-1, 1, (m, n)) ** 3) @ np.linalg.inv(np.eye(n) - B).T + 0.1 * np.arange(n)


def run_rcd(q, XS, fcorr, max_expl, ml=False):
    import lingam
    kw = dict(max_explanatory_num=max_expl, cor_alpha=q.alpha["cor"], ind_alpha=q.alpha["ind"], shapiro_alpha=q.alpha["gauss"], MLHSICR=ml, bw_method=q.bw, independence="fcorr" if fcorr else "hsic", ind_corr=q.limit)
    with q.installed():
        if len(XS) == 1:
            m = lingam.RCD(**kw)
            m.fit(XS[0])
            return {"ancestors": [set(a) for a in m.ancestors_list_], "B": [np.asarray(m.adjacency_matrix_)]}
        m = lingam.MultiGroupRCD(**kw)
        m.fit(list(XS))
        return {"ancestors": [set(a) for a in m.ancestors_list_], "B": [np.asarray(b) for b in m.adjacency_matrices_]}


def run_ancestors(q, X, max_expl, ml=False):
    from lingam.utils import extract_ancestors
    with q.installed():
        return [set(a) for a in extract_ancestors(X, max_explanatory_num=max_expl, cor_alpha=q.alpha["cor"], ind_alpha=q.alpha["ind"],
                                                  shapiro_alpha=q.alpha["gauss"], MLHSICR=ml, bw_method=q.bw)]


def run_camuv(q, XS, fcorr, max_vals, pk):
    import lingam
    kw = dict(num_explanatory_vals=max_vals, alpha=q.level or 0.01, prior_knowledge=[tuple(p) for p in pk] or None, independence="fcorr" if fcorr else "hsic", ind_corr=q.limit)
    with q.installed():
        m = (lingam.CAMUV if len(XS) == 1 else lingam.MultiGroupCAMUV)(**kw)
        m.fit(XS[0] if len(XS) == 1 else list(XS))
        return {"B": [np.asarray(m.adjacency_matrix_)]}


def run_parce(q, X, fcorr, pk, squares=False):
    import lingam
    from sklearn.linear_model import LinearRegression
    with q.installed():
        m = lingam.BottomUpParceLiNGAM(alpha=0.1 if q.level is None else q.level, regressor=LinearRegression() if squares == "linear" else Squares() if squares else None, prior_knowledge=pk, independence="fcorr" if fcorr else "hsic", ind_corr=q.limit)
        m.fit(X)
        order = [[int(v) for v in o] if hasattr(o, "__iter__") else [int(o)] for o in m.causal_order_]
        return {"order": order, "B": [np.asarray(m.adjacency_matrix_)]}


def eqB(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, atol=1e-6, rtol=1e-6, equal_nan=True) for x, y in zip(a, b))


LEVELS = {
    # every answer lies between two of the three significance levels, so that no test can borrow another one's level unnoticed
    "rcd": {"ind": [0.05, 0.7], "cor": [0.005, 0.06], "gauss": [1e-4, 0.005]},
    "mg-rcd": {"ind": [1e-9, 0.13, 0.7], "cor": [1e-9, 0.013, 0.06], "gauss": [1e-9, 0.005]},
    "camuv": {"ind": [1e-9, 0.3, 0.7]},
    "mg-camuv": {"ind": [1e-9, 0.02, 0.7]},
    "parce": {"ind": [0.0, 0.04, 0.13, 0.7]},  # around alpha/(n-1) and around what Fisher's method pools to it
}
FLEVELS = {"rcd": [0.1, 0.8], "mg-rcd": [0.1, 0.6, 0.8], "camuv": [0.1, 0.6, 0.8], "mg-camuv": [0.1, 0.6, 0.8], "parce": [0.1, 0.6, 0.8]}


def one(rec, q, algo, XS, fcorr, opt, info):
    """One execution of the implementation and of the reference under the same answers."""
    q.bw = opt.get("bw", "mdbs")
    q.alpha, q.limit, q.level = dict(ALPHA, **opt.get("alpha", {})), opt.get("limit", 0.5), opt.get("level")
    ml = bool(opt.get("ml"))
    if algo in ("rcd", "mg-rcd"):
        out = rec.call(run_rcd, q, XS, fcorr, opt.get("max_expl", 2), ml)
        want = lambda: ref_rcd(XS, q, fcorr, q.limit, opt.get("max_expl", 2), ml)
    elif algo == "ancestors":
        out = rec.call(run_ancestors, q, XS[0], opt.get("max_expl", 2), ml)
        want = lambda: ref_rcd(XS, q, False, q.limit, opt.get("max_expl", 2), ml)
    elif algo in ("camuv", "mg-camuv"):
        pk = [tuple(p) for p in opt.get("pk", [])]
        out = rec.call(run_camuv, q, XS, fcorr, opt.get("max_vals", 2), pk)
        want = lambda: ref_camuv(XS, q, fcorr, q.level or 0.01, q.limit, opt.get("max_vals", 2), pk)
    else:
        pk = None
        before = [tuple(p) for p in opt.get("before", [])]
        if before:
            pk = -np.ones((XS[0].shape[1],) * 2, int)
            for a, b in before:
                pk[b, a] = 1
        sq = opt.get("squares")
        out = rec.call(run_parce, q, XS[0], fcorr, pk, sq)
        want = lambda: ref_parce(XS[0], q, fcorr, 0.1 if q.level is None else q.level, q.limit, before, sq)
    if not out.ok:
        rec.fail(f"{algo}: fit failed under some test outcomes: {out!r}"[:200], **info)
        return
    got = out.value
    rec.trace()
    followed = not ml or optimiser_seen(algo)
    if algo == "ancestors":
        if followed and got != want()["ancestors"]:
            rec.fail("ancestor extraction differs from the published procedure", got=str(got), **info)
        return
    for g, B in enumerate(got["B"]):
        why = coherent(B, got.get("ancestors"), XS[g] if algo in ("rcd", "mg-rcd") else None)
        if why:
            rec.fail(f"{algo}: {why}", B=B, ancestors=str(got.get("ancestors")), **info)
            return
    if algo == "parce":
        flat = [v for b in got["order"] for v in b]
        n = len(got["B"][0])
        if sorted(flat) != list(range(n)) or any(len(b) > 1 for b in got["order"][1:]):
            rec.fail("parce: causal order is not a partition with one leading unresolved block", order=str(got["order"]), **info)
            return
        blk = {(a, b) for o in got["order"] for a in o for b in o if a != b}
        B = got["B"][0]
        if {(i, j) for i in range(n) for j in range(n) if np.isnan(B[i, j])} != blk:
            rec.fail("parce: the unresolved block is not the set of unknown pairs", order=str(got["order"]), B=B, **info)
            return
        pos = {v: k for k, o in enumerate(got["order"]) for v in o}
        if any(B[i, j] == B[i, j] and B[i, j] != 0 and not pos[j] < pos[i] for i in range(n) for j in range(n)):
            rec.fail("parce: an edge points backwards in the causal order", order=str(got["order"]), B=B, **info)
            return
        w = want()
        if [sorted(o) for o in got["order"]] != w:
            rec.fail("parce: causal order differs from the published procedure", got=str(got["order"]), want=str(w), **info)
        return
    if not followed:  # another numerical optimiser is in use: coherence only
        return
    w = want()
    if ml:
        bad = [o for o in q.optimised if not any(np.allclose(o, v, rtol=1e-6, atol=1e-9) for v in w["objectives"])]
        if bad:
            rec.fail(f"{algo}: the criterion minimised is not the sum of the dependences on the regressors", got=str(bad[:3]), want=str(w["objectives"][:6]), **info)
    if algo in ("rcd", "mg-rcd") and got["ancestors"] != w["ancestors"]:
        rec.fail(f"{algo}: ancestors differ from the published procedure", got=str(got["ancestors"]), want=str(w["ancestors"]), **info)
    elif not eqB(got["B"], w["B"]):
        rec.fail(f"{algo}: matrix differs from the published procedure", got=str(got["B"]), want=str(w["B"]), **info)


_optimiser = {}


def optimiser_seen(algo):
    """Whether the numerical optimiser this library uses is the one replaced by the stand-in."""
    if algo not in _optimiser:
        XS = [dat(3, 0), dat(3, 100, m=15)][: 2 if algo.startswith("mg") else 1]
        q = Answers(None, "all0", LEVELS["mg-rcd" if algo == "mg-rcd" else "rcd"])
        q.ch = type("C", (), {"choose": staticmethod(lambda n: 0)})
        run_ancestors(q, XS[0], 2, True) if algo == "ancestors" else run_rcd(q, XS, False, 2, True)
        _optimiser[algo] = bool(q.optimised)
    return _optimiser[algo]


def verdicts(rec, algo, n, salt, dev, fcorr=False, data=0, opt=None, max_paths=10 ** 9):
    opt = opt or {}
    lv = dict(LEVELS["rcd" if algo == "ancestors" else algo])
    if fcorr:
        lv["ind"] = ([0.0] if opt.get("limit") == 1.0 else FLEVELS[algo][:1]) + FLEVELS[algo][1:]  # at the threshold itself: not below it
    elif algo.startswith("mg") and salt in ("all0", 1, 3, 5):  # tests so decisive that the p-value underflows
        lv = {k: [0.0] + v[1:] for k, v in lv.items()}
    XS = [dat(n, data)] + ([dat(n, data + 100 * k, m=12 + 3 * k) for k in range(1, opt.get("groups", 2))] if algo.startswith("mg") else [])

    def run(ch):
        q = Answers(ch, salt, lv)
        one(rec, q, algo, XS, fcorr, opt, dict(n=n, default=salt, options=str(opt), fcorr=fcorr, data=data, answers=ch.taken))
        return len(q.memo)

    for taken, asked, cut in explore(run, max_depth=200, max_dev=dev, max_paths=max_paths):
        rec.state((algo, n, salt, fcorr, data, repr(opt), taken))
    rec.sample({"algo": algo, "n": n, "default": salt, "deviations": dev, "questions": asked})


def many(rec, algo, n, salts, opt=None):
    """Many default assignments, each the root of its own tree (no deviations)."""
    for s in range(*salts):
        verdicts(rec, algo, n, f"d{s}" if s % 2 else s, 0, data=s % 7, opt=opt)


def hidden(rec, lo, hi, algo):
    """Exact verdicts: every 3-variable DAG with a hidden common cause of every pair (or all three)."""
    for A in dags(3)[lo:hi]:
        for hid in [(), (0, 1), (0, 2), (1, 2), (0, 1, 2)]:
            B = np.zeros((4, 4))
            B[:3, :3] = weights(A, [0.8, -1.2, 0.6], 0)
            for k, v in enumerate(hid):
                B[v, 3] = [0.9, -0.7, 1.1][k]
            L = 5 if algo in ("rcd", "parce") else 4
            X = lingam_data(B, L, kinds=[0, 1, 2, 3] if hid else [0, 1, 2, 3])[:, :3]
            if not hid:
                X = lingam_data(B[:3, :3], 6)
            lv = dict(LEVELS[algo])
            XS = [X] if not algo.startswith("mg") else [X, X * 2 + 1]
            for opt in ([{"max_expl": 2}, {"max_expl": 1}] if "rcd" in algo else [{"max_vals": 3}] if "camuv" in algo else [{}]):
                q = Answers(None, None, lv, exact=True)
                rec.state((algo, A.tobytes(), hid, repr(opt)))
                one(rec, q, algo, XS, False, opt, dict(A=A, hidden=str(hid), options=str(opt)))


def tasks(tier):
    th = tier != "quick"
    T = []
    salts = ["all0", "all1"] + list(range(8 if not th else 24))
    for algo in ("rcd", "mg-rcd", "ancestors", "camuv", "mg-camuv", "parce"):
        for fc in ((False, True) if algo != "ancestors" else (False,)):
            full = {"mg-rcd": 3, "mg-camuv": 4}.get(algo)
            T.append(("verdicts", dict(algo=algo, n=2, salt="all0", dev=full, fcorr=fc, opt={"max_expl": 1})))
            for s in salts:
                heavy = algo in ("mg-rcd", "mg-camuv", "camuv")
                dev = 3 if th else 2
                if heavy and not th:
                    dev = 2 if s in ("all0", 1) and not fc else 1
                T.append(("verdicts", dict(algo=algo, n=3, salt=s, dev=dev, fcorr=fc, opt={"max_expl": 2, "max_vals": 3 if s != 2 else 2})))
                if not fc or th:
                    T.append(("verdicts", dict(algo=algo, n=4, salt=s, dev=1 if not th else 2 if not heavy else 1, fcorr=fc, data=1,
                                               opt={"max_expl": [1, 2, 3][salts.index(s) % 3], "max_vals": [2, 3, 4][salts.index(s) % 3]})))
    for algo in ("rcd", "mg-rcd", "ancestors"):
        for s in salts[:6] if not th else salts:
            for fc in (False, True) if algo != "ancestors" else (False,):
                T.append(("verdicts", dict(algo=algo, n=3, salt=s, dev=2 if th else 1, fcorr=fc, opt={"max_expl": 2, "ml": 1})))
        for bw in ("scott", "silverman"):
            for s in (0, 1):
                T.append(("verdicts", dict(algo=algo, n=3, salt=s, dev=1, opt={"max_expl": 2, "ml": s, "bw": bw})))
    for algo, step in (("rcd", 80), ("mg-rcd", 40), ("ancestors", 80), ("camuv", 40), ("mg-camuv", 20), ("parce", 80)):
        for c in range(4 if not th else 40):
            T.append(("many", dict(algo=algo, n=4, salts=[1000 + step * c, 1000 + step * (c + 1)], opt={"max_expl": 2 + c % 2, "max_vals": 3})))
    for algo, n, cnt in (("rcd", 5, 24), ("rcd", 6, 6), ("ancestors", 5, 24), ("mg-rcd", 5, 8), ("camuv", 5, 8), ("camuv", 6, 3), ("mg-camuv", 5, 4), ("parce", 5, 40), ("parce", 7, 24), ("parce", 9, 8)):
        for c in range(2 if not th else 12):
            T.append(("many", dict(algo=algo, n=n, salts=[5000 + cnt * c, 5000 + cnt * (c + 1)], opt={"max_expl": 2 + 2 * c % 3, "max_vals": 2 + c % 2})))
    for algo, g in (("mg-rcd", 3), ("mg-rcd", 5), ("mg-camuv", 3), ("mg-camuv", 5)):
        T.append(("many", dict(algo=algo, n=3, salts=[7000, 7012], opt={"max_expl": 2, "max_vals": 3, "groups": g})))
        T.append(("verdicts", dict(algo=algo, n=2, salt=1, dev=2, opt={"max_expl": 1, "groups": g})))
        T.append(("verdicts", dict(algo=algo, n=3, salt=2, dev=1, opt={"max_expl": 2, "max_vals": 3, "groups": g})))
    for mv in (2, 3, 4):  # every history with two discoveries among four variables that all depend on each other
        T.append(("verdicts", dict(algo="camuv", n=4, salt="all0", dev=2, data=3, opt={"max_vals": mv})))
    for before in ([[0, 1]], [[0, 1], [1, 2]], [[2, 0]], [[0, 2], [1, 2]]):
        for s in salts:
            T.append(("verdicts", dict(algo="parce", n=3, salt=s, dev=2, opt={"before": before})))
    for s in salts:
        T.append(("verdicts", dict(algo="parce", n=3, salt=s, dev=2, opt={"squares": 1})))
        T.append(("verdicts", dict(algo="parce", n=3, salt=s, dev=1, opt={"squares": "linear"})))
        for algo in ("rcd", "mg-rcd", "camuv", "mg-camuv", "parce"):
            T.append(("verdicts", dict(algo=algo, n=3, salt=s, dev=1, fcorr=True, opt={"limit": 1.0, "max_expl": 2, "max_vals": 3})))
        for fc, o in ((False, {"level": 0.02}), (False, {"level": 0.0}), (False, {"level": 0.5}), (True, {"limit": 0.3}), (True, {"limit": 0.95})):
            T.append(("verdicts", dict(algo="parce", n=3, salt=s, dev=1, fcorr=fc, opt=o)))
        for algo in ("camuv", "mg-camuv"):
            for fc, o in ((False, {"level": 0.4}), (True, {"limit": 0.3})):
                T.append(("verdicts", dict(algo=algo, n=3, salt=s, dev=1, fcorr=fc, opt=dict(o, max_vals=3))))
        for algo in ("rcd", "mg-rcd", "ancestors"):
            for fc, o in ((False, {"alpha": {"ind": 0.01, "cor": 0.03, "gauss": 0.002}}), (False, {"alpha": {"ind": 0.3, "cor": 0.002, "gauss": 0.05}}), (True, {"limit": 0.3})):
                if not (fc and algo == "ancestors"):
                    T.append(("verdicts", dict(algo=algo, n=3, salt=s, dev=1, fcorr=fc, opt=dict(o, max_expl=2))))
    for pk in ([[0, 1]], [[0, 1], [2, 1]], [[0, 1], [1, 0]]):
        for s in salts[:6]:
            T.append(("verdicts", dict(algo="camuv", n=3, salt=s, dev=1, opt={"pk": pk, "max_vals": 3})))
    for algo in ("rcd", "mg-rcd", "camuv", "mg-camuv", "parce"):
        for lo in range(0, 25, 5):
            T.append(("hidden", dict(lo=lo, hi=lo + 5, algo=algo)))
    return T
