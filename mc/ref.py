"""Textbook reference of the direct (pairwise-likelihood) order search, for several groups and with prior knowledge."""
import numpy as np


def entropy(u):
    k1, k2, g = 79.047, 7.4129, 0.37457
    return (1 + np.log(2 * np.pi)) / 2 - k1 * (np.mean(np.log(np.cosh(u))) - g) ** 2 - k2 * np.mean(u * np.exp(-(u ** 2) / 2)) ** 2


def residual(x, y):
    return x - np.cov(x, y, bias=True)[0, 1] / np.var(y) * y


def soft_candidates(pk, U):
    """Variables that may come next, and the remaining ones known not to be influenced by any of them."""
    def none(i, others):
        return all(pk[i, j] == 0 for j in others)

    def rest(i):
        return [j for j in U if j != i]

    C = [i for i in U if none(i, rest(i))]
    if not C:
        later = {i for i in U if any(pk[i, j] == 1 for j in rest(i))} | {i for i in U if all(pk[j, i] == 0 for j in rest(i))}
        C = [i for i in U if i not in later]
    V = [i for i in U if i not in C and none(i, C)]
    return C, V


def direct_order(groups, pk=None, soft=False, before=None):
    """The most exogenous candidate first, evidence weighted by group size.
    Returns None at a tie and "stuck" when prior knowledge leaves no candidate. pk entries: -1 unknown, 0, 1;
    before: set of (earlier, later) pairs applied strictly."""
    X = [np.array(g, float) for g in groups]
    N = sum(len(g) for g in X)
    U, order = list(range(X[0].shape[1])), []
    while U:
        C, V = U, []
        if pk is not None and soft:
            C, V = soft_candidates(pk, U)
        elif before is not None:
            C = [i for i in U if not any(b == i and a in U for a, b in before)]
        if not C:
            return "stuck"
        T = []
        for i in C:
            tot = 0.0
            for G in X:
                for j in U:
                    if i == j:
                        continue
                    a, b = [(v - v.mean()) / v.std() for v in (G[:, i], G[:, j])]
                    r1, r2 = residual(a, b), b if j in V else residual(b, a)
                    d = entropy(b) + entropy(r1 / r1.std()) - entropy(a) - entropy(r2 / r2.std())
                    tot += len(G) / N * min(0.0, d) ** 2
            T.append(tot)
        s = np.sort(T)
        if len(s) > 1 and s[1] - s[0] < 1e-9 * (1 + s[1]):
            return None
        m = C[int(np.argmin(T))]
        for i in U:
            if i != m:
                for G in X:
                    G[:, i] = residual(G[:, i], G[:, m])
        order.append(m)
        U = [u for u in U if u != m]
    return order


def kernel_information(x, y, kappa, sigma):
    """Regularised kernel generalised variance, by determinants."""
    n = len(x)
    K, L = [np.exp(-(v[:, None] - v[None]) ** 2 / (2 * sigma ** 2)) for v in (x, y)]
    A, B = K + n * kappa / 2 * np.eye(n), L + n * kappa / 2 * np.eye(n)
    full = np.block([[A @ A, K @ L], [L @ K, B @ B]])
    return -(np.linalg.slogdet(full)[1] - 2 * np.linalg.slogdet(A)[1] - 2 * np.linalg.slogdet(B)[1]) / 2


def kernel_order(X, before=None):
    X = (X - X.mean(0)) / X.std(0)
    kappa, sigma = (2e-3, 0.5) if len(X) > 1000 else (2e-2, 1.0)
    U, order = list(range(X.shape[1])), []
    while U:
        C = U if before is None else [i for i in U if not any(b == i and a in U for a, b in before)]
        T = [sum(kernel_information(X[:, j], residual(X[:, i], X[:, j]), kappa, sigma) for i in U if i != j) for j in C]
        s = np.sort(T)
        if len(s) > 1 and s[1] - s[0] < 1e-6 * (1 + abs(s[1])):
            return None
        m = C[int(np.argmin(T))]
        for i in U:
            if i != m:
                X[:, i] = residual(X[:, i], X[:, m])
        order.append(m)
        U = [u for u in U if u != m]
    return order


def highdim_order(X, J, K, alpha):
    """Wang & Drton: the variable whose largest (over the others) smallest (over conditioning sets) moment statistic is least."""
    import itertools
    Y = X - X.mean(0)
    p = Y.shape[1]
    S = np.full((p, p), np.inf)
    left, theta, cut = list(range(p)), [], 0.0

    def tau(r, u):
        return abs(np.mean(r ** (K - 1) * Y[:, u]) * np.mean(r ** 2) - np.mean(r ** K) * np.mean(r * Y[:, u]))

    while len(left) > 1:
        for v in left:
            if not theta:
                for u in left:
                    if u != v:
                        S[v, u] = tau(Y[:, v], u)
                continue
            last = theta[-1]
            for t in theta:
                if t != last and abs(S[v, t] - cut) < 1e-9 * (1e-12 + abs(cut)):
                    return None
            cond = [t for t in theta if S[v, t] > cut or t == last]
            rest = [t for t in cond if t != last]
            for sub in itertools.combinations(rest, min(J, len(cond)) - 1):
                Z = Y[:, [last, *sub]]
                r = Y[:, v] - Z @ np.linalg.lstsq(Z, Y[:, v], rcond=None)[0]
                for u in [u for u in left if u != v] + [t for t in cond if t not in sub]:
                    S[v, u] = min(S[v, u], tau(r, u))
        T = [max(S[v, u] for u in left if u != v) for v in left]
        s = np.sort(T)
        if s[1] - s[0] < 1e-9 * (1e-12 + s[1]):
            return None
        cut = max(cut, alpha * s[0])
        r = left[int(np.argmin(T))]
        theta.append(r)
        left.remove(r)
    return theta + left


def resit_model(X, fit, test, alpha):
    """Peters et al.: the variable whose residual depends least on the others goes last; an edge is dropped exactly when
    the residual without that parent tests independent of all predecessors. fit(Z, y) -> fitted values."""
    left, order, pa = list(range(X.shape[1])), [], {}
    while len(left) > 1:
        T = []
        for k in left:
            o = [i for i in left if i != k]
            T.append(test(X[:, k] - fit(X[:, o], X[:, k]), X[:, o])[0])
        s = np.sort(T)
        if s[1] - s[0] < 1e-9 * (1 + s[1]):
            return None, None
        k = left[int(np.argmin(T))]
        left.remove(k)
        pa[k] = list(left)
        order.insert(0, k)
    order = left + order
    B = np.zeros((X.shape[1],) * 2)
    for c, k in enumerate(order[1:], 1):
        cur = pa[k]
        for j in list(cur):
            o = [i for i in cur if i != j]
            r = X[:, k] - fit(X[:, o], X[:, k]) if o else X[:, k]
            if test(r, X[:, order[:c]])[1] > alpha:
                cur = o
        B[k, cur] = 1
    return order, B


def ica_graph(W):
    """Best diagonal by brute force; then the fewest smallest entries dropped that leave an acyclic graph.
    Returns (kept entries, graph) or None at a tie."""
    import itertools

    from mc.gen import is_dag
    n = len(W)
    costs = sorted((sum(1 / abs(W[r, p[r]]) if W[r, p[r]] else np.inf for r in range(n)), p) for p in itertools.permutations(range(n)))
    if costs[1][0] - costs[0][0] < 1e-9 * costs[0][0]:
        return None
    P = np.zeros((n, n))
    for r, c in enumerate(costs[0][1]):
        P[c] = W[r] / W[r, c]
    B = np.eye(n) - P
    np.fill_diagonal(B, 0)
    off = sorted((abs(B[i, j]), i, j) for i in range(n) for j in range(n) if i != j)
    G = B.copy()
    for k, (v, i, j) in enumerate(off):
        if k >= n * (n - 1) // 2 and is_dag(G):
            if abs(off[k - 1][0] - v) < 1e-12:
                return None
            return G
        G[i, j] = 0
    return G


def lasso_support(X, preds, y, cv=False):
    """Predecessors kept by the adaptive lasso (weights: standardised least squares)."""
    from sklearn.linear_model import LassoLarsCV, LassoLarsIC
    Z = (X[:, preds] - X[:, preds].mean(0)) / X[:, preds].std(0)
    t = (X[:, y] - X[:, y].mean()) / X[:, y].std()
    w = np.abs(np.linalg.lstsq(Z, t, rcond=None)[0])
    reg = LassoLarsCV() if cv else LassoLarsIC(criterion="bic")
    reg.fit(Z * w, t)
    return [p for p, c in zip(preds, reg.coef_ * w) if abs(c) > 0]
