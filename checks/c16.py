"""C16  Graph utilities describe the adjacency matrix exactly.

Every digraph on 2-3 variables (self-loop free, cyclic ones included) and every DAG on 4, with coefficient assignments that
cancel or differ in magnitude and every pattern of unknown pairs, is pushed through the drawing and query functions; the
DOT source is parsed back and compared with the matrix, the queries with definitions on the edge set."""
import itertools
import re

import numpy as np
import pandas as pd

from mc.gen import all_graphs, chunks, dags, rng, same

PROPERTY = "C16"
BOUNDS = "all digraphs n=2,3, all labelled DAGs n=4 (n=5 strided) x cancelling/sign/magnitude assignments x unknown-pair patterns x labels x limits x all paths; 12 graph shapes on 6 and 11 (queries: 30, 70) variables"
ASSUMPTIONS = ["graphviz's quoting of identifiers", "semopy's statistics for a given model description"]
TOK = re.compile(r'"(?:[^"\\]|\\.)*"|->|[{}\[\]=;,]|[^\s{}\[\]=;,"]+')


def parse(source):
    """DOT source -> (nodes {id: attrs}, edges [(tail, head, attrs)], clusters {id: label of innermost labelled subgraph})."""
    t = [re.sub(r"\\(.)", r"\1", x[1:-1]) if x[0] == '"' else x for x in TOK.findall(source)]
    q = [x[0] == '"' for x in TOK.findall(source)]
    nodes, edges, where = {}, [], {}
    pos = 0
    while t[pos] != "{":
        pos += 1
    pos += 1
    stack = [None]
    sym = lambda k, s: t[k] == s and not q[k]

    def attrs(k):
        a = {}
        if k < len(t) and sym(k, "["):
            k += 1
            while not sym(k, "]"):
                if sym(k, ",") or sym(k, ";"):
                    k += 1
                    continue
                a[t[k]] = t[k + 2]
                k += 3
            k += 1
        return a, k

    while stack:
        if sym(pos, ";"):
            pos += 1
        elif sym(pos, "{"):
            stack.append(stack[-1])
            pos += 1
        elif sym(pos, "}"):
            stack.pop()
            pos += 1
        elif sym(pos, "subgraph"):
            pos += 1 if sym(pos + 1, "{") else 2
        elif t[pos] in ("graph", "node", "edge") and not q[pos] and sym(pos + 1, "["):
            a, k = attrs(pos + 1)
            if t[pos] == "graph" and "label" in a:
                stack[-1] = a["label"]
            pos = k
        elif sym(pos + 1, "="):
            if t[pos] == "label":
                stack[-1] = t[pos + 2]
            pos += 3
        elif sym(pos + 1, "->"):
            a, k = attrs(pos + 3)
            edges.append((t[pos], t[pos + 2], a))
            pos = k
        else:
            name = t[pos]
            a, pos = attrs(pos + 1)
            nodes.setdefault(name, {}).update(a)
            where.setdefault(name, stack[-1])
    return nodes, edges, where


VALS = {"cancel": [0.7, -0.7], "mixed": [1.25, -0.5, 0.004, 0.3], "pos": [2.0, 0.05], "tiny": [4e-4, -0.9]}


def assign(A, kind, k):
    """Coefficients in row order so that two or more parents (and children) cancel for 'cancel'."""
    B = np.zeros(A.shape)
    v = VALS[kind]
    for i in range(len(A)):
        for c, j in enumerate(np.where(A[i])[0]):
            B[i, j] = v[(c + k) % len(v)]
    return B


def large(n):
    """Graph shapes on many variables: chains, stars, trees, layers, ladders, sparse and dense random ones, and cyclic ones."""
    r = rng("c16large", n)
    Z = lambda es: np.array([[(j, i) in es for j in range(n)] for i in range(n)], int)
    G = [Z({(i, i + 1) for i in range(n - 1)}), Z({(i + 1, i) for i in range(n - 1)}), Z({(n - 1, i) for i in range(n - 1)}), Z({(i, 0) for i in range(1, n)}),
         Z({((i - 1) // 2, i) for i in range(1, n)}), Z({(i, i + d) for i in range(n) for d in (1, 2) if i + d < n}),
         Z({(i, j) for i in range(n // 2) for j in range(n // 2, n) if (i + j) % 2}), Z({(i, i + 1) for i in range(n - 1)} | {(n - 1, 0)}),
         Z({(i, i + 1) for i in range(n - 1)} | {(n - 1, n - 3)}), Z({(i, (i + 1) % 3) for i in range(3)} | {(i, i + 1) for i in range(3, n - 1)})]
    for d in (0.15, 0.3):
        A = np.tril(r.uniform(size=(n, n)) < d, -1).astype(int)
        q = r.permutation(n)
        G.append(A[np.ix_(q, q)])
    return G


def universe(n, graphs):
    return list(all_graphs(n)) if graphs == "all" else large(n) if graphs == "large" else dags(n)


def unknown(B):
    """All symmetric patterns of unknown pairs on the pairs without an edge (many variables: none, first, last, all, every third)."""
    n = len(B)
    if n > 5:
        free = [(i, j) for i, j in itertools.combinations(range(n), 2) if B[i, j] == 0 and B[j, i] == 0]
        for some in ([], free[:1], free[-1:], free, free[::3]):
            C = B.copy()
            for i, j in some:
                C[i, j] = C[j, i] = np.nan
            yield C
        return
    free = [(i, j) for i, j in itertools.combinations(range(n), 2) if B[i, j] == 0 and B[j, i] == 0]
    for m in itertools.product([0, 1], repeat=len(free)):
        C = B.copy()
        for v, (i, j) in zip(m, free):
            if v:
                C[i, j] = C[j, i] = np.nan
        yield C


def simple_paths(E, a, b, seen=()):
    if a == b:
        yield seen + (a,)
        return
    for x in sorted(E.get(a, ())):
        if x not in seen and x != a:
            yield from simple_paths(E, x, b, seen + (a,))


def adjacency(B, limit):
    E = {}
    for i, j in np.argwhere(np.abs(np.nan_to_num(B)) > limit):
        E.setdefault(int(j), set()).add(int(i))
    return E


def cyclic_edges(E):
    """Edges lying on some directed cycle."""
    out = set()
    for a in E:
        for b in E[a]:
            todo, seen = [b], {b}
            while todo:
                u = todo.pop()
                for v in E.get(u, ()):
                    if v not in seen:
                        seen.add(v)
                        todo.append(v)
            if a in seen:
                out.add((a, b))
    return out


def labellings(n):
    names = (["b x", "a", "node", "Y2", "z"] + [f"{'wv'[k % 2]}{k}" for k in range(max(n - 5, 0))])[:n]
    return [("none", None, [f"x{i}" for i in range(n)]), ("list", list(names), names),
            ("array", np.array(names), names), ("index", pd.Index(names), names)]


def drawing(rec, B, limit, lab, info, path=None, color=None, cycle=False, prediction=None, ignore=False):
    from lingam.utils import make_dot
    lname, labels, names = lab
    kw = dict(labels=labels, lower_limit=limit, detect_cycle=cycle)
    if ignore:
        kw["ignore_shape"] = True
    if path is not None:
        kw.update(path=path, path_color=color)
    want_pred = []
    if prediction:
        kw.update(prediction_feature_indices=prediction["idx"], prediction_target_label="T!")
        if "coefs" in prediction:
            kw["prediction_coefs"] = prediction["coefs"]
            want_pred = [(names[i], "T!", f"{c:.2f}") for i, c in zip(prediction["idx"], prediction["coefs"]) if abs(c) > limit]
        elif "imp" in prediction:
            kw["prediction_feature_importance"] = prediction["imp"]
            want_pred = [(names[i], "T!", f"({c})") for i, c in zip(prediction["idx"], prediction["imp"])]
        else:
            want_pred = [(names[i], "T!", None) for i in prediction["idx"]]
    out = rec.call(make_dot, B.copy(), **kw)
    info = dict(info, limit=limit, labels=lname, path=path, cycle=cycle, prediction=prediction)
    if not out.ok:
        rec.fail("drawing a graph failed", got=repr(out), **info)
        return
    nodes, edges, _ = parse(out.value.source)
    if set(nodes) - {"T!"} != set(names[: B.shape[1]]):
        rec.fail("drawn nodes are not the variables", got=sorted(nodes), **info)
    Z = np.nan_to_num(B)
    want = sorted((names[j], names[i], f"{Z[i, j]:.2f}") for i, j in np.argwhere(np.abs(Z) > limit))
    got = sorted((a, b, k.get("label")) for a, b, k in edges if k.get("dir") != "both" and b != "T!")
    if got != want:
        rec.fail("drawn arrows are not the coefficients above the limit", got=got, want=want, **info)
    n = len(B)
    want = sorted(tuple(sorted((names[i], names[j]))) for i in range(n) for j in range(i) if np.isnan(B[i, j]))
    got = sorted(tuple(sorted((a, b))) for a, b, k in edges if k.get("dir") == "both")
    if got != want:
        rec.fail("double-headed arrows are not the unknown pairs", got=got, want=want, **info)
    if prediction:
        got = sorted((a, b, str(k.get("label"))) for a, b, k in edges if b == "T!")
        if got != sorted((a, b, str(c)) for a, b, c in want_pred):
            rec.fail("prediction arrows are not the prediction features", got=got, want=want_pred, **info)
    E = adjacency(B, limit)
    num = {v: k for k, v in enumerate(names)}
    if path is not None:
        ps = list(simple_paths(E, *path))
        pe = {(p[i], p[i + 1]) for p in ps for i in range(len(p) - 1)}
        pn = {x for e in pe for x in e}
        c = color or "black"
        got = {(num[a], num[b]) for a, b, k in edges if k.get("penwidth") == "2" and k.get("color") == c and k.get("dir") != "both"}
        if got != pe:
            rec.fail("highlighted arrows are not those of the paths", got=sorted(got), want=sorted(pe), **info)
        got = {num[v] for v, k in nodes.items() if v in num and k.get("color") == c and k.get("fontcolor") == c}
        if got != pn:
            rec.fail("highlighted nodes are not those of the paths", got=sorted(got), want=sorted(pn), **info)
        got = {num[v] for v, k in nodes.items() if v in num and k.get("peripheries") == "2"}
        if got != set(path):
            rec.fail("marked end points are not those of the path", got=sorted(got), **info)
    if cycle:
        got = {(num[a], num[b]) for a, b, k in edges if k.get("style") == "dashed" and b != "T!" and k.get("dir") != "both"}
        if got != cyclic_edges(E):
            rec.fail("dashed arrows are not those on cycles", got=sorted(got), want=sorted(cyclic_edges(E)), **info)
    rec.trace()


def dots(rec, n, lo, hi, kind, graphs="all", step=1, nan="all"):
    G = universe(n, graphs)
    labs = labellings(n)
    for k in range(lo, min(hi, len(G)), step):
        base = assign(G[k], kind, k)
        for u, B in enumerate(unknown(base)):
            if nan != "all" and u % nan:
                continue
            rec.state(("dot", n, graphs, k, kind, u))
            info = dict(matrix=B)
            for c, limit in enumerate((0.01, 0.0, 0.4)):
                drawing(rec, B, limit, labs[(k + u + c) % 4], info, cycle=c == 1)
            pairs = list(itertools.permutations(range(n), 2))
            for c, p in enumerate(pairs if n < 4 else pairs[k % 3::3 if n < 6 else 29]):
                drawing(rec, B, (0.01, 0.0)[c % 2], labs[(k + c) % 4], info, path=p, color=("red", None, "#00aa00")[c % 3], cycle=c % 2 == 0)
            idx = [(k + u) % n, (k + u + 1) % n]
            pred = ({"idx": idx}, {"idx": idx, "coefs": [[0.5, -0.001], [-0.7, 0.02]][(k // 3) % 2]}, {"idx": idx[:1], "imp": [3]})[(k + u) % 3]
            drawing(rec, B, 0.01, labs[k % 4], info, prediction=pred)


def wide(rec, p):
    """Matrices of autoregressive models: targets in the rows, present and lagged variables in the columns."""
    for lags in (1, 2):
        m = p * (lags + 1)
        for s in range(40):
            r = rng("c16wide", p, lags, s)
            B = np.where(r.uniform(size=(p, m)) < 0.5, 0, r.choice([0.7, -0.7, 0.004, 1.5], size=(p, m)))
            B[:, :p] = np.tril(B[:, :p], -1)
            names = [f"v{i}({q})" for q in range(lags + 1) for i in range(p)]
            rec.state(("wide", p, lags, s))
            for lab in (("none", None, [f"x{i}" for i in range(m)]), ("list", names, names), ("array", np.array(names), names)):
                drawing(rec, B, 0.01, lab, dict(matrix=B), ignore=True)


def bfs(E, s, cut=None):
    d, todo = {s: 0}, [s]
    for u in todo:
        if cut is not None and d[u] >= cut:
            continue
        for v in sorted(E.get(u, ())):
            if v not in d:
                d[v] = d[u] + 1
                todo.append(v)
    return d


def highlight(rec, n, lo, hi, kind, graphs="all", step=1):
    from lingam.utils import make_dot_highlight
    G = universe(n, graphs)
    labs = [l for l in labellings(n)]
    opts = list(itertools.product((None, 0, 1, 2) + ((4, n) if n > 5 else ()), (None, 0, 1) + ((3, 7) if n > 5 else ()), (True, False)))
    for k in range(lo, min(hi, len(G)), step):
        B = assign(G[k], kind, k)
        for target in range(n):
            for o, (mx, ma, others) in enumerate(opts):
                if n > 3 and (o + k + target) % (6 if n < 6 else 11):
                    continue
                limit = (None, 0.01, 0.4)[(o + k) % 3]
                path = None if o % 3 else tuple(list(itertools.permutations(range(n), 2))[(o + k) % (n * (n - 1))])
                color = ("red", None)[o % 2]
                cyc = bool(o % 2)
                lname, labels, names = labs[(o + target) % 4]
                cmap = (None, "cool")[(o // 2) % 2]
                kw = dict(max_dsc=mx, max_anc=ma, draw_others=others, lower_limit=limit, detect_cycle=cyc, labels=labels, cmap=cmap)
                if path:
                    kw.update(path=path, path_color=color)
                info = dict(matrix=B, target=target, options={a: str(b) for a, b in kw.items()})
                rec.state(("hl", n, graphs, k, kind, target, o))
                out = rec.call(make_dot_highlight, B.copy(), target, **kw)
                if not out.ok:
                    rec.fail("drawing a highlighted graph failed", got=repr(out), **info)
                    continue
                nodes, edges, where = parse(out.value.source)
                real = {v: k2["label"] for v, k2 in nodes.items() if k2.get("style") != "invis"}
                num = {v: i for i, v in enumerate(names)}
                E = adjacency(B, limit if limit else 1e-8)
                R = {}
                for a in E:
                    for b in E[a]:
                        R.setdefault(b, set()).add(a)
                dsc, anc = bfs(E, target, mx), bfs(R, target, ma)
                want = [("target", target)]
                want += [(f"descendant {d}", v) for v, d in dsc.items() if v != target]
                want += [(f"ancestor {d}", v) for v, d in anc.items() if v != target]
                rest = set(range(n)) - set(dsc) - set(anc)
                if others:
                    want += [("others", v) for v in rest]
                got = [(where[v], num[l]) for v, l in real.items()]
                if sorted(got) != sorted(want):
                    rec.fail("nodes are not grouped by their distance from the target", got=sorted(got), want=sorted(want), **info)
                    continue
                copies = {}
                for v, l in real.items():
                    copies.setdefault(num[l], []).append(v)
                want = sorted((a, b, f"{B[j, i]:.2f}") for i in E for j in E[i] for a in copies.get(i, ()) for b in copies.get(j, ()))
                got = sorted((a, b, k2.get("label")) for a, b, k2 in edges)
                if got != want:
                    rec.fail("arrows of the highlighted graph are not the coefficients above the limit", got=got, want=want, **info)
                    continue
                if path:
                    pe = {(p[i], p[i + 1]) for p in simple_paths(E, *path) for i in range(len(p) - 1)}
                    pn = {x for e in pe for x in e} & set(copies)
                    c = color or "black"
                    got = {(num[real[a]], num[real[b]]) for a, b, k2 in edges if k2.get("penwidth") == "2" and k2.get("color") == c}
                    if got != {e for e in pe if e[0] in copies and e[1] in copies}:
                        rec.fail("highlighted arrows are not those of the paths", got=sorted(got), want=sorted(pe), **info)
                    got = {num[real[v]] for v, k2 in nodes.items() if v in real and k2.get("fontcolor") == c and k2.get("color") == c}
                    if got != pn:
                        rec.fail("highlighted nodes are not those of the paths", got=sorted(got), want=sorted(pn), **info)
                    got = {num[real[v]] for v, k2 in nodes.items() if v in real and k2.get("peripheries") == "2"}
                    if got != set(path) & set(copies):
                        rec.fail("marked end points are not those of the path", got=sorted(got), **info)
                if cyc:
                    got = {(num[real[a]], num[real[b]]) for a, b, k2 in edges if k2.get("style") == "dashed"}
                    ce = {e for e in cyclic_edges(E) if e[0] in copies and e[1] in copies}
                    if got != ce:
                        rec.fail("dashed arrows are not those on cycles", got=sorted(got), want=sorted(ce), **info)
                rec.trace()


def queries(rec, n, lo, hi, kind, graphs="all", step=1):
    from lingam.utils import calculate_distance_from_root_nodes, get_exo_variables, get_sink_variables
    G = universe(n, graphs)
    for k in range(lo, min(hi, len(G)), step):
        B = assign(G[k], kind, k)
        if k % 3 == 0:
            B = assign(G[k].T, kind, k).T
        rec.state(("q", n, graphs, k, kind))
        for diag in (0.0, 1.0):
            M = B + diag * np.eye(n)
            out = rec.call(get_sink_variables, M.copy())
            if not out.ok or sorted(int(v) for v in out.value) != [j for j in range(n) if not G[k][:, j].any()]:
                rec.fail("sink variables are not those without children", matrix=M, got=repr(out))
            out = rec.call(get_exo_variables, M.copy())
            if not out.ok or sorted(int(v) for v in out.value) != [i for i in range(n) if not G[k][i].any()]:
                rec.fail("exogenous variables are not those without parents", matrix=M, got=repr(out))
        E = adjacency(B, 0)
        roots = [i for i in range(n) if not G[k][i].any()]
        dist = {}
        for s in roots:
            for v, d in bfs(E, s).items():
                dist[v] = min(d, dist.get(v, d))
        for u, M in enumerate(unknown(B)):
            if u > 3 and (u + k) % 3:
                continue
            for mx in (None, 1, 2):
                out = rec.call(calculate_distance_from_root_nodes, M.copy() if u % 2 else M.tolist(), *([] if mx is None else [mx]))
                if not roots:
                    if not out.raised(ValueError):
                        rec.fail("a graph without root is not rejected", matrix=M, got=repr(out))
                    continue
                want = {}
                for v, d in dist.items():
                    if mx is None or d <= mx:
                        want.setdefault(d, []).append(v)
                if not out.ok or {int(d): sorted(int(v) for v in vs) for d, vs in out.value.items()} != {d: sorted(v) for d, v in want.items()}:
                    rec.fail("distances from the roots are not the shortest ones", matrix=M, max_distance=mx, got=repr(out), want=want)
        rec.trace()


def removal(rec, n, rows=12, sizes=None, step=1):
    """Every subset of features to remove, every listing order, array / frame / list / integer data."""
    from lingam.utils import remove_effect
    for key in range(3):
        r = rng("c16rem", n, key)
        X = np.round(r.uniform(-3, 3, (rows, n)) @ (np.eye(n) + np.triu(r.uniform(-1, 1, (n, n)), 1)) * 4) if key else r.laplace(size=(rows, n)) + 5
        for size in sizes or range(1, n):
            for rem in itertools.islice(itertools.permutations(range(n), size), key, None, step):
                for form in ("array", "frame", "list", "int"):
                    if form == "int" and not key:
                        continue
                    D = {"array": X, "frame": pd.DataFrame(X), "list": X.tolist(), "int": X.astype(int)}[form]
                    rem_ = list(rem) if form != "frame" else np.array(rem)
                    rec.state(("rem", n, key, rem, form))
                    for ret in (False, True):
                        out = rec.call(remove_effect, D, rem_, *([True] if ret else []))
                        info = dict(data=X, removed=rem, form=form)
                        if not out.ok:
                            rec.fail("removing effects failed", got=repr(out), **info)
                            continue
                        Y, coefs = out.value if ret else (out.value, None)
                        Y = np.asarray(Y)
                        Z = np.column_stack([np.ones(rows), X[:, list(rem)]])
                        for c in range(n):
                            if c in rem:
                                if not same(Y[:, c], X[:, c], 1e-12):
                                    rec.fail("a removed feature's own column changed", column=c, **info)
                                continue
                            beta = np.linalg.lstsq(Z, X[:, c], rcond=None)[0]
                            if not same(Y[:, c], X[:, c] - Z @ beta, 1e-7):
                                rec.fail("remaining column is not the regression residual", column=c, got=Y[:, c], **info)
                            if ret and not same(np.asarray(coefs[c], float), beta[1:], 1e-7):
                                rec.fail("reported coefficients are not those of the removed features in the given order", column=c, **info)
                        if ret and sorted(int(v) for v in coefs) != sorted(set(range(n)) - set(rem)):
                            rec.fail("coefficients are not reported for exactly the remaining features", **info)
                    rec.trace()


def fits(rec, n, lo, hi):
    """Fit indices are those of the model that the matrix describes (same model written down independently)."""
    import semopy
    from lingam.utils import evaluate_model_fit
    for k in range(lo, hi):
        A = dags(n)[k]
        if not A.any():
            continue
        B = assign(A, "mixed" if k % 2 else "cancel", k)
        r = rng("c16fit", n, k)
        X = r.laplace(size=(60, n)) @ np.linalg.inv(np.eye(n) - 0.8 * B).T
        rec.state(("fit", n, k))
        out = rec.call(evaluate_model_fit, B.copy(), X.copy())
        desc = "\n".join(f"x{i} ~ " + " + ".join(f"{B[i, j]:f}*x{j}" for j in reversed(range(n)) if B[i, j]) for i in reversed(range(n)) if B[i].any())
        m = semopy.Model(desc)
        m.fit(pd.DataFrame(X, columns=[f"x{i}" for i in range(n)]))
        want = semopy.calc_stats(m)
        if not out.ok:
            rec.fail("evaluating the model fit failed", matrix=B, got=repr(out))
            continue
        for c in ("DoF", "chi2", "AIC", "BIC", "LogLik"):
            if not np.allclose(float(out.value[c].iloc[0]), float(want[c].iloc[0]), rtol=1e-3, atol=1e-3, equal_nan=True):
                rec.fail("fit indices are not those of the model of the matrix", matrix=B, index=c, got=float(out.value[c].iloc[0]), want=float(want[c].iloc[0]))
                break
        rec.trace()


class _Described(Exception):
    pass


def described(rec, n, lo, hi, graphs="dag"):
    """The model handed to semopy: one equation per variable with causes, one shared latent per unknown pair, ordinal variables declared."""
    import semopy
    from lingam.utils import evaluate_model_fit
    seen = []

    def init(self, description, *a, **k):
        seen.append(description)
        raise _Described()
    orig = semopy.Model.__init__
    X = rng("c16desc", n).laplace(size=(30, n))
    semopy.Model.__init__ = init
    try:
        for k in range(lo, hi):
            for u, B in enumerate(unknown(assign(universe(n, graphs)[k], ("mixed", "cancel")[k % 2], k))):
                for o in range(2):
                    ordinal = [bool((k + u + i) % 2) for i in range(n)] if o else None
                    rec.state(("desc", n, k, u, o))
                    del seen[:]
                    out = rec.call(evaluate_model_fit, B.copy(), X.copy(), is_ordinal=ordinal)
                    if len(seen) != 1:
                        if not out.ok:
                            rec.fail("evaluating the model fit failed", matrix=B, got=repr(out))
                        continue
                    info = dict(matrix=B, ordinal=ordinal, description=seen[0])
                    eq, defs = {}, {"latent": set(), "ordinal": set()}
                    for line in seen[0].split("\n"):
                        line = line.strip()
                        m = re.match(r"DEFINE\((\w+)\)\s*(.*)$", line)
                        if m:
                            defs.setdefault(m.group(1), set()).update(m.group(2).split())
                        elif "~" in line:
                            lhs, rhs = line.split("~", 1)
                            eq.setdefault(lhs.strip(), []).extend(t.strip() for t in rhs.split("+") if t.strip())
                    got, lat = {}, {}
                    for v, terms in eq.items():
                        for t in terms:
                            if "*" in t:
                                c, w = t.split("*")
                                got[(v, w.strip())] = float(c)
                            else:
                                lat.setdefault(t, []).append(v)
                    want = {(f"x{i}", f"x{j}"): B[i, j] for i, j in np.argwhere(np.abs(np.nan_to_num(B)) > 0)}
                    if set(got) != set(want) or any(abs(got[e] - want[e]) > 1e-5 for e in want):
                        rec.fail("described equations are not the matrix", got=str(got), want=str(want), **info)
                    wl = sorted(sorted([f"x{i}", f"x{j}"]) for i, j in itertools.combinations(range(n), 2) if np.isnan(B[i, j]))
                    if sorted(sorted(v) for v in lat.values()) != wl or defs["latent"] != set(lat):
                        rec.fail("described latent causes are not the unknown pairs", got=str(lat), declared=sorted(defs["latent"]), want=wl, **info)
                    if defs["ordinal"] != {f"x{i}" for i in range(n) if ordinal and ordinal[i]}:
                        rec.fail("declared ordinal variables are not the requested ones", got=sorted(defs["ordinal"]), **info)
                    rec.trace()
    finally:
        semopy.Model.__init__ = orig


def invalid(rec):
    from lingam.utils import calculate_distance_from_root_nodes, evaluate_model_fit, make_dot, make_dot_highlight
    B = np.array([[0, 0, 0], [1.0, 0, 0], [0, 1.0, 0]])
    X = rng("c16inv").uniform(size=(10, 3))
    cases = [
        ("dot not square", lambda: make_dot(B[:2]), (ValueError,)),
        ("dot labels", lambda: make_dot(B, labels=["a", "b"]), (ValueError,)),
        ("dot prediction coefs", lambda: make_dot(B, prediction_feature_indices=[0, 1], prediction_coefs=[0.1]), (ValueError,)),
        ("dot importance", lambda: make_dot(B, prediction_feature_indices=[0, 1], prediction_feature_importance=[0.1]), (ValueError,)),
        ("dot path type", lambda: make_dot(B, path=[0, 1]), (TypeError,)),
        ("dot path color", lambda: make_dot(B, path=(0, 1), path_color="nocolor!"), (ValueError,)),
        ("highlight not square", lambda: make_dot_highlight(B[:2], 0), (ValueError,)),
        ("highlight index", lambda: make_dot_highlight(B, 3), (ValueError,)),
        ("highlight negative", lambda: make_dot_highlight(B, -1), (ValueError,)),
        ("highlight labels", lambda: make_dot_highlight(B, 0, labels=["a"]), (ValueError,)),
        ("distance not square", lambda: calculate_distance_from_root_nodes(B[:2]), (ValueError,)),
        ("distance max", lambda: calculate_distance_from_root_nodes(B, 0), (ValueError,)),
        ("fit not square", lambda: evaluate_model_fit(B[:2], X), (ValueError,)),
        ("fit size", lambda: evaluate_model_fit(B, X[:, :2]), (ValueError,)),
        ("fit ordinal", lambda: evaluate_model_fit(B, X, is_ordinal=[0, 1]), (ValueError,)),
    ]
    for name, f, types in cases:
        rec.state(("invalid", name))
        out = rec.call(f)
        if not out.raised(*types):
            rec.fail("invalid request is not rejected", case=name, got=repr(out)[:200])


def tasks(tier):
    th = tier == "thorough"
    dags(4)
    t = [("invalid", {})]
    for kind in VALS:
        t += [("dots", dict(n=2, lo=0, hi=4, kind=kind)), ("highlight", dict(n=2, lo=0, hi=4, kind=kind))]
        for lo, hi in chunks(64, 4):
            t.append(("dots", dict(n=3, lo=lo, hi=hi, kind=kind)))
            t.append(("highlight", dict(n=3, lo=lo, hi=hi, kind=kind)))
        t.append(("queries", dict(n=3, lo=0, hi=64, kind=kind)))
        for lo, hi in chunks(543, 4):
            t.append(("dots", dict(n=4, lo=lo, hi=hi, kind=kind, graphs="dag", step=1 if th else 4, nan="all" if th else 5)))
            t.append(("highlight", dict(n=4, lo=lo, hi=hi, kind=kind, graphs="dag", step=1 if th else 3)))
            t.append(("queries", dict(n=4, lo=lo, hi=hi, kind=kind, graphs="dag")))
        for lo, hi in chunks(4096, 8):
            t.append(("queries", dict(n=4, lo=lo, hi=hi, kind=kind, step=1 if th else 17)))
        for n in (6, 11) + ((8, 14) if th else ()):
            for lo, hi in chunks(12, 3):
                t.append(("dots", dict(n=n, lo=lo, hi=hi, kind=kind, graphs="large")))
                t.append(("highlight", dict(n=n, lo=lo, hi=hi, kind=kind, graphs="large")))
            t.append(("queries", dict(n=n, lo=0, hi=12, kind=kind, graphs="large")))
        for n in (30, 70):
            t.append(("queries", dict(n=n, lo=0, hi=11, kind=kind, graphs="large")))
    for n in (6, 11):
        t.append(("described", dict(n=n, lo=0, hi=12, graphs="large")))
    for p in (1, 2, 3, 5):
        t.append(("wide", dict(p=p)))
    for n in (2, 3, 4):
        t.append(("removal", dict(n=n)))
    for n, rows, sizes, step in ((7, 30, (1, 2, 6), 97), (12, 40, (1, 2, 3), 61), (3, 1100, None, 2), (40, 120, (1,), 7)):
        t.append(("removal", dict(n=n, rows=rows, sizes=sizes, step=step)))
    for lo, hi in chunks(25, 6):
        t.append(("fits", dict(n=3, lo=lo, hi=hi)))
    t.append(("described", dict(n=3, lo=0, hi=25)))
    if th:
        for lo, hi in chunks(543, 4):
            t.append(("described", dict(n=4, lo=lo, hi=hi)))
        for lo, hi in chunks(543, 16):
            t.append(("fits", dict(n=4, lo=lo, hi=hi)))
    return t
