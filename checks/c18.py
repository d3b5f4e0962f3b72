"""C18  Equal seeds give equal results, and global random state does not leak in.

For every estimator configuration: all histories (up to the depth bound) of unrelated random work before an operation, all
listed global seeds, and fresh interpreters with different hash seeds. Seeded and deterministic operations must give the
same result after every history and leave the global generators as they found them; operations that draw from the global
generator must be functions of its state."""
import hashlib
import itertools
import json
import os
import pickle
import random
import subprocess
import sys

import numpy as np
import pandas as pd

from checks.c07 import result_view
from mc.catalog import catalog, linear, snapshot
from mc.gen import rng, same

PROPERTY = "C18"
BOUNDS = "all histories of length <=2 over 5 kinds of unrelated random work x estimator configurations x data sets; seeds 0..4 for seeded classes; 3 hash seeds in fresh interpreters"
ASSUMPTIONS = ["results are compared to 1e-9 (memory alignment may change the last bits of vectorised sums)"]
GLOBAL = ("lim", "lim-global")  # no seed argument: they draw from the global generator


def other_fit():
    import lingam
    lingam.DirectLiNGAM().bootstrap(linear(2, 9, m=12), 1)


WORK = {
    "seed 0": lambda: np.random.seed(0), "seed 123": lambda: np.random.seed(123), "draw": lambda: np.random.rand(7),
    "python": lambda: random.seed(5), "other bootstrap": other_fit,
}


def histories(depth):
    for d in range(depth + 1):
        yield from itertools.product(sorted(WORK), repeat=d)


def state():
    s = np.random.get_state()
    return (s[1].tobytes(), s[2], s[3], s[4], random.getstate())


def view(o):
    return ("ok", result_view(o.value)) if o.ok else ("error", type(o.exc).__name__)


def close(a, b):
    return a[0] == b[0] and same(a[1], b[1], 1e-9)


def independent(rec, name, depth, nq=None):
    """Fit and queries after every history: same answer, global generators untouched."""
    e = catalog()[name]
    with e.env():
        for k, args in enumerate(e.data[:2 if e.cost < 50 else 1]):
            ref = None
            for h in histories(depth):
                for w in h:
                    WORK[w]()
                rec.state((name, k, h))
                m = e.make()
                s = state()
                o = rec.call(e.fit, m, args)
                info = dict(estimator=name, data=k, before=h)
                if state() != s:
                    rec.fail("fitting disturbed the global random state", **info)
                got = [("ok" if o.ok else "error", snapshot(m) if o.ok else type(o.exc).__name__)]
                if o.ok:
                    for q, f in e.queries if nq is None else e.queries[:nq]:
                        got.append(view(rec.call(f, m, args)))
                    if state() != s:
                        rec.fail("a query disturbed the global random state", **info)
                if ref is None:
                    ref = got
                for a, b, what in zip(got, ref, ["fit"] + [q[0] for q in e.queries]):
                    if not close(a, b):
                        bad = [x for x in a[1] if not same(a[1][x], b[1][x], 1e-9)] if isinstance(a[1], dict) and isinstance(b[1], dict) else None
                        rec.fail("the result depends on unrelated random work done before", operation=what, attribute=bad, **info)
                rec.trace()


def governed(rec, name, what):
    """Operations drawing from the global generator are functions of its state."""
    e = catalog()[name]
    with e.env():
        for k, args in enumerate(e.data[:2 if e.cost < 50 else 1]):
            for seed in (0, 1, 7):
                ref = None
                for h in [()] + [(w,) for w in sorted(WORK)]:
                    for w in h:
                        WORK[w]()
                    rec.state((name, what, k, seed, h))
                    m = e.make()
                    np.random.seed(seed)
                    o = rec.call(e.boot, m, args) if what == "boot" else rec.call(e.fit, m, args)
                    got = view(o) if what == "boot" else ("ok" if o.ok else "error", snapshot(m) if o.ok else type(o.exc).__name__)
                    after = state()
                    if ref is None:
                        ref = (got, after)
                    if not close(got, ref[0]):
                        rec.fail("equal global seeds give different results", estimator=name, operation=what, data=k, seed=seed, before=h)
                    rec.trace()
                    if e.cost >= 50 and h:
                        break


def seeded(rec, depth):
    """Classes with a seed argument, every seed, after every history; including simulators and generators."""
    import lingam
    from lingam.tools import bootstrap_with_imputation
    X = linear(3, 0)
    X4 = linear(4, 4, m=40)
    B = np.array([[0, 0, 0], [1.0, 0, 0], [-0.5, 0.8, 0]])
    D = pd.DataFrame(X, columns=list("abc"))
    Xm = X.copy()
    Xm[3, 1] = Xm[7, 2] = np.nan
    T = np.cumsum(rng("c18").uniform(-1, 1, (30, 2)) ** 3, 0) * 0.1 + rng("c18b").uniform(-1, 1, (30, 2)) ** 3
    coef = np.array([[[0.4, -0.2], [0.1, 0.4]]])

    def fit(make, *a):
        def f(seed):
            m = make(seed)
            m.fit(*a)
            return snapshot(m)
        return f

    def sim(seed):
        s = lingam.CausalBasedSimulator()
        s.train(D, B)
        return s.run(changing_exog={"a": np.arange(len(D)) * 1.0}, shuffle_residual=True, random_state=seed).values

    def imp(seed):
        return [np.asarray(v) for v in bootstrap_with_imputation(Xm, 2, 2, random_state=seed)]

    cases = {
        "ica": fit(lambda s: lingam.ICALiNGAM(random_state=s, max_iter=100), X),
        "ica4": fit(lambda s: lingam.ICALiNGAM(random_state=s, max_iter=100), X4),
        "direct": fit(lambda s: lingam.DirectLiNGAM(random_state=s), X),
        "highdim": fit(lambda s: lingam.HighDimDirectLiNGAM(random_state=s), X4),
        "var-ica": fit(lambda s: lingam.VARLiNGAM(lingam_model=lingam.ICALiNGAM(random_state=s, max_iter=100)), T),
        "varma-given": fit(lambda s: lingam.VARMALiNGAM(order=(1, 1), ar_coefs=coef, ma_coefs=coef * 0.5, random_state=s), T),
        "simulator": sim, "imputation": imp,
    }
    for name, f in cases.items():
        for seed in range(5):
            ref = None
            for h in histories(depth):
                for w in h:
                    WORK[w]()
                rec.state((name, seed, h))
                s = state()
                out = rec.call(f, seed)
                if not out.ok:
                    rec.fail("seeded operation failed", operation=name, got=repr(out))
                    break
                if state() != s:
                    rec.fail("a seeded operation disturbed the global random state", operation=name, seed=seed, before=h)
                if ref is None:
                    ref = out.value
                if not same(out.value, ref, 1e-9):
                    rec.fail("equal seeds give different results", operation=name, seed=seed, before=h)
                rec.trace()
    a = [cases["simulator"](s) for s in range(5)]
    if all(same(x, a[0], 1e-9) for x in a[1:]):
        rec.fail("the seed of the simulator has no influence on the shuffling")
    a = [cases["imputation"](s)[2] for s in range(5)]
    if all(same(x, a[0], 1e-9) for x in a[1:]):
        rec.fail("the seed of the imputation bootstrap has no influence on the resampling")


def hashseeds(rec, names):
    """Fresh interpreters with different hash seeds print the same rounded results."""
    ref = None
    for hs in ("0", "1", "4242"):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        p = subprocess.run([sys.executable, "-m", "checks.c18", json.dumps(names)], env=env, capture_output=True, text=True, timeout=600)
        rec.step(len(names))
        if p.returncode:
            rec.fail("an operation failed in a fresh interpreter", names=names, error=p.stderr[-400:])
            return
        got = json.loads(p.stdout.strip().splitlines()[-1])
        for n in names:
            rec.state(("hash", n, hs))
        if ref is None:
            ref = got
        for n in names:
            if not same(got[n], ref[n], 1e-9):
                rec.fail("results differ between interpreters with different hash seeds", operation=n, hash_seed=hs)
            rec.trace()


def plain(v):
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(plain(x) for x in v)
    if isinstance(v, np.ndarray):
        return plain(v.tolist())
    if isinstance(v, (float, np.floating)):
        return None if v != v else float(v)
    if isinstance(v, (int, np.integer, str, bool)) or v is None:
        return int(v) if isinstance(v, np.integer) else v
    return str(type(v).__name__)


def in_fresh_interpreter(names):
    cat = catalog()
    out = {}
    for n in names:
        np.random.seed(3)
        if n == "@simulator":
            import lingam
            r = rng("c18h")
            cols = ["delta", "alpha", "gamma", "beta"]
            B = np.tril(np.full((4, 4), 0.6), -1)
            D = pd.DataFrame(r.laplace(size=(20, 4)), columns=cols)
            s = lingam.CausalBasedSimulator()
            s.train(D, B)
            a = s.run(changing_exog={"alpha": np.arange(20) * 1.0})
            b = s.run(changing_models={"beta": {"parent_names": ["gamma", "alpha"], "coef": [1.0, 2.0]}}, shuffle_residual=True, random_state=1)
            out[n] = plain([list(a.columns), a.values, list(b.columns), b.values])
            continue
        if n == "@graph":
            from lingam.utils import calculate_distance_from_root_nodes, make_dot, make_dot_highlight
            B = np.array([[0, 0, 0, 0], [0.7, 0, 0, 0], [np.nan, 0.5, 0, np.nan], [0, 0, np.nan, 0]])
            B[0, 2] = np.nan
            labels = ["delta", "alpha", "gamma", "beta"]
            out[n] = [sorted(make_dot(B, labels=labels, path=(0, 2)).source.splitlines()), sorted(make_dot_highlight(np.nan_to_num(B), 1, labels=labels).source.splitlines()),
                      plain(calculate_distance_from_root_nodes(B))]
            continue
        e = cat[n]
        with e.env():
            m = e.make()
            e.fit(m, e.data[0])
            res = [plain(snapshot(m))]
            if e.boot and e.cost < 50:
                np.random.seed(4)
                v = e.boot(e.make(), e.data[0])
                res.append(plain(result_view(v)))
                for b in v if isinstance(v, list) else [v]:
                    for f in ("get_causal_direction_counts", "get_directed_acyclic_graph_counts"):
                        if hasattr(b, f):
                            res.append(plain(getattr(b, f)()))
            out[n] = res
    return out


def tasks(tier):
    th = tier != "quick"
    cat = catalog()
    t = [("seeded", dict(depth=2 if th else 1))]
    for name, e in cat.items():
        if name not in GLOBAL:
            d = 2 if (e.cost < 2 or th) and e.cost < 50 else 1
            if e.cost >= 50 and not th:
                d = 0 if e.cost >= 100 else 1
            t.append(("independent", dict(name=name, depth=d)))
        else:
            t.append(("governed", dict(name=name, what="fit")))
        if e.boot and (e.cost < 50 or th):
            t.append(("governed", dict(name=name, what="boot")))
    fast = [n for n, e in cat.items() if e.cost < 50] + ["@simulator", "@graph"]
    for k in range(6):
        t.append(("hashseeds", dict(names=fast[k::6])))
    t.sort(key=lambda x: (x[0] != "seeded", -cat[x[1]["name"]].cost if "name" in x[1] else 0))
    return t


if __name__ == "__main__":
    import warnings
    warnings.simplefilter("ignore")
    r = in_fresh_interpreter(json.loads(sys.argv[1]))
    print(json.dumps(r))
