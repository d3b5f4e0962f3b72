"""C07  An estimator's result depends only on its settings and the last data.

Explicit exploration of operation histories on one instance: every sequence of {fit on data set k, fit on invalid data,
bootstrap, effect / diagnostic queries} up to the depth bound, for every estimator and several settings. The reference
model of an instance is just (settings, last data set fitted): after each step the instance must answer exactly as a
freshly constructed instance that was only fitted on that data set (same value, or the same kind of error)."""
import itertools

import numpy as np

from mc.catalog import catalog, snapshot
from mc.gen import same

PROPERTY = "C07"
BOUNDS = "all histories of length <=3 (quick; <=4 thorough) of fit/invalid fit/bootstrap/query per estimator configuration; slow estimators length 1-2"
ASSUMPTIONS = ["numpy's global generator is put in the same state before every operation (seed dependence is C18)"]


def result_view(v):
    if hasattr(v, "adjacency_matrices_") and hasattr(v, "total_effects_"):
        return [np.asarray(v.adjacency_matrices_), np.asarray(v.total_effects_)]
    if isinstance(v, (list, tuple)) and v and hasattr(v[0], "total_effects_"):
        return [result_view(x) for x in v]
    return v


def outcome(rec, f, *a):
    np.random.seed(12345)
    o = rec.call(f, *a)
    if o.ok:
        return ("ok", result_view(o.value))
    return ("error", type(o.exc).__name__)


def equal(a, b):
    return a[0] == b[0] and same(a[1], b[1], 1e-7)


class Ref:
    """Answers of fresh instances (computed once)."""

    def __init__(self, rec, e):
        self.rec, self.e, self.cache = rec, e, {}

    def fit(self, k):
        key = ("fit", k)
        if key not in self.cache:
            m = self.e.make()
            o = outcome(self.rec, self.e.fit, m, self.e.data[k])
            self.cache[key] = (o[0], o[1] if o[0] == "error" else None, snapshot(m) if o[0] == "ok" else None)
        return self.cache[key]

    def ask(self, k, q):
        key = ("q", k, q)
        if key not in self.cache:
            m = self.e.make()
            outcome(self.rec, self.e.fit, m, self.e.data[k])
            self.cache[key] = outcome(self.rec, self.e.queries[q][1], m, self.e.data[k])
        return self.cache[key]

    def boot(self, k):
        key = ("b", k)
        if key not in self.cache:
            m = self.e.make()
            self.cache[key] = outcome(self.rec, self.e.boot, m, self.e.data[k])
        return self.cache[key]


def ops_of(e):
    ops = [("fit", k) for k in range(len(e.data))]
    ops += [("bad", k) for k in range(min(2, len(e.bad)))]
    if e.boot:
        ops += [("boot", k) for k in range(min(2, len(e.data)))]
    if e.queries:
        ops += [("ask", q) for q in range(len(e.queries))]
    return ops


def history(rec, name, depth, first, cat=None, lastfit=False):
    e = (cat or catalog())[name]
    with e.env():
        ref = Ref(rec, e)
        ops = ops_of(e)
        for rest in itertools.product(ops, repeat=depth - 1):
            seq = (tuple(first),) + rest
            # a query of an unfitted instance, and a bootstrap directly repeated, add nothing
            if seq[0][0] == "ask":
                continue
            if lastfit and seq[-1][0] == "bad":
                continue
            rec.state((name, seq))
            m = e.make()
            last = None
            for step, (op, k) in enumerate(seq):
                info = dict(estimator=name, history=[list(s) for s in seq[:step + 1]])
                if op == "fit":
                    o = outcome(rec, e.fit, m, e.data[k])
                    w = ref.fit(k)
                    if o[0] != w[0] or (o[0] == "error" and o[1] != w[1]):
                        rec.fail("refitting gives a different outcome than a fresh instance", got=o if o[0] == "error" else "ok",
                                 want=w[:2], **info)
                        break
                    if o[0] == "error":
                        last = None
                        continue
                    last = k
                    got = snapshot(m)
                    if not same(got, w[2], 1e-7):
                        bad = [a for a in got if not same(got[a], w[2][a], 1e-7)]
                        rec.fail("refitting gives a different model than a fresh instance", attribute=bad,
                                 got=got[bad[0]], want=w[2][bad[0]], **info)
                        break
                elif op == "bad":
                    o = rec.call(e.fit, m, e.bad[k])
                    last = None
                elif op == "boot":
                    o = outcome(rec, e.boot, m, e.data[k])
                    w = ref.boot(k)
                    last = None
                    if not equal(o, w):
                        rec.fail("a bootstrap on a used instance differs from one on a fresh instance", got=o[1], want=w[1], **info)
                        break
                elif last is not None:
                    before = snapshot(m)
                    o = outcome(rec, e.queries[k][1], m, e.data[last])
                    w = ref.ask(last, k)
                    if not equal(o, w):
                        rec.fail("a query depends on the history of the instance", query=e.queries[k][0], got=o[1], want=w[1], **info)
                        break
                    if not same(before, snapshot(m), 0):
                        rec.fail("a read-only query changed the fitted model", query=e.queries[k][0], **info)
                        break
            rec.trace()
        rec.sample({"estimator": name, "history": [list(s) for s in seq]})


def tasks(tier):
    th = tier != "quick"
    T = []
    for name, e in catalog().items():
        if e.cost >= 100:
            d = 2 if th else 1
        elif e.cost >= 50:
            d = 2
        elif e.cost >= 2:
            d = 3 if th else 2
        elif "arb" in name and not th:
            d = 3 if name in ("rcd-arb1", "parce-arb1", "camuv-arb2") else 2
        else:
            d = 4 if (th and "arb" not in name) else 3
        for f in ops_of(e):
            if f[0] != "ask":
                T.append(("history", dict(name=name, depth=d, first=f, lastfit=True)))
    return T
