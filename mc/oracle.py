"""Exact oracles for factorial data: independence decided by counting, correlation by exact zero."""
import contextlib

import numpy as np

from .env import replaced


def _codes(x):
    x = np.asarray(x, float)
    x = x.reshape(len(x), -1)
    x = np.round(x - x.mean(0), 6) + 0.0
    return np.unique(x, axis=0, return_inverse=True)[1].ravel()


def independent(x, y):
    """Is the empirical joint law exactly the product of the empirical marginals?"""
    a, b = _codes(x), _codes(y)
    n = len(a)
    na, nb = a.max() + 1, b.max() + 1
    joint = np.zeros((na, nb))
    np.add.at(joint, (a, b), 1)
    pa, pb = joint.sum(1), joint.sum(0)
    return bool(np.all(np.abs(joint * n - np.outer(pa, pb)) < 0.5))


def dependence(x, y):
    """0 iff independent; a total-variation style distance otherwise."""
    a, b = _codes(x), _codes(y)
    n = len(a)
    joint = np.zeros((a.max() + 1, b.max() + 1))
    np.add.at(joint, (a, b), 1)
    return float(np.abs(joint / n - np.outer(joint.sum(1), joint.sum(0)) / n ** 2).sum())


class LinGam:
    """Stand-in for the additive-model regression: ordinary least squares (exact on linear data)."""

    def __init__(self, *a, **k):
        pass

    def fit(self, X, y, *a, **k):
        Z = np.c_[np.ones(len(X)), np.asarray(X, float)]
        self.c = np.linalg.lstsq(Z, np.asarray(y, float), rcond=None)[0]
        return self

    def gridsearch(self, X, y, *a, **k):
        return self.fit(X, y)

    def predict(self, X):
        return np.c_[np.ones(len(X)), np.asarray(X, float)] @ self.c


@contextlib.contextmanager
def exact_tests(gam=True):
    """Replace the statistical tests by their exact (population) verdicts on factorial data."""
    from lingam.hsic import hsic_test_gamma
    from lingam.utils import f_correlation
    from pygam import LinearGAM
    from scipy.stats import pearsonr, shapiro

    def hs(X, Y, *a, **k):
        d = dependence(X, Y)
        return (d, 1.0 if d < 1e-9 else 0.0 if d > 1e-3 else 1e-4 / d)

    def fc(X, Y, *a, **k):
        return min(1.0, dependence(X, Y))

    def pr(a, b, *x, **k):
        a, b = np.asarray(a, float) - np.mean(a), np.asarray(b, float) - np.mean(b)
        r = float(a @ b / np.sqrt((a @ a) * (b @ b)))
        return (r, 1.0 if abs(r) < 1e-8 else 0.0)

    def sh(x, *a, **k):
        return (0.5, 0.0)

    pairs = [(hsic_test_gamma, hs), (f_correlation, fc), (pearsonr, pr), (shapiro, sh)]
    if gam:
        pairs.append((LinearGAM, LinGam))
    with replaced(*pairs):
        yield
