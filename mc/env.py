"""Environment control: replace the library's statistical / random oracles by an explored choice."""
import contextlib
import importlib
import pkgutil
import sys


_walked = False


def _lingam_modules():
    """All modules of the library (imported once; the list is re-read so lazily loaded ones are seen)."""
    global _walked
    import lingam

    for m in () if _walked else pkgutil.walk_packages(lingam.__path__, "lingam."):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
    _walked = True
    return [m for k, m in list(sys.modules.items()) if (k == "lingam" or k.startswith("lingam.")) and m is not None]


@contextlib.contextmanager
def replaced(*pairs, sources=True):
    """Replace, everywhere inside the library, every reference to `orig` by `new` (identity scan),
    and in the module that defines it. Works however the library imports or aliases it."""
    undo = []
    mods = _lingam_modules()
    for orig, new in pairs:
        targets = list(mods)
        if sources:
            src = sys.modules.get(getattr(orig, "__module__", "") or "")
            if src is not None:
                targets.append(src)
            # the public package a private module re-exports from (scipy.stats._x -> scipy.stats)
            pub = (getattr(orig, "__module__", "") or "").split("._")[0]
            if pub in sys.modules:
                targets.append(sys.modules[pub])
        for m in targets:
            for k, v in list(vars(m).items()):
                if v is orig:
                    undo.append((m, k, v))
                    setattr(m, k, new)
    try:
        yield len(undo)
    finally:
        for m, k, v in reversed(undo):
            setattr(m, k, v)


class Chooser:
    """One execution of a choice tree: follows `prefix`, then takes 0."""

    def __init__(self, prefix, max_depth):
        self.prefix, self.max_depth = prefix, max_depth
        self.taken, self.arity = [], []
        self.cut = False

    def choose(self, n):
        d = len(self.taken)
        if d < len(self.prefix):
            c = self.prefix[d]
        else:
            c = 0
        if d >= self.max_depth:
            self.cut = self.cut or n > 1
            n_eff = 1
        else:
            n_eff = n
        self.taken.append(c)
        self.arity.append(n_eff)
        return c


def explore(run, max_depth=64, max_paths=10 ** 9, max_dev=None, root=()):
    """Depth-first enumeration of every sequence of environment answers.

    run(chooser) executes the implementation once. Yields (taken, result, cut).
    max_dev bounds the number of non-default (non-zero) answers along a path (context-bound style)."""
    stack = [tuple(root)]
    paths = 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix, max_depth)
        res = run(ch)
        paths += 1
        yield tuple(ch.taken), res, ch.cut
        if paths >= max_paths:
            return
        dev = sum(1 for c in prefix if c)
        for d in range(len(ch.taken) - 1, len(prefix) - 1, -1):
            if max_dev is not None and dev + 1 > max_dev:
                continue
            for c in range(ch.arity[d] - 1, 0, -1):
                stack.append(tuple(ch.taken[:d]) + (c,))
