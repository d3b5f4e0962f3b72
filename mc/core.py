"""Exploration driver shared by all checks.

A check is a module in /verif/checks with

    PROPERTY  = "Cxx"
    def tasks(tier):  -> list of (function_name, params-dict)   # the bounded space, split into shards
    def <function_name>(rec, **params)                          # explores one shard exhaustively
                                                                # ("c11.name": an explorer of another check)

`rec` (Recorder) counts what was really done:
    rec.state(key)    a distinct explored configuration (hashed; duplicates are merged)
    rec.call(f, ...)  one transition: an operation of the library under test, guarded by a watchdog
    rec.trace()       one complete execution of the implementation compared with the reference model
    rec.fail(...)     the property is violated by this execution
"""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import pathlib
import signal
import sys
import time
import traceback
import warnings

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get("VERIF_REPO", "/repo")

CALL_LIMIT = 150  # seconds: a single library operation that runs longer is reported as non-terminating


class NonTermination(BaseException):
    pass


class Outcome:
    """Result of one library operation: a value or the exception it raised."""

    __slots__ = ("ok", "value", "exc")

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    def raised(self, *types):
        return (not self.ok) and isinstance(self.exc, types)

    def __repr__(self):
        return f"value {self.value!r}" if self.ok else f"{type(self.exc).__name__}: {self.exc}"


class StopShard(Exception):
    pass


def jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 400:
            return f"<array shape={x.shape} sha={hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest()[:12]}>"
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating, float)):
        return float(x) if x == x and abs(x) != float("inf") else str(x)
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    return repr(x)[:400]


class Recorder:
    MAX_FAILS = 3

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.fails = []
        self.notes = {}
        self.truncated = 0

    def state(self, key):
        if not isinstance(key, (bytes, str)):
            key = repr(key)
        if isinstance(key, str):
            key = key.encode()
        self.states.add(hashlib.blake2b(key, digest_size=8).digest())

    def trace(self, n=1):
        self.traces += n

    def step(self, n=1):
        self.transitions += n

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def fail(self, what, key=None, **detail):
        """Record a violation. `key` identifies the specific input/history (for the known-findings file)."""
        self.fails.append({"what": what, "key": key or what, "detail": jsonable(detail)})
        if len(self.fails) >= self.MAX_FAILS:
            raise StopShard()

    def call(self, f, *a, **k):
        """Run one operation of the library: counts a transition; exceptions become an Outcome."""
        self.transitions += 1

        def onalarm(sig, frm):
            raise NonTermination()

        old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(CALL_LIMIT)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with contextlib.redirect_stdout(io.StringIO()):
                    return Outcome(True, f(*a, **k))
        except NonTermination:
            return Outcome(False, exc=TimeoutError("operation did not terminate"))
        except (KeyboardInterrupt, StopShard):
            raise
        except SystemExit as e:
            return Outcome(False, exc=RuntimeError(f"SystemExit {e}"))
        except Exception as e:
            return Outcome(False, exc=e)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    def heard(self, f, *a, **k):
        """Like call; also tells whether the operation issued a plain user warning."""
        seen = []

        def g():
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    return f(*a, **k)
                finally:
                    seen.extend(str(x.message) for x in w if x.category is UserWarning)

        return self.call(g), bool(seen)

    def must(self, what, f, *a, _detail=None, **k):
        """Like call, but an exception is a violation (returns None then)."""
        out = self.call(f, *a, **k)
        if not out.ok:
            self.fail(f"{what}: raised {type(out.exc).__name__}: {out.exc}"[:300],
                      key=f"{what}: raised {type(out.exc).__name__}", **(_detail or {}))
            return None
        return out.value


def _load(pid):
    if str(VERIF) not in sys.path:
        sys.path.insert(0, str(VERIF))
    return importlib.import_module("checks." + pid.lower())


def _run_task(arg):
    pid, fname, params = arg
    rec = Recorder()
    err = None
    t0 = time.time()
    try:
        mod, fname = (_load(pid), fname) if "." not in fname else (_load(fname.split(".")[0]), fname.split(".")[1])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            getattr(mod, fname)(rec, **params)
    except StopShard:
        pass
    except (MemoryError, ImportError, OSError):
        err = traceback.format_exc()
    except Exception as e:
        # The reference model could not even interpret what the library returned (wrong type, shape, missing
        # attribute ...). On the unchanged tree this never happens, so it is a difference in behaviour.
        rec.fails.append({"what": f"result cannot be interpreted: {type(e).__name__}: {e}"[:300],
                          "key": f"uninterpretable {fname}", "detail": {"trace": traceback.format_exc()[-1500:]}})
    return {"task": [arg[1], params], "states": rec.states, "transitions": rec.transitions,
            "traces": rec.traces, "samples": rec.samples, "fails": rec.fails, "notes": rec.notes,
            "truncated": rec.truncated, "err": err, "t": time.time() - t0}


def _silence():
    """Workers: Fortran optimisers print straight to the file descriptor."""
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    if not os.environ.get("VERIF_VERBOSE"):
        os.dup2(fd, 2)


def known_findings():
    p = VERIF / "known_findings.jsonl"
    out = []
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def main(pid, tier, only=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = _load(pid)
    tasks = mod.tasks(tier)
    if only is not None:
        tasks = [tuple(only)]
    # import the library once, before forking
    try:
        importlib.import_module("lingam")
    except Exception as e:  # the tree does not even import: every property is broken
        path = _write_replay(pid, {"task": None, "fail": {"what": f"import lingam failed: {e!r}"}})
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    args = [(pid, f, p) for f, p in tasks]
    states, transitions, traces, samples, notes, truncated = set(), 0, 0, [], {}, 0
    fails, errs, done, slow = [], [], 0, []
    known = {k["key"]: k for k in known_findings() if k.get("property") == pid and k.get("status") == "known"}
    seen_known = {}
    nproc = min(int(os.environ.get("VERIF_JOBS", "8")), max(1, len(args)))
    ctx = mp.get_context("fork")
    with ctx.Pool(nproc, initializer=_silence, maxtasksperchild=50) as pool:
        for r in pool.imap_unordered(_run_task, args):
            done += 1
            states |= r["states"]
            transitions += r["transitions"]
            traces += r["traces"]
            truncated += r["truncated"]
            slow.append((round(r["t"], 1), r["task"][0], str(r["task"][1])[:80]))
            if r["samples"] and sum(1 for s in samples if s["task"] == r["task"][0]) < 2 and len(samples) < 12:
                samples.append({"task": r["task"][0], "case": r["samples"][0]})
            for k, v in r["notes"].items():
                notes[k] = notes.get(k, 0) + v
            if r["err"]:
                errs.append((r["task"], r["err"]))
            for f in r["fails"]:
                if f["key"] in known:
                    seen_known.setdefault(f["key"], f)
                else:
                    fails.append((r["task"], f))
            if len(fails) >= 5:
                pool.terminate()
                break
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": len(states), "transitions": transitions, "traces_validated_against_impl": traces,
            "samples": samples, "shards": len(args), "shards_done": done,
            "truncated_paths": truncated, "notes": notes,
            "exhaustive": bool(done == len(args) and not errs and not truncated),
            "bounds": getattr(mod, "BOUNDS", ""),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fails),
    }
    if only is None:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for k, f in seen_known.items():
        print(f"KNOWN-FINDING: property={pid} {known[k].get('what', k)}")
    if os.environ.get("VERIF_VERBOSE"):
        agg = {}
        for s in slow:
            agg[s[1]] = round(agg.get(s[1], 0) + s[0], 1)
        print("cpu seconds per explorer", agg)
        for s in sorted(slow, reverse=True)[:6]:
            print("slow shard", *s)
        print(json.dumps(notes))
    print(f"{pid} [{tier}] shards={done}/{len(args)} states={len(states)} transitions={transitions} "
          f"traces={traces} truncated={truncated} violations={len(fails)} wall={ev['wall_s']}s")
    if fails:
        for task, f in fails[:5]:
            print("  violated:", f["what"][:300], "| shard", task[0], str(task[1])[:200])
            print("   detail:", json.dumps(f["detail"])[:700])
        path = _write_replay(pid, {"property": pid, "task": fails[0][0], "fail": fails[0][1],
                                   "how": f"cd {VERIF} && bash run.sh {pid} replay <this file>"})
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errs:
        print("check error in", errs[0][0])
        print(errs[0][1])
        return 2
    return 0


def _write_replay(pid, obj):
    d = VERIF / "evidence" / "replay"
    d.mkdir(parents=True, exist_ok=True)
    p = d / f"{pid}.json"
    p.write_text(json.dumps(jsonable(obj), indent=1) + "\n")
    return str(p)


if __name__ == "__main__":
    pid, tier = sys.argv[1], sys.argv[2]
    os.environ.setdefault("VERIF_TIER", tier)
    if tier == "replay":
        obj = json.loads(pathlib.Path(sys.argv[3]).read_text())
        sys.exit(main(pid, "quick", only=obj["task"]))
    sys.exit(main(pid, tier))
