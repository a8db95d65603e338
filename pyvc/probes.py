"""Concrete probes: bounded search for inputs on which the real code breaks a property."""
import importlib
import itertools
import json
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get("PYVC_REPO", "/repo")
TESTS = []


class Skip(Exception):
    """The probed entry point does not exist in this tree."""


class Fail(Exception):
    pass


class Timeout(BaseException):
    pass


class T:
    def __init__(self, name, fn, gen, weight, limit):
        self.name, self.fn, self.gen, self.weight, self.limit = name, fn, gen, weight, limit


def probe(gen, name=None, weight=1, limit=20):
    """Register check(case) -> None or text; gen(rng) yields JSON-able cases."""
    def deco(fn):
        TESTS.append(T(name or fn.__name__, fn, gen, weight, limit))
        return fn
    return deco


def load(pid):
    TESTS.clear()
    sys.modules.pop("probes." + pid.lower(), None)
    importlib.import_module("probes." + pid.lower())
    return list(TESTS)


def from_repo(tb):
    """Does the traceback end in (or below) the code under test?"""
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(os.path.join(REPO, "yangson")):
            return True
        tb = tb.tb_next
    return False


def _alarm(*a):
    raise Timeout()


def run_one(t, case):
    """Returns (None | text, error or None)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, t.limit)
    try:
        return t.fn(case), None
    except Fail as e:
        return str(e), None
    except Timeout:
        return f"did not terminate within {t.limit} s", None
    except Skip as e:
        return None, "skip: " + str(e)
    except MemoryError:
        return None, "memory"
    except BaseException as e:
        if isinstance(e, RecursionError):
            return None, None
        if from_repo(e.__traceback__):
            return ("undocumented exception " + "".join(
                traceback.format_exception_only(type(e), e)).strip()[:300] + " at " +
                " < ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in
                           reversed(traceback.extract_tb(e.__traceback__)[-4:]))), None
        return None, traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_module(pid, budget, seed, part, parts, hints=()):
    res = dict(fails=[], cases=0, distinct=0, tests={}, skipped={}, errors=[], samples=[])
    try:
        tests = load(pid)
    except ModuleNotFoundError as e:
        if e.name == "probes." + pid.lower():
            return res
        res["errors"].append(traceback.format_exc())
        return res
    except Exception as e:
        if from_repo(e.__traceback__):
            res["fails"].append(dict(key=f"{pid}:load", what="the probe's data models cannot be built: " +
                                     traceback.format_exc()[-800:], test="load", case=None))
        else:
            res["errors"].append(traceback.format_exc())
        return res
    end = time.time() + budget
    seen = set()
    live = []
    for k, t in enumerate(tests):
        rng = random.Random(f"{seed}/{t.name}")
        rng.hints = list(hints)
        rng.part, rng.parts = part, parts
        live.append([t, t.gen(rng), 0.0])
    skipc, nfail = {}, {}
    tot_w = sum(t.weight for t in tests) or 1
    while live and time.time() < end:
        live.sort(key=lambda x: x[2] / x[0].weight)
        ent = live[0]
        t = ent[0]
        t1 = time.time()
        stop = t1 + max(0.05, budget / 60)
        drop = False
        while time.time() < stop and time.time() < end:
            try:
                case = next(ent[1])
            except StopIteration:
                drop = True
                break
            except Exception as e:
                if from_repo(e.__traceback__):
                    res["errors"].append(f"generator of {t.name}: " + traceback.format_exc()[-700:])
                else:
                    res["errors"].append(traceback.format_exc()[-700:])
                drop = True
                break
            res["cases"] += 1
            res["tests"][t.name] = res["tests"].get(t.name, 0) + 1
            key = hash(repr(case))
            if key not in seen:
                seen.add(key)
                if len(res["samples"]) < 3:
                    res["samples"].append(f"{t.name}: {case!r}"[:300])
            what, err = run_one(t, case)
            if err:
                if err.startswith("skip"):
                    res["skipped"][t.name] = err
                else:
                    if len(res["errors"]) < 5:
                        res["errors"].append(f"{t.name} {case!r}"[:300] + "\n" + err)
                skipc[t.name] = skipc.get(t.name, 0) + 1
                if skipc[t.name] >= 20:
                    drop = True
                    break
            if what:
                nfail[t.name] = nfail.get(t.name, 0) + 1
                case = shrink(t, case, end)
                what = run_one(t, case)[0] or what
                res["fails"].append(dict(key=f"{pid}:{t.name}:{json.dumps(case, default=str)[:160]}",
                                         what=what[:1500], test=t.name, case=case))
                if nfail[t.name] >= 3:
                    drop = True
                    break
        ent[2] += time.time() - t1
        if drop:
            live.remove(ent)
    res["distinct"] = len(seen)
    return res


def shrink(t, case, end):
    """Greedy shrinking of JSON-like cases."""
    best = case
    t0 = time.time()

    def smaller(v):
        if isinstance(v, list):
            for i in range(len(v)):
                yield v[:i] + v[i + 1:]
            for i in range(len(v)):
                for w in smaller(v[i]):
                    yield v[:i] + [w] + v[i + 1:]
        elif isinstance(v, dict):
            for k in v:
                yield {a: b for a, b in v.items() if a != k}
            for k in v:
                for w in smaller(v[k]):
                    yield {**v, k: w}
        elif isinstance(v, str) and v:
            yield v[:len(v) // 2]
            yield v[len(v) // 2:]
            if len(v) < 12:
                for i in range(len(v)):
                    yield v[:i] + v[i + 1:]
        elif isinstance(v, int) and not isinstance(v, bool) and abs(v) > 1:
            yield v // 2 if v > 0 else -(-v // 2)
    if isinstance(case, tuple):
        return case
    again = True
    while again and time.time() - t0 < 4:
        again = False
        for w in smaller(best):
            if time.time() - t0 > 4:
                break
            try:
                if run_one(t, w)[0]:
                    best = w
                    again = True
                    break
            except Exception:
                pass
    return best


def replay(path):
    d = json.load(open(path))
    pid = d["property"]
    if "test" not in d:
        print("no concrete input in this replay; failed obligations:")
        for o in d["failed_obligations"]:
            print(" ", o["function"], "-", o["obligation"])
        return 0
    for t in load(pid):
        if t.name == d["test"]:
            what, err = run_one(t, d["case"])
            print(what or err or "no failure on this tree")
            return 1 if what else 0
    return 0


# ------------------------------------------------------------------ helpers for probes
def outcome(f, *a, **kw):
    try:
        return ("ret", f(*a, **kw))
    except RecursionError:
        raise
    except Exception as e:
        return ("exc", e)


def chain(*its):
    return itertools.chain(*its)


def forever(f):
    while True:
        yield f()
