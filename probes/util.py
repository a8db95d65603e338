"""Helpers shared by the probes: data models in scratch folders, random values."""
import atexit
import json
import os
import random
import shutil
import tempfile
from decimal import Decimal
from yangson.datamodel import DataModel
from yangson.instvalue import ArrayValue, ObjectValue

_cache = {}
_dirs = []


def _clean():
    for d in _dirs:
        shutil.rmtree(d, ignore_errors=True)


def library(mods):
    """Legacy YANG library: mods = list of dicts name, rev, ns, feat, ct, subs."""
    out = []
    for m in mods:
        e = {"name": m["name"], "revision": m.get("rev", ""), "namespace": m.get("ns", "urn:" + m["name"]),
             "conformance-type": m.get("ct", "implement")}
        if m.get("feat"):
            e["feature"] = list(m["feat"])
        if m.get("subs"):
            e["submodule"] = [{"name": s, "revision": ""} for s in m["subs"]]
        if m.get("dev"):
            e["deviation"] = m["dev"]
        out.append(e)
    return json.dumps({"ietf-yang-library:modules-state": {"module-set-id": "x", "module": out}})


def model(texts, mods=None):
    """Build a DataModel from {file stem: text}; mods describes the library."""
    if isinstance(texts, str):
        texts = {"m": texts}
    if mods is None:
        mods = [{"name": n} for n in texts]
    key = json.dumps([texts, mods], sort_keys=True)
    if key in _cache:
        return _cache[key]
    d = tempfile.mkdtemp(prefix="yprobe")
    _dirs.append(d)
    try:
        for n, t in texts.items():
            with open(os.path.join(d, n + ".yang"), "w", encoding="utf-8") as f:
                f.write(t)
        dm = DataModel(library(mods), (d,))
    finally:
        shutil.rmtree(d, ignore_errors=True)
        _dirs.remove(d)
    if len(_cache) > 400:
        _cache.clear()
    _cache[key] = dm
    return dm


atexit.register(_clean)


def module(body, name="m", head=""):
    return f'module {name} {{ yang-version 1.1; namespace "urn:{name}"; prefix {name}; {head}\n{body}\n}}\n'


# ---- cooked values <-> JSON cases
def cook(v):
    """JSON description of a cooked value -> cooked value."""
    if isinstance(v, list):
        tag = v[0]
        if tag == "arr":
            return ArrayValue([cook(x) for x in v[1:]])
        if tag == "obj":
            return ObjectValue({k: cook(x) for k, x in v[1:]})
        if tag == "dec":
            return Decimal(v[1])
        if tag == "tup":
            return tuple(v[1:])
        if tag == "bytes":
            return bytes(v[1:])
        if tag == "raw":
            return [cook(x) for x in v[1:]]
        if tag == "rawd":
            return {k: cook(x) for k, x in v[1:]}
    return v


def rand_scalar(r):
    return r.choice([
        lambda: r.randint(-3, 3), lambda: r.choice(["", "a", "b", "ab", "A"]), lambda: r.random() < .5,
        lambda: None, lambda: ["dec", r.choice(["1", "1.0", "0", "-2.5", "3.14", "-0"])],
        lambda: ["tup"] + r.choice([[], ["a"], ["a", "b"], ["b", "a"]]),
        lambda: ["bytes"] + [r.randrange(3) for _ in range(r.randrange(3))]])()


def rand_value(r, depth=3):
    k = r.random()
    if depth == 0 or k < .45:
        return rand_scalar(r)
    if k < .7:
        return ["arr"] + [rand_value(r, depth - 1) for _ in range(r.randrange(4))]
    ks = r.sample(["a", "b", "c", "m:d"], r.randrange(4))
    return ["obj"] + [[x, rand_value(r, depth - 1)] for x in ks]
