"""C02: JSON encoding of scalars and of whole data trees."""
import json
from decimal import Decimal
from pyvc.probes import probe
from yangson.exceptions import YangsonException, RawDataError, AnnotationException
from .types import *
from . import schema as sc
from .schema import contained, same


@probe(contained, weight=3)
def roundtrip(case):
    d, v = case
    t, x = build(d), cookv(v)
    raw = t.to_raw(x)
    want = raw_of(d, v)
    if not same(raw, want):
        return f"{x!r} in {d} is encoded as {raw!r}, expected {want!r}"
    if json.loads(json.dumps(raw)) != raw:
        return f"{raw!r} does not survive JSON"
    if d["b"] == "union" and sc.decode(d, raw) != sc.norm(first_member(d, v), v):
        return
    y = t.from_raw(raw)
    if d["b"] != "union" and d["b"] == "bits":
        if sorted(y) != sorted(x):
            return f"{x!r} in {d} -> {raw!r} -> {y!r}"
    elif first_member(d, v)["b"] == "bits":
        if y is None or sorted(y) != sorted(x):
            return f"{x!r} in {d} -> {raw!r} -> {y!r}"
    elif not (same(x, y) or isinstance(y, Decimal) and y == x):
        return f"{x!r} in {d} -> {raw!r} -> {y!r}"


def anyjson(r):
    while True:
        d = gen_type(r)
        for _ in range(10):
            yield (d, gen_raw(r, d))


@probe(anyjson, weight=2)
def totality(case):
    """Decoding any JSON value yields nothing or a value of the right kind."""
    d, raw = case
    t = build(d)
    y = t.from_raw(raw)
    if y is not None and not kind_ok(d, y):
        return f"{raw!r} decoded as {d} gives {y!r}"


@probe(anyjson, weight=2)
def exact_numbers(case):
    """What is accepted is what the JSON value says."""
    d, raw = case
    t = build(d)
    y = t.from_raw(raw)
    if y is None or y not in t:
        want = None
    else:
        want = y
    if d["b"] in ("union", "bits", "instance-identifier"):
        return
    ref = [v for v in sc.candidates(d, raw) if accepts(d, v)]
    if d["b"] == "decimal64" and isinstance(raw, str):
        return
    if d["b"] == "binary" and isinstance(raw, str):
        return
    if d["b"] in ("int64", "uint64") and isinstance(raw, str) and not raw.isascii():
        return
    if d["b"] in ("int64", "uint64") and not isinstance(raw, str):
        return
    if bool(ref) != (want is not None):
        return f"{raw!r} decoded as {d}: {want!r}, reference {ref}"
    if ref and cookv(ref[0]) != want:
        return f"{raw!r} decoded as {d}: {want!r}, reference {ref}"


def trees(r):
    while True:
        o = sc.Opts(when=0, defaults=.1)
        s = sc.gen_schema(r, o)
        for _ in range(8):
            yield (s, sc.gen_doc(r, s, good=1))


@probe(trees, weight=3)
def tree_roundtrip(case):
    s, doc = case
    m = sc.build(s)
    raw = sc.to_raw(s, doc)
    root = m.from_raw(json.loads(json.dumps(raw)))
    out = root.raw_value()
    if out != raw or json.dumps(out, sort_keys=True) != json.dumps(raw, sort_keys=True):
        return f"{raw} is encoded again as {out}\n{sc.texts(s)}"
    again = m.from_raw(out)
    if again.value != root.value:
        return f"{raw}: decoded value differs the second time"
    # every node separately
    for name, val in raw.items():
        q = (name.split(":")[-1], name.split(":")[0])
        if root[name].raw_value() != val:
            return f"raw value of member {name} is {root[name].raw_value()!r}, document has {val!r}"


def broken(r):
    while True:
        o = sc.Opts(when=0)
        s = sc.gen_schema(r, o)
        for _ in range(8):
            raw = sc.to_raw(s, sc.gen_doc(r, s, good=1))
            raw = json.loads(json.dumps(raw))
            for _ in range(r.choice([1, 1, 2])):
                raw = damage(r, raw)
            yield (s, raw)


def damage(r, x):
    """Replace, insert or remove something somewhere."""
    if isinstance(x, dict) and x and r.random() < .8:
        k = r.choice(sorted(x))
        z = r.random()
        if z < .1:
            x[r.choice(["nope", "m:nope", "q:x", ":", "a:" + k, "@" + k, ""])] = x.pop(k)
        else:
            x[k] = damage(r, x[k])
        return x
    if isinstance(x, list) and x and r.random() < .7:
        i = r.randrange(len(x))
        x[i] = damage(r, x[i])
        return x
    return gen_json(r)


def kinds_ok(ch, val, pns):
    for m, v in val.items():
        n = sc.child_of(ch, m, pns) or next((x for x in sc.data_children(ch)
                                             if m == f"{x['ns']}:{x['n']}"), None)
        if n is None:
            return f"unknown member {m}"
        k = n["k"]
        if k == "leaf" and not kind_ok(n["t"], v):
            return f"leaf {m}: {v!r}"
        if k == "leaf-list" and not (isinstance(v, list) and all(kind_ok(n["t"], x) for x in v)):
            return f"leaf-list {m}: {v!r}"
        if k == "container":
            if not isinstance(v, dict):
                return f"container {m}: {v!r}"
            x = kinds_ok(n["ch"], v, n["ns"])
            if x:
                return x
        if k == "list":
            if not isinstance(v, list):
                return f"list {m}: {v!r}"
            for e in v:
                x = kinds_ok(n["ch"], e, n["ns"]) if isinstance(e, dict) else f"entry {e!r}"
                if x:
                    return x


@probe(broken, weight=3)
def tree_totality(case):
    s, raw = case
    m = sc.build(s)
    try:
        root = m.from_raw(raw)
    except YangsonException as e:
        if not isinstance(e, RawDataError) and not (isinstance(e, AnnotationException) and "\"@" in json.dumps(raw)):
            return f"{raw!r}: {type(e).__name__} is not a raw data error"
        str(e)
        return
    x = kinds_ok(s, root.value, None)
    if x:
        return f"{raw!r} decoded to a value of the wrong kind: {x}\n{sc.texts(s)}"
