"""C03: canonical text of scalars."""
from pyvc.probes import probe, outcome
from yangson.exceptions import InvalidArgument
from .types import *
from . import schema as sc
from .schema import contained, same
from decimal import Decimal


@probe(contained, weight=3)
def canonical(case):
    d, v = case
    t, x = build(d), cookv(v)
    s = t.canonical_string(x)
    want = canon(d, v)
    if s != want:
        return f"canonical string of {x!r} in {d} is {s!r}, expected {want!r}"
    if d["b"] == "union" and sc.parse_union(d, s) != sc.norm(first_member(d, v), v):
        return
    y = t.parse_value(s)
    if first_member(d, v)["b"] == "bits":
        if y is None or sorted(y) != sorted(x):
            return f"{x!r} in {d} -> {s!r} -> {y!r}"
        z = t.canonical_string(y)
    elif not (same(x, y) or isinstance(y, Decimal) and y == x):
        return f"{x!r} in {d} -> {s!r} -> {y!r}"
    else:
        z = t.canonical_string(y)
    if z != s:
        return f"{x!r} in {d}: canonical string {s!r}, of the parsed value {z!r}"
    k, y2 = outcome(t.from_yang, s)
    if d["b"] not in ("identityref", "instance-identifier", "union") and (k != "ret" or y2 != y):
        return f"{s!r} in {d} as a default value: {y2!r}, expected {y!r}"


def pairs(r):
    while True:
        d = gen_type(r)
        vs = [v for v in (gen_value(r, d) for _ in range(10)) if accepts(d, v) and v[0] != "rt"]
        for i in range(len(vs)):
            for j in range(i):
                if r.random() < .3:
                    yield (d, vs[i], vs[j])


@probe(pairs)
def injective(case):
    d, a, b = case
    if d["b"] == "union":
        return
    t = build(d)
    x, y = cookv(a), cookv(b)
    eq = sorted(x) == sorted(y) if d["b"] == "bits" else x == y
    s, u = t.canonical_string(x), t.canonical_string(y)
    if eq != (s == u):
        return f"{x!r} and {y!r} in {d}: canonical strings {s!r}, {u!r}"


def anytext(r):
    while True:
        d = gen_type(r)
        for _ in range(10):
            x = gen_raw(r, d)
            yield (d, x if isinstance(x, str) else str(x))


def expected(d, s):
    """Value a text denotes, for the types whose lexical form is unambiguous."""
    b = d["b"]
    if b in INTS and re.fullmatch(r"[-+]?[0-9]+", s) and len(s) < 4000:
        return ["i", int(s)]
    if b == "boolean":
        return ["b", s == "true"] if s in ("true", "false") else None
    if b in ("string", "enumeration"):
        return ["s", s]
    if b == "decimal64" and re.fullmatch(r"[-+]?[0-9]+(\.[0-9]+)?", s) and len(s) < 20 and \
            len(s.partition(".")[2]) <= d["fd"]:
        return ["d", s]
    return "?"


@probe(anytext, weight=2)
def totality(case):
    d, s = case
    t = build(d)
    y = t.parse_value(s)
    if y is not None and not kind_ok(d, y):
        return f"{s!r} parsed as {d} gives {y!r}"
    e = expected(d, s)
    if e != "?":
        ok = e is not None and accepts(d, e)
        if ok and (y is None or y not in t or y != cookv(e)):
            return f"{s!r} parsed as {d} gives {y!r}, expected {e}"
        if not ok and y is not None and y in t:
            return f"{s!r} parsed as {d} gives {y!r}, which should not be in the type"
    k, z = outcome(t.from_yang, s)
    if k == "exc" and not isinstance(z, InvalidArgument) and d["b"] not in ("identityref", "union", "instance-identifier"):
        return f"from_yang({s!r}) of {d} raises {z!r}"
