"""C19: structural equality, hashing, copy."""
import datetime
from pyvc.probes import probe
from .util import *


def ref_eq(a, b):
    """Reference: structural equality of descriptions of values."""
    ta = a[0] if isinstance(a, list) else None
    tb = b[0] if isinstance(b, list) else None
    if ta != tb and (ta in ("arr", "obj", "raw", "rawd") or tb in ("arr", "obj", "raw", "rawd")):
        return False
    if ta in ("arr", "raw"):
        return len(a) == len(b) and all(ref_eq(x, y) for x, y in zip(a[1:], b[1:]))
    if ta in ("obj", "rawd"):
        da, db = dict(map(tuple, a[1:])) if False else {k: v for k, v in a[1:]}, {k: v for k, v in b[1:]}
        return set(da) == set(db) and all(ref_eq(da[k], db[k]) for k in da)
    return cook(a) == cook(b)


def perturb(r, v):
    """A value close to v: same, reordered, one entry changed, one dropped."""
    if not isinstance(v, list) or v[0] not in ("arr", "obj"):
        return rand_scalar(r) if r.random() < .3 else v
    v = [v[0]] + [x if v[0] == "arr" else list(x) for x in v[1:]]
    k = r.random()
    if k < .2:
        tail = v[1:]
        r.shuffle(tail)
        return [v[0]] + tail
    if len(v) > 1 and k < .6:
        i = r.randrange(1, len(v))
        if v[0] == "arr":
            v[i] = perturb(r, v[i])
        else:
            v[i] = [v[i][0], perturb(r, v[i][1])]
        return v
    if len(v) > 1 and k < .75:
        i = r.randrange(1, len(v))
        return v[:i] + v[i + 1:]
    if k < .85 and v[0] == "arr":
        return v + [rand_scalar(r)]
    if k < .9:
        return {"arr": ["raw"], "obj": ["rawd"]}[v[0]] + v[1:]
    return v


def gen_pair(r):
    yield (["arr"], ["obj"])
    while True:
        a = rand_value(r)
        while not isinstance(a, list) or a[0] not in ("arr", "obj"):
            a = rand_value(r)
        b = perturb(r, a) if r.random() < .8 else rand_value(r)
        yield (a, b)


@probe(gen_pair)
def eq_hash(case):
    a, b = case
    x, y = cook(a), cook(b)
    want = ref_eq(a, b)
    if (x == y) is not want:
        return f"{x!r} == {y!r} is {x == y}, structural equality is {want}"
    if (x != y) is want:
        return f"{x!r} != {y!r} is {x != y}"
    x2 = cook(a)
    x2.timestamp = datetime.datetime(2000, 1, 1)
    if not x == x2 or x != x2:
        return f"{x!r} not equal to itself rebuilt with another timestamp"
    if hash(x) != hash(x2):
        return f"equal values {x!r} with different hashes"
    if want and hash(x) != hash(y):
        return f"equal values {x!r}, {y!r} with different hashes"


def gen_one(r):
    while True:
        a = rand_value(r)
        if isinstance(a, list) and a[0] in ("arr", "obj"):
            yield a


@probe(gen_one)
def copies(a):
    x = cook(a)
    y = x.copy()
    if type(y) is not type(x) or y is x:
        return f"copy of {x!r} is {y!r}"
    if not (y == x):
        return f"copy {y!r} differs from {x!r}"
    if isinstance(x, ArrayValue):
        y.append("new")
        if len(x):
            y[0] = "other"
    else:
        y["zz"] = 1
        for k in list(x)[:1]:
            del y[k]
    if x != cook(a):
        return f"changing a copy changed the original: {x!r}"
    if y == x:
        return "a changed copy still equals the original"
