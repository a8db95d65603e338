"""C01: membership of scalar values against the reference of RFC 7950."""
from pyvc.probes import probe
from .types import *


def gen(r):
    while True:
        d = gen_type(r)
        for _ in range(12):
            yield (d, gen_value(r, d))


@probe(gen, weight=4)
def membership(case):
    d, v = case
    t = build(d)
    x = cookv(v)
    t.error_tag = t.error_message = None
    got = x in t
    want = accepts(d, v)
    if got != want:
        return f"{x!r} in {d}: {got}, expected {want}"
    if not got and not (t.error_tag and t.error_message):
        return f"{x!r} refused by {d} without error information ({t.error_tag!r}, {t.error_message!r})"
    # asking again gives the same answer
    if (x in t) != want:
        return f"second answer for {x!r} in {d} differs"


def gen_val(r):
    while True:
        d = gen_type(r)
        v = gen_value(r, d)
        if accepts(d, v) or raw_able(v):
            yield (d, v)


def raw_able(v):
    return v[0] in ("i", "s", "b")


LREF = None


@probe(gen)
def leafref_membership(case):
    """A leafref contains exactly the values of the leaf it refers to."""
    d, v = case
    tdefs = []
    t = type_text(d, tdefs)
    m = model(module(IDTEXT + "\n" + "\n".join(tdefs) + f"\nleaf x {{ {t} }} leaf y {{ type leafref {{ path \"/x\"; }} }}"
                     " leaf z { type union { type leafref { path '../y'; } } }"))
    x = cookv(v)
    want = accepts(d, v)
    for n in "yz":
        lt = m.get_schema_node("/m:" + n).type
        lt.error_tag = lt.error_message = None
        if (x in lt) != want:
            return f"{x!r} in leafref ({n}) to {d}: {not want}, expected {want}"
        if not want and not (lt.error_tag and lt.error_message):
            return f"{x!r} refused by leafref to {d} without error information"


@probe(gen)
def validation(case):
    """InstanceNode.validate agrees with membership for a leaf value."""
    d, v = case
    if v[0] == "n" or d["b"] == "instance-identifier" or v[0] in ("arr", "obj", "rt"):
        return
    from yangson.exceptions import YangTypeError
    from yangson.instvalue import ObjectValue
    tdefs = []
    t = type_text(d, tdefs)
    m = model(module(IDTEXT + "\n" + "\n".join(tdefs) + f"\nleaf x {{ {t} }}"))
    from yangson.instance import RootNode
    root = m.from_raw({})
    inst = root.put_member("m:x", cookv(v))
    want = accepts(d, v)
    try:
        inst.validate()
        got = True
    except YangTypeError as e:
        got = False
        if not e.tag or not e.message:
            return f"YangTypeError for {v} without tag or message"
        str(e)
    if got != want:
        return f"validation of {cookv(v)!r} as {d}: {got}, expected {want}"
