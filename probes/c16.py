"""C16: entry counts, keys, unique statements and duplicates of real documents."""
import random
from pyvc.probes import probe, Skip, outcome
from yangson.enumerations import ContentType, ValidationScope
from yangson.exceptions import SchemaError, SemanticError, ValidationError
from .schema import *

TAGS = {"too-few": "too-few-elements", "too-many": "too-many-elements", "dup": "repeated-leaf-list-value",
        "dup-key": "non-unique-key", "key-missing": "list-key-missing", "unique": "data-not-unique"}


def lists(ch):
    for n in ch:
        if n["k"] in ("list", "leaf-list"):
            yield n
        yield from lists(n.get("ch", []))


def near(r, s, doc):
    """Provoke clashes: copy entries, copy members of entries, drop or add entries."""
    pairs = []

    def walk(ch, d, ns):
        for m, v in d[1]:
            n = child_of(ch, m, ns)
            if n is None:
                continue
            if n["k"] in ("list", "leaf-list"):
                pairs.append((n, v))
            if n["k"] == "list":
                for x in v[1]:
                    walk(n["ch"], x, n["ns"])
            elif n["k"] == "container":
                walk(n["ch"], v, n["ns"])
    walk(s, doc, None)
    for _ in range(r.choice([0, 1, 1, 2])):
        if not pairs:
            return
        n, v = r.choice(pairs)
        xs = v[1]
        k = r.random()
        if not xs or k < .2:
            xs.insert(r.randint(0, len(xs)), gen_doc(r, n["ch"], n["ns"], 1, n0=n["keys"]) if n["k"] == "list" else
                      leaf_val(r, n, 1))
        elif k < .35:
            del xs[r.randrange(len(xs))]
        elif k < .5 or n["k"] == "leaf-list":
            xs.insert(r.randint(0, len(xs)), json.loads(json.dumps(r.choice(xs))))
        else:
            a, b = r.choice(xs), r.choice(xs)
            deep(r, a, b)


def deep(r, a, b):
    for m, v in a[1]:
        if isinstance(v, list) and v and v[0] == "o" and r.random() < .8:
            w = get(b, m)
            if w is not None:
                deep(r, v, w)
                continue
        if r.random() < .6:
            for x in b[1]:
                if x[0] == m:
                    x[1] = json.loads(json.dumps(v))
                    break
            else:
                if r.random() < .5:
                    b[1].append([m, json.loads(json.dumps(v))])


def gen(r):
    while True:
        s = gen_schema(r, Opts(must=0, when=r.choice([0, .1]), minmax=.5, unique=.6, choice=.15, mand=.1, width=5,
                               types=r.choice([None, ["int8", "boolean", "string"], ["enumeration", "uint8", "decimal64"]])))
        if not any(True for _ in lists(s)):
            continue
        for _ in range(8):
            doc = gen_doc(r, s, good=.97)
            near(r, s, doc)
            yield (s, doc, r.choice(["all", "config"]), r.choice(["semantics", "semantics", "all"]))


@probe(gen, weight=3)
def constraints(case):
    s, doc, ct, scope = case
    m = build(s)
    raw = to_raw(s, doc)
    errs = check(s, doc, None, ct)
    kinds = {x for x, _ in errs}
    if kinds & {"not-allowed", "type", "two-cases", "unknown"} or kinds & {"missing"} and scope == "all":
        return
    kinds &= set(TAGS)
    k, root = outcome(m.from_raw, raw)
    if k == "exc":
        return
    k, e = outcome(root.validate, ValidationScope[scope], ContentType[ct])
    if k == "exc" and not isinstance(e, ValidationError):
        raise e
    if bool(kinds) != (k == "exc"):
        return f"validation ({ct}, {scope}) of {raw} gives {e!r} {e if k == 'exc' else ''}; expected {sorted(errs) or 'no error'}"
    if k == "exc":
        want = {TAGS[x] for x in kinds} | ({"missing-data"} if "key-missing" in kinds else set())
        if not any(e.tag == w or e.tag.startswith(w + ":") for w in want):
            return f"{raw}: error tag {e.tag!r}, expected one of {sorted(want)}"


def gen_one(r):
    yield ("leaf-list",)


@probe(gen_one)
def bool_number(case):
    """The union values 1 and true are different entries."""
    u = "type union { type uint8; type boolean; }"
    m = model(module("leaf-list x { " + u + " }"))
    k, e = outcome(m.from_raw({"m:x": [1, True]}).validate, ValidationScope.all, ContentType.all)
    if k == "exc":
        return f"leaf-list entries 1 and true are reported as equal ({e})"


@probe(gen_one)
def decimal_number(case):
    """The union values 0 (integer) and 0.0 (decimal64) are different entries: their canonical forms differ."""
    u = "type union { type uint8; type decimal64 { fraction-digits 1; } }"
    m = model(module("leaf-list x { " + u + " }"))
    k, e = outcome(m.from_raw({"m:x": [0, "0.0"]}).validate, ValidationScope.all, ContentType.all)
    if k == "exc":
        return f"leaf-list entries 0 and 0.0 are reported as equal ({e})"


# ---------------------------------------------------------------- unique statements changed by deviations
LV = ["a", "b", "c/d"]


def gen_dev(r):
    while True:
        us = r.sample([["a"], ["b"], ["a", "b"], ["c/d"], ["a", "c/d"], ["b", "a"]], r.randint(1, 3))
        act = r.choice(["add", "delete", "delete", "both"])
        new = r.choice([["b"], ["c/d", "b"], ["a"]])
        gone = r.randrange(len(us))
        docs = [[[r.choice([None, "x", "y"]) for _ in LV] for _ in range(r.randint(2, 4))] for _ in range(6)]
        for d in docs:
            yield (us, act, new, gone, d)


@probe(gen_dev, weight=.3)
def deviated_unique(case):
    us, act, new, gone, doc = case
    pr = lambda u: " ".join("/".join("m:" + x for x in p.split("/")) for p in u)
    text = module("list l { key k; %s leaf k { type uint8; } leaf a { type string; } leaf b { type string; } "
                  "container c { leaf d { type string; } } }" % " ".join(f'unique "{" ".join(u)}";' for u in us))
    dev, want = "", [list(u) for u in us]
    if act in ("delete", "both"):
        dev += f'deviate delete {{ unique "{pr(us[gone])}"; }} '
        del want[gone]
    if act in ("add", "both"):
        dev += f'deviate add {{ unique "{pr(new)}"; }} '
        want.append(list(new))
    dm = model({"m": text, "n": module(f'deviation "/m:l" {{ {dev} }}', "n", "import m { prefix m; }")})
    rows = []
    for i, (a, b, d) in enumerate(doc):
        e = {"k": i}
        e.update({k: v for k, v in (("a", a), ("b", b)) if v is not None})
        if d is not None:
            e["c"] = {"d": d}
        rows.append(e)
    val = [dict(zip(LV, e)) for e in doc]
    ok = not any(all(x[p] is not None and x[p] == y[p] for p in u) for u in want
                 for i, x in enumerate(val) for y in val[:i])
    try:
        dm.from_raw({"m:l": rows}).validate(ValidationScope.all)
        got = True
    except SemanticError as e:
        if e.tag.split(":")[0] != "data-not-unique":
            return f"{rows} with unique {us}, {dev}: tag {e.tag}"
        got = False
    if got != ok:
        return f"{rows} with unique {us}, {dev}: {'accepted' if got else 'refused'}"
