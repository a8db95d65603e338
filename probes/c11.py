"""C11: merge against an independent keyed, recursive union."""
import json
from pyvc.probes import probe, Skip, outcome
from .schema import *
from .tree import plain, fresh


def ident(n, v):
    """Identity of an entry: canonical keys, or the whole content."""
    if n["k"] == "leaf-list":
        return json.dumps(keyof(n["t"], v))
    if n["keys"]:
        by = {iname(c, n["ns"]): c for c in data_children(n["ch"])}
        return json.dumps([keyof(by[k]["t"], get(v, k)) for k in n["keys"]])
    return json.dumps(content(n["ch"], v, n["ns"]))


def content(ch, v, pns):
    """Structure up to the order of members."""
    out = []
    for m, x in sorted(v[1], key=lambda p: p[0]):
        n = child_of(ch, m, pns)
        if n["k"] == "leaf":
            out.append([m, keyof(n["t"], x)])
        elif n["k"] == "leaf-list":
            out.append([m, [keyof(n["t"], y) for y in x[1]]])
        elif n["k"] == "container":
            out.append([m, content(n["ch"], x, n["ns"])])
        elif n["k"] == "list":
            out.append([m, [content(n["ch"], y, n["ns"]) for y in x[1]]])
        else:
            out.append([m, x])
    return out


def merged(n, a, b):
    k = n["k"]
    if k in ("leaf", "anydata"):
        return b
    if k == "container":
        return merged_obj(n["ch"], a, b, n["ns"])
    if k == "list" and n["keys"]:
        new = {ident(n, y): y for y in b[1]}
        out = []
        for x in a[1]:
            y = new.pop(ident(n, x), None)
            out.append(x if y is None else merged_obj(n["ch"], x, y, n["ns"]))
        return ["l", out + list(new.values())]
    have = {ident(n, x) for x in a[1]}
    return ["l", a[1] + [y for y in b[1] if ident(n, y) not in have]]


def merged_obj(ch, a, b, pns):
    out = []
    for m, x in a[1]:
        y = get(b, m)
        out.append([m, x if y is None else merged(child_of(ch, m, pns), x, y)])
    return ["o", out + [[m, y] for m, y in b[1] if get(a, m) is None]]


def unique_entries(ch, doc, pns=None):
    """No two entries of a keyed list or leaf-list with the same identity."""
    out = []
    for m, x in doc[1]:
        n = child_of(ch, m, pns)
        if n["k"] == "container":
            x = unique_entries(n["ch"], x, n["ns"])
        elif n["k"] == "list":
            seen, xs = set(), []
            for y in x[1]:
                i = ident(n, y)
                if not (n["keys"] and i in seen):
                    seen.add(i)
                    xs.append(unique_entries(n["ch"], y, n["ns"]))
            x = ["l", xs]
        out.append([m, x])
    return ["o", out]


def gen(r):
    while True:
        s = gen_schema(r, Opts(must=0, when=0, unique=0, config=.2, anydata=.08, choice=.15, mand=.05,
                               types=r.choice([None, ["uint8", "string"], ["int8", "boolean", "string", "enumeration", "bits"]])))
        for _ in range(5):
            a, b = (prepared(s, gen_doc(r, s, good=1)) for _ in "ab")
            if a and b:
                yield (s, a, b, r.random() < .5)


def prepared(s, doc):
    try:
        return unique_entries(s, doc)
    except TypeError:              # an entry without a key
        return None


def places(ch, a, b, pns=None, path=()):
    """(path, schema node, entry?, a, b) below the root where both documents have something."""
    for m, x in a[1]:
        n, y = child_of(ch, m, pns), get(b, m)
        if y is None:
            continue
        yield path + (m,), n, False, x, y
        if n["k"] == "container":
            yield from places(n["ch"], x, y, n["ns"], path + (m,))
        if n["k"] in ("list", "leaf-list"):
            for i in range(len(x[1])):
                for z in y[1]:
                    yield path + (m, i), n, True, x[1][i], z


def doc_put(doc, path, v):
    if not path:
        return v
    k = path[0]
    if isinstance(k, str):
        return ["o", [[m, doc_put(x, path[1:], v) if m == k else x] for m, x in doc[1]]]
    return [doc[0], doc[1][:k] + [doc_put(doc[1][k], path[1:], v)] + doc[1][k + 1:]]


@probe(gen, weight=3)
def merging(case):
    s, a, b, raw = case
    if prepared(s, a) != a or prepared(s, b) != b:
        return
    m = build(s)
    ra, rb = to_raw(s, a), to_raw(s, b)
    root, other = m.from_raw(ra), m.from_raw(rb)
    want = plain(m.from_raw(to_raw(s, merged_obj(s, a, b, None))).value)
    pa, pb = plain(root.value), plain(other.value)
    res = root.merge(rb if raw else other.value, raw=raw)
    if plain(res.value) != want:
        return f"merging {rb} into {ra} gives {res.raw_value()}, expected {to_raw(s, merged_obj(s, a, b, None))}"
    if plain(root.value) != pa or plain(other.value) != pb:
        return f"merging {rb} into {ra} changed an operand: {root.raw_value()}, {other.raw_value()}"
    again = res.merge(rb if raw else other.value, raw=raw)
    if plain(again.value) != want:
        return f"merging {rb} twice gives {again.raw_value()}, once {res.raw_value()}"
    if plain(m.from_raw({}).merge(rb, raw=True).value) != pb:
        return f"merging {rb} into the empty tree gives something else"
    for path, n, entry, x, y in list(places(s, a, b))[:12]:
        node = root
        for k in path:
            node = node[k]
        if entry:
            one = merged(dict(n, k="container"), x, y) if n["k"] == "list" else y
            yraw = to_raw(n["ch"], y, n["ns"]) if n["k"] == "list" else raw_leaf(n["t"], y)
        else:
            one, yraw = merged(n, x, y), raw_val(n, y)
        got = node.merge(yraw, raw=True)
        exp = plain(m.from_raw(to_raw(s, doc_put(a, path, one))).value)
        if plain(got.top().value) != exp:
            return f"merging {yraw} at {path} of {ra} gives {got.top().raw_value()}"
        if got.schema_node is not node.schema_node or got.json_pointer() != node.json_pointer():
            return f"merging at {path} of {ra} leaves the focus at {got.json_pointer()}"
    if plain(root.value) != pa:
        return f"merging below {ra} changed it"
