"""A reference for instance trees: nested dicts and lists with a focus (used by C07, C08, C09, C11)."""
import copy
import random
from decimal import Decimal
from yangson.exceptions import *
from yangson.instance import InstanceNode, ObjectMember, ArrayEntry, RootNode
from yangson.instvalue import ArrayValue, ObjectValue
from .schema import *


def plain(v):
    """Cooked value as something that compares strictly."""
    if isinstance(v, ArrayValue):
        return ["l"] + [plain(x) for x in v]
    if isinstance(v, ObjectValue):
        return {"o": {k: plain(x) for k, x in v.items()}}
    if isinstance(v, dict):
        return {"md": {k: plain(x) for k, x in v.items()}}
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [plain(x) for x in v]
    return [type(v).__name__, repr(v)]


def at(tree, path):
    for k in path:
        tree = tree["o"][k] if isinstance(k, str) else tree[k + 1]
    return tree


def put(tree, path, v):
    """New tree with another value at path."""
    if not path:
        return v
    t = copy.copy(tree)
    if isinstance(path[0], str):
        t["o"] = dict(tree["o"])
        t["o"][path[0]] = put(tree["o"].get(path[0]), path[1:], v)
    else:
        t[path[0] + 1] = put(tree[path[0] + 1], path[1:], v)
    return t


def is_obj(v):
    return isinstance(v, dict)


def is_arr(v):
    return isinstance(v, list) and v[0] == "l"


def snode(schema, path):
    """Schema description of the node at path, and its module name for members."""
    ch, ns, n = schema, None, None
    for k in path:
        if isinstance(k, str):
            n = child_of(ch, k, ns)
            if n is None:
                return None
            ch, ns = n.get("ch", []), n["ns"]
    return n


def members(schema, path):
    """(instance name, schema node) of every member the schema allows at path."""
    n = snode(schema, path)
    ch, ns = (schema, None) if not path else (n.get("ch", []), n["ns"])
    return [(iname(c, ns), c) for c in data_children(ch)]


def local(path, name, schema):
    n = snode(schema, path) if path else None
    p, s, q = name.partition(":")
    return q if s and n is not None and p == n["ns"] else name


class Mismatch(Exception):
    pass


def shown(node):
    """Everything a user sees of a node: value, key, path, ancestors' values."""
    out = [type(node).__name__, plain(node.value), node.name, node.path, node.json_pointer(), id(node.schema_node)]
    if isinstance(node, ArrayEntry):
        out.append(node.index)
    p = node.parinst
    while p is not None:
        out.append(plain(p.value))
        p = p.parinst
    out.append(plain(node.top().value))
    return out


def fresh(r, n, ns):
    """Random value for schema node n: (raw, doc)."""
    v = gen_val(r, n, 1)
    return raw_val(n, v)


def raw_entry(r, n):
    if n["k"] == "list":
        d = gen_doc(r, n["ch"], n["ns"], 1, n0=n["keys"])
        return to_raw(n["ch"], d, n["ns"])
    return raw_leaf(n["t"], leaf_val(r, n, 1))


def cooked(sn, raw, entry=False):
    return sn.entry_from_raw(raw, "/x") if entry else sn.from_raw(raw, "/x")


def gen_tree(r, opts=None, docs=4):
    while True:
        s = gen_schema(r, opts or Opts(must=0, when=0, anydata=0, types=r.choice([None, ["uint8", "string"], ["int8", "boolean", "string", "enumeration"]])))
        for _ in range(docs):
            yield s, gen_doc(r, s, good=1)


def root_of(s, doc):
    m = build(s)
    raw = to_raw(s, doc)
    try:
        return m, m.from_raw(raw)
    except YangsonException:
        return m, None
