"""C07: whatever is done with a node, every node obtained earlier still shows the same data."""
import random
from pyvc.probes import probe, Fail, outcome
from yangson.enumerations import ContentType, ValidationScope
from yangson.instance import OutputFilter
from yangson.xpathparser import XPathParser
from yangson.schemadata import SchemaContext
from .tree import *


def gen(r):
    o = Opts(must=.15, when=.15, defaults=.6, anydata=.1, types=r.choice([None, ["uint8", "string"]]))
    for s, d in gen_tree(r, o):
        for _ in range(5):
            yield (s, d, r.randrange(10**9), r.randint(3, 12))


XP = ["*", "descendant::*", "..", "../*", "//*", "count(*)", "string(.)", "ancestor-or-self::*", "following-sibling::*",
      "preceding-sibling::*", "*[1]", "*[last()]", "*|../*", "boolean(*)", "sum(*)", ". = 'a'"]


def queries(r, m, s, node):
    def xp():
        sd = m.schema_data
        mid = ("m", "")
        e = XPathParser(r.choice(XP), SchemaContext(sd, "m", mid)).parse()
        return e.evaluate(node)
    qs = [("raw_value", node.raw_value), ("str", lambda: str(node)), ("json_pointer", node.json_pointer),
          ("instance_route", node.instance_route), ("add_defaults", node.add_defaults),
          ("add_defaults(all)", lambda: node.add_defaults(ContentType.all)),
          ("add_defaults(tag)", lambda: node.add_defaults(tag=True)),
          ("add_defaults(all, tag)", lambda: node.add_defaults(ContentType.all, tag=True)),
          ("validate", node.validate), ("validate(all)", lambda: node.validate(ValidationScope.all, ContentType.all)),
          ("validate(semantics)", lambda: node.validate(ValidationScope.semantics, ContentType.all)),
          ("validate(syntax)", lambda: node.validate(ValidationScope.syntax, ContentType.all)),
          ("top", node.top), ("up", node.up), ("hash", lambda: hash(node.value)), ("list", lambda: list(node)),
          ("xpath", xp), ("xpath", xp), ("deref", lambda: node._deref()), ("path", lambda: node.path),
          ("peek", lambda: node.top().peek(node.instance_route())), ("goto", lambda: node.top().goto(node.instance_route())),
          ("equality", lambda: node.value == node.top().value), ("copy", lambda: copy.copy(node.value))]
    if not node.path:
        qs += [("to_xml", node.to_xml)] * 2
    return r.choice(qs)


def edits(r, s, node):
    """Random edit with data of the schema: thunk or None."""
    path = node.path
    sn = node.schema_node
    v = node.value
    n = snode(s, path)
    k = path[-1] if path else None
    raw_ = r.random() < .5
    if r.random() < .3 and (n is not None or not path):
        # merge
        if not path:
            x = to_raw(s, gen_doc(r, s, good=1))
            return f"merge({x!r})", lambda: node.merge(x, True)
        entry = isinstance(k, int)
        x = raw_entry(r, n) if entry else fresh(r, n, None)
        if raw_:
            return f"merge({x!r}, True)", lambda: node.merge(x, True)
        return f"merge({x!r} cooked)", lambda: node.merge(cooked(sn, x, entry))
    if isinstance(v, ObjectValue) and n is None or isinstance(v, ObjectValue) and n["k"] in ("container", "list"):
        ms = members(s, path)
        if not ms:
            return "up", node.up
        m, c = r.choice(ms)
        if r.random() < .3:
            return f"delete_item({m!r})", lambda: node.delete_item(m)
        x = fresh(r, c, None)
        return f"put_member({m!r}, {x!r})", lambda: node.put_member(m, x, True)
    if isinstance(v, ArrayValue) and len(v):
        i = r.randrange(len(v))
        return f"delete_item({i})", lambda: node.delete_item(i)
    if isinstance(k, int):
        x = raw_entry(r, n)
        f = r.choice([node.insert_before, node.insert_after])
        return f"{f.__name__}({x!r})", lambda: f(x, True)
    if n is not None and n["k"] != "anydata":
        x = fresh(r, n, None)
        return f"update({x!r})", lambda: node.update(x, True)
    return "top", node.top


def moves(r, s, node):
    v = node.value
    c = ["up", "top"]
    if isinstance(v, ObjectValue) and v:
        c += ["down"] * 3
    if isinstance(v, ArrayValue) and len(v):
        c += ["entry"] * 3
    if isinstance(node, ArrayEntry):
        c += ["next", "previous"]
    if isinstance(node, ObjectMember):
        c += ["sibling"]
    op = r.choice(c)
    if op == "down":
        m = r.choice([x for x in v if not x.startswith("@")] or ["nosuch"])
        return f"[{m!r}]", lambda: node[m]
    if op == "entry":
        i = r.randrange(len(v))
        return f"[{i}]", lambda: node[i]
    if op == "sibling":
        ms = list(node.siblings) or ["nosuch"]
        m = r.choice(ms)
        return f"sibling({m!r})", lambda: node.sibling(m)
    return op, getattr(node, op)


@probe(gen, weight=4)
def persistence(case):
    s, doc, seed, n = case
    m, root = root_of(s, doc)
    if root is None:
        return
    r = random.Random(seed)
    live = [(root, shown(root), "root")]
    log = []
    for _ in range(n):
        node, _, nm = r.choice(live[-3:]) if r.random() < .8 else r.choice(live)
        p = r.random()
        what, f = moves(r, s, node) if p < .45 else queries(r, m, s, node) if p < .75 else edits(r, s, node)
        log.append(f"{nm}.{what}")
        k, x = outcome(f)
        if k == "exc" and not isinstance(x, (YangsonException, ValueError, TypeError, NotImplementedError, AttributeError, KeyError,
                                             ArithmeticError)):
            raise x
        for old, sh, on in live:
            now = shown(old)
            if now != sh:
                return f"{to_raw(s, doc)}: {'; '.join(log)} changed {on} from {sh} to {now}"
        if k == "ret" and isinstance(x, InstanceNode):
            live.append((x, shown(x), f"n{len(live)}"))
        elif k == "ret" and isinstance(x, list) and x and all(isinstance(y, InstanceNode) for y in x):
            y = r.choice(x)
            live.append((y, shown(y), f"n{len(live)}"))


# ---------------------------------------------------------------- instances with metadata annotations
MD = 'module ietf-yang-metadata { namespace "urn:ietf:params:xml:ns:yang:ietf-yang-metadata"; prefix md; extension annotation { argument name; } }'
ANN = module('import ietf-yang-metadata { prefix md; } md:annotation note { type string; } '
             'container x { presence q; leaf a { type string; default q; } leaf b { type string; } '
             'container y { leaf a { type string; default d; } leaf-list c { type int8; default 1; } } '
             'list l { key k; leaf k { type string; } leaf a { type string; default e; } leaf b { type int8; } } } '
             'container z { leaf a { type string; default f; } }')


def gen_note(r):
    note = lambda: {"m:note": r.choice("uvw")}

    def obj(members, key=None):
        o = {}
        for m, f in members:
            if m == key or r.random() < .6:
                o[m] = f()
                if not isinstance(o[m], (dict, list)) and r.random() < .6:
                    o["@" + m] = note()
        if r.random() < .5:
            o["@"] = note() if r.random() < .8 else {}
        return o
    leaf = lambda: r.choice("xyz")
    entry = lambda: obj([("k", leaf), ("a", leaf), ("b", lambda: r.randrange(9))], "k")
    while True:
        y = lambda: obj([("a", leaf), ("c", lambda: [r.randrange(9) for _ in range(r.randrange(3))])])
        x = lambda: obj([("a", leaf), ("b", leaf), ("y", y), ("l", lambda: [entry() for _ in range(r.randrange(3))])])
        doc = {"m:x": x()} if r.random() < .9 else {}
        if r.random() < .5:
            doc["m:z"] = obj([("a", leaf)])
        yield (doc, x(), r.randrange(10**9), r.randint(3, 10))


@probe(gen_note, weight=1)
def notes(case):
    """The same with annotations: moves, edits and defaults leave every earlier instance as it was."""
    doc, other, seed, n = case
    m = model({"m": ANN, "ietf-yang-metadata": MD})
    r = random.Random(seed)
    try:
        root = m.from_raw(doc)
        m.from_raw({"m:x": other})
    except (YangsonException, AttributeError, TypeError):
        return
    live = [(root, shown(root), "root")]
    log = []
    for _ in range(n):
        node, _, nm = r.choice(live[-3:]) if r.random() < .8 else r.choice(live)
        v = node.value
        ops_ = [("top", node.top), ("up", node.up)]
        if isinstance(v, ObjectValue):
            ms = [k for k in v if not k.startswith("@")]
            for k in ms:
                ops_ += [(f"[{k!r}]", lambda k=k: node[k]), (f"delete_item({k!r})", lambda k=k: node.delete_item(k))]
            ops_ += [("add_defaults", node.add_defaults)] + 3 * [("add_defaults(tag)", lambda: node.add_defaults(tag=True))] + \
                [("add_defaults(all, tag)", lambda: node.add_defaults(ContentType.all, tag=True)), ("raw_value", node.raw_value)]
        if isinstance(v, ArrayValue) and v:
            i = r.randrange(len(v))
            ops_ += [(f"[{i}]", lambda: node[i]), (f"delete_item({i})", lambda: node.delete_item(i))]
        if node.path == ("m:x",):
            ops_ += [("merge", lambda: node.merge(other, True)), ("update", lambda: node.update(other, True))]
        what, f = r.choice(ops_)
        log.append(f"{nm}.{what}")
        k, x = outcome(f)
        if k == "exc" and not isinstance(x, YangsonException):
            raise x
        for old, sh, on in live:
            now = shown(old)
            if now != sh:
                return f"{doc}, {other}: {'; '.join(log)} changed {on} from {sh} to {now}"
        if k == "ret" and isinstance(x, InstanceNode):
            if what.startswith("add_defaults") and (type(x), x.path) != (type(node), node.path):
                return f"{doc}: {'; '.join(log)} moved from {node.path} to {x.path}"
            live.append((x, shown(x), f"n{len(live)}"))
