"""C09: routes of all nodes of random trees, routes going nowhere, texts of identifiers against the grammar."""
import random
import re
from urllib.parse import quote, unquote
from pyvc.probes import probe, Skip, outcome
from yangson.enumerations import ContentType, ValidationScope
from yangson.instance import (ActionName, EntryIndex, EntryKeys, EntryValue, InstanceIdParser, MemberName)
from yangson.instroute import InstanceRoute
from .tree import *

CHARS = "ab'\"\\/,%=[]&#?+ :.\u00e9\u20ac\U0001f600\u0301\u00a0A0-"
GOFAIL = (InstanceValueError, NonexistentSchemaNode, InvalidKeyValue, NonDataNode, BadSchemaNodeType)


def nodes_of(node):
    yield node
    v = node.value
    if isinstance(v, ObjectValue):
        for m in v:
            if not m.startswith("@"):
                yield from nodes_of(node[m])
    elif isinstance(v, ArrayValue):
        for i in range(len(v)):
            yield from nodes_of(node[i])


def both_quotes(route):
    """Some value carries both kinds of quotes: no notation for it."""
    for s in route:
        vs = [s.value] if isinstance(s, EntryValue) else list(s.keys.values()) if isinstance(s, EntryKeys) else []
        if any("'" in x and '"' in x for x in vs):
            return True
    return False


def route_error(m, top, node):
    rt = node.instance_route()
    who = f"node {node.json_pointer()}"
    k, w = outcome(top.goto, rt)
    if k == "exc":
        return f"route {rt} of {who} leads nowhere: {w!r} {w}"
    if w.path != node.path or plain(w.value) != plain(node.value) or type(w) is not type(node):
        return f"route {rt} of {who} leads to {w.json_pointer()}"
    p = top.peek(rt)
    if p is not w.value:
        return f"peeking along {rt} gives {p!r}, going there {w.value!r}"
    if both_quotes(rt):
        return
    t = str(rt)
    k, again = outcome(m.parse_instance_id, t)
    if k == "exc":
        return f"route of {who} prints as {t!r}, which does not parse: {again!r} {again}"
    if again != rt:
        return f"route of {who} prints as {t!r}, which parses to another route: {again}"
    if hash(again) != hash(rt):
        return f"{t!r}: equal routes with different hashes"
    k, w = outcome(top.goto, again)
    if k == "exc" or w.path != node.path:
        return f"{t!r}, parsed, leads to {w!r} rather than {who}"


def gen(r):
    for s, d in gen_tree(r, r.choice([None, Opts(must=0, when=0, anydata=0, width=3)])):
        yield (s, d, r.randrange(10**9), r.choice([0, 0, 1, 2]))


def grown(case):
    """The model, and the top of a valid tree after some edits."""
    s, doc, seed, edits = case
    m, root = root_of(s, doc)
    if root is None:
        return m, None
    r = random.Random(seed)
    for _ in range(edits):
        ns = [n for n in nodes_of(root) if not n.is_internal() and n.parinst]
        if not ns:
            break
        n = r.choice(ns)
        sn = snode(s, n.path)
        if sn is None:
            return m, None
        entry = isinstance(n, ArrayEntry)
        try:
            raw = raw_entry(r, sn) if entry else fresh(r, sn, None)
            root = n.update(raw, True).top()
        except (YangsonException, KeyError):
            return m, None
    k, e = outcome(root.validate, ValidationScope.all, ContentType.all)
    return m, root if k != "exc" else None


@probe(gen, weight=4)
def routes(case):
    m, top = grown(case)
    if top is None:
        return
    for node in nodes_of(top):
        e = route_error(m, top, node)
        if e:
            return e


# ---------------------------------------------------------------- keys and values of all kinds
KEYTYPES = ["string", "union { type uint8; type string; }", "union { type boolean; type string; }", "uint8", "binary",
            "boolean", "decimal64 { fraction-digits 2; }", "bits { bit a; bit b; }",
            "union { type decimal64 { fraction-digits 1; } type string; }",
            "enumeration { enum a; enum \"b c\"; enum \"d'/,%\"; }", "instance-identifier { require-instance false; }"]


def key_text(t1):
    t1 += "" if t1.endswith("}") else ";"
    return module(f"""
      container top {{
        list l {{ key "k self"; leaf k {{ type {t1} }} leaf self {{ type string; }}
          leaf v {{ type uint8; }} list raw {{ key val; leaf val {{ type {t1} }} leaf-list x {{ type {t1} }} }} }}
        leaf-list ll {{ type {t1} }}
        list nk {{ config false; leaf w {{ type {t1} }} leaf-list y {{ type {t1} }} }}
      }}""")


def rand_text(r):
    return "".join(r.choice(CHARS) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8])))


def rand_raw(r, t1):
    if t1 == "string":
        return rand_text(r)
    if t1.startswith("union { type uint8"):
        return r.choice([1, 17, "1", "17", rand_text(r)])
    if t1.startswith("union { type boolean"):
        return r.choice([True, False, "true", "x", rand_text(r)])
    if t1.startswith("union { type decimal64"):
        return r.choice(["1.5", "1.50", "0", "x", rand_text(r)])
    if t1 == "uint8":
        return r.randrange(4)
    if t1 == "binary":
        return r.choice(["", "AA==", "AAA=", "+/+/", "/w=="])
    if t1 == "boolean":
        return r.random() < .5
    if t1.startswith("decimal64"):
        return r.choice(["1.5", "1.50", "0", "-3.14", "100.0"])
    if t1.startswith("bits"):
        return r.choice(["", "a", "b", "a b", "b a"])
    if t1.startswith("enum"):
        return r.choice(["a", "b c", "d'/,%"])
    return r.choice(["/m:top", "/m:top/l[k='a'][self='b']", "/m:top/ll[.='x']", "/m:top/nk[2]", "/m:top/l[k=\"'\"][self='b']/v"])


def gen_keys(r):
    while True:
        t1 = r.choice(KEYTYPES + ["string"] * 5)
        entries = [[rand_raw(r, t1), rand_text(r), [[rand_raw(r, t1), [rand_raw(r, t1) for _ in range(r.randrange(3))]]
                                                    for _ in range(r.randrange(3))]] for _ in range(r.randrange(4))]
        yield (t1, entries, [rand_raw(r, t1) for _ in range(r.randrange(4))],
               [[rand_raw(r, t1), [rand_raw(r, t1) for _ in range(r.randrange(4))]] for _ in range(r.randrange(3))])


@probe(gen_keys, weight=3)
def keys(case):
    t1, entries, ll, nk = case
    if t1 not in KEYTYPES:
        return
    m = model(key_text(t1))
    try:
        raw = {"m:top": {"l": [{"k": k, "self": s, "v": 1, "raw": [{"val": v, "x": x} for v, x in sub]}
                               for k, s, sub in entries], "ll": ll, "nk": [{"w": w, "y": y} for w, y in nk]}}
    except (TypeError, ValueError):
        return
    try:
        top = m.from_raw(raw)
    except YangsonException:
        return
    k, e = outcome(top.validate, ValidationScope.all, ContentType.all)
    if k == "exc":
        return
    for node in nodes_of(top):
        e = route_error(m, top, node)
        if e:
            return e
        if both_quotes(node.instance_route()):
            continue
        if any(isinstance(x, int) for x in node.path) and "/nk/" in node.json_pointer():
            continue
        if t1 != "string":
            continue
        # the same place as a resource identifier
        rid, cur = "", raw
        bad = False
        sel = list(node.path)
        i = 0
        n = top
        while i < len(sel):
            rid += "/" + sel[i]
            n = n[sel[i]]
            if i + 1 < len(sel):
                if isinstance(sel[i + 1], int):
                    i += 1
                    n = n[sel[i]]
                    vs = [n.value] if not isinstance(n.value, ObjectValue) else \
                        [n.value["k"], n.value["self"]] if "k" in n.value else [n.value["val"]]
                    if vs == [""] or not isinstance(n.value, ObjectValue) and n.value in list(n.before):
                        bad = True
                    rid += "=" + ",".join(quote(x, safe="") for x in vs)
            i += 1
        if bad:
            continue
        k, rt = outcome(m.parse_resource_id, rid)
        if k == "exc":
            return f"resource identifier {rid!r} is refused: {rt!r} {rt}"
        k, w = outcome(top.goto, rt)
        if k == "exc" or w.path != node.path:
            return f"resource identifier {rid!r} leads to {w!r}, not to {node.json_pointer()}"


# ---------------------------------------------------------------- going and peeking
def rand_route(r, s, top):
    """A route that follows the tree most of the time."""
    out, n = [], top
    for _ in range(r.randint(0, 6)):
        v = n.value if n is not None else None
        x = r.random()
        if isinstance(v, ObjectValue) and v and x < .9:
            mem = r.choice(sorted(v))
            p, c, q = mem.partition(":")
            loc = (q, p) if c else (mem, None)
            if not c and r.random() < .2:
                loc = (mem, n.namespace)
            if r.random() < .05:
                loc = (loc[0], None)
            out.append(["m", *loc])
            n = n[mem] if loc[1] is not None or not c else None
        elif isinstance(v, ArrayValue) and v and x < .9:
            i = r.randrange(len(v))
            rt = n[i].instance_route()[-1]
            n = n[i]
            if isinstance(rt, EntryIndex) or r.random() < .3:
                out.append(["i", i])
            elif isinstance(rt, EntryValue):
                out.append(["v", rt.value if r.random() < .7 else r.choice(["x", "1", "true", ""])])
                n = n if out[-1][1] == rt.value else None
            else:
                ks = [[k[0], k[1], t] for k, t in rt.keys.items()]
                if r.random() < .3:
                    k = r.choice(ks)
                    k[r.randrange(3)] = r.choice(["x", "y", "1", "m", "true"])
                    n = None
                elif r.random() < .2:
                    ks.append([r.choice(NAMES), r.choice([None, "m"]), "1"])
                    n = None
                out.append(["k", ks])
        else:
            out.append(r.choice([["m", r.choice(NAMES), r.choice([None, "m", "a"])], ["i", r.randrange(3)],
                                 ["v", r.choice(["x", "1", "true"])], ["k", [[r.choice(NAMES), None, "1"]]], ["k", []]]))
            n = None
    return out


def item(x):
    if x[0] == "m":
        return MemberName(x[1], x[2])
    if x[0] == "i":
        return EntryIndex(x[1])
    if x[0] == "v":
        return EntryValue(x[1])
    return EntryKeys({(a, b): t for a, b, t in x[1]})


def gen_peek(r):
    for s, d in gen_tree(r):
        m, top = root_of(s, d)
        if top is None:
            continue
        for _ in range(8):
            yield (s, d, rand_route(r, s, top))


def well_formed(rt):
    for x in rt:
        if x[0] == "m" and not (isinstance(x[1], str) and x[1] and (x[2] is None or isinstance(x[2], str) and x[2])) or \
                x[0] == "i" and not (isinstance(x[1], int) and x[1] >= 0) or x[0] == "v" and not isinstance(x[1], str):
            return False
    return True


@probe(gen_peek, weight=2)
def peeking(case):
    s, d, rt = case
    try:
        if not well_formed(rt):
            return
        route = InstanceRoute([item(x) for x in rt])
    except (TypeError, ValueError, IndexError):
        return
    m, top = root_of(s, d)
    if top is None:
        return
    k, w = outcome(top.goto, route)
    k2, p = outcome(top.peek, route)
    if k2 == "exc" and not isinstance(p, GOFAIL):
        raise p
    if k == "exc":
        if not isinstance(w, GOFAIL + (NonexistentInstance,)):
            raise w
        if k2 != "exc" and p is not None:
            return f"going along {route} fails ({w}), peeking gives {p!r}"
        if k2 == "exc" and isinstance(w, NonexistentInstance):
            return f"going along {route} finds no instance ({w}), peeking raises {p!r}"
    elif k2 == "exc" or p is not w.value:
        return f"going along {route} gives {w.value!r}, peeking {p!r}"
    else:
        j, want = denoted(s, to_raw(s, d), rt), w
        if j is not None and j != want.json_pointer():
            return f"{route} leads to {want.json_pointer()}, not to {j}"


def denoted(s, raw, rt):
    """JSON pointer a route of members and positions denotes (None where values need a type)."""
    out = []
    for x in rt:
        if x[0] == "m":
            n = snode(s, [y for y in out])
            out.append(local(tuple(out), f"{x[2]}:{x[1]}" if x[2] else x[1], s))
        elif x[0] == "i":
            out.append(x[1])
        else:
            return None
    return "/" + "/".join(map(str, out))


# ---------------------------------------------------------------- texts against the grammar
IDENT = "[a-zA-Z_][a-zA-Z0-9_.-]*"
NAME = re.compile(f"(?:({IDENT}):)?({IDENT})")
W = "[ \\t\\n\\r]*"
VALUE = f"{W}={W}(\"[^\"]*\"|'[^']*'){W}"
POS = re.compile(rf"\[{W}([0-9]+){W}\]")
LLV = re.compile(rf"\[{W}\.{VALUE}\]")
KEY = re.compile(rf"\[{W}(?:({IDENT}):)?({IDENT}){VALUE}\]")


def read_id(t):
    """The route a text denotes by the grammar of RFC 7950, or None."""
    if t == "/":
        return []
    out, i = [], 0
    while i < len(t):
        if t[i] != "/":
            return None
        mo = NAME.match(t, i + 1)
        if not mo:
            return None
        out.append(["m", mo[2], mo[1]])
        i = mo.end()
        mo = POS.match(t, i)
        if mo:
            if mo[1].strip("0") == "":
                return None
            out.append(["i", int(mo[1]) - 1 if len(mo[1]) < 4000 else None])
            i = mo.end()
            continue
        mo = LLV.match(t, i)
        if mo:
            out.append(["v", mo[1][1:-1]])
            i = mo.end()
            continue
        ks = []
        while True:
            mo = KEY.match(t, i)
            if not mo:
                break
            ks.append([mo[2], mo[1], mo[3][1:-1]])
            i = mo.end()
        if ks:
            if len({(a, b) for a, b, _ in ks}) < len(ks):
                return None           # contradicting or repeated predicates for one key
            out.append(["k", ks])
    return out or None


def rand_id(r):
    sp = lambda: r.choice(["", "", "", "", " ", "\t", "  "])
    q = lambda: r.choice(['"%s"' % rand_text(r).replace('"', ""), "'%s'" % rand_text(r).replace("'", "")])
    name = lambda: r.choice(["", "", "m:", "ietf-x:", "_:"]) + r.choice(["a", "b.c", "_x", "x-1", "A0", "e\u0301"])
    t = ""
    for _ in range(r.randint(1, 4)):
        t += "/" + name()
        k = r.random()
        if k < .2:
            t += f"[{sp()}{r.choice(['1', '2', '10', '0', '01', '9' * 20])}{sp()}]"
        elif k < .4:
            t += f"[{sp()}.{sp()}={sp()}{q()}{sp()}]"
        elif k < .7:
            for _ in range(r.randint(1, 3)):
                t += f"[{sp()}{name()}{sp()}={sp()}{q()}{sp()}]"
    k = r.random()
    if k < .35:
        i = r.randrange(len(t) + 1)
        t = t[:i] + r.choice(["", "/", "[", "]", "'", '"', " ", "=", ".", "a", ":", "0", "\\"]) + t[i + r.randint(0, 2):]
    elif k < .4:
        t = rand_text(r)
    elif k < .405:
        t = "/a[" + "1" * r.choice([4301, 6000]) + "]"
    return t


def gen_id(r):
    while True:
        yield (rand_id(r),)


ONE = model(key_text("string"))


@probe(gen_id, weight=3)
def instance_ids(case):
    t, = case
    want = read_id(t)
    k, rt = outcome(ONE.parse_instance_id, t)
    if k == "exc":
        if not isinstance(rt, ParserException):
            return f"{t[:80]!r}: {rt!r} is raised instead of a parser exception"
        if want is not None and not any(x == ["i", None] for x in want):
            return f"{t!r} is refused: {rt!r} {rt}"
        return
    if want is None:
        return f"{t!r} is read as {rt!s} ({list(rt)})"
    if len(t) > 4000:
        return
    ref = InstanceRoute([item(x) for x in want])
    if rt != ref or [list(x.keys.items()) if isinstance(x, EntryKeys) else 0 for x in rt] != \
            [list(x.keys.items()) if isinstance(x, EntryKeys) else 0 for x in ref]:
        return f"{t!r} is read as {rt}, not as {ref}"
    if not both_quotes(rt) and outcome(ONE.parse_instance_id, str(rt))[1] != rt:
        return f"{t!r} is read as a route that prints as {str(rt)!r}, which is read differently"


# ---------------------------------------------------------------- resource identifiers
def read_rid(schema, t, ops=()):
    """Items denoted by a RESTCONF path relative to the top, "schema" or "syntax" error."""
    if t in ("", "/"):
        return []
    out, ch, ns = [], schema, None
    if t[0] == "/":
        t = t[1:]
    segs = t.split("/")
    if segs[-1] == "" and len(segs) > 1 and "=" in segs[-2]:
        return "any"                # a slash after the last entry: refused or ignored
    for j, x in enumerate(segs):
        name, eq, val = x.partition("=")
        mo = NAME.fullmatch(name)
        if not mo:
            return "error"
        n = None
        for c in (data_children(ch) if ch is not None else ()):
            if c["n"] == mo[2] and c["ns"] == (mo[1] or ns):
                n = c
        if n is None:
            return "error"
        out.append(["m", mo[2], mo[1]])
        if n["k"] == "leaf-list" and eq:
            if not val:
                return "error"
            out.append(["v", unquote(val)])
        elif n["k"] == "list" and eq:
            vs = val.split(",")
            if not val or len(vs) != len(n["keys"]):
                return "error"
            out.append(["k", [[k, None, unquote(v)] for k, v in zip(n["keys"], vs)]])
        elif eq:
            return "error"
        elif n["k"] in ("list", "leaf-list") and j < len(segs) - 1:
            return "error"
        ch, ns = n.get("ch"), n["ns"]
    return out


def rand_rid(r, s):
    t, ch, ns = "", s, None
    for _ in range(r.randint(0, 4)):
        cs = list(data_children(ch or ()))
        if not cs:
            break
        n = r.choice(cs)
        t += "/" + (n["ns"] + ":" if n["ns"] != ns or r.random() < .2 else "") + n["n"]
        enc = lambda: r.choice([quote(rand_text(r), safe=""), "1", "x", "%2", "%zz", "%41", "a%2Fb", ""])
        if n["k"] == "leaf-list" and r.random() < .9:
            t += "=" + r.choice([enc(), enc() + "," + enc()])
        elif n["k"] == "list" and r.random() < .95:
            t += "=" + ",".join(enc() for _ in n["keys"] + ([] if r.random() < .9 else ["x"]))
        ch, ns = n.get("ch"), n["ns"]
    if r.random() < .3:
        i = r.randrange(len(t) + 1)
        t = t[:i] + r.choice(["", "/", "=", ",", "%", "m:", "a", ":", " "]) + t[i + r.randint(0, 2):]
    return t


def gen_rid(r):
    while True:
        s = gen_schema(r, Opts(must=0, when=0, anydata=.05, types=["string", "uint8"], width=4))
        for _ in range(25):
            yield (s, rand_rid(r, s))


@probe(gen_rid, weight=2)
def resource_ids(case):
    s, t = case
    m = build(s)
    want = read_rid(s, t)
    k, rt = outcome(m.parse_resource_id, t)
    if k == "exc":
        if not isinstance(rt, (ParserException, SchemaNodeException)):
            return f"{t!r}: {rt!r} is raised instead of a parser or schema error"
        if isinstance(want, list):
            return f"{t!r} is refused: {rt!r} {rt}"
    elif want == "error":
        return f"{t!r} is read as {rt}"
    elif want != "any":
        ref = InstanceRoute([item(x) for x in want])
        if rt != ref:
            return f"{t!r} is read as {rt}, not as {ref}"


ACTIONS = module("""
  container c { list l { key k; leaf k { type string; } action reset { input { leaf x { type string; } } } }
    action go; leaf v { type string; } notification n { leaf y { type string; } } }
  rpc boot { input { leaf z { type string; } } } notification top-n { leaf y { type string; } }""")
ARESULT = {"/m:c/l=a/reset": 3, "/m:c/go": 2, "/m:boot": 1, "/m:c/m:go": 2, "/m:c/l=%2F/m:reset": 3, "m:c/l=/reset": None,
           "/m:boot/x": None, "/m:c/go/input": None, "/m:boot/input/z": None, "/m:boot=1": None, "/m:c/n": None,
           "/m:top-n": None, "/m:c/l/reset": None, "/m:c/reset": None, "/m:c/l=a/go": None, "/x:boot": None,
           "/m:c/x:go": None, "/m:c/go/": None, "/m:c/v/go": None, "/m:c/l=a,b/reset": None, "/m:c/l=a//reset": None}


def gen_act(r):
    for t in ARESULT:
        yield (t,)


@probe(gen_act)
def actions(case):
    t, = case
    if t not in ARESULT:
        return
    m = model(ACTIONS)
    top = m.from_raw({"m:c": {"l": [{"k": "a"}, {"k": "/"}], "v": "x"}})
    k, rt = outcome(m.parse_resource_id, t)
    if k == "exc":
        if not isinstance(rt, (ParserException, SchemaNodeException)):
            return f"{t!r}: {rt!r} is raised instead of a parser or schema error"
        if ARESULT[t] is not None:
            return f"{t!r} is refused: {rt!r}"
        return
    if ARESULT[t] is None:
        return f"{t!r} is read as {rt}"
    if not isinstance(rt[-1], ActionName) or len(rt) != ARESULT[t] + ("l=" in t):
        return f"{t!r} is read as {list(rt)}"
    if top.peek(rt) is not None:
        return f"peeking along {t!r} gives {top.peek(rt)!r}"
    k, e = outcome(top.goto, rt)
    if k != "exc" or not isinstance(e, NonDataNode):
        return f"going along {t!r}: {e!r}, expected NonDataNode"
