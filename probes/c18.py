"""C18: names and paths of schema nodes, prefixes of modules and submodules."""
from pyvc.probes import probe, Skip, outcome
from yangson.exceptions import InvalidSchemaPath, UnknownPrefix, YangsonException
from yangson.schemanode import DataNode, InternalNode, SchemaTreeNode
from .util import model

# ------------------------------------------------------------ trees
NAMES = ["a", "b", "c", "d", "x-y", "_z"]
MODS = ["m", "n", "nn"]
KINDS = ["leaf", "container", "container", "list", "choice", "leaf-list", "anydata", "rpc", "notification", "action"]


def gen_children(r, ns, depth, top, used, in_op=False, cfgless=False, direct=None):
    """Children with distinct (name, module) among data siblings and among direct schema siblings."""
    direct = set() if direct is None else direct
    out = []
    for _ in range(r.choice([1, 2, 3, 4] if depth else [0, 1, 2])):
        k = r.choice(KINDS)
        if k in ("rpc", "notification") and (not top or in_op) or k == "action" and (top or in_op or cfgless):
            k = "container"
        if depth <= 0 and k in ("container", "list", "choice", "rpc", "notification", "action"):
            k = "leaf"
        nm = r.choice(NAMES)
        if (nm, ns) in direct or (nm, ns) in used:
            continue
        direct.add((nm, ns))
        node = {"k": k, "n": nm, "ns": ns}
        if k == "choice":
            node["ch"] = []
            cases = set()
            for _ in range(r.choice([1, 2, 3])):
                cn = r.choice(NAMES)
                if cn in cases:
                    continue
                cases.add(cn)
                node["ch"].append({"k": "case", "n": cn, "ns": ns,
                                   "ch": gen_children(r, ns, depth - 1, False, used, in_op, True, set())})
        else:
            used.add((nm, ns))
            if k in ("rpc", "action"):
                node["ch"] = [{"k": w, "n": w, "ns": ns, "ch": gen_children(r, ns, depth - 1, False, set(), True)}
                              for w in ("input", "output")]
            elif k in ("container", "list", "notification"):
                node["ch"] = gen_children(r, ns, depth - 1, False, set(), in_op or k == "notification")
        out.append(node)
    return out


def gen_tree(r):
    ch = []
    for ns in MODS[:2]:
        ch += gen_children(r, ns, 3, True, set())
    if r.random() < .7:                          # a third module augments
        spots = list(inner(ch, [], False))
        r.shuffle(spots)
        for path, node, in_op in spots[:3]:
            direct = {(x["n"], x["ns"]) for x in node["ch"]}
            if node["k"] == "choice":
                kids = [{"k": "case", "n": r.choice(NAMES), "ns": "nn",
                         "ch": gen_children(r, "nn", 1, False, set(), in_op, True, set())}]
            else:
                kids = gen_children(r, "nn", 1, False, set(), in_op, True, direct)
            node["ch"] += kids
    return ch


def inner(ch, path, in_op):
    for n in ch:
        if "ch" in n:
            p = path + [[n["n"], n["ns"]]]
            op = in_op or n["k"] in ("rpc", "action", "notification")
            if n["k"] not in ("rpc", "action"):
                yield p, n, op
            yield from inner(n["ch"], p, op)


INNER = ("container", "list", "choice", "case", "rpc", "action", "notification", "input", "output")


def valid(ch, up=None, used=None):
    """A well-formed tree (shrunk cases need not be)."""
    direct, used = set(), set() if used is None else used
    for n in ch:
        k, key = n.get("k"), (n.get("n"), n.get("ns"))
        if k not in CLS or n["ns"] not in MODS or n["n"] not in NAMES + ["input", "output"] or ("ch" in n) != (k in INNER):
            return False
        if (k == "case") != (up == "choice") or (k in ("input", "output")) != (up in ("rpc", "action")):
            return False
        if k in ("input", "output") and k != n["n"] or key in direct or up is None and n["ns"] == "nn":
            return False
        direct.add(key)
        if k not in ("choice", "case"):
            if key in used:
                return False
            used.add(key)
        if "ch" in n and not valid(n["ch"], k, used if k in ("choice", "case") else None):
            return False
    return up not in ("rpc", "action") or sorted(n["n"] for n in ch) == ["input", "output"]


def text(n, short):
    if n["ns"] == "nn":
        return ""
    k, nm = n["k"], n["n"]
    body = " ".join(text(c, short) for c in n.get("ch", ()))
    if k == "leaf" or k == "leaf-list":
        return f"{k} {nm} {{ type string; }}"
    if k == "anydata":
        return f"anydata {nm};"
    if k in ("input", "output"):
        return f"{k} {{ {body} }}" if body.strip() else ""
    if k == "list":
        body = "config false; " + body
    if k == "case" and short and len(n["ch"]) == 1 and n["ch"][0]["ns"] == n["ns"] and n["ch"][0]["n"] == nm and n["ch"][0]["k"] in (
            "leaf", "container", "leaf-list", "list", "anydata"):
        return body
    return f"{k} {nm} {{ {body} }}"


def nn_text(n):
    k, nm = n["k"], n["n"]
    body = " ".join(nn_text(c) for c in n.get("ch", ()))
    if k in ("leaf", "leaf-list"):
        return f"{k} {nm} {{ type string; }}"
    if k == "anydata":
        return f"anydata {nm};"
    if k == "list":
        body = "config false; " + body
    return f"{k} {nm} {{ {body} }}"


def build(ch, short):
    tx, lib = {}, [{"name": x} for x in MODS]
    for ns in MODS[:2]:
        tx[ns] = (f"module {ns} {{ yang-version 1.1; namespace 'urn:{ns}'; prefix {ns};\n"
                  + "\n".join(text(n, short) for n in ch if n["ns"] == ns) + "}")
    augs = []
    for path, n, _ in inner(ch, [], False):
        for a in [x for x in n["ch"] if x["ns"] == "nn" and n["ns"] != "nn"]:
            augs.append(f"augment \"{''.join(f'/{s}:{q}' for q, s in path)}\" {{ {nn_text(a)} }}")
    tx["nn"] = ("module nn { yang-version 1.1; namespace 'urn:nn'; prefix nn; import m { prefix m; } import n { prefix n; }\n"
                + "\n".join(augs) + "}")
    return model(tx, lib)


def data_kids(ch):
    for n in ch:
        if n["k"] in ("choice", "case"):
            yield from data_kids(n["ch"])
        elif n["k"] not in ("rpc", "action", "notification"):
            yield n


def walk(ch, kids, path):
    for n in kids(ch):
        p = path + [n]
        yield p
        if "ch" in n:
            yield from walk(n["ch"], kids, p)


def all_kids(ch):
    return list(ch)


def spell(p, r):
    """A spelling of the path: module names where they change (or, redundantly, somewhere)."""
    out, prev = [], None
    for nm, ns in p:
        out.append(nm if ns == prev and r.random() < .93 else f"{ns}:{nm}")
        prev = ns
    return "/" + "/".join(out)


def gen(r):
    while True:
        ch = gen_tree(r)
        short = r.random() < .5
        paths = [[[n["n"], n["ns"]] for n in p] for p in walk(ch, all_kids, [])]
        dpaths = [[[n["n"], n["ns"]] for n in p] for p in walk(ch, data_kids, [])]
        asks = []
        for _ in range(12):
            pool = dpaths if r.random() < .5 else paths
            if not pool:
                continue
            p = [list(x) for x in r.choice(pool)]
            k = r.random()
            if k < .45:
                i = r.randrange(len(p))
                k = r.random()
                if k < .3:
                    p[i][1] = r.choice(MODS + ["zz"])
                elif k < .6:
                    p[i][0] = r.choice(NAMES)
                elif k < .8:
                    p.insert(r.randrange(len(p) + 1), [r.choice(NAMES), r.choice(MODS)])
                else:
                    p.pop(i)
            asks.append(spell(p, r))
        asks += [r.choice(["/", "", "a", "/a", "m:a", "/m:a/", "//", "/m:", "/:a", "/m:a//b"])]
        yield [ch, short, asks]


def parse(path):
    """Pairs (name, module) of a path; None: no module for the first one; 'x': redundant."""
    if path in ("", "/"):
        return [], False
    prev, out, red = None, [], False
    for s in (path[1:] if path[0] == "/" else path).split("/"):
        m, colon, nm = s.partition(":")
        if not colon:
            m, nm = prev, m
            if not prev:
                return None, red
        elif m == prev:
            red = True
        out.append([nm, m])
        prev = m
    return out, red


def find(ch, kids, p):
    for nm, ns in p[:-1]:
        ch = next((n.get("ch", []) for n in kids(ch) if n["n"] == nm and n["ns"] == ns), [])
    return next((n for n in kids(ch) if [n["n"], n["ns"]] == p[-1]), None) if p else None


def shown(sn):
    """(name, module) of a node and its parents; groups have no name."""
    out = []
    while sn is not None and sn.parent is not None:
        if sn.name is not None:
            out.append([sn.name, sn.ns])
        sn = sn.parent
    return out[::-1]


CLS = {"leaf": "LeafNode", "leaf-list": "LeafListNode", "container": "ContainerNode", "list": "ListNode",
       "choice": "ChoiceNode", "case": "CaseNode", "anydata": "AnydataNode", "rpc": "RpcActionNode",
       "action": "RpcActionNode", "notification": "NotificationNode", "input": "InputNode", "output": "OutputNode"}


@probe(gen, weight=2)
def paths(case):
    """Schema and data paths lead to the node of that name and module at that place, or nowhere."""
    ch, short, asks = case
    if not valid(ch):
        return None
    try:
        dm = build(ch, short)
    except YangsonException:
        return None
    for ask in asks:
        want, red = parse(ask)
        for get, kids, what in ((dm.get_schema_node, all_kids, "schema"), (dm.get_data_node, data_kids, "data")):
            try:
                got = get(ask)
            except InvalidSchemaPath:
                if want is not None and not red:
                    return f"{what} path {ask!r} refused"
                continue
            if want is None:
                return f"{what} path {ask!r} without a module accepted"
            if not want:
                if got is not (dm.schema if what == "schema" else None):
                    return f"{what} path {ask!r}: {got}"
                continue
            n = find(ch, kids, want)
            if n is None:
                if got is not None:
                    return f"{what} path {ask!r} leads to {shown(got)}, there is no such node"
                continue
            if got is None:
                return f"{what} path {ask!r} leads nowhere"
            if type(got).__name__ != CLS[n["k"]] or shown(got)[-1] != [n["n"], n["ns"]]:
                return f"{what} path {ask!r} leads to {type(got).__name__} {shown(got)}"
            if what == "schema" and shown(got) != want:
                return f"schema path {ask!r} leads to {shown(got)}"


def schema_nodes(sn):
    for c in sn.children:
        yield c
        if isinstance(c, InternalNode):
            yield from schema_nodes(c)


@probe(gen)
def printed(case):
    """Names and paths printed by a node lead back to it."""
    ch, short, asks = case
    if not valid(ch):
        return None
    try:
        dm = build(ch, short)
    except YangsonException:
        return None
    for p in walk(ch, all_kids, []):
        sp = [[n["n"], n["ns"]] for n in p]
        prev, s = None, ""
        for nm, ns in sp:
            s += "/" + (nm if ns == prev else f"{ns}:{nm}")
            prev = ns
        sn = dm.get_schema_node(s)
        if sn is None:
            return f"schema path {s} leads nowhere"
        par = [n for n in p[:-1] if n["k"] not in ("choice", "case")]
        if not par or p[-1]["k"] in ("input", "output"):
            name = f"{p[-1]['ns']}:{p[-1]['n']}"
        else:
            name = p[-1]["n"] if par[-1]["ns"] == p[-1]["ns"] else f"{p[-1]['ns']}:{p[-1]['n']}"
        if isinstance(sn, DataNode) and sn.iname() != name and not (
                par and par[-1]["k"] == "notification" and sn.iname() == f"{sn.ns}:{sn.name}"):
            return f"instance name of {s} is {sn.iname()}, not {name}"
        if any(n["k"] in ("rpc", "action", "notification") for n in p) or p[-1]["k"] in ("choice", "case"):
            continue
        dp = sn.data_path()
        try:
            back = dm.get_data_node(dp)
        except YangsonException as e:
            return f"data path {dp} of {s} refused: {type(e).__name__}"
        if back is not sn:
            return f"data path {dp} of {s} leads to {back and shown(back)}"
        if par:
            q = dm.get_data_node("".join(("/" + n_) for n_ in spelled(par)))
        else:
            q = dm.schema
        for nm in (sn.iname(), f"{sn.ns}:{sn.name}", sn.name):
            qn = q._iname2qname(nm) if hasattr(q, "_iname2qname") else None
            if qn is None:
                break
            bare = ":" not in nm
            r = q.get_data_child(*qn)
            if bare and par and par[-1]["ns"] != p[-1]["ns"]:
                r0 = find([x for n in [p[:-1]] for x in (par[-1].get("ch", []))], data_kids, [[sn.name, par[-1]["ns"]]])
                if (r is None) != (r0 is None):
                    return f"{nm} below {shown(q)} gives {r}"
            elif not (bare and not par) and r is not sn:
                return f"{nm} below {shown(q)} gives {r}"


def spelled(par):
    prev, out = None, []
    for n in par:
        out.append(n["n"] if n["ns"] == prev else f"{n['ns']}:{n['n']}")
        prev = n["ns"]
    return out


# ------------------------------------------------------------ prefixes
TYPES = {"aa": "int8", "bb": "int16", "cc": "int32"}
PFX = ["x", "y", "z", "aa", "bb", "cc", "u", "us"]
KIND = ["type", "uses", "base", "augment", "leafref", "feature", "default", "must"]


def gen_prefixes(r):
    while True:
        def head():
            pf = PFX[:]
            r.shuffle(pf)
            imps = [m for m in TYPES if r.random() < .8]
            r.shuffle(imps)
            return [[m, pf.pop()] for m in imps], pf.pop()
        mi, mown = head()
        si, sown = head()
        stm = []
        for i in range(r.choice([1, 2, 3, 4])):
            in_sub = r.random() < .5
            imps, own = (si, sown) if in_sub else (mi, mown)
            pool = [p for _, p in imps] * 3 + [own, None] + (["nope"] if r.random() < .05 else [])
            stm.append([in_sub, r.choice(KIND), r.choice(pool)])
        yield [mi, mown, si, sown, stm, [m for m in list(TYPES) + ["u"] if r.random() < .5]]


def defs(m, t):
    return (f"feature f; typedef t {{ type {t}; }} grouping g {{ leaf g-{m} {{ type string; }} }} identity i; "
            f"identity d {{ base i; }} container top {{ leaf v {{ type t; }} leaf s {{ type string; }} }}")


@probe(gen_prefixes)
def prefixes(case):
    """A prefix stands for the module it is bound to in the (sub)module where it is used."""
    mi, mown, si, sown, stm, feats = case
    if any(len({p for _, p in i} | {o}) != len(i) + 1 for i, o in ((mi, mown), (si, sown))):
        return None
    body, wants, unknown = ["", ""], [], False
    for k, (in_sub, kind, p) in enumerate(stm):
        own = sown if in_sub else mown
        bound = {q: m for m, q in (si if in_sub else mi)}
        bound[own] = "u"
        mod = "u" if p is None else bound.get(p)
        if mod is None:
            unknown = True
        q = "" if p is None else p + ":"
        if kind == "augment" and p is None:
            q, mod = own + ":", "u"
        s = {"type": f"leaf w{k} {{ type {q}t; }}",
             "uses": f"container w{k} {{ uses {q}g; }}",
             "base": f"identity w{k} {{ base {q}i; }}",
             "augment": f"augment /{q}top {{ leaf w{k} {{ type string; }} }}",
             "leafref": f"leaf w{k} {{ type leafref {{ path \"/{q}top/{q}v\"; }} }}",
             "feature": f"leaf w{k} {{ if-feature \"{q}f\"; type string; }}",
             "default": f"leaf w{k} {{ type identityref {{ base {q}i; }} default {q}d; }}",
             "must": f"leaf w{k} {{ type string; must \"/{q}top/{q}s = 1\"; }}"}[kind]
        body[1 if in_sub else 0] += s + "\n"
        wants.append((f"w{k}", kind, mod))
    tx = {m: f"module {m} {{ yang-version 1.1; namespace 'urn:{m}'; prefix p{m}; {defs(m, t)} }}" for m, t in TYPES.items()}
    imp = lambda i: "".join(f"import {m} {{ prefix {p}; }} " for m, p in i)
    tx["u"] = (f"module u {{ yang-version 1.1; namespace 'urn:u'; prefix {mown}; {imp(mi)} include us;\n"
               f"{defs('u', 'int64')}\n{body[0]} }}")
    tx["us"] = f"submodule us {{ yang-version 1.1; belongs-to u {{ prefix {sown}; }} {imp(si)}\n{body[1]} }}"
    lib = [{"name": m, "feat": ["f"] if m in feats else []} for m in TYPES]
    lib.append({"name": "u", "feat": ["f"] if "u" in feats else [], "subs": ["us"]})
    try:
        dm = model(tx, lib)
    except UnknownPrefix:
        return None if unknown else "a declared prefix reported as unknown"
    except YangsonException as e:
        if unknown:
            return f"an undeclared prefix reported as {type(e).__name__}"
        raise
    if unknown:
        return "an undeclared prefix accepted"
    sd = dm.schema_data
    for nm, kind, mod in wants:
        n = dm.get_schema_node(f"/u:{nm}")
        if kind == "type":
            want = {"aa": "Int8Type", "bb": "Int16Type", "cc": "Int32Type", "u": "Int64Type"}[mod]
            if type(n.type).__name__ != want:
                return f"{nm}: type of {mod} is {type(n.type).__name__}"
        elif kind == "uses":
            if [(c.name, c.ns) for c in n.children] != [(f"g-{mod}", "u")]:
                return f"{nm}: uses of {mod} gives {[(c.name, c.ns) for c in n.children]}"
        elif kind == "base":
            for m in list(TYPES) + ["u"]:
                if sd.is_derived_from((nm, "u"), ("i", m)) is not (m == mod):
                    return f"{nm}: base of {mod}, derived from {m}'s: {m != mod}"
        elif kind == "augment":
            for m in list(TYPES) + ["u"]:
                g = dm.get_schema_node(f"/{m}:top/" + (nm if m == "u" else f"u:{nm}"))
                if (g is not None) is not (m == mod):
                    return f"{nm}: augment of {mod}'s, found in {m}'s: {g is not None}"
        elif kind == "leafref":
            want = {"aa": "Int8Type", "bb": "Int16Type", "cc": "Int32Type", "u": "Int64Type"}[mod]
            if type(n.type.ref_type).__name__ != want:
                return f"{nm}: leafref to {mod}'s node refers to {type(n.type.ref_type).__name__}"
        elif kind == "feature":
            if (n is not None) is not (mod in feats):
                return f"{nm}: feature of {mod}: {n is not None}"
        elif kind == "default":
            if tuple(n.default) != ("d", mod):
                return f"{nm}: default of {mod} is {n.default}"
        elif kind == "must":
            inst = dm.from_raw({f"{mod}:top": {"s": "1"}, f"u:{nm}": "q"})
            if not n.must[0].expression.evaluate(inst[f"u:{nm}"]):
                return f"{nm}: must about {mod}'s node does not see it"
            other = next(m for m in list(TYPES) + ["u"] if m != mod)
            inst = dm.from_raw({f"{other}:top": {"s": "1"}, f"u:{nm}": "q"})
            if n.must[0].expression.evaluate(inst[f"u:{nm}"]):
                return f"{nm}: must about {mod}'s node sees {other}'s"


# ------------------------------------------------------------ members of instances
def gen_members(r):
    g = gen(r)
    while True:
        ch, short, _ = next(g)
        ps = [p for p in walk(ch, data_kids, []) if all(n["k"] != "anydata" for n in p)]
        if not ps:
            continue
        asks = []
        for _ in range(8):
            p, out = r.choice(ps), []
            for i, n in enumerate(p):
                k = r.random()
                need = not i or p[i - 1]["ns"] != n["ns"]
                out.append(f"{n['ns']}:{n['n']}" if need and k < .93 or k < .3 else
                           n["n"] if k < .97 else r.choice([":", "m:", "n:", "nn:", "zz:"]) + n["n"])
            asks.append([[n["n"], n["ns"], n["k"]] for n in p])
            asks[-1] = [asks[-1], out]
        yield [ch, short, asks]


@probe(gen_members)
def members(case):
    """A member name of an instance stands for the child with that name and module, or for none."""
    ch, short, asks = case
    if not valid(ch):
        return None
    try:
        dm = build(ch, short)
    except YangsonException:
        return None
    for p, names in asks:
        if len(p) != len(names) or not all(names):
            return None
        cur, ns, want, doc = ch, None, [], None
        for nm in names:
            m, colon, loc = nm.partition(":")
            if not colon:
                m, loc = ns, m
            n = next((x for x in data_kids(cur) if x["n"] == loc and x["ns"] == m), None)
            want.append(n)
            if n is None:
                break
            cur, ns = n.get("ch", []), n["ns"]
        ok = want[-1] is not None and len(want) == len(names)
        kinds = [n["k"] if n else None for n in want]
        for nm, k in reversed(list(zip(names, kinds + ["leaf"] * (len(names) - len(kinds))))):
            if doc is None:
                doc = {nm: {"leaf": "v", "leaf-list": ["v"], "list": [{}], "container": {}}.get(k, "v")}
            else:
                doc = {nm: [doc] if k == "list" else ["v"] if k == "leaf-list" else "v" if k == "leaf" else doc}
        if not ok and any(k in ("leaf", "leaf-list", "anydata") for k in kinds[:-1]):
            continue
        if any(f"{n['ns']}:{n['n']}" == names[0] and n["k"] in ("rpc", "notification") for n in ch):
            continue                      # the content of an operation or notification is not part of the data tree
        try:
            inst = dm.from_raw(doc)
        except YangsonException as e:
            if ok:
                return f"{names} refused: {type(e).__name__}"
            continue
        if not ok:
            return f"{names} accepted"
        for i, (nm, n) in enumerate(zip(names, want)):
            res = []
            up = want[i - 1]["ns"] if i else None
            forms = [nm, f"{n['ns']}:{n['n']}"] + ([n["n"]] if up == n["ns"] else [])
            main = n["n"] if up == n["ns"] else forms[1]
            for f in forms:
                try:
                    res.append(inst[f])
                except YangsonException as e:
                    return f"member {f} at {names[:i]}: {type(e).__name__}"
            for x in res:
                if x.qual_name != (n["n"], n["ns"]) or x.name != main or (x.schema_node.name, x.schema_node.ns) != (n["n"], n["ns"]):
                    return f"{forms} at {names[:i]}: {x.name} of {x.qual_name}"
            inst = res[0]
            if n["k"] in ("list",):
                inst = inst[0]
