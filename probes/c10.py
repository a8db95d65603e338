"""C10: defaults added to real documents, against an independent reference."""
import random
from pyvc.probes import probe, Skip, outcome
from yangson.enumerations import ContentType, ValidationScope
from .schema import *
from .tree import plain

CT = {"config": 1, "nonconfig": 2, "all": 3}


def ctype(n, cfg):
    if n["k"] in ("leaf", "leaf-list", "anydata"):
        return 1 if cfg else 2
    return 3 if cfg else 2


def fill(ch, doc, pns, ct, cfg=True):
    out = [[m, deepen(child_of(ch, m, pns), v, ct, cfg)] for m, v in doc[1]]
    present = [m for m, _ in doc[1]]

    def add(nodes, cfg):
        for n in nodes:
            c2 = cfg and is_config(n)
            if n["k"] != "case" and not ctype(n, c2) & ct:
                continue
            if n.get("when") and not holds(n["when"], doc, n["ns"], pns):
                continue
            if n["k"] == "choice":
                sel = [c for c in n["ch"] if some_present(c, present, pns)]
                sel = sel or [c for c in n["ch"] if c["n"] == n.get("defcase")]
                if sel and (not sel[0].get("when") or holds(sel[0]["when"], doc, sel[0]["ns"], pns)):
                    add(sel[0]["ch"], c2)
                continue
            if iname(n, pns) in present:
                continue
            if n["k"] == "container" and not n["pres"]:
                out.append([iname(n, pns), fill(n["ch"], ["o", []], n["ns"], ct, c2)])
            elif n["k"] == "leaf" and n.get("def"):
                out.append([iname(n, pns), n["def"][0]])
            elif n["k"] == "leaf-list" and n.get("def"):
                out.append([iname(n, pns), ["l", n["def"]]])
    add(ch, cfg)
    return ["o", out]


def deepen(n, v, ct, cfg):
    cfg = cfg and is_config(n)
    if n["k"] == "container":
        return fill(n["ch"], v, n["ns"], ct, cfg)
    if n["k"] == "list":
        return ["l", [fill(n["ch"], x, n["ns"], ct, cfg) for x in v[1]]]
    return v


def gen(r):
    while True:
        s = gen_schema(r, Opts(must=0, when=r.choice([0, .2, .5]), defaults=.8, choice=.35, mand=.05, minmax=0, width=5,
                               unique=0, config=.15))
        for _ in range(6):
            yield (s, gen_doc(r, s, good=1), r.choice(["all", "all", "config", "nonconfig", None]))


def typed(v):
    if isinstance(v, dict):
        return {k: typed(x) for k, x in v.items()}
    if isinstance(v, list):
        return [typed(x) for x in v]
    return (type(v).__name__, v)


@probe(gen, weight=3)
def added(case):
    s, doc, ct = case
    if check(s, doc, None, "all") - {e for e in check(s, doc, None, "all") if e[0] in ("missing", "not-allowed")}:
        return
    m = build(s)
    raw = to_raw(s, doc)
    root = m.from_raw(raw)
    before = root.raw_value()
    want = to_raw(s, fill(s, doc, None, CT[ct or "all"]))
    ctt = ContentType[ct] if ct else None
    res = root.add_defaults(ctt)
    got = res.raw_value()
    if typed(got) != typed(want):
        return f"add_defaults({ct}) of {raw} gives {got}, expected {want}"
    if typed(root.raw_value()) != typed(before):
        return f"add_defaults({ct}) changed the node it was called on: {before} -> {root.raw_value()}"
    again = res.add_defaults(ctt)
    if typed(again.raw_value()) != typed(got) or again.value != res.value:
        return f"add_defaults({ct}) of {raw} twice gives {again.raw_value()}, once {got}"
    tagged = root.add_defaults(ctt, tag=True)
    if typed(strip(tagged.raw_value())) != typed(got):
        return f"add_defaults({ct}, tag) of {raw} gives {tagged.raw_value()}, expected {got}"
    if typed(root.raw_value()) != typed(before) or typed(root.add_defaults(ctt).raw_value()) != typed(got):
        return f"add_defaults({ct}, tag) of {raw} changed earlier values or the schema's defaults"
    # below a member
    for mn in list(root.value):
        n = child_of(s, mn, None)
        if n["k"] == "container":
            sub = root[mn].add_defaults(ctt).raw_value()
            if ctt and typed(sub) != typed(want[mn]):
                return f"add_defaults({ct}) of member {mn} of {raw} gives {sub}, expected {want[mn]}"
        if n["k"] == "list" and len(root.value[mn]) > 0:
            for i in range(len(root.value[mn])):
                sub = root[mn][i].add_defaults(ctt).raw_value()
                if ctt and typed(sub) != typed(want[mn][i]):
                    return f"add_defaults({ct}) of entry {i} of {mn} of {raw} gives {sub}, expected {want[mn][i]}"


def strip(v):
    if isinstance(v, dict):
        return {k: strip(x) for k, x in v.items() if not k.startswith("@")}
    return [strip(x) for x in v] if isinstance(v, list) else v


# ---------------------------------------------------------------- where the default value comes from
def gen_src(r):
    while True:
        t = {}
        spec = {}
        td = []
        for i in range(4):
            base = "uint8" if i == 0 or r.random() < .3 else f"t{r.randrange(i)}"
            d = r.choice([None, i + 10])
            td.append((f"t{i}", base, d))
            spec[f"t{i}"] = d if d is not None else spec.get(base)
        leaves = []
        for j in range(r.randint(2, 5)):
            k = r.choice(["leaf", "leaf", "leaf-list", "mand", "uses", "refine", "union", "ref", "refll", "dev", "devll"])
            leaves.append((k, f"x{j}", f"t{r.randrange(4)}", r.choice([None, None, 50 + j])))
        yield (td, leaves, r.choice(["top", "cont", "pres", "list", "case", "othercase"]), r.random() < .5)


@probe(gen_src)
def sources(case):
    td, leaves, place, there = case
    spec = {}
    text = devs = ""
    where = {"top": "", "cont": "/m:c", "pres": "/m:c", "list": "/m:c", "case": "/m:c/m:ch/m:a", "othercase": "/m:c/m:ch/m:a"}[place]
    for n, base, d in td:
        spec[n] = d if d is not None else spec.get(base)
        text += f"typedef {n} {{ type {base}; {f'default {d};' if d is not None else ''} }}\n"
    body, groups, want = "", "", {}
    for k, n, t, d in leaves:
        dd = f"default {d};" if d is not None else ""
        w = d if d is not None else spec[t]
        if k == "mand":
            body += f"leaf {n} {{ type {t}; mandatory true; }}\n"
            w = None
        elif k == "leaf-list":
            body += f"leaf-list {n} {{ type {t}; {dd} {f'default {d + 1};' if d is not None else ''} }}\n"
            w = [d, d + 1] if d is not None else [w] if w is not None else None
        elif k == "union":
            body += f"leaf {n} {{ type union {{ type {t}; type string; }} {dd} }}\n"
            w = d
        elif k == "ref":
            groups += f"leaf tgt-{n} {{ type uint8; default 3; }}"
            body += f"leaf {n} {{ type leafref {{ path \"/m:tgt-{n}\"; }} {dd} }}\n"
            w = d
        elif k == "refll":
            groups += f"grouping g-{n} {{ leaf-list {n} {{ type {t}; {dd} }} }}\n"
            body += f"uses g-{n} {{ refine {n} {{ default 98; default 99; }} }}\n"
            w = [98, 99]
        elif k == "dev":
            act = "add" if d is None else ("replace" if int(n[1:]) % 2 else "delete")
            body += f"leaf {n} {{ type {t}; {dd} }}\n"
            devs += f"deviation \"{where}/m:{n}\" {{ deviate {act} {{ default {d if act == 'delete' else 97}; }} }}\n"
            w = spec[t] if act == "delete" else 97
        elif k == "devll":
            act = "add" if d is None else "delete"
            body += f"leaf-list {n} {{ type {t}; {dd} {f'default {d + 1};' if d is not None else ''} }}\n"
            devs += f"deviation \"{where}/m:{n}\" {{ deviate {act} {{ default {d if act == 'delete' else 96}; }} }}\n"
            w = [d + 1] if act == "delete" else [96]
        elif k in ("uses", "refine"):
            ref = f"{{ refine {n} {{ default 99; }} }}" if k == "refine" else ";"
            groups += f"grouping g-{n} {{ leaf {n} {{ type {t}; {dd} }} }}\n"
            body += f"uses g-{n} {ref}\n"
            w = 99 if k == "refine" else w
        else:
            body += f"leaf {n} {{ type {t}; {dd} }}\n"
        if w is not None:
            want[n] = w
    if place == "list":
        body = f"list c {{ key k; leaf k {{ type t0; }} {body} }}"
    elif place in ("cont", "pres"):
        body = f"container c {{ {'presence x;' if place == 'pres' else ''} {body} }}"
    elif place in ("case", "othercase"):
        body = f"container c {{ choice ch {{ default {'a' if place == 'case' else 'b'}; case a {{ {body} }} case b {{ leaf o {{ type string; default q; }} }} }} }}"
        if "mandatory" in body:
            return
    texts = {"m": module(text + groups + body)}
    if devs:
        texts["n"] = module(devs, "n", "import m { prefix m; }")
    m = model(texts)
    tgts = {f"m:tgt-{n}": 3 for k, n, *_ in leaves if k == "ref"}
    if place == "top":
        raw, exp = {}, {"m:" + k: v for k, v in want.items()}
    elif place == "list":
        raw, exp = ({"m:c": [{"k": 1}]}, {"m:c": [dict(want, k=1)]}) if there else ({}, {})
    elif place == "othercase":
        raw, exp = ({"m:c": {"o": "z"}}, {"m:c": {"o": "z"}}) if there else ({}, {"m:c": {"o": "q"}})
    else:
        raw, exp = ({"m:c": {}}, {"m:c": want}) if there else ({}, {} if place == "pres" else {"m:c": want})
    exp = dict(exp, **tgts)
    got = m.from_raw(raw).add_defaults().raw_value()
    if got != exp:
        return f"defaults of {raw} in {text + groups + body + devs}: {got}, expected {exp}"
