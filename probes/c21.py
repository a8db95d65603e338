"""C21: validation of real documents under every scope: what is reported, and where."""
import random
from pyvc.probes import probe, Skip, outcome
from yangson.enumerations import ContentType, ValidationScope
from yangson.exceptions import SchemaError, SemanticError, ValidationError, YangTypeError
from .schema import *

SYN = {"not-allowed", "type", "two-cases", "missing"}
SEM = {"too-few", "too-many", "dup", "dup-key", "key-missing", "unique", "must"}


def gen(r):
    while True:
        s = gen_schema(r, Opts(must=r.choice([.1, .4]), when=r.choice([0, .1]), minmax=.3, unique=.2, choice=.2, mand=.2))
        for _ in range(6):
            doc = gen_doc(r, s, good=r.choice([1, .98, .9]))
            yield (s, doc, r.choice(["all", "config"]), r.choice(["syntax", "semantics", "all"]))


def where(inst):
    return "".join("/" + str(x) for x in inst.path if not isinstance(x, int))


@probe(gen, weight=3)
def scopes(case):
    s, doc, ct, scope = case
    m = build(s)
    raw = to_raw(s, doc)
    errs = check(s, doc, None, ct)
    kinds = {x for x, _ in errs}
    if "unknown" in kinds or kinds & {"not-allowed", "two-cases"} and scope == "semantics":
        return
    want = {e for e in errs if scope != "semantics" and (e[0] in SYN or e[0] == "key-missing")
            or scope != "syntax" and e[0] in SEM}
    k, root = outcome(m.from_raw, raw)
    if k == "exc":
        return
    k, e = outcome(root.validate, ValidationScope[scope], ContentType[ct])
    if k == "exc" and not isinstance(e, ValidationError):
        raise e
    if bool(want) != (k == "exc"):
        if "key-missing" in {x for x, _ in want} and {x for x, _ in want} == {"key-missing"}:
            return                    # a key of state data
        return f"validation ({ct}, {scope}) of {raw} gives {e!r} {e if k == 'exc' else ''}; expected {sorted(errs) or 'no error'}"
    if k == "exc":
        p = where(e.instance)
        if not any(q == p or q.rpartition("/")[0] == p or q.startswith(p + "/") and x in ("two-cases", "missing", "key-missing", "unique", "dup-key")
                   for x, q in want):
            return f"validation ({ct}, {scope}) of {raw} reports {e} at {p}; violations are {sorted(want)}"
        syn = isinstance(e, (SchemaError, YangTypeError)) and e.tag != "list-key-missing"
        if syn and scope == "semantics" or isinstance(e, SemanticError) and scope == "syntax":
            return f"{scope} validation of {raw} reports {e!r} {e}"


# ---------------------------------------------------------------- references
KT = {"string": ("a", "b", "c d", "x/y", "'"), "uint8": (0, 1, 2, 200), "int64": ("-1", "0", "7"),
      "decimal64 { fraction-digits 2; }": ("0.5", "1.0", "-2.25"), "enumeration { enum a; enum b; enum 'c d'; }": ("a", "b", "c d")}


def semi(t):
    return t if t.endswith("}") else t + ";"


def ref_module(kt, req, td):
    q = f"require-instance {'true' if req else 'false'};"
    if td == 2:                       # the opposite in the typedef, overridden where it is used
        opp = f"require-instance {'false' if req else 'true'};"
        nm = f'type leafref {{ path "/m:srv/m:name"; {opp} }}'
        name = f"type nref {{ {q} }}"
    else:
        nm = f'type leafref {{ path "/m:srv/m:name"; {q} }}'
        name = "type nref;" if td else nm
    return module(f"""
    typedef nref {{ {nm} }}
    list srv {{ key "name"; leaf name {{ type {semi(kt)} }} leaf port {{ type uint16; }} leaf-list tag {{ type string; }} }}
    container top {{
      leaf r1 {{ {name} }}
      leaf r2 {{ type leafref {{ path "/m:srv[m:name=current()/../m:r1]/m:port"; {q} }} }}
      leaf-list r3 {{ type leafref {{ path "../../m:srv/m:tag"; {q} }} }}
      leaf rr {{ type leafref {{ path "../r1"; {q} }} }}
      leaf ii {{ type instance-identifier {{ {q} }} }}
      leaf-list iis {{ type instance-identifier {{ {q} }} }}
      list l {{ key "k"; leaf k {{ {name} }}
        leaf p {{ type leafref {{ path "/m:srv[m:name=current()/../m:k]/m:port"; {q} }} }}
        container in {{ leaf q {{ type leafref {{ path "../../../../m:srv/m:port"; {q} }} }} }}
        list st {{ config false; leaf z {{ {name} }} }} }} }}""")


def gen_ref(r):
    while True:
        kt = r.choice(list(KT))
        req, td = r.random() < .8, r.choice([0, 0, 1, 2])
        for _ in range(6):
            names = KT[kt]
            pick = lambda: r.choice(names)
            bias = r.random()
            srv = []
            for n in r.sample(names, r.randint(0, len(names) - 1)):
                e = {"name": n}
                if r.random() < .8:
                    e["port"] = r.choice([1, 2, 80])
                if r.random() < .7:
                    e["tag"] = r.sample(["t", "u", "v"], r.randint(1, 3))
                srv.append(e)
            good = [e["name"] for e in srv]
            gp = lambda: r.choice(good) if good and r.random() < bias + .3 else pick()
            port = lambda: r.choice([1, 2, 80, 81])
            iis = ["/m:srv", "/m:top", "/m:top/r1", "/m:top/l/k", "/m:srv[1]", "/m:srv[3]", "/m:top/nope", "/m:top/r3[.='t']", "/m:srv[2]/port"]
            top = {}
            if r.random() < .6:
                top["r1"] = gp()
            if r.random() < .4:
                top["r2"] = port()
            if r.random() < .4:
                top["r3"] = r.sample(["t", "u", "v", "w"], r.randint(1, 2))
            if r.random() < .4:
                top["rr"] = top.get("r1", gp()) if r.random() < .7 else gp()
            if r.random() < .4:
                top["ii"] = r.choice(iis)
            if r.random() < .3:
                top["iis"] = r.sample(iis, 2)
            if r.random() < .5:
                top["l"] = []
                for n in r.sample(names, r.randint(1, 3)):
                    if good and r.random() < bias and n not in good:
                        continue
                    e = {"k": n}
                    if r.random() < .4:
                        e["p"] = port()
                    if r.random() < .4:
                        e["in"] = {"q": port()}
                    if r.random() < .3:
                        e["st"] = [{"z": gp()} for _ in range(r.randint(1, 2))]
                    top["l"].append(e)
            raw = {}
            if srv or r.random() < .3:
                raw["m:srv"] = srv
            if top or r.random() < .3:
                raw["m:top"] = top
            yield (kt, req, td, raw, r.choice(["all", "semantics"]))


def exists(raw, ii):
    srv, top = raw.get("m:srv"), raw.get("m:top")
    if ii == "/m:srv":
        return None if srv == [] else srv is not None
    if ii == "/m:top":
        return top is not None
    if ii.startswith("/m:srv["):
        i = int(ii[7]) - 1
        return srv is not None and i < len(srv) and (not ii.endswith("port") or "port" in srv[i])
    if top is None:
        return False
    if ii == "/m:top/l/k":
        return None
    if ii == "/m:top/r3[.='t']":
        return "t" in top.get("r3", [])
    return ii.rpartition("/")[2] in top


def broken(raw):
    """Paths of references without a target; None when the reference does not decide."""
    srv, top = raw.get("m:srv", []), raw.get("m:top", {})
    names = [e["name"] for e in srv]
    ports = lambda n: [e["port"] for e in srv if e["name"] == n and "port" in e]
    bad = []
    if "r1" in top and top["r1"] not in names:
        bad.append("/m:top/r1")
    if "r2" in top and top["r2"] not in (ports(top["r1"]) if "r1" in top else []):
        bad.append("/m:top/r2")
    if any(t not in [x for e in srv for x in e.get("tag", [])] for t in top.get("r3", [])):
        bad.append("/m:top/r3")
    if "rr" in top and top["rr"] != top.get("r1"):
        bad.append("/m:top/rr")
    for n, xs in (("ii", [top["ii"]] if "ii" in top else []), ("iis", top.get("iis", []))):
        for x in xs:
            ok = exists(raw, x)
            if ok is None:
                return None
            if not ok:
                bad.append("/m:top/" + n)
    for e in top.get("l", []):
        if e["k"] not in names:
            bad.append("/m:top/l/k")
        if "p" in e and e["p"] not in ports(e["k"]):
            bad.append("/m:top/l/p")
        if "in" in e and e["in"]["q"] not in [x["port"] for x in srv if "port" in x]:
            bad.append("/m:top/l/in/q")
        for z in e.get("st", []):
            if z["z"] not in names:
                bad.append("/m:top/l/st/z")
    return bad


@probe(gen_ref, weight=2)
def references(case):
    kt, req, td, raw, scope = case
    m = model({"m": ref_module(kt, req, td)})
    bad = broken(raw)
    if bad is None:
        return
    if not req:
        bad = []
    k, root = outcome(m.from_raw, raw)
    if k == "exc":
        return f"{raw} is refused: {root!r} {root}"
    k, e = outcome(root.validate, ValidationScope[scope], ContentType.all)
    if k == "exc" and not isinstance(e, ValidationError):
        raise e
    if bool(bad) != (k == "exc"):
        return f"{scope} validation of {raw}: {e!r} {e if k == 'exc' else ''}; dangling references {bad}"
    if k == "exc":
        if where(e.instance) not in bad or not isinstance(e, SemanticError) or e.tag != "instance-required":
            return f"{scope} validation of {raw} reports {e!r} {e}; dangling references {bad}"
    k, e = outcome(root.validate, ValidationScope.syntax, ContentType.all)
    if k == "exc":
        return f"syntax validation of {raw}: {e!r} {e}"


# ---------------------------------------------------------------- must
MUSTS = {
    "x": [(". > 5", lambda d, v: v > 5), (". mod 2 = 0", lambda d, v: v % 2 == 0), ("../y", lambda d, v: "y" in d),
          ("current() != 7", lambda d, v: v != 7), ("not(../c) or ../c/z", lambda d, v: "c" not in d or "z" in d["c"]),
          ("count(../ll) < 2", lambda d, v: len(d.get("ll", [])) < 2)],
    "c": [("z", lambda d, v: "z" in v), ("count(../ll) = count(e)", lambda d, v: len(d.get("ll", [])) == len(v.get("e", []))),
          ("e/k = z", lambda d, v: "z" in v and v["z"] in [e["k"] for e in v.get("e", [])]), ("1 = 1", lambda d, v: True)],
    "ll": [(". != 'b'", lambda d, v: v != "b"), ("string-length(.) < 3", lambda d, v: len(v) < 3),
           ("../x", lambda d, v: "x" in d)],
    "e": [("k != ../z or not(../z)", lambda d, v: not ("c" in d and "z" in d["c"]) or v["k"] != d["c"]["z"]),
          ("v or k > 1", lambda d, v: "v" in v or v["k"] > 1), ("../../x", lambda d, v: "x" in d)],
}


def gen_must(r):
    while True:
        ms = {n: r.sample(xs, r.choice([0, 1, 1, 2])) for n, xs in MUSTS.items()}
        ms = {n: [x[0] for x in xs] for n, xs in ms.items()}
        tags = r.random() < .5
        for _ in range(6):
            d = {}
            if r.random() < .6:
                d["x"] = r.choice([2, 5, 6, 7, 8])
            if r.random() < .5:
                d["y"] = "q"
            if r.random() < .7:
                d["c"] = {}
                if r.random() < .6:
                    d["c"]["z"] = r.choice([1, 2])
                if r.random() < .6:
                    d["c"]["e"] = [dict({"k": k}, **({"v": 1} if r.random() < .6 else {})) for k in r.sample([1, 2, 3], r.randint(1, 3))]
            if r.random() < .6:
                d["ll"] = r.sample(["a", "b", "ccc"], r.randint(1, 3))
            yield (ms, tags, d, r.choice(["all", "semantics", "syntax"]))


def must_module(ms, tags):
    t = {}
    i = 0
    for n, xs in ms.items():
        t[n] = ""
        for x in xs:
            i += 1
            t[n] += f'must "{x}"' + (f' {{ error-app-tag "t{i}"; error-message "m{i}"; }}' if tags else ";")
    return module(f"""container r {{ leaf x {{ type uint8; {t['x']} }} leaf y {{ type string; }}
        container c {{ presence p; {t['c']} leaf z {{ type uint8; }} list e {{ key k; {t['e']} leaf k {{ type uint8; }} leaf v {{ type uint8; }} }} }}
        leaf-list ll {{ type string; {t['ll']} }} }}""")


@probe(gen_must, weight=2)
def musts(case):
    ms, tags, d, scope = case
    m = model({"m": must_module(ms, tags)})
    bad = []
    i = 0
    for n, xs in ms.items():
        vals = {"x": [d["x"]] if "x" in d else [], "c": [d["c"]] if "c" in d else [], "ll": d.get("ll", []),
                "e": d.get("c", {}).get("e", [])}[n]
        for x in xs:
            i += 1
            f = dict(MUSTS[n])[x]
            if any(not f(d, v) for v in vals):
                bad.append(("/m:r/" + ("c/e" if n == "e" else n), f"t{i}" if tags else "must-violation"))
    if scope == "syntax":
        bad = []
    k, e = outcome(m.from_raw({"m:r": d}).validate, ValidationScope[scope], ContentType.all)
    if k == "exc" and not isinstance(e, ValidationError):
        raise e
    if bool(bad) != (k == "exc"):
        return f"{scope} validation of {d} with {ms}: {e!r} {e if k == 'exc' else ''}; false conditions {bad}"
    if k == "exc" and (where(e.instance), e.tag) not in bad:
        return f"{scope} validation of {d} with {ms} reports {e}; false conditions {bad}"
