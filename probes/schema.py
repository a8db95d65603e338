"""Random YANG data trees with an independent reference: text, documents, JSON form, validity.

A schema is a list of nodes; node = dict with
  k: leaf | leaf-list | container | list | choice | case | anydata
  n: name   ns: "m" (base module) or "a" (augmenting module)
  t: type description (types.py)     mand, pres, cfg(False = state), min, max, keys, uniq, ob, def
  when: ["has"|"not", x] or ["eq", x, v]   must: the same      ch: children
A document is ["o", [[member, doc]...]], ["l", [doc...]] or a scalar of types.py.
"""
import json
from .types import (gen_type, type_text, gen_value, accepts, canon, raw_of, cookv, IDTEXT, numbering)
from .util import model, module

BASES = ["int8", "int32", "uint64", "int64", "uint8", "decimal64", "string", "string", "boolean", "enumeration",
         "bits", "binary", "empty", "identityref", "union"]
INTS = ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64")
NUMERIC = ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "decimal64")
COND = {"b": "string", "r": [], "p": []}


class Opts:
    def __init__(self, **kw):
        self.depth, self.width, self.when, self.must, self.choice, self.config = 2, 4, .2, 0, .3, .1
        self.defaults, self.minmax, self.unique, self.mand, self.aug, self.types, self.anydata = \
            .3, .3, .2, .3, .2, None, .05
        self.user = .2
        self.__dict__.update(kw)


def simple_type(r, o, ns, key=False):
    while True:
        d = gen_type(r, depth=1, bases=o.types or BASES)
        if has(d, "identityref") and ns != "m" or key and has(d, "empty"):
            continue
        if has(d, "union") and sum(has(d, k) for k in ("boolean", "decimal64")) + any(has(d, x) for x in INTS) > 1:
            continue                  # known findings of C16: true and 1, 0 and 0.0 compare equal
        v = good_value(r, d)
        if v is not None:
            return d


def has(d, b):
    return d["b"] == b or any(has(x, b) for x in d.get("types", []))


def good_value(r, d):
    for _ in range(30):
        v = gen_value(r, d)
        if accepts(d, v) and textable(d, v):
            return v
    return None


def textable(d, v):
    """Values whose JSON form decodes to the same member of a union, and that survive XML and quoting."""
    from .types import first_member
    if v[0] == "s" and not all(c.isprintable() and ord(c) < 0x2000 for c in v[1]):
        return False
    m = first_member(d, v)
    if d["b"] != "union":
        return True
    return decode(d, raw_of(d, v)) == norm(m, v)


def norm(d, v):
    return [d["b"], canon(d, v)]


def decode(d, raw):
    """Which member of a union reads this JSON value (reference): [base, canonical text] or None."""
    if d["b"] == "union":
        for t in d["types"]:
            x = decode(t, raw)
            if x is not None:
                return x
        return None
    for v in candidates(d, raw):
        if accepts(d, v):
            return norm(d, v)
    return None


def candidates(d, raw):
    import base64
    import re
    from decimal import Decimal
    b = d["b"]
    if b in ("int8", "int16", "int32", "uint8", "uint16", "uint32"):
        return [["i", raw]] if isinstance(raw, int) and not isinstance(raw, bool) else []
    if b in ("int64", "uint64"):
        return [["i", int(raw)]] if isinstance(raw, str) and re.fullmatch(r"\s*[-+]?[0-9]+(_[0-9]+)*\s*", raw) \
            and len(raw) < 4000 else []
    if b == "decimal64":
        if isinstance(raw, str):
            try:
                return [["d", str(Decimal(raw).quantize(Decimal(10) ** -d["fd"]))]]
            except Exception:
                pass
        return []
    if b in ("string", "enumeration"):
        return [["s", raw]] if isinstance(raw, str) else []
    if b == "boolean":
        return [["b", raw]] if isinstance(raw, bool) else []
    if b == "binary":
        try:
            return [["y"] + list(base64.b64decode(raw, validate=True))] if isinstance(raw, str) else []
        except Exception:
            return []
    if b == "empty":
        return [["t", None]] if raw == [None] else []
    if b == "bits":
        return [["t"] + raw.split()] if isinstance(raw, str) else []
    if b == "identityref":
        if not isinstance(raw, str):
            return []
        p, s, q = raw.partition(":")
        return [["t", q, p]] if s else [["t", p, "m"]]
    return []



def contained(r):
    """Types with contained values (for unions only values that keep their member)."""
    while True:
        d = gen_type(r)
        for _ in range(12):
            v = gen_value(r, d)
            if accepts(d, v) and v[0] != "rt" and not (v[0] == "d" and "E" in v[1].upper() and len(v[1]) > 5):
                yield (d, v)


def same(a, b):
    return type(a) is type(b) and a == b


# ---------------------------------------------------------------- random schemas
NAMES = ["x", "y", "z", "u", "v", "w", "p", "q"]


def gen_schema(r, o=None):
    o = o or Opts()
    return gen_children(r, o, o.depth, "m", "m", True, set(), True, True)


def gen_children(r, o, depth, ns, pns, cfg, used, direct, top=False, in_case=False):
    """direct: no non-presence container between here and the closest entry, presence container or root."""
    out = []
    cond = None
    if not in_case and o.when + o.must > 0 and r.random() < .6 and ("c0", ns) not in used:
        cond = "c0"
        used.add(("c0", ns))
        out.append({"k": "leaf", "n": "c0", "ns": ns, "t": COND})
    for _ in range(r.randint(1, o.width)):
        nns = "a" if ns == "m" and not in_case and r.random() < o.aug else ns
        name = r.choice(NAMES)
        if (name, nns) in used:
            continue
        used.add((name, nns))
        out.append(gen_node(r, o, depth, name, nns, cfg, used, direct, cond if nns == ns else None, in_case))
    return out


def gen_node(r, o, depth, name, ns, cfg, used, direct, cond, in_case):
    ks = ["leaf"] * 4 + ["leaf-list"]
    if depth > 0:
        ks += ["container"] * 2 + ["list"] * 2
    k = r.choice(ks)
    if depth > 0 and r.random() < o.choice:
        k = "choice"
    if r.random() < o.anydata:
        k = "anydata"
    n = {"k": k, "n": name, "ns": ns}
    if cfg and r.random() < o.config and k != "choice":
        n["cfg"] = False
        cfg = False
    if k in ("leaf", "leaf-list"):
        n["t"] = simple_type(r, o, ns)
        if k == "leaf-list" and not has(n["t"], "empty") is False:
            n["t"] = simple_type(r, o, ns, key=True)
        if r.random() < o.defaults and not has(n["t"], "empty") and not has(n["t"], "identityref"):
            vs = [v for v in (good_value(r, n["t"]) for _ in range(3)) if v is not None and default_ok(n["t"], v)]
            if k == "leaf" and vs:
                n["def"] = vs[:1]
            elif vs:
                n["def"] = dedup(n["t"], vs)
        if k == "leaf-list" and r.random() < o.user:
            n["ob"] = "user"
    if k == "leaf" and "def" not in n and r.random() < o.mand and not (ns == "a" and False):
        n["mand"] = True
    if k == "anydata" and r.random() < o.mand:
        n["mand"] = True
    if k in ("list", "leaf-list") and r.random() < o.minmax:
        if r.random() < .6 and "def" not in n:
            n["min"] = r.choice([1, 2])
        if r.random() < .6:
            n["max"] = r.choice([1, 2, 3])
            if n.get("min", 0) > n["max"]:
                n["min"] = n["max"]
    if k == "container":
        n["pres"] = r.random() < .4
        n["ch"] = gen_children(r, o, depth - 1, ns, ns, cfg, set(), direct=n["pres"])
    if k == "list":
        u = set()
        nk = r.choice([0, 1, 1, 2]) if not cfg else r.choice([1, 1, 2])
        keys = []
        for j in range(nk):
            kn = f"k{j}"
            u.add((kn, ns))
            keys.append({"k": "leaf", "n": kn, "ns": ns, "t": simple_type(r, o, ns, key=True)})
        n["keys"] = [x["n"] for x in keys]
        rest = gen_children(r, o, depth - 1, ns, ns, cfg, u, True)
        n["ch"] = keys + rest
        r.shuffle(n["ch"])
        if r.random() < o.unique:
            ls = unique_targets(rest, ns)
            if ls:
                n["uniq"] = [r.sample(ls, r.randint(1, min(2, len(ls))))]
        if r.random() < o.user:
            n["ob"] = "user"
    if k == "choice":
        n["ch"] = []
        for j in range(r.randint(1, 3)):
            c = {"k": "case", "n": f"{name}{j}", "ns": ns,
                 "ch": gen_children(r, o, depth - 1, ns, ns, cfg, used, direct, in_case=True)}
            if cond and r.random() < o.when / 2:
                c["when"] = gen_cond(r, cond)
            n["ch"].append(c)
        n["ch"] = [c for c in n["ch"] if c["ch"]]
        if not n["ch"]:
            return {"k": "leaf", "n": name, "ns": ns, "t": COND}
        if r.random() < o.mand:
            n["mand"] = True
        elif r.random() < o.defaults:
            ok = [c["n"] for c in n["ch"] if not any(mandatory(x) for x in c["ch"]) and "when" not in c]
            if ok:
                n["defcase"] = r.choice(ok)
    if cond and r.random() < o.when and (direct or not mandatory(n)):
        n["when"] = gen_cond(r, cond)
    if cond and k != "choice" and r.random() < o.must:
        n["must"] = gen_cond(r, cond)
    return n


def default_ok(d, v):
    from .types import first_member
    s = canon(d, v)
    if not (s.isprintable() and '"' not in s and "\\" not in s):
        return False
    if d["b"] == "union":
        return parse_union(d, s) == norm(first_member(d, v), v)
    return True


def parse_union(d, s):
    from .types import INTS
    if d["b"] == "union":
        for t in d["types"]:
            x = parse_union(t, s)
            if x is not None:
                return x
        return None
    if d["b"] in INTS:
        try:
            v = ["i", int(s)]
        except ValueError:
            return None
        return norm(d, v) if accepts(d, v) else None
    if d["b"] == "boolean":
        return norm(d, ["b", s == "true"]) if s in ("true", "false") else None
    if d["b"] == "empty":
        return norm(d, ["t", None]) if s == "" else None
    for v in candidates(d, s):
        if accepts(d, v):
            return norm(d, v)
    return None


def dedup(d, vs):
    out, seen = [], set()
    for v in vs:
        c = json.dumps(keyof(d, v))
        if c not in seen:
            seen.add(c)
            out.append(v)
    return out


def gen_cond(r, x):
    k = r.choice(["has", "not", "eq", "eq"])
    return [k, x] if k != "eq" else ["eq", x, r.choice(["a", "b"])]


def unique_targets(ch, ns):
    out = []
    for n in ch:
        if n["k"] == "leaf" and n["ns"] == ns:
            out.append(n["n"])
        elif n["k"] == "container" and n["ns"] == ns:
            out += [n["n"] + "/" + x for x in unique_targets(n["ch"], ns)]
    return out


def mandatory(n):
    k = n["k"]
    if k in ("leaf", "anydata", "choice"):
        return bool(n.get("mand"))
    if k in ("list", "leaf-list"):
        return n.get("min", 0) > 0
    if k == "container":
        return not n["pres"] and any(mandatory(x) for x in n["ch"])
    return False


# ---------------------------------------------------------------- YANG text
def cond_text(c, up, ns):
    p = f"{up}{ns}:{c[1]}"
    return {"has": p, "not": f"not({p})", "eq": f"{p} = '{c[-1]}'"}[c[0]]


def texts(schema):
    td = {"m": [], "a": []}
    augs = []
    body = children_text(schema, "m", "", td, augs)
    mt = module(IDTEXT + "\n" + "\n".join(td["m"]) + "\n" + body)
    out = {"m": mt}
    if augs:
        body = "\n".join(f'augment "{p}" {{ {t} }}' if p else t for p, t in augs)
        out["a"] = module("\n".join(td["a"]) + "\n" + body, "a", "import m { prefix m; }")
    return out


def children_text(ch, ns, path, td, augs):
    s = []
    for n in ch:
        if n["ns"] != ns:
            augs.append((path, node_text(n, path, td, augs)))
        else:
            s.append(node_text(n, path, td, augs))
    return "\n".join(s)


def node_text(n, path, td, augs):
    k = n["k"]
    p = f"{path}/{n['ns']}:{n['n']}"
    s = [f"{k} {n['n']} {{"]
    if n.get("when"):
        s.append(f'when "{cond_text(n["when"], "" if k in ("choice", "case") else "../", n["ns"])}";')
    if n.get("must"):
        s.append(f'must "{cond_text(n["must"], "../", n["ns"])}";')
    if n.get("cfg") is False:
        s.append("config false;")
    if n.get("mand"):
        s.append("mandatory true;")
    if n.get("pres"):
        s.append("presence x;")
    for a, w in (("min", "min-elements"), ("max", "max-elements"), ("ob", "ordered-by"), ("defcase", "default")):
        if n.get(a) is not None:
            s.append(f"{w} {n[a]};")
    if n.get("keys"):
        s.append('key "' + " ".join(n["keys"]) + '";')
    for u in n.get("uniq", []):
        s.append('unique "' + " ".join(u) + '";')
    if "t" in n:
        s.append(type_text(n["t"], td[n["ns"]]))
    for v in n.get("def", []):
        s.append(f'default "{canon(n["t"], v)}";')
    s.append(children_text(n.get("ch", []), n["ns"], p, td, augs))
    return " ".join(s) + "}"


def build(schema):
    t = texts(schema)
    return model(t, [{"name": x} for x in t])


# ---------------------------------------------------------------- documents
def data_children(ch):
    for n in ch:
        if n["k"] in ("choice", "case"):
            yield from data_children(n["ch"])
        else:
            yield n


def iname(n, pns):
    return n["n"] if n["ns"] == pns else f"{n['ns']}:{n['n']}"


def gen_doc(r, ch, pns=None, good=.93, cfg=True, n0=None):
    """A random document for a list of sibling schema nodes."""
    out = []

    def put(nodes, force=False):
        for n in nodes:
            if n["k"] == "choice":
                pr = .95 if n.get("mand") else .6
                if r.random() < pr:
                    put(r.choice(n["ch"])["ch"], True)
                    if r.random() > good:
                        put(r.choice(n["ch"])["ch"])
                continue
            pr = .97 if mandatory(n) else .55
            if n["n"] in (n0 or ()):
                pr = 1 if r.random() < .99 else 0
            if any(m == iname(n, pns) for m, _ in out) or r.random() > pr:
                continue
            out.append([iname(n, pns), gen_val(r, n, good)])
    put(ch)
    r.shuffle(out)
    return ["o", out]


def gen_val(r, n, good):
    k = n["k"]
    if k == "leaf":
        return leaf_val(r, n, good)
    if k == "leaf-list":
        xs = [leaf_val(r, n, good) for _ in range(count(r, n))]
        if r.random() < good:
            xs = dedup_any(n["t"], xs)
        return ["l", xs]
    if k == "container":
        return gen_doc(r, n["ch"], n["ns"], good)
    if k == "list":
        xs = [gen_doc(r, n["ch"], n["ns"], good, n0=n["keys"]) for _ in range(count(r, n))]
        return ["l", xs]
    if k == "anydata":
        return ["any", {"foo": r.choice([1, "x", [1, 2], {"b": None}])}]


def count(r, n):
    lo, hi = n.get("min", 0), n.get("max", 3)
    return r.choice([lo, hi, min(hi, lo + 1), max(0, lo - 1) if r.random() < .2 else lo,
                     hi + 1 if r.random() < .2 else hi])


def leaf_val(r, n, good):
    d = n["t"]
    if d is COND or d == COND:
        return ["s", r.choice(["a", "b", "c"])]
    if r.random() > good:
        v = gen_value(r, d)
        if not accepts(d, v) and d["b"] in ("int8", "int32", "uint8", "int64", "uint64") and v[0] == "i":
            return v
        if not accepts(d, v) and d["b"] in ("string", "enumeration") and v[0] == "s":
            return v
    if r.random() < .4:
        # few distinct values, so that keys and unique values collide
        import random
        for seed in range(5):
            v = good_value(random.Random(str(seed % 2) + json.dumps(d)), d)
            if v is not None:
                return v
    v = good_value(r, d)
    while v is None:
        v = good_value(r, d)
    return v


def dedup_any(d, vs):
    out, seen = [], set()
    for v in vs:
        key = json.dumps(keyof(d, v))
        if key not in seen:
            seen.add(key)
            out.append(v)
    return out


def keyof(d, v):
    """Identity of a value: canonical text and kind."""
    if accepts(d, v):
        from .types import first_member
        m = first_member(d, v)
        return ["b" if m["b"] == "boolean" else "n" if v[0] in "id" else "t" if v[0] == "rt" else v[0], canon(m, v)]
    return v


def raw_leaf(d, v):
    if accepts(d, v):
        return raw_of(d, v)
    if d["b"] in ("int64", "uint64"):
        return str(v[1])
    return v[1]


def child_of(ch, name, pns):
    for n in data_children(ch):
        if name == iname(n, pns):
            return n


def to_raw(ch, doc, pns=None):
    """JSON form of an object document."""
    out = {}
    for m, v in doc[1]:
        out[m] = raw_val(child_of(ch, m, pns), v)
    return out


def raw_val(n, v):
    k = n["k"]
    if k == "leaf":
        return raw_leaf(n["t"], v)
    if k == "leaf-list":
        return [raw_leaf(n["t"], x) for x in v[1]]
    if k == "container":
        return to_raw(n["ch"], v, n["ns"])
    if k == "list":
        return [to_raw(n["ch"], x, n["ns"]) for x in v[1]]
    return v[1]


# ---------------------------------------------------------------- reference validity
def get(doc, name):
    for m, v in doc[1]:
        if m == name:
            return v


def holds(c, doc, ns, pns):
    name = c[1] if pns == ns else f"{ns}:{c[1]}"
    v = get(doc, name)
    if c[0] == "has":
        return v is not None
    if c[0] == "not":
        return v is None
    return v is not None and v[1] == c[2]


def is_config(n):
    return n.get("cfg") is not False


def check(ch, doc, pns, ctype, cfg=True, path=""):
    """Set of problems: (kind, path)."""
    errs = set()
    present = [m for m, _ in doc[1]]
    allowed = {}

    def visit(nodes, active, cfg):
        for n in nodes:
            act = active and (not n.get("when") or holds(n["when"], doc, n["ns"], pns))
            c2 = cfg and is_config(n)
            if n["k"] in ("choice", "case"):
                visit(n["ch"], act, c2)
            else:
                allowed[iname(n, pns)] = (n, act and (ctype == "all" or c2), c2)
    visit(ch, True, cfg)
    for m in present:
        if m not in allowed or not allowed[m][1]:
            errs.add(("not-allowed", path + "/" + m))
    errs |= required(ch, doc, pns, ctype, cfg, path, present)
    for m, v in doc[1]:
        if m in allowed and allowed[m][1]:
            n, _, c2 = allowed[m]
            errs |= check_node(n, v, doc, pns, ctype, c2, path + "/" + m)
    return errs


def some_present(n, present, pns):
    if n["k"] in ("choice", "case"):
        return any(some_present(x, present, pns) for x in n["ch"])
    return iname(n, pns) in present


def required(nodes, doc, pns, ctype, cfg, path, present, inside=False):
    errs = set()
    for n in nodes:
        if n.get("when") and not holds(n["when"], doc, n["ns"], pns):
            continue
        c2 = cfg and is_config(n)
        if ctype != "all" and not c2:
            continue
        if n["k"] == "choice":
            sel = [c for c in n["ch"] if some_present(c, present, pns)]
            if len(sel) > 1:
                errs.add(("two-cases", path + "/" + n["n"]))
            elif sel:
                c = sel[0]
                if not c.get("when") or holds(c["when"], doc, c["ns"], pns):
                    errs |= required(c["ch"], doc, pns, ctype, c2, path, present)
            elif n.get("mand"):
                errs.add(("missing", path + "/" + n["n"]))
        elif iname(n, pns) not in present:
            if mandatory_now(n, ctype, c2):
                errs.add(("missing", path + "/" + n["n"]))
    return errs


def mandatory_now(n, ctype, cfg):
    """Mandatory, counting only the nodes of the validated content."""
    cfg = cfg and is_config(n)
    if ctype != "all" and not cfg:
        return False
    if n["k"] == "container":
        return not n["pres"] and any(mandatory_now(x, ctype, cfg) for x in n["ch"])
    return mandatory(n)


def check_node(n, v, doc, pns, ctype, cfg, path):
    errs = set()
    if n.get("must") and not holds(n["must"], doc, n["ns"], pns):
        if n["k"] not in ("list", "leaf-list") or v[1]:
            errs.add(("must", path))
    k = n["k"]
    if k in ("leaf", "leaf-list"):
        for x in (v[1] if k == "leaf-list" else [v]):
            if not accepts(n["t"], x):
                errs.add(("type", path))
    if k in ("list", "leaf-list"):
        if len(v[1]) < n.get("min", 0):
            errs.add(("too-few", path))
        if len(v[1]) > n.get("max", 10**9):
            errs.add(("too-many", path))
    if k == "leaf-list":
        if cfg and len(dedup_any(n["t"], v[1])) < len(v[1]):
            errs.add(("dup", path))
    if k == "container":
        errs |= check(n["ch"], v, n["ns"], ctype, cfg, path)
    if k == "list":
        seen = set()
        for x in v[1]:
            errs |= check(n["ch"], x, n["ns"], ctype, cfg, path)
            if n["keys"]:
                ks = []
                for kn in n["keys"]:
                    kv = get(x, kn)
                    if kv is None:
                        errs.add(("key-missing", path))
                    else:
                        ks.append(keyof(child_of(n["ch"], kn, n["ns"])["t"], kv))
                if len(ks) == len(n["keys"]):
                    t = json.dumps(ks)
                    if t in seen:
                        errs.add(("dup-key", path))
                    seen.add(t)
        for u in n.get("uniq", []):
            vals = set()
            for x in v[1]:
                tup = [unique_value(n, x, p.split("/")) for p in u]
                if None in tup:
                    continue
                if "?" in tup:
                    errs.add(("unknown", path))
                    continue
                t = json.dumps(tup)
                if t in vals:
                    errs.add(("unique", path))
                vals.add(t)
    return errs


def unique_value(n, doc, steps):
    ch, ns = n["ch"], n["ns"]
    for i, s in enumerate(steps):
        c = child_of(ch, s, ns)
        doc2 = get(doc, s) if doc is not None else None
        if i == len(steps) - 1:
            if doc2 is not None:
                return keyof(c["t"], doc2)
            if c.get("def") and not c.get("when"):
                return keyof(c["t"], c["def"][0])
            return None if not c.get("def") else "?"
        if doc2 is None and (c.get("pres") or c.get("when")):
            return None if c.get("pres") else "?"
        doc, ch = doc2, c["ch"]
