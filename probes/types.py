"""Random YANG scalar types with an independent reference semantics.

A type description is JSON:
  {"b": base, ...}   base properties (fd, enums, bits, bases, types)
  "r": [[part,...], ...]  one range/length expression per derivation level
  "p": [[pattern index, inverted], ...]
  "sub": list of kept enum/bit names per level (or None)
"""
import base64
import re
from decimal import Decimal
from yangson.instroute import InstanceRoute
from yangson.instance import MemberName
from yangson.instvalue import ArrayValue, ObjectValue
from .util import model, module

INTS = {"int8": (-2**7, 2**7 - 1), "int16": (-2**15, 2**15 - 1), "int32": (-2**31, 2**31 - 1),
        "int64": (-2**63, 2**63 - 1), "uint8": (0, 2**8 - 1), "uint16": (0, 2**16 - 1),
        "uint32": (0, 2**32 - 1), "uint64": (0, 2**64 - 1)}
PATS = [("[a-z]*", lambda s: all("a" <= c <= "z" for c in s)),
        ("[0-9]{2,3}", lambda s: 2 <= len(s) <= 3 and all(c in "0123456789" for c in s)),
        ("a|bc", lambda s: s in ("a", "bc")),
        ("[^x]*", lambda s: "x" not in s),
        ("a.*", lambda s: s[:1] == "a" and "\n" not in s and "\r" not in s),
        ("(ab)+", lambda s: s != "" and len(s) % 2 == 0 and s == "ab" * (len(s) // 2))]
IDENTS = {"b1": [], "b2": [], "d1": ["b1"], "d12": ["b1", "b2"], "d2": ["b2"], "dd1": ["d1"]}
SIMPLE = list(INTS) + ["decimal64", "string", "boolean", "enumeration", "bits", "binary", "empty", "identityref",
                       "instance-identifier"]


def unit(d):
    return Decimal(10) ** -d["fd"] if d["b"] == "decimal64" else 1


def base_bounds(d):
    if d["b"] in INTS:
        return INTS[d["b"]]
    if d["b"] == "decimal64":
        return -2**63, 2**63 - 1           # in units of 10^-fd
    return 0, 2**32 - 1


# interval parts are pairs of scaled integers, or the words min / max
def denote(parts, lo, hi):
    """Set of scaled integers denoted by one expression over a type with bounds lo, hi."""
    f = {"min": lo, "max": hi}
    return [(f.get(p[0], p[0]), f.get(p[-1], p[-1])) for p in parts]


def final_range(d):
    """Interval list of the most derived restriction, or None."""
    cur = None
    lo, hi = base_bounds(d)
    for parts in d.get("r", []):
        if parts is None:
            continue
        cur = denote(parts, lo, hi)
        lo, hi = cur[0][0], cur[-1][1]
    return cur


def num_text(d, n):
    if isinstance(n, str):
        return n
    if d["b"] != "decimal64":
        return str(n)
    s = "-" if n < 0 else ""
    q, m = divmod(abs(n), 10 ** d["fd"])
    return f"{s}{q}.{m:0{d['fd']}d}"


def range_text(d, parts):
    return " | ".join(num_text(d, p[0]) if len(p) == 1 else num_text(d, p[0]) + ".." + num_text(d, p[1])
                      for p in parts)


def gen_parts(r, lo, hi, allowed):
    """Random ascending parts inside the allowed intervals (list of (lo, hi))."""
    pts = set()
    for a, b in allowed:
        for x in (a, b, a + 1, b - 1, (a + b) // 2, r.randint(a, b), r.randint(a, min(b, a + 20))):
            if a <= x <= b:
                pts.add((x, (a, b)))
    pts = sorted(pts)
    k = min(len(pts), r.choice([1, 2, 2, 3, 4, 6]))
    sel = sorted(r.sample(pts, k))
    parts, i = [], 0
    while i < len(sel):
        x, iv = sel[i]
        if i + 1 < len(sel) and sel[i + 1][1] == iv and r.random() < .6:
            parts.append([x, sel[i + 1][0]])
            i += 2
        else:
            parts.append([x])
            i += 1
    if parts[0][0] == lo and r.random() < .6:
        parts[0][0] = "min"
    if parts[-1][-1] == hi and r.random() < .6:
        parts[-1][-1] = "max"
    if r.random() < .15:
        return [["min", "max"]] if len(allowed) == 1 else parts
    return parts


def gen_type(r, depth=1, bases=None):
    b = r.choice(bases or SIMPLE + (["union"] * 3 if depth else []))
    d = {"b": b}
    if b == "decimal64":
        d["fd"] = r.choice([1, 2, 3, 6, 17, 18, r.randint(1, 18)])
    if b in INTS or b in ("decimal64", "string", "binary"):
        lo, hi = base_bounds(d)
        allowed = [(lo, hi)]
        if b in ("string", "binary"):
            allowed = [(0, 6)]
        d["r"] = []
        for lev in range(r.choice([0, 1, 1, 2, 3])):
            if r.random() < .15:
                d["r"].append(None)
                continue
            parts = gen_parts(r, lo, hi, allowed)
            d["r"].append(parts)
            allowed = denote(parts, lo, hi)
            lo, hi = allowed[0][0], allowed[-1][1]
            if hi - allowed[-1][0] > 10 and b in ("string", "binary"):
                allowed[-1] = (allowed[-1][0], allowed[-1][0] + 6)
    if b == "string":
        d["p"] = [[r.randrange(len(PATS)), r.random() < .3] for _ in range(r.choice([0, 0, 1, 2]))]
        while len(d["r"]) < len(d["p"]):
            d["r"].append(None)
    if b in ("enumeration", "bits"):
        names = r.sample(["a", "bb", "c-1", "zero", "x", "Y", "_u"], r.randint(1, 5))
        items, used, mx = [], set(), -1
        for n in names:
            if r.random() < .5:
                v = r.choice([r.randint(0, 12), r.randint(0, 3), r.randint(-5, 40) if b == "enumeration" else 30])
                if v not in used:
                    items.append([n, v])
                    used.add(v)
                    mx = max(mx, v) if len(items) > 1 else v
                    continue
            v = mx + 1 if items else 0
            mx = max(mx, v) if items else v
            items.append([n, None])
            used.add(v)
        d["items"] = items
        d["sub"] = []
        cur = names
        for lev in range(r.choice([0, 0, 1, 2])):
            if r.random() < .3:
                d["sub"].append(None)
            else:
                cur = [n for n in cur if r.random() < .7] or cur[:1]
                d["sub"].append(cur)
    if b == "identityref":
        d["bases"] = r.sample(["b1", "b2", "d1"], r.choice([1, 1, 2]))
    if b == "union":
        d["types"] = [gen_type(r, depth - 1) for _ in range(r.randint(1, 3))]
    return d


def numbering(d):
    """Reference numbering of enums and bits: RFC 7950, 9.6.4.2 and 9.7.4.2."""
    out, mx = {}, None
    for n, v in d["items"]:
        if v is None:
            v = 0 if mx is None else mx + 1
        out[n] = v
        mx = v if mx is None or v > mx else mx
    kept = set(out)
    for s in d.get("sub", []):
        if s is not None:
            kept &= set(s)
    return {n: v for n, v in out.items() if n in kept}


def strictly_below(ident, base):
    for p in IDENTS.get(ident, []):
        if p == base or strictly_below(p, base):
            return True
    return False


def type_text(d, tdefs):
    """YANG text of a type; derivation levels become typedefs appended to tdefs."""
    b = d["b"]
    lev0 = ""
    if b == "decimal64":
        lev0 += f" fraction-digits {d['fd']};"
    kw = "range" if b in INTS or b == "decimal64" else "length"
    if b == "enumeration":
        lev0 += " ".join(f' enum {n} {{ {"" if v is None else f"value {v};"} }}' for n, v in d["items"])
    if b == "bits":
        lev0 += " ".join(f' bit {n} {{ {"" if v is None else f"position {v};"} }}' for n, v in d["items"])
    if b == "identityref":
        lev0 += " ".join(f" base {x};" for x in d["bases"])
    if b == "union":
        lev0 += " ".join(" " + type_text(t, tdefs) for t in d["types"])
    levels = []
    for i, parts in enumerate(d.get("r", [])):
        s = "" if parts is None else f' {kw} "{range_text(d, parts)}";'
        if i < len(d.get("p", [])):
            k, inv = d["p"][i]
            s += f" pattern '{PATS[k][0]}' " + ("{ modifier invert-match; }" if inv else ";")
        levels.append(s)
    for s in d.get("sub", []):
        w = "enum" if b == "enumeration" else "bit"
        levels.append("" if s is None else " ".join(f"{w} {n};" for n in s))
    if not levels:
        levels = [""]
    if d.get("sub") is not None and b in ("enumeration", "bits"):
        levels = [""] + [s for s in levels if s] if any(levels) else [""]
    body = lev0 + levels[0]
    cur = b
    for s in levels[1:]:
        n = f"t{len(tdefs)}"
        tdefs.append(f"typedef {n} {{ type {cur}" + (f" {{ {body} }} }}" if body.strip() else "; }"))
        cur, body = n, s
    return f"type {cur}" + (f" {{ {body} }}" if body.strip() else ";")


IDTEXT = " ".join(f"identity {n} " + ("{ " + " ".join(f"base {b};" for b in bs) + " }" if bs else ";")
                  for n, bs in IDENTS.items())


def build(d):
    """The yangson type object of a description."""
    tdefs = []
    t = type_text(d, tdefs)
    m = model(module(IDTEXT + "\n" + "\n".join(tdefs) + f"\nleaf x {{ {t} }}"))
    return m.get_schema_node("/m:x").type


# ---------------------------------------------------------------- values
def gen_value(r, d):
    """JSON description of a cooked value near the edges of the type, or of a wrong kind."""
    b = d["b"]
    if b == "union":
        return gen_value(r, r.choice(d["types"]))
    if r.random() < .12:
        return r.choice([["i", 0], ["i", 1], ["s", ""], ["s", "a"], ["b", True], ["b", False], ["n"], ["d", "0"],
                         ["d", "1.5"], ["t"], ["t", None], ["t", "a"], ["f", "1.0"], ["y"], ["y", 1], ["arr"],
                         ["obj"], ["d", "NaN"], ["d", "Infinity"], ["f", "nan"], ["t", "a", "a"], ["rt"],
                         ["t", 1], ["t", "d1"], ["t", "d1", "m"], ["t", "b1", "m"], ["arr", "a"], ["f", "inf"]])
    if b in INTS or b == "decimal64":
        lo, hi = base_bounds(d)
        iv = final_range(d) or [(lo, hi)]
        a, z = r.choice(iv)
        n = r.choice([a, z, a - 1, z + 1, (a + z) // 2, a + 1, z - 1, lo, hi, lo - 1, hi + 1, 0,
                      r.randint(min(lo, a), max(hi, z))])
        if b in INTS:
            return ["i", n]
        s = num_text(d, n)
        if r.random() < .15:
            s += r.choice(["1", "0", "5"])
        if r.random() < .05:
            s = r.choice(["1E+40", "-1E+27", "1E-30", "-0", "0E+3", "1E+2", "1e1"])
        return ["d", s]
    if b in ("string", "binary"):
        iv = final_range(d) or [(0, 6)]
        a, z = r.choice(iv)
        n = max(0, min(12, r.choice([a, z, a - 1, z + 1, a + 1, r.randint(0, 6)])))
        if b == "binary":
            return ["y"] + [r.randrange(256) for _ in range(n)]
        k = r.random()
        if k < .3:
            return ["s", ("ab" * 6)[:n]]
        if k < .5:
            return ["s", "".join(r.choice("0123456789") for _ in range(n))]
        if k < .7:
            return ["s", "".join(r.choice("abcz") for _ in range(n))]
        return ["s", "".join(r.choice(["a", "b", "x", "Z", "0", "\n", "é", " ", "\U0001f600", "\""]) for _ in range(n))]
    if b == "boolean":
        return ["b", r.random() < .5]
    if b == "enumeration":
        return ["s", r.choice([n for n, _ in d["items"]] + ["zz", ""])]
    if b == "bits":
        ns = [n for n, _ in d["items"]]
        k = r.sample(ns, r.randint(0, len(ns)))
        if r.random() < .6:
            nb = {n: v for n, v in numbering({**d, "sub": []}).items()}
            k.sort(key=lambda n: nb[n])
        if r.random() < .1 and k:
            k.append(k[0])
        if r.random() < .08:
            k.append("zz")
        return ["t"] + k
    if b == "empty":
        return ["t", None]
    if b == "identityref":
        return ["t", r.choice(list(IDENTS) + ["zz"]), r.choice(["m", "m", "m", "m", "q"])]
    if b == "instance-identifier":
        return ["rt", r.choice(["x", "y"])]
    raise ValueError(b)


def cookv(v):
    k, a = v[0], v[1:]
    if k in ("i", "s", "b"):
        return a[0]
    if k == "n":
        return None
    if k == "d":
        return Decimal(a[0])
    if k == "f":
        return float(a[0])
    if k == "y":
        return bytes(a)
    if k == "t":
        return tuple(a)
    if k == "rt":
        return InstanceRoute([MemberName(x, "m") for x in a])
    if k == "arr":
        return ArrayValue(a)
    if k == "obj":
        return ObjectValue(a)
    raise ValueError(k)


def in_iv(iv, n):
    return any(a <= n <= z for a, z in iv)


def accepts(d, v):
    """Reference membership (RFC 7950, section 9)."""
    b, k, a = d["b"], v[0], v[1:]
    if b == "union":
        return any(accepts(t, v) for t in d["types"])
    if b in INTS:
        return k == "i" and in_iv(final_range(d) or [INTS[b]], a[0])
    if b == "decimal64":
        if k != "d" or a[0] in ("NaN", "Infinity"):
            return False
        n = Decimal(a[0]).scaleb(0)
        from fractions import Fraction
        n = Fraction(a[0]) * 10 ** d["fd"]
        return n.denominator == 1 and in_iv(final_range(d) or [(-2**63, 2**63 - 1)], n.numerator)
    if b == "string":
        return k == "s" and in_iv(final_range(d) or [(0, 2**32)], len(a[0])) and \
            all(PATS[i][1](a[0]) != inv for i, inv in d["p"])
    if b == "binary":
        return k == "y" and in_iv(final_range(d) or [(0, 2**32)], len(a))
    if b == "boolean":
        return k == "b"
    if b == "enumeration":
        return k == "s" and a[0] in numbering(d)
    if b == "bits":
        nb = numbering(d)
        return (k == "t" and all(isinstance(x, str) and x in nb for x in a) and len(set(a)) == len(a)) or \
            (k == "rt" and not a)
    if b == "empty":
        return k == "t" and a == [None]
    if b == "identityref":
        return k == "t" and len(a) == 2 and a[1] == "m" and all(
            isinstance(a[0], str) and strictly_below(a[0], x) for x in d["bases"])
    if b == "instance-identifier":
        return k == "rt"
    raise ValueError(b)


def first_member(d, v):
    """The union member that represents v (recursively), or the type itself."""
    if d["b"] != "union":
        return d
    for t in d["types"]:
        if accepts(t, v):
            return first_member(t, v)


def canon(d, v):
    """Canonical text of a contained value (RFC 7950)."""
    d = first_member(d, v)
    b, a = d["b"], v[1:]
    if b in INTS:
        return str(a[0])
    if b == "decimal64":
        from fractions import Fraction
        n = int(Fraction(a[0]) * 10 ** d["fd"])
        s = num_text(d, n).rstrip("0")
        s = s + "0" if s.endswith(".") else s
        return "0.0" if n == 0 else s
    if b in ("string", "enumeration"):
        return a[0]
    if b == "binary":
        return base64.b64encode(bytes(a)).decode()
    if b == "boolean":
        return "true" if a[0] else "false"
    if b == "bits":
        nb = numbering(d)
        return " ".join(sorted(a, key=lambda n: nb[n]))
    if b == "empty":
        return ""
    if b == "identityref":
        return f"{a[1]}:{a[0]}"
    if b == "instance-identifier":
        return "".join(f"/m:{x}" if i == 0 else f"/m:{x}" for i, x in enumerate(a))


def raw_of(d, v):
    """JSON encoding of a contained value (RFC 7951)."""
    d = first_member(d, v)
    b = d["b"]
    if b in ("int8", "int16", "int32", "uint8", "uint16", "uint32", "boolean"):
        return v[1]
    if b == "empty":
        return [None]
    return canon(d, v)


def kind_ok(d, x):
    """Could the cooked value x be of the type's kind?"""
    b = d["b"]
    if b == "union":
        return any(kind_ok(t, x) for t in d["types"])
    if b in INTS:
        return isinstance(x, int) and not isinstance(x, bool)
    if b == "decimal64":
        return isinstance(x, Decimal)
    if b in ("string", "enumeration"):
        return isinstance(x, str)
    if b == "binary":
        return isinstance(x, bytes)
    if b == "boolean":
        return isinstance(x, bool)
    if b == "empty":
        return x == (None,)
    if b in ("bits",):
        return isinstance(x, tuple) and all(isinstance(y, str) for y in x)
    if b == "identityref":
        return isinstance(x, tuple) and len(x) == 2
    if b == "instance-identifier":
        return isinstance(x, InstanceRoute)


def gen_raw(r, d):
    """Arbitrary JSON aimed at a type."""
    k = r.random()
    if k < .5:
        for _ in range(20):
            v = gen_value(r, d)
            if accepts(d, v):
                x = raw_of(d, v)
                if isinstance(x, str) and r.random() < .5:
                    x = mutate_text(r, x)
                return x
    return gen_json(r)


def gen_json(r, depth=2):
    return r.choice([
        lambda: None, lambda: True, lambda: False, lambda: 0, lambda: 1, lambda: -1, lambda: 300, lambda: 2**63,
        lambda: 1.5, lambda: 1e300, lambda: "", lambda: "a", lambda: "1", lambda: " 1 ", lambda: "1.5", lambda: "+1",
        lambda: "1_0", lambda: "0x10", lambda: "NaN", lambda: "Infinity", lambda: "sNaN", lambda: "-0", lambda: "1e5",
        lambda: "1E400", lambda: "\u0663", lambda: "true", lambda: "a b", lambda: "b a", lambda: "a a", lambda: "é",
        lambda: "AAAA", lambda: "A===", lambda: "m:d1", lambda: ":", lambda: "m:", lambda: "/m:x", lambda: "/", lambda: "/m:x[",
        lambda: [None], lambda: [], lambda: [1], lambda: {}, lambda: ["a"], lambda: {"a": 1}, lambda: [[None]],
        lambda: "1" * 40, lambda: "9" * 5000, lambda: "0." + "9" * 40, lambda: "\ud800", lambda: "\x00"])()


def mutate_text(r, s):
    k = r.randrange(6)
    i = r.randint(0, len(s))
    if k == 0:
        return s[:i] + r.choice([" ", "0", "a", ":", "/", "-", "+", ".", "'", "\n", "é", "_"]) + s[i:]
    if k == 1 and s:
        return s[:max(0, i - 1)] + s[i:]
    if k == 2:
        return " " + s
    if k == 3:
        return s + " "
    if k == 4:
        return s + s
    return s[::-1]
