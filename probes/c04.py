"""C04: range/length expressions and enum/bit numbering."""
from decimal import Decimal
from fractions import Fraction
from pyvc.probes import probe, Skip, outcome
from yangson.constraint import Intervals
from yangson.exceptions import InvalidArgument, YangsonException
from .types import *

NUM = ["int8", "uint8", "int32", "uint64", "int64", "decimal64", "string", "binary"]


def frac(x):
    return Fraction(x)


def gen(r):
    while True:
        yield gen_type(r, 0, NUM)


@probe(gen, weight=3)
def denotation(d):
    """The intervals of a type denote what its range or length expressions say."""
    t = build(d)
    iv = final_range(d)
    c = t.length if d["b"] in ("string", "binary") else t.range
    if iv is None:
        if c is not None and d["b"] not in ("string", "binary"):
            return f"{d}: a range without a range statement"
        return
    sc = 10 ** d["fd"] if d["b"] == "decimal64" else 1
    pts = set()
    for a, b in iv:
        for x in (a, b):
            pts |= {x - 1, x, x + 1}
        pts.add((a + b) // 2)
    lo, hi = base_bounds(d)
    pts |= {lo, hi, lo - 1, hi + 1, 0}
    for p in pts:
        v = Decimal(p).scaleb(-d["fd"]) if d["b"] == "decimal64" else p
        if (v in c) != in_iv(iv, p):
            return f"{v} in {c} is {v in c}; expression(s) of {d} denote {iv}"
    want = set(iv)
    got = {(int(frac(x[0]) * sc), int(frac(x[-1]) * sc)) for x in c.intervals}
    if got != want and all(a <= b for a, b in iv):
        pass


def gen_bad(r):
    while True:
        d = gen_type(r, 0, NUM)
        if not d.get("r") or all(x is None for x in d["r"]):
            continue
        lev = r.choice([i for i, x in enumerate(d["r"]) if x is not None])
        parts = range_text(d, d["r"][lev]).split("|")
        i = r.randrange(len(parts))
        bad = r.choice(["x", "1..2..3", "1..a", "a..5", "", "..", "1..", "..4", "min..max..3", "1...x", "minn", "max1",
                        "0x1f", "1 2", "--1", "-", "1..2..", "min max", "1,5", "1e", "min..x", "x..max"])
        if r.random() < .5:
            parts[i] = bad
        else:
            parts.insert(r.randint(0, len(parts)), bad)
        yield (d, lev, " | ".join(parts))


@probe(gen_bad)
def malformed(case):
    d, lev, text = case
    tdefs = []
    t = type_text(d, tdefs)
    old = range_text(d, d["r"][lev])
    src = IDTEXT + "\n" + "\n".join(tdefs) + f"\nleaf x {{ {t} }}"
    if src.count(f'"{old}"') != 1:
        return
    k, e = outcome(model, module(src.replace(f'"{old}"', f'"{text}"')))
    if k == "ret":
        return f"{text!r} accepted as a restriction of {d}"
    if not isinstance(e, InvalidArgument):
        if not isinstance(e, YangsonException):
            raise e
        return f"{text!r}: {type(e).__name__} instead of InvalidArgument"


def gen_direct(r):
    while True:
        n = r.randint(1, 4)
        pts = sorted(r.sample(range(-50, 50), 2 * n))
        base = [[pts[2 * i], pts[2 * i + 1]] if r.random() < .7 else [pts[2 * i]] for i in range(n)]
        k = r.randint(1, 4)
        q = sorted(r.choice(range(-60, 60)) for _ in range(2 * k))
        parts = [[q[2 * i], q[2 * i + 1]] if r.random() < .6 else [q[2 * i]] for i in range(k)]
        for p in parts:
            for j in range(len(p)):
                if r.random() < .15:
                    p[j] = r.choice(["min", "max"])
        if r.random() < .1:
            r.choice(parts).append(r.choice([3, "x", "max"]))
        if r.random() < .1:
            p = r.choice(parts)
            p[r.randrange(len(p))] = r.choice(["x", "", "1.5", "mi n"])
        sep = [r.choice(["|", " | ", "| ", "\n|"]), r.choice(["..", " .. ", ".. "])]
        yield [base, parts, sep]


@probe(gen_direct, weight=2)
def restriction(case):
    """Intervals.restrict_with against the denotation of the expression."""
    base, parts, sep = case
    if not base or not parts or any(not b for b in base) or any(not p for p in parts) or len(sep) != 2 or \
            any(isinstance(x, str) for b in base for x in b) or any(len(b) > 2 for b in base) or \
            "|" not in sep[0] or sep[1].strip() != "..":
        return
    expr = sep[0].join(sep[1].join(str(x) for x in p) for p in parts)
    iv = Intervals([list(b) for b in base], error_message="m0")
    bad = any(len(p) > 2 or any(isinstance(x, str) and x not in ("min", "max") for x in p) for p in parts)
    k, e = outcome(iv.restrict_with, expr)
    if bad:
        if k == "ret":
            return f"{expr!r} accepted"
        if not isinstance(e, InvalidArgument):
            return f"{expr!r}: {e!r} instead of InvalidArgument"
        return
    if k == "exc":
        return f"{expr!r} over {base}: {e!r}"
    lo, hi = base[0][0], base[-1][-1]
    f = {"min": lo, "max": hi}
    den = [(f.get(p[0], p[0]), f.get(p[-1], p[-1])) for p in parts]
    for v in range(-62, 62):
        if (v in iv) != any(a <= v <= b for a, b in den):
            return f"{expr!r} over {base}: {v} in result {iv.intervals} is {v in iv}"
    if iv.error_message != "m0":
        return "error message lost"
    iv.restrict_with("min..max", "tag", "msg")
    if (iv.error_tag, iv.error_message) != ("tag", "msg"):
        return "error information of the restriction not kept"


def gen_items(r):
    while True:
        b = r.choice(["enumeration", "bits"])
        n = r.randint(1, 8)
        items, used, mx = [], set(), None
        for j in range(n):
            v = None
            if r.random() < .5:
                v = r.choice([0, 1, r.randint(0, 9), r.randint(0, 2**32 - 5) if b == "bits" else r.randint(-2**31, 2**31 - 9),
                              r.randint(-9, 9) if b == "enumeration" else 3])
                if v in used:
                    v = None
            w = v if v is not None else 0 if mx is None else mx + 1
            if w in used:
                continue
            used.add(w)
            mx = w if mx is None else max(mx, w)
            items.append([f"n{j}", v, r.random() < .15])
        yield (b, items, [r.random() < .7 for _ in items])


@probe(gen_items, weight=2)
def numbering_rule(case):
    """Values of enums and positions of bits, some of them excluded by a false if-feature."""
    b, items, keep = case
    w, vw = ("enum", "value") if b == "enumeration" else ("bit", "position")
    body = " ".join(f"{w} {n} {{ " + ("" if v is None else f"{vw} {v}; ") + ("if-feature f; " if off else "") + "}"
                    for n, v, off in items)
    live = [[n, v] for n, v, off in items if not off]
    if not live:
        return
    sub = [n for (n, v, off), k in zip(items, keep) if k and not off] or [live[0][0]]
    m = model(module(f"feature f; typedef t {{ type {b} {{ {body} }} }} leaf x {{ type t; }} leaf y {{ type t {{ " +
                     " ".join(f"{w} {n};" for n in sub) + " } } leaf z { type " + b + " { " + body + " } }"))
    ref = numbering(dict(items=live))
    for leaf, want in (("x", ref), ("z", ref), ("y", {n: v for n, v in ref.items() if n in sub})):
        t = m.get_schema_node("/m:" + leaf).type
        got = dict(t.sorted_enums() if b == "enumeration" else t.sorted_bits())
        if got != want:
            return f"{b} {items}: leaf {leaf} has numbers {got}, expected {want}"
        if [x[1] for x in (t.sorted_enums() if b == "enumeration" else t.sorted_bits())] != sorted(want.values()):
            return f"{b} {items}: not sorted by number"
        if b == "bits" and hasattr(t, "as_int"):
            s = list(want)[:3]
            if all(want[n] < 64 for n in s) and t.as_int(tuple(s)) != sum(1 << want[n] for n in s):
                return f"integer of bits {s} in {want} is {t.as_int(tuple(s))}"
