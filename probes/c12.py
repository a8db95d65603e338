"""C12: identity graphs over several modules against their transitive closure."""
from pyvc.probes import probe, Skip, outcome
from .util import model

MODS = ["c", "b", "a"]          # each imports the ones before it


def gen(r):
    """Cases: identities [module, text file, name, bases, feature?] in an order that respects nothing but acyclicity."""
    while True:
        n = r.choice([2, 3, 4, 5, 6, 8])
        ids = []
        for k in range(n):
            m = r.randint(0, 2)
            nm = r.choice(["i%d" % k, "i%d" % k, "x%d" % (k // 2)])
            if any(i[0] == m and i[2] == nm for i in ids):
                nm = "i%d" % k
            sub = m == 2 and r.random() < .3
            cand = [j for j, i in enumerate(ids) if i[0] <= m and i[4] != 2 and (not sub or i[0] < 2 or i[1])]
            bases = sorted(r.sample(cand, min(len(cand), r.choice([0, 1, 1, 1, 2, 3]))))
            ids.append([m, sub, nm, bases, r.choice([0, 0, 0, 0, 1, 2])])
        order = list(range(n))
        r.shuffle(order)
        q = [[r.choice("idas"), r.randint(0, n), r.randint(0, n), r.randint(0, n), r.random() < .3] for _ in range(r.randint(3, 14))]
        yield [ids, order, q, r.random() < .4]


def texts(ids, order, weird):
    """weird: prefixes that are other modules' names."""
    pfx = {"a": "a", "b": "c" if weird else "b", "c": "b" if weird else "c", "s": "a"}
    out = {}
    for f in ("c", "b", "a", "s"):
        m = 2 if f == "s" else MODS.index(f)
        b = [f"module {f} {{ yang-version 1.1; namespace 'urn:{f}'; prefix {f if f == 'a' or not weird else 'self'};"
             if f != "s" else "submodule s { yang-version 1.1; belongs-to a { prefix a; }"]
        own = f if f == "a" or not weird else "self"
        for g in MODS[:m]:
            b.append(f"import {g} {{ prefix {pfx[g]}; }}")
        if f == "a":
            b.append("include s;")
        b.append("feature on; feature off;" if f != "s" else "")
        for k in order:
            i = ids[k]
            if i[0] != m or i[1] != (f == "s"):
                continue
            bs = []
            for j in i[3]:
                p = MODS[ids[j][0]]
                same = ids[j][0] == m
                bs.append("base %s%s;" % ("" if same and (j + k) % 2 else (own if f != "s" else "a") + ":" if same else pfx[p] + ":",
                                          ids[j][2]))
            b.append("identity %s { %s %s }" % (i[2], ["", "if-feature on;", "if-feature off;"][i[4]], " ".join(bs)))
        out[f] = "\n".join(b) + "\n}\n"
    return out


def build(case):
    ids, order, q, weird = case
    t = texts(ids, order, weird)
    mods = [{"name": f, "feat": ["on"]} for f in MODS]
    mods[2]["subs"] = ["s"]
    return model(t, mods)


def proper(ids, order):
    """Shrinking keeps cases in the grammar of the generator."""
    return (sorted(order) == list(range(len(ids))) and len({(i[0], i[2]) for i in ids}) == len(ids) and all(
        i[0] in (0, 1, 2) and i[2][:1] in "ix" and i[2].isalnum() and i[4] in (0, 1, 2) and (not i[1] or i[0] == 2) and all(
            0 <= j < k and ids[j][4] != 2 and ids[j][0] <= i[0] and (not i[1] or ids[j][0] < 2 or ids[j][1])
            for j in i[3]) for k, i in enumerate(ids)))


def closure(ids):
    up = []
    for i in ids:
        s = set()
        if i[4] != 2:
            for j in i[3]:
                s |= {j} | up[j]
        up.append(s)
    return up


@probe(gen, weight=3)
def answers(case):
    """Every question has the answer of the closure, whatever was asked before."""
    ids, order, q, weird = case
    if not proper(ids, order):
        return None
    sd = build(case).schema_data
    up = closure(ids)
    n = len(ids)
    nm = [(i[2], MODS[i[0]]) for i in ids] + [("none", "a")]
    up.append(set())
    down = [{nm[k] for k in range(n) if j in up[k]} for j in range(n + 1)]
    for kind, x, y, z, spoil in q + [["i", x, y, 0, 0] for x in range(n + 1) for y in range(n + 1)]:
        x, y, z = min(x, n), min(y, n), min(z, n)
        if kind == "i":
            got, want, what = sd.is_derived_from(nm[x], nm[y]), y in up[x], f"is_derived_from({nm[x]}, {nm[y]})"
        elif kind == "d":
            got, want, what = sd.derived_from(nm[x]), down[x], f"derived_from({nm[x]})"
        else:
            xs = [x, y, z][:{"a": 3, "s": 2}[kind]] if z % 4 else []
            got, want = sd.derived_from_all([nm[k] for k in xs]), set.intersection(*[down[k] for k in xs]) if xs else set()
            what = f"derived_from_all({[nm[k] for k in xs]})"
        if got != want:
            return f"{what} is {got}, the base statements say {want} ({texts(ids, order, weird)})"
        if spoil and isinstance(got, set):
            got.add(("spoiled", "m"))


def gen_ref(r):
    for case in gen(r):
        on = [k for k, i in enumerate(case[0]) if i[4] != 2]
        if on:
            yield case + [[r.choice(on) for _ in range(r.choice([1, 1, 2]))]]


@probe(gen_ref)
def values(case):
    """An identityref accepts exactly the identities derived from all its bases."""
    ids, order, q, weird, bases = case
    bases = [b for b in bases if b < len(ids) and ids[b][4] != 2]
    if not bases or not proper(ids, order):
        return None
    t = texts(ids, order, weird)
    imp = "".join(f"import {g} {{ prefix p{g}; }}" for g in MODS)
    t["m"] = f"module m {{ yang-version 1.1; namespace 'urn:m'; prefix m; {imp} leaf l {{ type identityref {{" + "".join(
        f"base p{MODS[ids[b][0]]}:{ids[b][2]};" for b in bases) + "}}}"
    mods = [{"name": f, "feat": ["on"]} for f in MODS + ["m"]]
    mods[2]["subs"] = ["s"]
    ty = model(t, mods).get_schema_node("/m:l").type
    up = closure(ids)
    for k, i in enumerate(ids):
        v = (i[2], MODS[i[0]])
        want = all(b in up[k] for b in bases)
        if (v in ty) != want:
            return f"{v} in identityref with bases {[(ids[b][2], MODS[ids[b][0]]) for b in bases]}: {not want} ({t})"
