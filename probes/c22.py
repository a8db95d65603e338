"""C22: order of module processing and the module-set identifier."""
from pyvc.probes import probe, Skip, outcome
from yangson.exceptions import CyclicImports, YangsonException
from .util import model

REVS = ["", "2020-01-01", "2019-12-31", "2021-06-30"]


def gen(r):
    """Implemented modules i with imports, optional submodules with imports, import-only modules."""
    while True:
        n = r.choice([1, 2, 2, 3, 3, 4, 5, 6])
        perm = list(range(n))
        r.shuffle(perm)
        dense = r.choice([.2, .5, .9])
        mods = []
        for i in range(n):
            imps = [j for j in range(n) if j != i and perm[j] < perm[i] and r.random() < dense]
            subs = [[j for j in range(n) if j != i and perm[j] < perm[i] and r.random() < .3]
                    for _ in range(r.choice([0, 0, 0, 1, 2]))]
            mods.append([i, r.choice(REVS), imps, subs, r.random() < .85])
        k = r.random()
        if k < .35 and n > 1:                          # maybe a cycle
            for _ in range(r.choice([1, 1, 2])):
                a, b = r.randrange(n), r.randrange(n)
                into = mods[a][2]
                if mods[a][3] and r.random() < .5:
                    into = mods[a][3][0]
                if b not in into and a != b:
                    into.append(b)
        for m in mods:
            r.shuffle(m[2])
        r.shuffle(mods)
        if not any(m[4] for m in mods):
            mods[0][4] = True
        old = [[i, r.random() < .5] for i in range(n) if r.random() < .25]     # another revision, import-only
        yield [mods, old, r.random() < .5]


def name(i):
    return "zyxwvu"[i] if i % 2 else "abcdef"[i]


def ok(case):
    mods, old, _ = case
    ids = [m[0] for m in mods]
    return (len(set(ids)) == len(ids) and all(0 <= i < 6 for i in ids) and any(m[4] for m in mods)
            and len({o[0] for o in old}) == len(old) and all(o[0] in ids for o in old)
            and all(m[1] in REVS for m in mods)
            and all(j in ids and j != m[0] for m in mods for js in [m[2]] + m[3] for j in js)
            and all(len(set(js)) == len(js) for m in mods for js in [m[2]] + m[3]))


OLD = "2018-01-01"


def build(case, order=None, extra=""):
    mods, old, byrev = case
    by = {m[0]: m for m in mods}
    texts, lib = {}, []

    def imports(js, me):
        out = []
        for j in js:
            rv = by[j][1]
            out.append(f"import {name(j)} {{ prefix p{j};" + (f" revision-date {rv};" if byrev and rv else "") + " }")
        return "\n".join(out)

    for i, rev, imps, subs, impl in mods:
        nm = name(i)
        stem = nm + ("@" + rev if rev else "")
        inc = "".join(f"include {nm}-s{k};" for k in range(len(subs)))
        # a container that every importing module augments: works only if the imported one was processed before
        body = f"container c{i};" if impl else ""
        if impl:
            for j in imps:
                if by[j][4]:
                    body += f"augment /p{j}:c{j} {{ container c{i}; }}"
                    deeper = [k for k in by[j][2] if k in imps and by[k][4]]
                    for k in deeper:
                        body += f"augment /p{k}:c{k}/p{j}:c{j} {{ leaf d{i} {{ type string; }} }}"
        texts[stem] = (f"module {nm} {{ yang-version 1.1; namespace 'urn:{nm}'; prefix me;\n{imports(imps, i)}\n{inc}"
                       + (f"revision {rev};" if rev else "") + body + "}")
        for k, js in enumerate(subs):
            texts[f"{nm}-s{k}"] = (f"submodule {nm}-s{k} {{ yang-version 1.1; belongs-to {nm} {{ prefix me; }}\n"
                                   f"{imports(js, i)} }}")
        lib.append({"name": nm, "rev": rev, "ct": "implement" if impl else "import",
                    "subs": [f"{nm}-s{k}" for k in range(len(subs))]})
    for i, first in old:
        if by[i][1] in ("", OLD):
            continue
        nm = name(i)
        texts[nm + "@" + OLD] = f"module {nm} {{ yang-version 1.1; namespace 'urn:{nm}'; prefix me; revision {OLD}; }}"
        e = {"name": nm, "rev": OLD, "ct": "import", "ns": "urn:" + nm}
        lib.insert(0 if first else len(lib), e)
    if order:
        lib = order(lib)
    return texts, lib


def depends(case):
    """Imports among the implemented modules; imports of a submodule are its module's."""
    mods, old, byrev = case
    impl = {m[0] for m in mods if m[4]}
    return {m[0]: {j for js in [m[2]] + m[3] for j in js if j in impl} for m in mods if m[4]}


def cyclic(dep):
    left = dict(dep)
    while left:
        free = [i for i in left if not any(j in left for j in left[i])]
        if not free:
            return True
        for i in free:
            del left[i]
    return False


@probe(gen, weight=3)
def order(case):
    """Imported before importing, each implemented module once; a cycle is reported."""
    if not ok(case):
        return None
    texts, lib = build(case)
    dep = depends(case)
    if cyclic(dep):
        # without the augments, which may be unresolvable or not
        try:
            model(texts, lib)
        except CyclicImports:
            return None
        except YangsonException as e:
            return f"cyclic imports reported as {type(e).__name__}"
        return "cyclic imports not reported"
    try:
        dm = model(texts, lib)
    except CyclicImports:
        return "acyclic imports reported as cyclic"
    seq = getattr(dm.schema_data, "_module_sequence", None)
    if seq is None:
        return None
    byid = {m[0]: m for m in case[0]}
    mains = [tuple(m) for m in seq if (m[0].find("-s") < 0)]
    want = {(name(i), byid[i][1]) for i in dep}
    if len(mains) != len(set(mains)) or set(mains) != want:
        return f"processed {mains}, implemented {sorted(want)}"
    subs = [m[0] for m in seq if m[0].find("-s") >= 0]
    wants = sorted(f"{name(i)}-s{k}" for i in dep for k in range(len(byid[i][3])))
    if sorted(subs) != wants:
        return f"processed submodules {subs}, there are {wants}"
    at = {m[0]: k for k, m in enumerate(mains)}
    for i, js in dep.items():
        for j in js:
            if at[name(j)] > at[name(i)]:
                return f"{name(i)} imports {name(j)} but is processed before it: {mains}"
    for i, rev, imps, subs_, impl in case[0]:
        if impl:
            for j in imps:
                if j in dep and dm.get_schema_node(f"/{name(j)}:c{j}/{name(i)}:c{i}") is None:
                    return f"{name(i)} augments {name(j)}, but the node is missing"


def gen_id(r):
    g = gen(r)
    while True:
        c = next(g)
        if not cyclic(depends(c)):
            yield [c, r.randrange(1000), r.choice(["drop", "rev", "sub", "old", "same", "same"]), r.randrange(6)]


@probe(gen_id)
def identifier(case):
    """Equal exactly when the same module revisions are present, in any order of the library."""
    import random
    c, seed, what, k = case
    if not ok(c) or cyclic(depends(c)):
        return None
    a, lib = build(c)
    r = random.Random(seed)
    lib2 = [dict(m, subs=list(m.get("subs") or [])) for m in lib]
    r.shuffle(lib2)
    for m in lib2:
        r.shuffle(m["subs"])
    b = dict(a)
    k %= len(lib2)
    m = lib2[k]
    if what == "rev":
        m["rev"] = "2022-02-02" if m["rev"] != "2022-02-02" else ""
        b[m["name"] + "@" + m["rev"]] = (f"module {m['name']} {{ namespace 'urn:{m['name']}'; prefix me; yang-version 1.1;"
                                         f"revision {m['rev']}; container c{next(x[0] for x in c[0] if name(x[0]) == m['name'])}; }}")
    elif what == "drop":
        lib2.pop(k)
    elif what == "sub":
        m["subs"].append("extra-s")
        b["extra-s"] = f"submodule extra-s {{ yang-version 1.1; belongs-to {m['name']} {{ prefix q; }} }}"
    elif what == "old":
        m2 = {"name": "new", "ct": "import", "rev": ""}
        b["new"] = "module new { namespace 'urn:new'; prefix n; yang-version 1.1; }"
        lib2.append(m2)
    if not lib2:
        return None
    try:
        d1 = model(a, lib)
        d2 = model(b, lib2)
    except YangsonException:
        return None                       # the changed library does not make a data model
    content = lambda ms: sorted([(m["name"], m["rev"] if "rev" in m else "") for m in ms]
                                + [(s, "") for m in ms for s in m.get("subs") or []])
    same = content(lib) == content(lib2)
    i1, i2 = d1.module_set_id(), d2.module_set_id()
    if (i1 == i2) is not same:
        return f"{content(lib)} and {content(lib2)}: identifiers {'equal' if i1 == i2 else 'differ'}"
    if type(i1) is not str or d1.module_set_id() != i1:
        return "not a stable string"
