"""C22: processing order of modules, module-set identifier."""
from .yang import *
from .common import use, new, mapping
from .inst import get, zb
from pyvc import interp
from yangson.schemadata import ModuleData
from yangson.datamodel import DataModel

P = ("C22",)
MD = ObjS(ModuleData)
attrs(ModuleData, main_module=MID, statement=STMT, prefix_map=DictS(Str, MID), submodules=SetS(PairS()))
S_ = "yangson.schemadata:SchemaData."
IDS = [("a", "1"), ("b", ""), ("c", "1")]
SUB = ("s", "2")


def setup(n, byrev, subs):
    """A registry of n implemented modules with every import relation; the last one imports through a submodule
    if subs is set."""
    def req(c, self):
        rel = {k: [j for j in range(n) if c.branch(c.fresh(f"imports_{k}_{j}", B))] for k in range(n)}
        mds = []
        for k in range(n):
            imps = [new(Statement, argument=IDS[j][0], prefix_=f"p{j}", rev=IDS[j][1] if byrev and IDS[j][1] else None)
                    for j in rel[k]]
            mds.append((IDS[k], new(ModuleData, main_module=IDS[k], prefix_map=mapping(dict, []),
                                    submodules=mapping(set, []), statement=new(Statement, imports=imps))))
        if subs:
            m, md = mds[-1]
            sub = new(ModuleData, main_module=m, prefix_map=mapping(dict, []), submodules=mapping(set, []),
                      statement=md.attrs["statement"])
            md.attrs["statement"] = new(Statement, imports=[])
            md.attrs["submodules"] = mapping(set, [(SUB, True)])
            mds.append((SUB, sub))
        self.attrs["modules"] = mapping(dict, mds)
        self.attrs["implement"] = mapping(dict, IDS[:n])
        self.attrs["_module_sequence"] = interp.new_list([])
        self.extra["rel"] = rel
    return req


def find_all_imports(c, fn, args, kw):
    if args[1] == "import" and "imports" in args[0].attrs:
        return interp.new_list(args[0].attrs["imports"])
    return find_all_use(c, fn, args, kw)


def find1_import(c, fn, args, kw):
    st = args[0].attrs
    if args[1] == "prefix" and "prefix_" in st:
        return new(Statement, argument=st["prefix_"])
    if args[1] == "revision-date" and "rev" in st:
        return None if st["rev"] is None else new(Statement, argument=st["rev"])
    return find1_use(c, fn, args, kw)


use(ST + "find_all", find_all_imports)
use(ST + "find1", find1_import)


def has_cycle(rel):
    left = set(rel)
    while left:
        free = {k for k in left if not any(j in left for j in rel[k])}
        if not free:
            return True
        left -= free
    return False


def ens_order(n, subs):
    def ens(c, args, out, old):
        self, = args
        rel = self.extra["rel"]
        if has_cycle(rel):
            return [("an import cycle is reported", out.kind == "exc" and issubclass(out.value.cls, CyclicImports))]
        if out.kind != "ret":
            return [("no error without a cycle", False)]
        got = list(get(self, "_module_sequence").seq.elems)
        want = IDS[:n] + ([SUB] if subs else [])
        res = [("every module once", sorted(got) == sorted(want))]
        for k in rel:
            for j in rel[k]:
                if IDS[k] in got and IDS[j] in got:
                    res.append(("imported before importing", got.index(IDS[j]) < got.index(IDS[k])))
        if subs and SUB in got:
            res.append(("submodule follows its module", got.index(SUB) == got.index(IDS[n - 1]) + 1))
        mods = get(self, "modules").map
        for k in rel:
            md = mods.lookup(SUB if subs and k == n - 1 else IDS[k])[1]
            pm = get(md, "prefix_map").map
            for j in range(n):
                f, v = pm.lookup(f"p{j}")
                res.append(("prefixes are bound to the imported modules", f == (j in rel[k]) and (not f or tuple(v) == IDS[j])))
        return res
    return ens


for n in (1, 2, 3):
    for subs in (False, True):
        Contract(S_ + "_process_imports", [SD], requires=setup(n, n == 2, subs), ensures=ens_order(n, subs),
                 raises=[CyclicImports], modifies=[lambda args, o, what: True], props=P,
                 variant=f"{n} modules" + (", submodule" if subs else ""),
                 bounded="up to 3 implemented modules, every import relation, one submodule")


# ---------------------------------------------------------------- module-set identifier
REGISTERED = DictS(PairS(), MD)
attrs(SchemaData, modules=REGISTERED)
attrs(DataModel, schema_data=SD)


def text_of(p):
    return z3.Concat(PAIR.one(p), z3.StringVal("@"), PAIR.two(p))


def ens_id(c, args, out, old):
    """The digest of the module texts in increasing order, each module's exactly once (a function of the set)."""
    mods = get(get(args[0], "schema_data"), "modules").map
    if out.kind != "ret":
        return [("no error", False)]
    hashed = [r for k, r in c.memo.items() if k[0] == "joined"]
    if not hashed:
        return [("digest of the list of modules", False)]
    sep, q, txt = hashed[-1]
    n = q.nz()
    i, p, k, l = c.fresh("i", I), c.fresh("p", PAIR), c.fresh("k", I), c.fresh("l", I)
    r = z3.Const("r!q", PAIR)
    at = lambda t: ops.raw_term(ops.resolve(q.get(t)))
    has = ops.map_has_term(mods, p, PAIR)
    pos = uf("dpos", I, PAIR, I)(mods.base.ref, p)
    w = q.inv(pos) if hasattr(q, "inv") else pos                # where the module's text is
    return [("digest of the list of modules", ops.raw_term(out.value) == uf("sha1_hex", STR, STR)(uf("str_encode", STR, STR)(txt.t))),
            ("nothing between the texts", sep == ""),
            ("only registered modules", z3.Implies(z3.And(i >= 0, i < n), z3.Exists([r], z3.And(ops.map_has_term(mods, r, PAIR), at(i) == text_of(r))))),
            ("every registered module", z3.Implies(has, z3.And(w >= 0, w < n, at(w) == text_of(p)))),
            ("in increasing order", z3.Implies(z3.And(k >= 0, k < l, l < n), at(k) <= at(l)))]


Contract("yangson.datamodel:DataModel.module_set_id", [ObjS(DataModel)], ensures=ens_id, props=P)
