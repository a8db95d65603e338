"""C04: restriction expressions and numbering of enums and bits."""
from .dt import *
from pyvc import interp
from yangson.exceptions import InvalidArgument

P = ("C04",)


def bound_of(self, x, expr):
    if x == "min":
        return self.intervals[0][0]
    if x == "max":
        return self.intervals[-1][-1]
    r = self.parser(x)
    if r is None:
        raise InvalidArgument(expr)
    return r


def part_of(self, p, expr):
    b = [i.strip() for i in p.split("..")]
    if len(b) > 2:
        raise InvalidArgument(expr)
    return [bound_of(self, b[0], expr), bound_of(self, b[-1], expr)]


def denoted(self, expr, error_tag=None, error_message=None):
    """Lower and upper bound of every part of the expression."""
    return [part_of(self, p.strip(), expr) for p in expr.split("|")]


def result(self):
    return [[r[0], r[-1]] for r in self.intervals]


def run_restrict(c, run, self, expr, tag, msg):
    run(self, expr, tag, msg)
    return interp.run_function(result, [self])


def parts(k):
    def pre(c, self, expr, tag, msg):
        ref = uf("split_on", STR, STR, I)(ops.raw_term(expr), ops.raw_term("|"))
        c.assume(uf("split_n", I, I)(ref) == k)
        c.memo[("split_len", ref.get_id())] = (k, ref)
    return pre


for num, nm in ((Int, "integers"), (Dec, "decimals")):
    IV = ObjS(Intervals, attrs={"intervals": ListS(ListS(num, lens=(1, 2)), nonempty=True),
                                "parser": FnS([Str], Opt(num), name="num" + nm),
                                "error_tag": Opt(Str), "error_message": Opt(Str)})
    for k in ((1, 2) if num is Int else (1,)):
        Contract("yangson.constraint:Intervals.restrict_with", [IV, Str, Opt(Str), Opt(Str)], spec=denoted,
                 body=run_restrict, variant=f"{nm}, {k} part", props=P, requires=parts(k),
                 bounded=f"expressions of {k} part(s)",
                 modifies=[(0, "intervals"), (0, "error_tag"), (0, "error_message")], max_paths=30000)


# ---------------------------------------------------------------- numbering
from .yang import *
use("yangson.statement:Statement.find1", find1_use)
use("yangson.statement:Statement.find_all", find_all_use)
use("yangson.schemadata:SchemaData.if_features", if_features_use)


def numbers(old, stmt, sctx, kw, sub):
    """RFC 7950 9.6.4.2/9.7.4.2: explicit number, else one above the highest so far, else 0."""
    out = dict(old)
    top = None
    for s in stmt.find_all(kw):
        if sctx.schema_data.if_features(s, sctx.text_mid):
            v = s.find1(sub)
            if v:
                num = int(v.argument)
            elif top is None:
                num = 0
            else:
                num = top
            out[s.argument] = num
            if top is None or num + 1 > top:
                top = num + 1
    return out


def spec_enums(self, stmt, sctx):
    return numbers(self.enum, stmt, sctx, "enum", "value")


def spec_bits(self, stmt, sctx):
    return numbers(self.bit, stmt, sctx, "bit", "position")


def run_enums(c, run, self, stmt, sctx):
    run(self, stmt, sctx)
    return interp.getattr_(self, "enum")


def run_bits(c, run, self, stmt, sctx):
    run(self, stmt, sctx)
    return interp.getattr_(self, "bit")


attrs(D.EnumerationType, enum=DictS(Str, Int))
EN = ObjS(D.EnumerationType)
BI = ObjS(D.BitsType)
Contract(M + "EnumerationType._handle_properties", [EN, STMT, SCTX], spec=spec_enums, body=run_enums,
         modifies=[(0, "enum"), (0, "enum.content")], props=P)
Contract(M + "BitsType._handle_properties", [BI, STMT, SCTX], spec=spec_bits, body=run_bits,
         modifies=[(0, "bit"), (0, "bit.content")], props=P)


# Restricting an enumeration or bits type keeps exactly the listed names, with their numbers.
def kept(old, stmt, sctx, kw):
    listed = stmt.find_all(kw)
    if not listed:
        return dict(old)
    names = set([s.argument for s in listed if sctx.schema_data.if_features(s, sctx.text_mid)])
    out = dict(old)
    for k in old:
        if k not in names:
            del out[k]
    return out


def spec_enum_restr(self, stmt, sctx):
    return kept(self.enum, stmt, sctx, "enum")


def spec_bit_restr(self, stmt, sctx):
    return kept(self.bit, stmt, sctx, "bit")


def number_kept(attr, kw):
    def ens(c, args, out, old):
        self, stmt, sctx = args
        if out.kind != "ret":
            return []
        new = interp.getattr_(self, attr).map
        k = z3.Const("nk", STR)
        listed = find_all_use(c, None, [stmt, kw], {})
        i = z3.Int("nki")
        el = listed.seq
        def hit(cc):
            e = el.get(i)
            return z3.And(if_features_use(c, None, [interp.getattr_(sctx, "schema_data"), e, interp.getattr_(sctx, "text_mid")], {}).t,
                          ops.to_term(interp.getattr_(e, "argument"), STR) == k)
        ps = summarize(hit, bound=[i, k], rng=z3.And(i >= 0, i < el.nz()))
        inl = z3.Exists([i], z3.And(i >= 0, i < el.nz(), ops.formula_of(ps)))
        had = old.base.has_t(k)
        keep = z3.And(had, z3.Or(el.nz() == 0, inl))
        return [("exactly the listed names remain", z3.ForAll([k], ops.map_has_term(new, k, STR) == keep)),
                ("numbers unchanged", number_same(c, new, old))]
    return ens


def number_same(c, new, old):
    k = z3.Const("ns", STR)
    h = S("str", k)

    def th(cc):
        f, v = new.lookup(h)
        return ops.same(v, old.base.get(h)) if f else True
    return z3.ForAll([k], ops.formula_of(summarize(th, bound=[k], rng=z3.BoolVal(True))))


def old_map(attr):
    return lambda c, self, *a: interp.getattr_(self, attr).map


Contract(M + "EnumerationType._handle_restrictions", [EN, STMT, SCTX], ensures=number_kept("enum", "enum"),
         old=old_map("enum"), modifies=[(0, "enum"), (0, "enum.content")], props=P)
Contract(M + "BitsType._handle_restrictions", [BI, STMT, SCTX], ensures=number_kept("bit", "bit"),
         old=old_map("bit"), modifies=[(0, "bit"), (0, "bit.content")], props=P)
