"""C05: every pattern class decides the language it denotes."""
from .pat import *

P = ("C05",)
SPM = "yangson.schpattern:"
register()


def pre(c, self, *a):
    prelude(c)
    if isinstance(self, Obj):
        self.extra["unfold"] = True


def goal_bag():
    return z3.Const("B!", BAG)


def nullable_ens(c, args, out, old):
    self, ct = args
    if out.kind != "ret":
        return []
    return [("nullable exactly when the empty set is allowed",
             zb(ops.truth_term(out.value)) == L(self, ct, emp))]


def deriv_ens(c, args, out, old):
    self, x, ct = args
    if out.kind != "ret":
        return []
    b = goal_bag()
    xt = ops.raw_term(x)
    return [("after x exactly the sets that x completes",
             L(out.value, ct, b) == L(self, ct, add(b, xt))),
            ("nothing or a pattern without NotAllowed", z3.And(
                z3.Implies(W(self), z3.Or(W(out.value), is_na(out.value))), z3.Implies(is_na(self), is_na(out.value))))]


def mand_ens(c, args, out, old):
    self, ct = args
    if out.kind != "ret":
        return []
    v = ops.resolve(out.value)
    if v is None:
        return [("no name to report only if nothing is missing", z3.Implies(W(self), L(self, ct, emp)))]
    b = goal_bag()
    c.fact(z3.Or(b == emp, isin(wit(b), b)))
    return [("every allowed set has a reported member", z3.Implies(L(self, ct, b), list_hits(v, b)))]


def members_ens(c, args, out, old):
    self, ct = args
    if out.kind != "ret":
        return []
    b, x = goal_bag(), z3.Const("X!", STR)
    v = ops.resolve(out.value)
    one = z3.Const("only!", BAG)
    return [("every allowed member is listed", z3.Implies(
        z3.And(L(self, ct, b), isin(x, b)), named(v, x)))]


def named(lst, x):
    return seq_named(lst.seq, x)


def seq_named(seq, x):
    if getattr(seq, "parts", None):
        return z3.Or(*[seq_named(p, x) for p in seq.parts])
    if seq.concrete:
        return z3.Or(*[ops.raw_term(e) == x for e in seq.elems]) if seq.elems else z3.BoolVal(False)
    i = z3.Int("nm!%d" % ctx().engine.next_id())
    ps = summarize(lambda cc: ops.raw_term(ops.resolve(seq.get(i))) == x, bound=[i], rng=z3.And(i >= 0, i < seq.nz()))
    return z3.Exists([i], z3.And(i >= 0, i < seq.nz(), ops.formula_of(ps)))


def empty_ens(c, args, out, old):
    self, = args
    if out.kind != "ret":
        return []
    b = goal_bag()
    return [("empty only for patterns that allow just the empty set", z3.Implies(
        zb(ops.truth_term(out.value)), z3.And(*[L(self, ct, b) == (b == emp) for ct in ContentType])))]


for k in PATS:
    o = ObjS(k)
    nm = SPM + k.__name__ + "."
    Contract(nm + "nullable", [o, CT], requires=pre, ensures=nullable_ens, props=P, variant=k.__name__)
    Contract(nm + "deriv", [o, Str, CT], requires=pre, ensures=deriv_ens, props=P, variant=k.__name__)
    Contract(nm + "_mandatory_members", [o, CT], requires=pre, ensures=mand_ens, props=P, variant=k.__name__)
    Contract(nm + "_members", [o, CT], requires=pre, ensures=members_ens, props=P, variant=k.__name__)
    Contract(nm + "empty", [o], requires=pre, ensures=empty_ens, props=P, variant=k.__name__)


def comb_pre(c, p, q):
    prelude(c)


def run_combine(cls):
    def body(c, run, p, q):
        return run(cls, p, q)
    return body


def comb_ens(kind):
    def ens(c, args, out, old):
        p, q = args
        b = goal_bag()
        gs = []
        for ct in ContentType:
            if kind == "alt":
                want = z3.Or(L(p, ct, b), L(q, ct, b))
            else:
                b1, b2 = z3.Consts("cb1! cb2!", BAG)
                want = z3.Exists([b1, b2], z3.And(sum_(b1, b2) == b, L(p, ct, b1), L(q, ct, b2)))
            gs.append((f"language of the combination, {ct.name}", L(out.value, ct, b) == want))
        r, na = out.value, [is_na(p), is_na(q)]
        gs.append(("NotAllowed only as a whole", z3.Implies(
            z3.And(z3.Or(W(p), na[0]), z3.Or(W(q), na[1])),
            z3.If(z3.And(*na) if kind == "alt" else z3.Or(*na), is_na(r), W(r)))))
        return gs
    return ens


Contract(SPM + "Alternative.combine", [PAT, PAT], requires=comb_pre, body=run_combine(SP.Alternative),
         ensures=comb_ens("alt"), props=P, use=use_combine("alt"))
Contract(SPM + "Pair.combine", [PAT, PAT], requires=comb_pre, body=run_combine(SP.Pair), ensures=comb_ens("pair"),
         props=P, use=use_combine("pair"))


def opt_ens(only_config):
    def ens(c, args, out, old):
        p, = args
        b = goal_bag()
        return [(f"adds the empty set, {ct.name}", L(out.value, ct, b) == (
            z3.Or(L(p, ct, b), b == emp) if not only_config or ct == ContentType.config else L(p, ct, b)))
            for ct in ContentType]
    return ens


Contract(SPM + "SchemaPattern.optional", [PAT], requires=lambda c, p: prelude(c),
         ensures=opt_ens(False), props=P)
Contract(SPM + "SchemaPattern.optional_config", [PAT], requires=lambda c, p: prelude(c), ensures=opt_ens(True), props=P)

# the loop over the members of an object
from . import inst as IN
from pyvc.inv import LoopInv
from yangson import instance as IM
from yangson import schemanode as SNM
from yangson.exceptions import SchemaError
attrs(SNM.InternalNode, schema_pattern=PAT)
REST = z3.Function("bag.rest", I, I, BAG)          # the members from position i on


def names_of(inst):
    return ListS(Str).wrap(uf("member_names", I, I)(inst.ref))


def a_eval_when(c, o, a, kw):
    """The conditions of a pattern are evaluated in place (C06): the language of the pattern is the one after that."""
    c.memo.setdefault("evaluated", []).append((o, ops.resolve(a[0]), len(c.memo.get("derived", []))))


def check_pre(c, self, inst, ct):
    prelude(c)
    nm = names_of(inst)
    i = z3.Int("ri!")
    el = ops.raw_term(ops.resolve(nm.seq.get(i)))
    p = ops.resolve(interp.getattr_(self, "schema_pattern"))
    c.assume(z3.And(Wf(p.ref), z3.Not(NA(p.ref))))          # as built from the schema nodes (C06)
    c.fact(REST(inst.ref, nm.seq.nz()) == emp)
    c.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nm.seq.nz()), REST(inst.ref, i) == add(REST(inst.ref, i + 1), el)),
                     patterns=[REST(inst.ref, i)]))


def check_inv(c, v, i, seq):
    ct = ops.resolve(v.ctype)
    return [("the pattern contains no NotAllowed",
             z3.And(Wf(ops.resolve(v.p).ref), z3.Not(NA(ops.resolve(v.p).ref)))),
            ("what is left is allowed now exactly when everything was in the beginning",
             Lf(ops.resolve(v.p).ref, ctv(ct), REST(v.inst.ref, i)) == Lf(ops.resolve(v.pre["p"]).ref, ctv(ct), REST(v.inst.ref, z3.IntVal(0))))]


def check_ens(c, args, out, old):
    self, inst, ct = args
    pat = ops.resolve(interp.getattr_(self, "schema_pattern"))
    ok = Lf(pat.ref, ctv(ops.resolve(ct)), REST(inst.ref, z3.IntVal(0)))
    ev = c.memo.get("evaluated", [])
    gs = [("the conditions of the pattern have been evaluated for the instance",
           z3.And(ev[0][0].ref == pat.ref, ev[0][1].ref == inst.ref) if len(ev) == 1 else False)]
    if out.kind == "ret":
        return gs + [("accepted only if the members are one of the sets allowed", ok)]
    return gs + [("refused only if the members are none of the sets allowed", z3.Not(ok))]


AbstractContract(SP.SchemaPattern, "_eval_when", a_eval_when)
AbstractContract(IM.InstanceNode, "__iter__", lambda c, o, a, kw: names_of(o), always=True)
Contract("yangson.schemanode:InternalNode._check_schema_pattern", [ObjS(SNM.ContainerNode), ObjS(IM.ObjectMember), CT],
         requires=check_pre, ensures=check_ens, props=P, raises=(SchemaError,),
         loops=[LoopInv({"p": PAT}, check_inv)])

for nm_, asm_, goal_ in bag_model():
    lemma("bags: " + nm_, (lambda a=asm_, g=goal_: (a, g)), P)
