"""C11: merging is a keyed, recursive union in which the new value wins."""
from .c08 import *
from pyvc.inv import LoopInv
from pyvc import models
from .common import use

P = ("C11",)


# ---------------------------------------------------------------- what merging one place gives
def merged_at(sn, old, new):
    """The value after merging at a place with this schema node (the contracts of merge are about it)."""
    return CELL.wrap(merged_t(ref(sn), ops.to_V(old), ops.to_V(new)))


def ref(x):
    return ops.resolve(x).ref


merged_t = uf("merged", I, V, V, V)


def a_merge(c, o, a, kw):
    """Merging below: the value there becomes the merged one, all around it stays."""
    o = ops.resolve(o)
    v = merged_at(get(o, "schema_node"), get(o, "value"), a[0])
    return interp.call(interp.getattr_(o, "_copy"), [v], {})


AbstractContract(IM.ObjectMember, "merge", a_merge, always=True)
AbstractContract(IM.ArrayEntry, "merge", a_merge, always=True)
PLAINOBJ = [(n, sh) for n, sh in OBJECTS]


def names_ok(c, self, value):
    """Representation invariants of the place."""
    entry_ok(c, self) if self.cls is IM.ArrayEntry else member_ok(c, self) if self.cls is IM.ObjectMember else None


def member_node(sn, name):
    """Schema node of a member, or none (what C18 says about the lookup)."""
    return CHILD.wrap(uf("member_node", I, STR, I)(ref(sn), ops.raw_term(name)))


def use_member_node(c, fn, args, kw):
    r = member_node(get(ops.resolve(args[0]), "schema_node"), args[1])
    if r is None:
        raise PyExc(NSN)
    return r


use(N_ + "_member_schema_node", use_member_node)
use(N_ + "_local_name", lambda c, fn, args, kw: args[1])      # member names of cooked objects are local already


def special(k):
    return z3.PrefixOf(z3.StringVal("@"), k)


def expected(self, value, k):
    """Value of member k (a string term) afterwards: (there, value)."""
    k = S("str", k)
    f0, v0 = get(self, "value").map.lookup(k)
    f1, v1 = value.map.lookup(k)
    if not f1:
        return f0, v0
    if not f0 or ctx().branch(special(k.t)):
        return True, v1
    ch = member_node(get(self, "schema_node"), k)
    return True, v0 if ch is None else merged_at(ch, v0, v1)


def cont_ens(c, args, out, old):
    self, value = args
    if out.kind != "ret":
        return []
    r = ops.resolve(out.value)
    k = c.fresh("k", STR)
    new = get(r, "value")
    f, v = expected(self, value, k)
    g, w = new.map.lookup(S("str", k))
    return [("members of either", zb(f) == zb(g))] + ([("merged, new or untouched", zb(same_obj(v, w)))] if f and g else []) + same_place(r, self)


def new_at(c, v):
    """An arbitrary object at the place of the receiver."""
    val = interp.call(interp.getattr_(OBJT.make("val_%d" % c.engine.next_id()), "copy"), [], {})
    return interp.call(interp.getattr_(ops.resolve(v.self), "_copy"), [val], {})


def new_names(c, v):
    return interp.call(interp.getattr_(ListS(Str).make("rest_%d" % c.engine.next_id()), "copy"), [], {})


def cont_inv(c, v, visited, ki):
    self, value, inst, rest = (ops.resolve(x) for x in (v.self, v.value, v.inst, v.rest))
    now, was = get(inst, "value"), get(self, "value")
    k = z3.Const("mk!%d" % c.engine.next_id(), STR)
    has = lambda m: zb(ops.map_has_term(m.map, k, STR))
    both = z3.And(visited(k), has(was), z3.Not(special(k)))

    def val(cc):
        f, x = now.map.lookup(S("str", k))
        g, y = expected(self, value, k)
        if not f or not g:
            return z3.BoolVal(False)
        return zb(same_obj(x, y))

    def kept(cc):
        f, x = now.map.lookup(S("str", k))
        g, y = was.map.lookup(S("str", k))
        return z3.BoolVal(f == g) if not (f and g) else zb(same_obj(x, y))
    in_rest = ex(rest, lambda x: ops.raw_term(x) == k)
    fv = ops.formula_of(summarize(val, bound=[k], rng=both))
    fk = ops.formula_of(summarize(kept, bound=[k], rng=z3.Not(both)))
    return [("same members", z3.ForAll([k], has(now) == has(was))),
            ("visited common members are merged", z3.ForAll([k], z3.Implies(both, fv))),
            ("the others are as before", z3.ForAll([k], z3.Implies(z3.Not(both), fk))),
            ("the rest", z3.ForAll([k], in_rest == z3.And(visited(k), z3.Or(special(k), z3.Not(has(was))))))] + \
        [("place: " + n, g) for n, g in same_place(inst, self)]


for nm_, sh in OBJECTS:
    Contract(N_ + "_merge_container", [sh, OBJT], requires=names_ok, ensures=cont_ens, props=P, raises=(NI, NSN), variant="in " + nm_,
             loops=[LoopInv({"inst": new_at, "rest": new_names}, cont_inv)])


# ---------------------------------------------------------------- leaf-lists and lists without keys
def union_spec(old, new):
    return list(old) + [x for x in new if x not in old]


def flat_ens(c, args, out, old):
    self, value = args
    if out.kind != "ret":
        return [("an answer", False)]
    r = ops.resolve(out.value)
    return [("an array", is_new(get(r, "value"), ArrayValue)),
            ("the old entries, then the new ones it lacked", seq_same(get(r, "value"), run(union_spec, get(self, "value"), value)))] + same_place(r, self)


LEAVES = ObjS(IM.ObjectMember, attrs={"value": ARRT, "schema_node": OneOf(LLIST, ObjS(SNM.ListNode, attrs={"keys": ListS(PairS(), fixed=0)}))})
Contract(N_ + "_merge_list", [LEAVES, ARRT], requires=member_ok, ensures=flat_ens, props=P, variant="leaf-list or list without keys")


# ---------------------------------------------------------------- which way a place is merged
def below(kind):
    def u(c, fn, args, kw):
        self, value = ops.resolve(args[0]), args[1]
        return interp.call(interp.getattr_(self, "_copy"), [below_value(kind, self, value)], {})
    return u


def below_value(kind, self, value):
    sh = ARRT if kind == "list" else OBJT
    return sh.wrap(uf("merged_" + kind, I, V, V, I)(self.ref, ops.to_V(get(self, "value")), ops.to_V(value)))


use(N_ + "_merge_list", below("list"))
use(N_ + "_merge_container", below("container"))


def merge_ens(raw):
    def ens(c, args, out, old):
        self, value = args[:2]
        if out.kind != "ret":
            return [("only a raw value is refused", raw and issubclass(out.value.cls, RawTypeError))]
        r = ops.resolve(out.value)
        sn, val = get(self, "schema_node"), get(self, "value")
        new = value
        if raw:
            new = CELL.wrap(uf("cooked", I, V, V)(ref(sn), ops.to_V(value)))
        keep = interp.isinstance_(sn, SNM.AnyContentNode) or not interp.isinstance_(val, StructuredValue)
        goals = same_place(r, self)
        v = ops.resolve(val)
        if keep or c.branch(v.seq.nz() == 0 if v.seq is not None else zb(z3.Not(ops.truth_term(v)))):
            return goals + [("the new value", same_obj(get(r, "value"), new))]
        k = "list" if interp.isinstance_(v, ArrayValue) else "container"
        return goals + [("merged by entries" if k == "list" else "merged by members",
                         same_obj(get(r, "value"), below_value(k, self, new)))]
    return ens


def ok_place(c, self, *a):
    entry_ok(c, self) if self.cls is IM.ArrayEntry else member_ok(c, self) if self.cls is IM.ObjectMember else None


WHOLE = ObjS(IM.RootNode, attrs={"value": OBJT})
for nm_, sh, new in (("root", WHOLE, OBJT), ("member", MEMB, CELL), ("entry", ENTRY, CELL)):
    Contract((E if nm_ == "entry" else N_) + "merge", [sh, new], requires=ok_place, ensures=merge_ens(False), props=P, variant=nm_)
    if nm_ == "member":
        Contract(N_ + "merge", [sh, JSON, Const(True)], requires=ok_place, ensures=merge_ens(True), raises=(RawTypeError,),
                 modifies=[(0, "_path")], props=P, variant="raw, " + nm_)


# ---------------------------------------------------------------- lists with keys
def entry_merge(old, new, k):
    """Reference: entries with equal keys merge, the others follow in their order."""
    out = []
    for a in old:
        hit = None
        for b in new:
            if b[k] == a[k]:
                hit = b
        out.append((a, hit))
    for b in new:
        if not any([a[k] == b[k] for a in old]):
            out.append((None, b))
    return out


def keyed_ens(c, args, out, old):
    self, value = args
    if out.kind != "ret":
        return [("an answer", False)]
    r = ops.resolve(out.value)
    sn = get(self, "schema_node")
    k = ops.resolve(get(sn, "_key_members")).seq.elems[0]
    want = run(entry_merge, get(self, "value"), value, k)
    got = get(r, "value")
    goals = [("number of entries", zb(ops.py_eq(interp.call(len, [got], {}), len(want.seq.elems))))]
    for j, pair in enumerate(want.seq.elems):
        a, b = ops.resolve(pair)
        exp = b if a is None else a if b is None else merged_at(sn, a, b)
        goals.append(("entry %d" % j, same_obj(got.seq.get(z3.IntVal(j)), exp)))
    return goals + same_place(r, self)


KEYED = DictS(Str, Str, cls=ObjectValue, attrs={"timestamp": TS})


def has_keys(c, self, value):
    member_ok(c, self)
    k = ops.resolve(get(get(self, "schema_node"), "_key_members")).seq.elems[0]
    for lst in (get(self, "value"), value):
        es = [ops.resolve(x) for x in ops.resolve(lst).seq.elems]
        for e in es:
            c.assume(zb(ops.map_has_term(e.map, ops.raw_term(k), STR)))
        for i, e in enumerate(es):
            for f in es[i + 1:]:
                c.assume(z3.Not(zb(ops.py_eq(models.getitem(e, k), models.getitem(f, k)))))


for n in (1, 2):
    for m in (0, 1, 2) if n == 1 else (0, 1):
        arr = lambda k: ListS(KEYED, cls=ArrayValue, fixed=k, attrs={"timestamp": TS})
        sh = ObjS(IM.ObjectMember, attrs={"value": arr(n), "schema_node": ObjS(SNM.ListNode, attrs={
            "keys": ListS(PairS(), fixed=1), "_key_members": ListS(Str, fixed=1)})})
        Contract(N_ + "_merge_list", [sh, arr(m)], requires=has_keys, ensures=keyed_ens, props=P, variant=f"one key, {n} and {m} entries",
                 bounded="lists of up to two entries with one string key")
