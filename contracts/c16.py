"""C16: entry counts, keys and duplicates of lists and leaf-lists."""
from .inst import *
from .yang import *
from yangson.enumerations import ValidationScope as VS
from yangson.exceptions import SemanticError, SchemaError
from yangson.datatype import DataType
from pyvc import models
from pyvc.inv import LoopInv
from pyvc.shapes import SetS, TupleS
from .common import use, ref
from yangson import xpathast as XA
from pyvc.core import S, STR, TUPLES

P = ("C16",)
SEQN = ObjS(SNM.ListNode, SNM.LeafListNode)
ANYLIST = ListS(CELL, cls=ArrayValue, attrs={"timestamp": TS})


def tag(e):
    """The error tag an exception was constructed with."""
    import inspect
    args = list(e.obj.attrs.get("args", ())) if e.obj is not None else list(e.eargs)
    names = list(inspect.signature(e.cls.__init__).parameters)[1:]
    t = dict(zip(names, args)).get("tag")
    return ops.resolve(t) if t is not None else None


def has_tag(out, cls, name):
    if out.kind != "exc" or not issubclass(out.value.cls, cls):
        return False
    t = tag(out.value)
    if isinstance(t, str):
        return t == name or t.startswith(name + ":")
    t = ops.to_term(t, STR)
    return False if t is None else z3.Or(t == name, z3.PrefixOf(z3.StringVal(name + ":"), t))


def card_ens(c, args, out, old):
    self, inst = args
    n = get(inst, "value").seq.nz()
    lo = ops.raw_term(get(self, "min_elements"))
    hi = get(self, "max_elements")
    few = n < lo
    many = z3.BoolVal(False) if hi is None else n > ops.raw_term(hi)
    if out.kind == "ret":
        return [("accepted only within the bounds", z3.And(z3.Not(few), z3.Not(many)))]
    return [("too few entries", z3.Implies(few, zb(has_tag(out, SemanticError, "too-few-elements")))),
            ("too many entries", z3.Implies(z3.And(many, z3.Not(few)), zb(has_tag(out, SemanticError, "too-many-elements")))),
            ("refused only outside the bounds", z3.Or(few, many))]


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


LISTINST = ObjS(IM.ObjectMember, attrs={"value": ANYLIST})
Contract(N + "SequenceNode._check_cardinality", [SEQN, LISTINST], ensures=card_ens, raises=(SemanticError,), props=P)


# ---------------------------------------------------------------- leaf-list duplicates
def dup(n, get_, eq):
    i, j = z3.Ints("du!i du!j")
    return z3.Exists([i, j], z3.And(0 <= i, i < j, j < n, eq(get_(i), get_(j))))


def ll_list(kind):
    return ListS(kind, cls=ArrayValue, attrs={"timestamp": TS})


def dup_ens(c, args, out, old):
    self, inst = args
    seq = get(inst, "value").seq
    cfg = ops.resolve(a_ctype(c, self, [], {})).value & ContentType.config.value != 0
    d = dup(seq.nz(), lambda i: ops.raw_term(seq.get(i)), lambda a, b: a == b)
    if out.kind == "ret":
        return [("accepted only without duplicates", z3.Or(not cfg, z3.Not(d)))]
    return [("duplicates of configuration", zb(has_tag(out, SemanticError, "repeated-leaf-list-value"))),
            ("refused only for duplicates", z3.And(cfg, d))]


def terminal_ctype(c, self, *a):
    """A terminal node is either configuration or not (established by TerminalNode.content_type, C06)."""
    c.fact(uf("content_type", I, CT.sort)(self.ref) != CT.members.index(ContentType.all))


abstract_nodes()
for nm, k in (("string", Str), ("int", Int), ("decimal", Dec)):
    Contract(N + "LeafListNode._check_list_props", [LLIST, ObjS(IM.ObjectMember, attrs={"value": ll_list(k)})],
             requires=terminal_ctype, ensures=dup_ens,
             raises=(SemanticError,), props=P, variant=nm)


# ---------------------------------------------------------------- keys
KEYS = (("one key", 1), ("two keys", 2))
attrs(SNM.ListNode, _key_members=ListS(Str))
VAL = OneOf(Str, Int, Bool)


OBJS = DictS(Str, Str, cls=ObjectValue, attrs={"timestamp": TS})
ENTRIES = ListS(OBJS, cls=ArrayValue, attrs={"timestamp": TS})


class Keys:
    """The key members of the entries of a list instance, as terms."""

    def __init__(self, self_, inst):
        self.seq = get(inst, "value").seq
        self.names = [ops.raw_term(n) for n in get(self_, "_key_members").seq.elems]
        self.sort = TUPLES[len(self.names)]

    def has(self, j):
        m = ops.resolve(self.seq.get(j)).map
        return z3.And(*[zb(ops.map_has_term(m, k, STR)) for k in self.names])

    def key(self, j):
        m = ops.resolve(self.seq.get(j)).map
        return self.sort.constructor(0)(*[ops.raw_term(m.base.get(S("str", k))) for k in self.names])

    def missing(self):
        if self.seq.concrete:
            return z3.Or(*[z3.Not(self.has(z3.IntVal(j))) for j in range(len(self.seq.elems))])
        j = z3.Int("mk!j")
        return z3.Exists([j], z3.And(0 <= j, j < self.seq.nz(), z3.Not(self.has(j))))

    def dup(self):
        if self.seq.concrete:
            ks = [self.key(z3.IntVal(j)) for j in range(len(self.seq.elems))]
            return z3.Or(*[ks[i] == ks[j] for j in range(len(ks)) for i in range(j)])
        i, j = z3.Ints("dk!i dk!j")
        return z3.Exists([i, j], z3.And(0 <= i, i < j, j < self.seq.nz(), self.key(i) == self.key(j)))


def keys_inv(c, v, i, seq):
    ks = Keys(v.self, v.inst)
    m = ops.resolve(v.ukeys).map
    j, k = z3.Ints("ki!j ki!k")
    x = z3.Const("ki!x", ks.sort)
    inset = ops.map_has_term(m, x, ks.sort)
    return [("all keys so far are there", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), ks.has(j)))),
            ("they are recorded", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), ops.map_has_term(m, ks.key(j), ks.sort)))),
            ("only they are recorded", z3.ForAll([x], z3.Implies(inset, z3.Exists([j], z3.And(0 <= j, j < i, x == ks.key(j)))))),
            ("they differ", z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < i), ks.key(j) != ks.key(k))))]


def keys_ens(c, args, out, old):
    ks = Keys(*args)
    missing, d = ks.missing(), ks.dup()
    if out.kind == "ret":
        return [("every key is present", z3.Not(missing)), ("no two entries agree in every key", z3.Not(d))]
    if issubclass(out.value.cls, SchemaError):
        return [("a key is missing", missing), ("tag of a missing key", zb(has_tag(out, SchemaError, "list-key-missing")))]
    return [("two entries agree in every key", d),
            ("tag of equal keys", zb(has_tag(out, SemanticError, "non-unique-key")))]


for nk in (1, 2, 3):
    if nk == 2:
        Contract(N + "ListNode._check_keys",
                 [ObjS(SNM.ListNode, attrs={"_key_members": ListS(Str, fixed=2)}),
                  ObjS(IM.ObjectMember, attrs={"value": ListS(OBJS, cls=ArrayValue, attrs={"timestamp": TS}, fixed=3),
                                              "schema_node": LIST})],
                 ensures=keys_ens, raises=(SemanticError, SchemaError), props=P, variant="3 entries, 2 keys",
                 bounded="3 entries, 2 key members, string keys")
    Contract(N + "ListNode._check_keys",
             [ObjS(SNM.ListNode, attrs={"_key_members": ListS(Str, fixed=nk)}),
              ObjS(IM.ObjectMember, attrs={"value": ENTRIES, "schema_node": LIST})],
             ensures=keys_ens, raises=(SemanticError, SchemaError), props=P, variant=f"{nk} keys",
             loops=[LoopInv({"ukeys": SetS(TupleS(nk))}, keys_inv)],
             bounded=f"{nk} key members, string keys; any number of entries")


# ---------------------------------------------------------------- unique
WITHDEF, ENTRYOF = uf("entry with defaults", I, I), uf("entry of a list", I, I, I)
PRESENT, UVAL = uf("unique leaf is present", I, I, B), uf("unique leaf value", I, I, STR)
UEXPR = ObjS(XA.LocationPath)


def use_entry(c, fn, a, kw):
    return ENTRY.wrap(ENTRYOF(a[0].ref, ops.raw_term(a[1])))


def a_unique_nodes(c, o, a, kw):
    """The leaf a unique path leads to, if it is there, with a string value."""
    en = ref(ops.resolve(a[0]))
    if not c.branch(PRESENT(o.ref, en)):
        return models.new_list([])
    leaf = ObjS(IM.ObjectMember, attrs={"value": Str}).wrap(uf("unique leaf", I, I, I)(o.ref, en))
    c.fact(ops.raw_term(get(leaf, "value")) == UVAL(o.ref, en))
    return models.new_list([leaf])


class Uniq:
    """The tuples of unique values of the entries."""

    def __init__(self, unique, inst):
        self.us = [ops.resolve(u).ref for u in unique.seq.elems]
        self.inst_seq = get(inst, "value").seq
        self.inst, self.n, self.sort = inst, self.inst_seq.nz(), TUPLES[len(unique.seq.elems)]

    def en(self, i):
        return WITHDEF(ENTRYOF(self.inst.ref, i))

    def all_there(self, i):
        return z3.And(*[PRESENT(u, self.en(i)) for u in self.us])

    def tup(self, i):
        return self.sort.constructor(0)(*[UVAL(u, self.en(i)) for u in self.us])

    def some_clash(self):
        if self.inst_seq.concrete:
            r = [z3.IntVal(j) for j in range(len(self.inst_seq.elems))]
            return z3.Or(*[self.clash(i, j) for j in r for i in r[:j.as_long()]])
        i, j = z3.Ints("ue!i ue!j")
        return z3.Exists([i, j], z3.And(0 <= i, i < j, j < self.n, self.clash(i, j)))

    def clash(self, i, j):
        return z3.And(self.all_there(i), self.all_there(j), self.tup(i) == self.tup(j))


def uniq_inv(c, v, i, seq):
    u = Uniq(v.unique, v.inst)
    m = ops.resolve(v.allvals).map
    j, k = z3.Ints("ui!j ui!k")
    x = z3.Const("ui!x", u.sort)
    inset = lambda t: ops.map_has_term(m, t, u.sort)
    return [("complete tuples are recorded", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i, u.all_there(j)), inset(u.tup(j))))),
            ("only they are recorded", z3.ForAll([x], z3.Implies(inset(x), z3.Exists(
                [j], z3.And(0 <= j, j < i, u.all_there(j), x == u.tup(j)))))),
            ("they differ", z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < i), z3.Not(u.clash(j, k)))))]


def uniq_ens(c, args, out, old):
    self, unique, inst = args
    d = Uniq(unique, inst).some_clash()
    if out.kind == "ret":
        return [("no two entries agree in all unique leaves", z3.Not(d))]
    return [("two entries agree in all unique leaves", d), ("tag of equal values", zb(has_tag(out, SemanticError, "data-not-unique")))]


use(IN + "InstanceNode.__getitem__", use_entry)
AbstractContract(IM.InstanceNode, "add_defaults", lambda c, o, a, kw: ENTRY.wrap(WITHDEF(o.ref)), always=True)
AbstractContract(XA.Expr, "evaluate", a_unique_nodes, always=True)
for nu in (1, 2, 3):
    if nu == 2:
        Contract(N + "ListNode._check_unique",
                 [LIST, ListS(UEXPR, fixed=2), ObjS(IM.ObjectMember, attrs={
                     "value": ListS(OBJS, cls=ArrayValue, attrs={"timestamp": TS}, fixed=3), "schema_node": LIST})],
                 ensures=uniq_ens, raises=(SemanticError,), props=P, variant="3 entries, 2 leaves",
                 bounded="3 entries, 2 unique leaves with string values")
    Contract(N + "ListNode._check_unique",
             [LIST, ListS(UEXPR, fixed=nu), ObjS(IM.ObjectMember, attrs={"value": ENTRIES, "schema_node": LIST})],
             ensures=uniq_ens, raises=(SemanticError,), props=P, variant=f"{nu} leaves",
             loops=[LoopInv({"allvals": SetS(TupleS(nu))}, uniq_inv)],
             bounded=f"{nu} unique leaves with string values; any number of entries")


# ---------------------------------------------------------------- statements
def min_ens(c, args, out, old):
    self, stmt, sctx = args
    if out.kind != "ret":
        return []
    return [("stored as a number", eqv(get(self, "min_elements"), models.c_int(get(stmt, "argument"))))]


def max_ens(c, args, out, old):
    self, stmt, sctx = args
    if out.kind != "ret":
        return []
    a = get(stmt, "argument")
    v = ops.resolve(get(self, "max_elements"))
    unb = ops.raw_term(a) == z3.StringVal("unbounded")
    if v is None:
        return [("unbounded only if it says so", unb)]
    return [("bounded unless it says unbounded", z3.Not(unb)), ("stored as a number", eqv(v, models.c_int(a)))]


def eqv(a, b):
    return ops.same(a, b)


SCTX = ObjS(SchemaContext)
for cls in ("SequenceNode",):
    Contract(N + cls + "._min_elements_stmt", [SEQN, STMT, SCTX], ensures=min_ens, raises=(ValueError,),
             modifies=[(0, "min_elements")], props=P)
    Contract(N + cls + "._max_elements_stmt", [SEQN, STMT, SCTX], ensures=max_ens, raises=(ValueError,),
             modifies=[(0, "max_elements")], props=P)


def dev_ens(attr, unset):
    def ens(c, args, out, old):
        self, stmt, sctx, action = args
        if out.kind != "ret":
            return []
        act = ops.raw_term(action)
        v = ops.resolve(get(self, attr))
        gone = act == z3.StringVal("delete")
        set_ = z3.Or(act == z3.StringVal("add"), act == z3.StringVal("replace"))
        if attr == "min_elements":
            new = eqv(v, models.c_int(get(stmt, "argument"))) if c.branch(set_) else True
        else:
            new = True
            if c.branch(set_):
                a = get(stmt, "argument")
                new = v is None if c.branch(ops.raw_term(a) == z3.StringVal("unbounded")) else eqv(v, models.c_int(a))
        keep = z3.Implies(z3.Not(z3.Or(gone, set_)), zb(eqv(v, old)))
        return [("a deleted bound is the default", z3.Implies(gone, zb(eqv(v, unset)))),
                ("an added bound is the one stated", zb(new)), ("other actions keep it", keep)]
    return ens


for attr, unset in (("min_elements", 0), ("max_elements", None)):
    Contract(N + f"SequenceNode._deviate_{attr}", [SEQN, STMT, SCTX, Str], ensures=dev_ens(attr, unset), raises=(ValueError,),
             old=lambda c, self, *a, attr=attr: ops.resolve(get(self, attr)), modifies=[(0, attr)], props=P)


# ---------------------------------------------------------------- unique statements and deviations of them
PARSED = uf("parsed unique argument", STR, I, I)


def use_parse(n):
    def fn(c, f, a, kw):
        return ListS(UEXPR, fixed=n).wrap(PARSED(ops.raw_term(get(a[1], "argument")), ref(a[2])))
    return fn


AbstractContract(XA.Expr, "__str__", lambda c, o, a, kw: S("str", uf("text of expression", I, STR)(o.ref)), always=True)


def spec_unique(specs, new, action):
    if action == "add":
        return specs + [new]
    if action == "replace":
        return [new]
    if action == "delete":
        text = [str(u) for u in new]
        for i in range(len(specs)):
            if [str(u) for u in specs[i]] == text:
                return specs[:i] + specs[i + 1:]
    return specs


def uniques(self):
    return list(get(self, "unique").seq.elems)


def same_specs(c, a, b):
    a, b = list(a), list(ops.resolve(b).seq.elems)
    if len(a) != len(b):
        return False
    return z3.And(*[zb(ops.same(x, y)) for x, y in zip(a, b)])


def dev_unique_ens(c, args, out, old):
    return [("the unique statements in force", same_specs(c, uniques(args[0]), old))] if out.kind == "ret" else []


for n_ in (1, 2):
    def parses(c, self, stmt, sctx, *a, n_=n_):
        use(N + "ListNode._parse_unique", use_parse(n_))

    def spec_of(c, self, stmt, sctx, action=None, n_=n_):
        return run(spec_unique, models.new_list(uniques(self)), use_parse(n_)(c, None, [self, stmt, sctx], {}), action or "add")
    LST = ObjS(SNM.ListNode, attrs={"unique": ListS(ListS(UEXPR, fixed=n_), fixed=2)})
    Contract(N + "ListNode._deviate_unique", [LST, STMT, SCTX, Str], requires=parses, ensures=dev_unique_ens, old=spec_of,
             props=P, variant=f"{n_} leaves", modifies=[(0, "unique"), (0, "unique.content")], bounded=f"two unique statements of {n_} leaves")
    Contract(N + "ListNode._unique_stmt", [LST, STMT, SCTX], requires=parses, ensures=dev_unique_ens, old=spec_of,
             props=P, variant=f"{n_} leaves", modifies=[(0, "unique"), (0, "unique.content")], bounded=f"two unique statements of {n_} leaves")
