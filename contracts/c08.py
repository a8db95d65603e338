"""C08: navigation and editing touch exactly the item they name.

The content of an entry is the whole array it sits in (before, itself, after) and its position; the
content of a member is the whole object it sits in.  Every operation is specified by what it does to
that content.  Frames (nothing existing is written) are part of every contract here; C07 uses them."""
from .inst import *

P = ("C08", "C07")
E, O, N_ = IN + "ArrayEntry.", IN + "ObjectMember.", IN + "InstanceNode."
NI, IVE, NSN = NonexistentInstance, InstanceValueError, NonexistentSchemaNode
FLAT = ARRAY_TOO = CELL


def conjs(*xs):
    return [x if isinstance(x, (bool, z3.ExprRef)) else ops.truth_term(x) for x in xs]


def eq(a, b):
    return same_obj(a, b)


def entry_facts(r, self, idx, lst, val, ts=None):
    """r is a well formed entry of the array lst, in the same place of the tree as self."""
    gs = [("an entry", is_new(r, IM.ArrayEntry))]
    if not gs[0][1]:
        return gs
    gs += [("position", eq(get(r, "_key"), idx)),
           ("position counts the entries before", ops.raw_term(get(r, "_key")) == get(r, "before").seq.nz()),
           ("array content", seq_same(run(entry_list, r), lst)),
           ("value", eq(get(r, "value"), val)),
           ("same parent", eq(get(r, "parinst"), get(self, "parinst"))),
           ("same schema node", eq(get(r, "schema_node"), get(self, "schema_node"))),
           ("path is computed afresh", get(r, "_path") is None)]
    if ts is not None:
        gs.append(("time stamp", eq(get(r, "timestamp"), ts)))
    return gs


def move(step, which):
    def ens(c, args, out, old):
        self, = args
        side = get(self, which)
        n = side.seq.nz()
        if out.kind == "exc":
            return [("refused only at the end", z3.And(issubclass(out.value.cls, NI), n == 0))]
        return [("there is such an entry", n > 0)] + entry_facts(
            out.value, self, ops.arith("+", get(self, "_key"), step), run(entry_list, self), side.seq.get(z3.IntVal(0)),
            get(self, "timestamp"))
    return ens


Contract(E + "previous", [ENTRY], requires=entry_ok, ensures=move(-1, "before"), raises=(NI,), props=P)
Contract(E + "next", [ENTRY], requires=entry_ok, ensures=move(1, "after"), raises=(NI,), props=P)


def zip_ens(c, args, out, old):
    self, = args
    r = out.value
    if out.kind != "ret":
        return []
    return [("an array", is_new(r, ArrayValue)), ("array content", seq_same(r, run(entry_list, self))),
            ("time stamp", eq(get(r, "timestamp"), get(self, "timestamp")))]


Contract(E + "_zip", [ENTRY], requires=entry_ok, ensures=zip_ens, props=P)


def copy_ens(c, args, out, old):
    self, newval, ts = args
    if out.kind != "ret":
        return []
    r = out.value
    return entry_facts(r, self, get(self, "_key"), run(entry_with, self, newval), newval, ts)


def entry_with(e, v):
    return list(reversed(e.before)) + [v] + list(e.after)


Contract(E + "_copy", [ENTRY, CELL, OneOf(Const(None), TS)], requires=entry_ok, ensures=copy_ens, props=P)


def ins_list(e, v, after):
    if after:
        return list(reversed(e.before)) + [e.value, v] + list(e.after)
    return list(reversed(e.before)) + [v, e.value] + list(e.after)


def insert(after):
    def ens(c, args, out, old):
        self, v = args
        if out.kind != "ret":
            return []
        k = get(self, "_key")
        return entry_facts(out.value, self, ops.arith("+", k, 1) if after else k, run(ins_list, self, v, after), v)
    return ens


Contract(E + "insert_before", [ENTRY, CELL], requires=entry_ok, ensures=insert(False), props=P)
Contract(E + "insert_after", [ENTRY, CELL], requires=entry_ok, ensures=insert(True), props=P)


# ---------------------------------------------------------------- members
def member_facts(r, self, name, content, val, ts=None):
    gs = [("a member", is_new(r, IM.ObjectMember))]
    if not gs[0][1]:
        return gs
    gs += [("name", eq(get(r, "_key"), name)),
           ("name is not among the siblings", z3.Not(zb(ops.map_has_term(get(r, "siblings").map, ops.raw_term(ops.resolve(get(r, "_key"))), STR)))),
           ("object content", map_same(run(member_dict, r), content)),
           ("value", eq(get(r, "value"), val)),
           ("same parent", eq(get(r, "parinst"), get(self, "parinst"))),
           ("path is computed afresh", get(r, "_path") is None)]
    if ts is not None:
        gs.append(("time stamp", eq(get(r, "timestamp"), ts)))
    return gs


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def mzip_ens(c, args, out, old):
    self, = args
    r = out.value
    if out.kind != "ret":
        return []
    return [("an object", is_new(r, ObjectValue)), ("object content", map_same(r, run(member_dict, self)))]


Contract(O + "_zip", [MEMB], requires=member_ok, ensures=mzip_ens, props=P)


def member_with(m, v):
    d = m.siblings.copy()
    d[m._key] = v
    return d


def mcopy_ens(c, args, out, old):
    self, newval, ts = args
    if out.kind != "ret":
        return []
    r = out.value
    return member_facts(r, self, get(self, "_key"), run(member_with, self, newval), newval, ts) + [
        ("same schema node", eq(get(r, "schema_node"), get(self, "schema_node")))]


Contract(O + "_copy", [MEMB, CELL, OneOf(Const(None), TS)], requires=member_ok, ensures=mcopy_ens, props=P)


# ---------------------------------------------------------------- schema lookups are functions of node and name
CHILD = Opt(DNODE)


def a_data_child(c, o, a, kw):
    ns = ops.resolve(a[1])
    t = uf("data_child", I, STR, STR, I)(o.ref, ops.raw_term(ops.resolve(a[0])),
                                         z3.StringVal("") if ns is None else ops.raw_term(ns))
    return CHILD.wrap(t)


def a_from_raw(c, o, a, kw):
    if c.branch(uf("raw_bad", I, V, B)(o.ref, ops.to_V(a[0]))):
        raise PyExc(RawTypeError)
    return CELL.wrap(uf("cooked", I, V, V)(o.ref, ops.to_V(a[0])))


from yangson.exceptions import RawTypeError
abstract_nodes()
AbstractContract(SNM.InternalNode, "get_data_child", a_data_child, always=True)
AbstractContract(SNM.SchemaNode, "from_raw", a_from_raw, always=True)


def local_name(ns, name):
    """Member name used inside an object of namespace ns."""
    mod, colon, rest = name.partition(":")
    return rest if colon and mod == ns else name


def ns_of(inst):
    o = ops.resolve(inst)
    if o.cls is IM.RootNode:
        return None
    return get(get(inst, "schema_node"), "ns")


def child_of(inst, name):
    """Schema node of the member: looked up by its name and namespace, or nothing."""
    sn = get(inst, "schema_node")
    q = run(qname, name, get(sn, "ns"))
    return a_data_child(ctx(), ops.resolve(sn), list(q), {})


def qname(name, ns):
    mod, colon, rest = name.partition(":")
    return (rest, mod) if colon else (name, ns)


def internal(c, self):
    sn = ops.resolve(get(self, "schema_node"))
    return interp.call_fn(isinstance, [sn, SNM.InternalNode], {}) is True


INT_SN = dict(schema_node=ObjS(SNM.ListNode, SNM.ContainerNode))
OBJECTS = [("root", ObjS(IM.RootNode, attrs={"value": OBJT})),
           ("member", ObjS(IM.ObjectMember, attrs={"value": OBJT, "schema_node": ObjS(SNM.ContainerNode, SNM.ListNode)})),
           ("entry", ObjS(IM.ArrayEntry, attrs={"value": OBJT, "schema_node": ObjS(SNM.ListNode)}))]
ARRAYS = ObjS(IM.ObjectMember, attrs={"value": ARRT, "schema_node": ObjS(SNM.LeafListNode, SNM.ListNode)})


def has(m, k):
    return zb(ops.map_has_term(m.map, ops.raw_term(ops.resolve(k)), STR))


def without(d, k):
    r = dict(d)
    del r[k]
    return r


def item(d, k):
    return d[k]


def getmember_ens(c, args, out, old):
    self, name = args
    val = get(self, "value")
    name = run(local_name, ns_of(self), name) if ns_of(self) is not None else name
    there = has(val, name)
    if out.kind == "exc":
        if issubclass(out.value.cls, NSN):
            return [("not in the schema", child_of(self, name) is None)]
        return [("there is no such member", z3.And(issubclass(out.value.cls, NI), z3.Not(there)))]
    r = out.value
    gs = [("there is such a member", there), ("a member", is_new(r, IM.ObjectMember))]
    if not c.branch(there):
        return gs
    return gs + [("name", eq(get(r, "_key"), name)), ("parent", eq(get(r, "parinst"), self)),
                 ("siblings: all other members", map_same(get(r, "siblings"), run(without, val, name))),
                 ("value", eq(get(r, "value"), run(item, val, name))),
                 ("schema node", eq(get(r, "schema_node"), child_of(self, name)))]


def inst_ok(c, self, *a):
    pass


for nm, sh in OBJECTS:
    Contract(N_ + "__getitem__", [sh, Str], ensures=getmember_ens, raises=(NI, NSN), props=P, variant="member of " + nm)


def getentry_ens(c, args, out, old):
    self, key = args
    lst = get(self, "value")
    n = lst.seq.nz()
    k = ops.raw_term(key)
    inside = z3.And(k >= -n, k < n)
    if out.kind == "exc":
        return [("there is no such entry", z3.And(issubclass(out.value.cls, NI), z3.Not(inside)))]
    r = out.value
    gs = [("there is such an entry", inside), ("an entry", is_new(r, IM.ArrayEntry))]
    if not c.branch(inside):
        return gs
    pos = z3.If(k < 0, k + n, k)
    return gs + [("position", ops.raw_term(get(r, "_key")) == pos), ("parent", eq(get(r, "parinst"), self)),
                 ("position counts the entries before", pos == get(r, "before").seq.nz()),
                 ("array content", seq_same(run(entry_list, r), lst)),
                 ("value", eq(get(r, "value"), lst.seq.get(pos))),
                 ("schema node", eq(get(r, "schema_node"), get(self, "schema_node")))]


Contract(N_ + "__getitem__", [ARRAYS, Int], ensures=getentry_ens, raises=(NI,), props=P, variant="entry")
SCALARV = AnyV(("none", "bool", "int", "str", "dec", "bytes"), refs=((tuple, WORDS),))
Contract(N_ + "__getitem__", [ObjS(IM.ObjectMember, attrs={"value": SCALARV}), OneOf(Str, Int)], props=P, variant="scalar",
         ensures=lambda c, args, out, old: [("refused", out.kind == "exc" and issubclass(out.value.cls, IVE))], raises=(IVE,))
Contract(N_ + "__getitem__", [ARRAYS, Str], props=P, variant="name of entry", raises=(NI,),
         ensures=lambda c, args, out, old: [("refused", out.kind == "exc")])
Contract(N_ + "__getitem__", [OBJECTS[1][1], Int], props=P, variant="index of member", raises=(NI,),
         ensures=lambda c, args, out, old: [("refused", out.kind == "exc")])


# ---------------------------------------------------------------- going up
def up_ens(c, args, out, old):
    self, = args
    if out.kind != "ret":
        return []
    r, par = out.value, ops.resolve(get(self, "parinst"))
    k = par.cls
    gs = [("same kind as the parent", is_new(r, k) if k else False), ]
    if not gs[0][1]:
        return gs
    want = run(entry_list if self.cls is IM.ArrayEntry else member_dict, self)
    val = get(r, "value")
    content = seq_same(val, want) if self.cls is IM.ArrayEntry else map_same(val, want)
    gs += [("value: the object or array with the receiver in it", content),
           ("kind of value", val.cls is (ArrayValue if self.cls is IM.ArrayEntry else ObjectValue)),
           ("schema node of the parent", eq(get(r, "schema_node"), get(par, "schema_node"))),
           ("path is computed afresh", get(r, "_path") is None)]
    if k is IM.ObjectMember:
        gs += [("name of the parent", eq(get(r, "_key"), get(par, "_key"))),
               ("siblings of the parent", map_same(get(r, "siblings"), get(par, "siblings")))]
    elif k is IM.ArrayEntry:
        gs += [("index of the parent", eq(get(r, "_key"), get(par, "_key"))),
               ("entries before", seq_same(get(r, "before"), get(par, "before"))),
               ("entries after", seq_same(get(r, "after"), get(par, "after")))]
    if k is not IM.RootNode:
        gs.append(("parent of the parent", eq(get(r, "parinst"), get(par, "parinst"))))
    else:
        gs.append(("schema data", eq(get(r, "schema_data"), get(par, "schema_data"))))
    return gs


def with_parent(kind):
    return ObjS(IM.ObjectMember if kind is not None else IM.ArrayEntry, attrs={"parinst": ObjS(kind or IM.ObjectMember)})


for cls, par in ((IM.ObjectMember, IM.RootNode), (IM.ObjectMember, IM.ObjectMember), (IM.ObjectMember, IM.ArrayEntry),
                 (IM.ArrayEntry, IM.ObjectMember)):
    Contract(N_ + "up", [ObjS(cls, attrs={"parinst": ObjS(par)})], requires=lambda c, self: None, ensures=up_ens, props=P,
             variant=f"{cls.__name__} in {par.__name__}")
Contract(IN + "RootNode.up", [ROOTN], raises=(NI,), props=P,
         ensures=lambda c, args, out, old: [("the root has no parent", out.kind == "exc" and issubclass(out.value.cls, NI))])


# ---------------------------------------------------------------- siblings, new members, deletion, update
def opt_iname(n):
    return a_iname(ctx(), n, [], {})


def sibling_ens(c, args, out, old):
    self, name = args
    psn = ops.resolve(get(get(self, "parinst"), "schema_node"))
    q = run(qname, name, get(psn, "ns"))
    ch = a_data_child(c, psn, list(q), {})
    if ch is None:
        return [("not in the schema", out.kind == "exc" and issubclass(out.value.cls, NSN))]
    nm = opt_iname(ch)
    there = has(get(self, "siblings"), nm)
    if out.kind == "exc":
        return [("there is no such sibling", z3.And(issubclass(out.value.cls, NI), z3.Not(there)))]
    r = out.value
    gs = [("there is such a sibling", there)]
    if not c.branch(there):
        return gs
    obj = run(member_dict, self)
    return gs + member_facts(r, self, nm, obj, run(item, get(self, "siblings"), nm), get(self, "timestamp")) + [
        ("schema node", eq(get(r, "schema_node"), ch))]


def internal_parent(c, self, name):
    member_ok(c, self)
    sn = ops.resolve(get(get(self, "parinst"), "schema_node"))
    c.assume(z3.Or(*[clsid_f(sn.ref) == clsid(k) for k in (SNM.ContainerNode, SNM.ListNode, SNM.SchemaTreeNode)]))


for par, sns in ((IM.RootNode, (SNM.SchemaTreeNode,)), (IM.ObjectMember, (SNM.ContainerNode,)), (IM.ArrayEntry, (SNM.ListNode,))):
    Contract(O + "sibling", [ObjS(IM.ObjectMember, attrs={"parinst": ObjS(par, attrs={"schema_node": ObjS(*sns)})}), Str],
             requires=member_ok, ensures=sibling_ens, raises=(NI, NSN), props=P, variant="in " + par.__name__)


def withitem(d, k, v):
    r = dict(d)
    r[k] = v
    return r


def same_place(r, self, gs=None):
    """r is self with another value."""
    gs = list(gs or [])
    ok = is_new(r, self.cls)
    gs.append(("same kind of node", ok))
    if not ok:
        return gs
    gs += [("same schema node", eq(get(r, "schema_node"), get(self, "schema_node"))),
           ("path is computed afresh", get(r, "_path") is None)]
    if self.cls is IM.RootNode:
        gs.append(("schema data", eq(get(r, "schema_data"), get(self, "schema_data"))))
        return gs
    gs += [("same parent", eq(get(r, "parinst"), get(self, "parinst"))), ("same key", eq(get(r, "_key"), get(self, "_key")))]
    if self.cls is IM.ObjectMember:
        gs.append(("same siblings", map_same(get(r, "siblings"), get(self, "siblings"))))
    else:
        gs += [("same entries before", seq_same(get(r, "before"), get(self, "before"))),
               ("same entries after", seq_same(get(r, "after"), get(self, "after")))]
    return gs


def put_ens(c, args, out, old):
    self, name, v = args[:3]
    raw = len(args) > 3
    ch = child_of(self, name)
    if ch is None:
        return [("not in the schema", out.kind == "exc" and issubclass(out.value.cls, NSN))]
    if out.kind == "exc":
        return [("only a raw value is refused", raw and issubclass(out.value.cls, RawTypeError))]
    nm = opt_iname(ch)
    r = out.value
    if raw:
        v = CELL.wrap(uf("cooked", I, V, V)(ch.ref, ops.to_V(v)))
    par = get(r, "parinst")
    gs = [("a member", is_new(r, IM.ObjectMember)), ("name", eq(get(r, "_key"), nm)), ("value", eq(get(r, "value"), v)),
          ("siblings: all other members", map_same(get(r, "siblings"), run(without, run(withitem, get(self, "value"), nm, v), nm))),
          ("parent has the new member", map_same(get(par, "value"), run(withitem, get(self, "value"), nm, v)))]
    return gs + [("parent: " + n, g) for n, g in same_place(par, self)]


def root_iname(c, self, *a):
    """The instance name of a member names that member in this object (C18)."""
    entry_ok(c, self) if self.cls is IM.ArrayEntry else member_ok(c, self) if self.cls is IM.ObjectMember else None
    name = a[0]
    ch = child_of(self, name)
    if ch is not None:
        nm = opt_iname(ch)
        ns = ns_of(self)
        if ns is not None:
            c.fact(ops.raw_term(run(local_name, ns, nm)) == nm.t)
        sn = ops.resolve(get(self, "schema_node"))
        f = uf("data_child", I, STR, STR, I)
        t1, t2 = (f(sn.ref, *[ops.raw_term(x) for x in run(qname, y, get(sn, "ns"))]) for y in (name, nm))
        c.fact(t1 == t2)


for nm_, sh in OBJECTS:
    Contract(N_ + "put_member", [sh, Str, CELL], requires=root_iname, ensures=put_ens, raises=(NSN,), props=P, variant="in " + nm_)
    Contract(N_ + "put_member", [sh, Str, JSON, Const(True)], requires=root_iname, ensures=put_ens, raises=(NSN, RawTypeError),
             modifies=[(0, "_path")], props=P, variant="raw, in " + nm_)
Contract(N_ + "put_member", [ObjS(IM.ObjectMember, attrs={"value": OneOf(SCALARV, ARRT)}), Str, CELL], props=P, raises=(IVE,),
         variant="not an object", ensures=lambda c, args, out, old: [("refused", out.kind == "exc")])


def del_ens(c, args, out, old):
    self, key = args
    val = get(self, "value")
    ns = ns_of(self)
    nm = run(local_name, ns, key) if ns is not None else key
    there = has(val, nm)
    if out.kind == "exc":
        return [("there is no such member", z3.And(issubclass(out.value.cls, NI), z3.Not(there)))]
    r = out.value
    gs = [("there is such a member", there)]
    if not c.branch(there):
        return gs
    return gs + same_place(r, self) + [("all other members remain", map_same(get(r, "value"), run(without, val, nm))),
                                       ("an object", get(r, "value").cls is ObjectValue)]


for nm_, sh in OBJECTS:
    Contract(N_ + "delete_item", [sh, Str], ensures=del_ens, raises=(NI,), props=P, variant="in " + nm_)


def without_entry(lst, i):
    return [lst[j] for j in range(len(lst) - 1)] if False else list(lst[:i]) + list(lst[i + 1:])


def dele_ens(c, args, out, old):
    self, key = args
    lst = get(self, "value")
    n = lst.seq.nz()
    k = ops.raw_term(key)
    inside = z3.And(k >= -n, k < n)
    if out.kind == "exc":
        return [("there is no such entry", z3.And(issubclass(out.value.cls, NI), z3.Not(inside)))]
    gs = [("there is such an entry", inside)]
    if not c.branch(inside):
        return gs
    pos = S("int", z3.If(k < 0, k + n, k))
    return gs + same_place(out.value, self) + [
        ("all other entries remain", seq_same(get(out.value, "value"), run(without_entry, lst, pos)))]


Contract(N_ + "delete_item", [ARRAYS, Int], ensures=dele_ens, raises=(NI,), props=P, variant="entry")
Contract(N_ + "delete_item", [ARRAYS, Str], ensures=lambda c, args, out, old: [("refused", out.kind == "exc")], raises=(NI,), props=P,
         variant="name of entry")
Contract(N_ + "delete_item", [ObjS(IM.ObjectMember, attrs={"value": SCALARV}), OneOf(Str, Int)], props=P, raises=(IVE,),
         variant="scalar", ensures=lambda c, args, out, old: [("refused", out.kind == "exc")])


def upd_ens(c, args, out, old):
    self, v = args[:2]
    if out.kind != "ret":
        return []
    if len(args) > 2:
        v = CELL.wrap(uf("cooked", I, V, V)(get(self, "schema_node").ref, ops.to_V(v)))
    return same_place(out.value, self) + [("value", eq(get(out.value, "value"), v))]


def any_ok(c, self, *a):
    entry_ok(c, self) if self.cls is IM.ArrayEntry else member_ok(c, self) if self.cls is IM.ObjectMember else None


def a_timestamp(c, o, a, kw):
    return TS.wrap(c.fresh("ts", I))


for k in (IM.ObjectMember, IM.ArrayEntry):
    Contract(f"{IN}{k.__name__}.update", [ObjS(k), CELL], requires=any_ok, ensures=upd_ens, props=P, variant=k.__name__) if k is IM.ArrayEntry \
        else Contract(N_ + "update", [ObjS(k), CELL], requires=any_ok, ensures=upd_ens, props=P, variant=k.__name__)
Contract(N_ + "update", [ROOTN, OBJT], ensures=upd_ens, props=P, variant="RootNode")
Contract(N_ + "update", [MEMB, JSON, Const(True)], requires=any_ok, ensures=upd_ens, raises=(RawTypeError,), props=P, variant="raw", modifies=[(0, "_path")])


# ---------------------------------------------------------------- list lookup by key values
def lookup_body(names):
    def body(c, run_, self, *vals):
        try:
            return interp.call_method(self, "look_up", [], dict(zip(names, vals)))
        except PyExc as e:
            return e
    return body


def first_match(lst, names, vals):
    """Position of the first entry whose members have the values, or -1."""
    for i in range(len(lst)):
        if all(n in lst[i] and lst[i][n] == v for n, v in zip(names, vals)):
            return i
    return -1


LENTRY = DictS(Str, CELL, cls=ObjectValue, attrs={"timestamp": TS})
LISTV = ListS(LENTRY, cls=ArrayValue, attrs={"timestamp": TS})


def lookup_ens(names):
    def ens(c, args, out, old):
        self, vals = args[0], args[1:]
        r = out.value
        pos = run(first_match, get(self, "value"), names, tuple(vals))
        pos = ops.raw_term(pos) if not isinstance(pos, int) else z3.IntVal(pos)
        if isinstance(r, PyExc):
            return [("refused only when no entry matches", z3.And(issubclass(r.cls, NI), pos == -1))]
        return [("first matching entry", z3.And(pos >= 0, ops.raw_term(get(r, "_key")) == pos)),
                ("its array", eq(get(r, "parinst"), self))]
    return ens


LISTI = ObjS(IM.ObjectMember, attrs={"value": LISTV, "schema_node": ObjS(SNM.ListNode)})
for names in ((), ("k",), ("k", "l")):
    Contract(N_ + "look_up", [LISTI] + [CELL] * len(names), body=lookup_body(names), ensures=lookup_ens(names), props=P,
             variant=f"{len(names)} keys", bounded="up to 2 keys")
Contract(N_ + "look_up", [ObjS(IM.ObjectMember, attrs={"value": CELL, "schema_node": ObjS(SNM.LeafListNode, SNM.ContainerNode,
         SNM.LeafNode)})], props=P, variant="not a list", raises=(IVE,),
         ensures=lambda c, args, out, old: [("refused", out.kind == "exc")])


# ---------------------------------------------------------------- position in the whole tree
def chain(kinds):
    """Instance node below the given ancestors (root first)."""
    sh = ObjS(IM.RootNode)
    for k in kinds:
        sh = ObjS(IM.ObjectMember if k == "m" else IM.ArrayEntry, attrs={"parinst": sh, "_path": OneOf(Const(None))})
    return sh


def path_ens(kinds):
    def ens(c, args, out, old):
        self, = args
        if out.kind != "ret":
            return []
        keys, o = [], self
        for _ in kinds:
            keys.insert(0, get(o, "_key"))
            o = ops.resolve(get(o, "parinst"))
        return [("keys from the root down", eq(ops.resolve(out.value), tuple(keys))),
                ("kept for the next time", eq(get(self, "_path"), tuple(keys)))]
    return ens


def jp_ens(kinds):
    def ens(c, args, out, old):
        self, = args
        if out.kind != "ret":
            return []
        parts, o = [], self
        for _ in kinds:
            parts.insert(0, get(o, "_key"))
            o = ops.resolve(get(o, "parinst"))
        return [("JSON pointer", eq(out.value, run(jp, tuple(parts))))]
    return ens


def jp(keys):
    r = ""
    for k in keys:
        r = r + "/" + str(k)
    return r if r else "/"


def top_ens(kinds):
    def ens(c, args, out, old):
        self, = args
        if out.kind != "ret":
            return []
        r = out.value
        val, o = None, self
        for k in reversed(kinds):
            val = run(entry_with if k == "e" else member_with, o, get(o, "value") if val is None else val)
            val = run(as_value, val)
            o = ops.resolve(get(o, "parinst"))
        if not kinds:
            return [("the root itself", r is self)]
        return [("a root", is_new(r, IM.RootNode)), ("whole tree with the receiver in it", ops.same(get(r, "value"), val)),
                ("schema node", eq(get(r, "schema_node"), get(o, "schema_node")))]
    return ens


def as_value(v):
    return ArrayValue(v) if isinstance(v, list) else ObjectValue(v)


for kinds in ("", "m", "mm", "me", "mem", "mmme"):
    b = "depth up to 4"
    Contract(N_ + "path", [chain(kinds)], ensures=path_ens(kinds), props=P, variant=kinds or "root", bounded=b, modifies=[(0, "_path")])
    Contract(N_ + "json_pointer", [chain(kinds)], ensures=jp_ens(kinds), props=P, variant=kinds or "root", bounded=b,
             modifies=[(0, "_path")])
    if len(kinds) < 4:
        Contract(N_ + "top", [chain(kinds)], ensures=top_ens(kinds), props=P, variant=kinds or "root", bounded="depth up to 3")


def use_pointer(c, fn, a, kw):
    """Some text, and perhaps the path is now stored."""
    o = ops.resolve(a[0])
    c.write(o, "_path")
    return S("str", uf("pointer", I, STR)(ref(o)))


use(N_ + "json_pointer", use_pointer)
