"""C10: defaults are added where they are in use, and nothing that is present changes."""
from .c08 import *
from pyvc import models
from pyvc.inv import LoopInv
from yangson import datatype as D

P = ("C10",)
DEF = OneOf(Const(None), CELL)
attrs(SNM.TerminalNode, type=ObjS(D.DataType), _default=CELL)
attrs(D.DataType, default=CELL)
attrs(SNM.LeafNode, _mandatory=Bool)
attrs(SNM.SequenceNode, min_elements=Int)
attrs(SNM.ChoiceNode, default_case=Opt(TupS(Str, Str)))
none = lambda v: ops.to_V(v) == V.none


def default_ens(leaflist):
    def ens(c, args, out, old):
        self, = args
        if out.kind != "ret":
            return []
        mand = (ops.raw_term(get(self, "min_elements")) > 0) if leaflist else ops.truth_term(get(self, "_mandatory"))
        own, ty = get(self, "_default"), get(get(self, "type"), "default")
        r = ops.resolve(out.value)
        if c.branch(mand):
            return [("a mandatory node has no default", r is None)]
        if c.branch(z3.Not(none(own))):
            return [("its own default comes first", eq(r, own))]
        if leaflist and c.branch(z3.Not(none(ty))):
            return [("else the one of its type, as the only entry",
                     isinstance(r, Obj) and r.cls is ArrayValue and z3.And(r.seq.nz() == 1, zb(eq(r.seq.get(z3.IntVal(0)), ty))))]
        return [("else the one of its type", eq(r, ty))]
    return ens


Contract(N + "LeafNode.default", [LEAF], ensures=default_ens(False), props=P)
Contract(N + "LeafListNode.default", [LLIST], ensures=default_ens(True), props=P)


# ---------------------------------------------------------------- one node
CTO = OneOf(Const(None), CT)


def a_when(c, o, a, kw):
    """A condition evaluated at a place: the value found there does not matter, the place is its name and parent."""
    return S("bool", uf("when_holds", I, B)(o.ref))


AbstractContract(Expr, "evaluate", a_when, always=True)



def knows(c, self, pnode, *a):
    """The node is what its name denotes in the parent (C18)."""
    entry_ok(c, pnode) if pnode.cls is IM.ArrayEntry else member_ok(c, pnode) if pnode.cls is IM.ObjectMember else None
    nm = S("str", uf("iname", I, STR)(self.ref))
    sn = ops.resolve(get(pnode, "schema_node"))
    ns = ns_of(pnode)
    if ns is not None:
        c.fact(ops.raw_term(run(local_name, ns, nm)) == nm.t)
    ch = child_of(pnode, nm)
    if ch is None:
        raise Infeasible()
    c.fact(ops.resolve(ch).ref == self.ref)


def in_use(c, self):
    w = get(self, "when")
    return z3.BoolVal(True) if w is None else uf("when_holds", I, B)(ref(w))


def ref(x):
    return ops.resolve(x).ref


def inst_ens():
    def ens(c, args, out, old):
        self, pnode, ct, lazy = args
        if out.kind != "ret":
            return []
        r = ops.resolve(out.value)
        val = get(pnode, "value")
        nm = S("str", uf("iname", I, STR)(self.ref))
        there = zb(ops.map_has_term(val.map, nm.t, STR))
        if c.branch(there):
            return [("present data is left alone", same_obj(r, pnode))]
        if not c.branch(in_use(c, self)):
            return [("no default when the condition is false", same_obj(r, pnode))]
        d = ops.resolve(a_default(c, self, [], {}))
        if d is None:
            return [("nothing to add", same_obj(r, pnode))]
        return [("the default and nothing else is added", map_same(get(r, "value"), run(withitem, val, nm, d)))] + same_place(r, pnode)
    return ens


def a_default(c, o, a, kw):
    return CELL.wrap(uf("default_of", I, V)(o.ref))


AbstractContract(SNM.LeafNode, "default", a_default, always=True)
AbstractContract(SNM.LeafListNode, "default", a_default, always=True)
for nm_, sh in OBJECTS:
    Contract(N + "DataNode._default_instance", [ObjS(SNM.LeafNode, SNM.LeafListNode), sh, CTO, Bool], requires=knows,
             ensures=inst_ens(), props=P, variant="in " + nm_)


def cont_ens(c, args, out, old):
    self, pnode, ct, lazy = args
    if out.kind != "ret":
        return []
    r = ops.resolve(out.value)
    if c.branch(ops.truth_term(get(self, "presence"))):
        return [("a presence container has no default", same_obj(r, pnode))]
    val = get(pnode, "value")
    nm = S("str", uf("iname", I, STR)(self.ref))
    if c.branch(zb(ops.map_has_term(val.map, nm.t, STR))):
        return [("present data is left alone", same_obj(r, pnode))]
    if not c.branch(in_use(c, self)):
        return [("no default when the condition is false", same_obj(r, pnode))]
    new = get(r, "value")
    f, v = new.map.lookup(nm)
    v = ops.resolve(v) if f else None
    gs = [("the container is added", f), ("all else is left alone", map_same_but(new, val, nm))]
    if f:
        gs.append(("an object", isinstance(v, Obj) and v.cls is ObjectValue))
    if c.branch(ops.truth_term(lazy)) and f:
        gs.append(("empty if lazy", zb(v.map.concrete and not v.map.writes)))
    return gs + same_place(r, pnode)


def map_same_but(a, b, nm):
    return ops.map_eq_term(a.map.write(nm, None), b.map.write(nm, None), ops.same)


for nm_, sh in OBJECTS:
    Contract(N + "ContainerNode._default_instance", [CONT, sh, CTO, Const(True)], requires=knows, ensures=cont_ens, props=P,
             variant="lazy, in " + nm_)


def same_inst(c, args, out, old):
    return [("nothing is added", out.kind == "ret" and same_obj(ops.resolve(out.value), args[1]))]


Contract(N + "ListNode._default_instance", [LIST, ANYINST, CTO, Bool], ensures=same_inst, props=P)
Contract(N + "AnyContentNode._default_instance", [ObjS(SNM.AnydataNode, SNM.AnyxmlNode), ANYINST, CTO, Bool], ensures=same_inst, props=P)


# ---------------------------------------------------------------- groups of nodes
OBJINST = ObjS(IM.ObjectMember, attrs={"value": OBJT})


def new_instance(c, v):
    """An arbitrary member holding an object (the result of adding defaults)."""
    return OBJINST.make("inst_%d" % c.engine.next_id())


def extends(a, b):
    """Everything in a is in b."""
    return ops.map_eq_term(a.map, b.map, ops.same, sub=True)


def a_default_instance(c, o, a, kw):
    """What the contracts above prove: present data stays, the place stays; a wanted default is there."""
    return grown(c, o, a[0], "default_instance", [index(a[1])])


def index(ct):
    ct = ops.resolve(ct)
    return z3.IntVal(-1) if ct is None else z3.IntVal(list(ContentType).index(ct))


def grown(c, o, inst, kind, more):
    inst = ops.resolve(inst)
    r = OBJINST.wrap(uf(kind, I, I, I, I)(o.ref, inst.ref, *more))
    c.fact(zb(extends(get(inst, "value"), get(r, "value"))))
    x = z3.Int("dn!%d" % c.engine.next_id())
    c.fact(z3.ForAll([x], z3.Implies(done(x, inst, more[0]), done(x, r, more[0])), patterns=[done(x, r, more[0])]))
    c.fact(done(o.ref, r, more[0]))
    for a in ("parinst", "_key", "schema_node"):
        c.fact(zb(same_obj(get(r, a), get(inst, a))))
    return r


def done(o, inst, ct):
    """The defaults of schema node o for content ct are in the instance; growth keeps them."""
    return uf("defaults_done", I, I, I, B)(o, ref(inst), ct)


NOT_DATA = (SNM.RpcActionNode, SNM.NotificationNode)


def is_op(node):
    return ops.truth_term(interp.call(isinstance, [node, NOT_DATA], {}))


AbstractContract(SNM.DataNode, "_default_instance", a_default_instance, always=True)


def a_add(c, o, a, kw):
    return grown(c, o, a[0], "add_defaults", [index(a[1])])


def add_inv(c, v, i, seq):
    inst, inst0 = ops.resolve(v.inst), ops.resolve(v.pre["inst"])
    gs = [("present data stays", extends(get(inst0, "value"), get(inst, "value")))]
    gs += [("same " + a, same_obj(get(inst, a), get(inst0, a))) for a in ("parinst", "_key", "schema_node")]
    gs.append(("all children so far have been visited",
               all_of(i, lambda j: done(ref(seq.get(j)), inst, index(v.ctype)))))
    return gs


def add_ens(c, args, out, old):
    self, inst, ct = args[:3]
    if out.kind != "ret":
        return []
    r = ops.resolve(out.value)
    kept = run(SNM.InternalNode.filter_children, self, ct)
    kids = get(self, "children")
    j = c.fresh("child", I)
    c.assume(z3.And(j >= 0, j < kids.seq.nz()))
    if hasattr(kept.seq, "covers"):
        kept.seq.covers(j)
    k = kids.seq.get(j)
    eff = a_ctype(c, self, [], {}) if ops.resolve(ct) is None else ct
    want = ops.raw_term(ops.arith("&", get(a_ctype(c, k, [], {}), "value"), get(eff, "value"))) != 0
    return [("every child in scope is visited", z3.Implies(z3.And(z3.Not(zb(is_op(k))), want), done(ref(k), r, index(ct)))),
            ("present data stays", extends(get(inst, "value"), get(r, "value")))] + [
        ("same " + a, same_obj(get(r, a), get(inst, a))) for a in ("parinst", "_key", "schema_node")]


for k in (SNM.ChoiceNode, SNM.CaseNode, SNM.GroupNode):
    AbstractContract(k, "_add_defaults", a_add, always=True)
Contract(N + "InternalNode._add_defaults", [ObjS(SNM.ContainerNode, SNM.ListNode), OBJINST, CTO, Bool], ensures=add_ens, props=P,
         loops=[LoopInv({"inst": new_instance}, add_inv)])


# ---------------------------------------------------------------- choices, cases and conditional groups
attrs(SNM.SchemaNode, parent=Opt(ObjS(SNM.ContainerNode, SNM.ListNode, SNM.ChoiceNode, SNM.CaseNode, SNM.GroupNode)))
DCHILD = ObjS(SNM.LeafNode, SNM.LeafListNode, SNM.ListNode, SNM.ContainerNode, SNM.AnydataNode, SNM.AnyxmlNode)
CASELIST, DATA = ListS(CASE), ListS(DCHILD)
cases_of = lambda self: CASELIST.wrap(uf("cases_of", I, I)(self.ref))
data_of = lambda case: DATA.wrap(uf("data_children_of", I, I)(ref(case)))
use("yangson.schemanode:ChoiceNode._cases", lambda c, fn, a, kw: cases_of(ops.resolve(a[0])))
AbstractContract(SNM.CaseNode, "data_children", lambda c, o, a, kw: data_of(o), always=True)
iname_t = lambda d: uf("iname", I, STR)(ref(d))


def active(case, val):
    """Some member of val instantiates a data node of the case."""
    return ex(data_of(case), lambda d: zb(ops.map_has_term(val.map, iname_t(d), STR)))


def active_ens(c, args, out, old):
    self, val = args
    if out.kind != "ret":
        return []
    r = ops.resolve(out.value)
    if r is None:
        return [("no case has data", z3.Not(ex(cases_of(self), lambda k: active(k, val))))]
    return [("one of the cases", ex(cases_of(self), lambda k: ref(k) == r.ref)),
            ("its data is present", active(r, val))]


Contract(N + "ChoiceNode._active_case", [CHOICE, OBJT], ensures=active_ens, props=P)


def a_active(c, o, a, kw):
    r = Opt(CASE).wrap(uf("active_case", I, I, I)(o.ref, ref(a[0])))
    return r


def gated_ens(c, args, out, old):
    """A false condition keeps everything below out; otherwise the children are processed."""
    self, inst, ct = args[:3]
    if out.kind != "ret":
        return []
    r = ops.resolve(out.value)
    if not c.branch(in_use(c, self)):
        return [("nothing is added when the condition is false", same_obj(r, inst))]
    return add_ens(c, args, out, old)


for k in (SNM.CaseNode, SNM.GroupNode):
    Contract(N + k.__name__ + "._add_defaults", [ObjS(k), OBJINST, CTO, Bool], ensures=gated_ens, props=P,
             loops=[LoopInv({"inst": new_instance}, add_inv, target=N + "InternalNode._add_defaults")])


CHAIN = ObjS(SNM.CaseNode, attrs={"parent": OneOf(CHOICE, ObjS(SNM.GroupNode, attrs={"parent": CHOICE}))})


def chain(c, self, dc):
    """The nodes from the default case up to the choice: the case itself, perhaps a conditional group."""
    p = ops.resolve(get(dc, "parent"))
    if p.cls is SNM.ChoiceNode:
        c.assume(p.ref == self.ref)
        return [dc]
    c.assume(ref(get(p, "parent")) == self.ref)
    return [dc, p]


def a_get_child(c, o, a, kw):
    dc = CHAIN.wrap(uf("get_child", I, STR, STR, I)(o.ref, ops.raw_term(ops.resolve(a[0])), ops.raw_term(ops.resolve(a[1]))))
    chain(c, o, dc)
    return dc


AbstractContract(SNM.ChoiceNode, "_active_case", a_active, always=True)
AbstractContract(SNM.ChoiceNode, "get_child", a_get_child, always=True)


def choice_ens(c, args, out, old):
    self, inst, ct = args
    if out.kind != "ret":
        return []
    r = ops.resolve(out.value)
    if not c.branch(in_use(c, self)):
        return [("nothing is added when the condition is false", same_obj(r, inst))]
    ac = ops.resolve(a_active(c, self, [get(inst, "value")], {}))
    added = lambda k: uf("add_defaults", I, I, I, I)(ref(k), ref(inst), index(ct))
    if ac is not None:
        return [("the defaults of the active case", r.ref == added(ac))]
    d = ops.resolve(get(self, "default_case"))
    if d is None:
        return [("no active case and no default case", same_obj(r, inst))]
    dc = a_get_child(c, self, list(d) if isinstance(d, tuple) else [models.getitem(d, 0), models.getitem(d, 1)], {})
    for n in chain(c, self, dc):
        if not c.branch(in_use(c, n)):
            return [("the default case is conditional", same_obj(r, inst))]
    return [("the defaults of the default case", r.ref == added(dc))]


Contract(N + "ChoiceNode._add_defaults", [CHOICE, OBJINST, CTO], ensures=choice_ens, props=P)


# ---------------------------------------------------------------- default statements, refinements and deviations of them
from .yang import STMT, SCTX, find1_use, if_features_use, ST
use(ST + "find1", find1_use)
use("yangson.schemadata:SchemaData.if_features", if_features_use)
ROUTE = uf("route of schema node id", STR, I, I)
DESC = uf("schema descendant", I, I, I)
use("yangson.schemadata:SchemaData.sni2route", lambda c, fn, a, kw: ListS(TupS(Str, Str)).wrap(ROUTE(ops.raw_term(a[1]), ref(a[2]))))
REFINED = ObjS(SNM.LeafNode, SNM.LeafListNode, SNM.ContainerNode, SNM.ChoiceNode, attrs={"parent": ObjS(SNM.ContainerNode)})


def a_descendant(c, o, a, kw):
    t = DESC(o.ref, ref(a[0]))
    return REFINED.wrap(t) if c.branch(t > 0) else None


def a_handle(c, o, a, kw):
    """Record on which node which statement is handled, and what its default was then."""
    d = get(o, "_default") if interp.isinstance_(o, SNM.LeafListNode) else None
    c.memo.setdefault("handled", []).append((o, ops.resolve(a[0]), ops.resolve(a[1]), ops.resolve(d)))


AbstractContract(SNM.InternalNode, "get_schema_descendant", a_descendant, always=True)
AbstractContract(SNM.SchemaNode, "_handle_substatements", a_handle, always=True)


def refine_old(c, self, stmt, sctx):
    t = DESC(self.ref, ROUTE(ops.raw_term(get(stmt, "argument")), sctx.ref))
    if not c.branch(t > 0):
        return None, None, None
    o = REFINED.wrap(t)
    was = models.new_list([])
    was.seq = get(get(o, "parent"), "children").seq
    return o, was, ops.resolve(get(o, "_default")) if interp.isinstance_(o, SNM.LeafListNode) else None


def refine_ens(c, args, out, old):
    self, stmt, sctx = args
    target, was, before = old
    h = c.memo.get("handled", [])
    if out.kind != "ret":
        return []
    if target is None:
        return [("no node is touched", not h)]
    iff = ops.truth_term(if_features_use(c, None, [get(sctx, "schema_data"), stmt, get(sctx, "text_mid")], {}))
    if not c.branch(iff):
        run(lambda: was.remove(target))
        return [("a refinement switched off by its features is not applied", not h),
                ("a node switched off by its features is taken out of its parent", zb(seq_same(get(get(target, "parent"), "children"), was)))]
    if len(h) != 1:
        return [("the refinement is applied to the node once", False)]
    o, s, x, d = h[0]
    goals = [("the refinement is applied to the node once", z3.And(o.ref == target.ref, s.ref == stmt.ref, x.ref == sctx.ref))]
    if interp.isinstance_(target, SNM.LeafListNode):
        anew = find1_use(c, None, [stmt, "default"], {}) is not None
        goals.append(("refined defaults of a leaf-list replace the old ones, which otherwise stay",
                      d is None if anew else zb(ops.same(d, before))))
    return goals


Contract(N + "InternalNode._refine_stmt", [ObjS(SNM.ContainerNode), STMT, SCTX], ensures=refine_ens, old=refine_old, props=P,
         raises=(ValueError,), modifies=[lambda args, o, what: what in ("content", "_default")])


# the default statement
DLIST = OneOf(Const(None), ListS(Str))
LLD = ObjS(SNM.LeafListNode, attrs={"_default": DLIST})
LFD = ObjS(SNM.LeafNode, attrs={"_default": Opt(Str)})
CHD = ObjS(SNM.ChoiceNode)


def spec_defaults(now, arg, action):
    """The defaults of a leaf-list after a default statement, or the deviation of one."""
    if action == "add":
        return (now or []) + [arg]
    if action == "replace":
        return [arg]
    if action == "delete" and now and arg in now:
        rest = list(now)
        rest.remove(arg)
        return rest or None
    return now


def spec_default(now, arg, action):
    return None if action == "delete" else arg if action in ("add", "replace") else now


def default_of(spec):
    def old(c, self, stmt, sctx, action=None):
        d = get(self, "_default")
        d = ops.resolve(d)
        if isinstance(d, Obj):             # the list is changed in place: take its content now
            was, d = d, models.new_list([])
            d.seq = was.seq
        return run(spec, d, get(stmt, "argument"), action if action is not None else "add")
    return old


def default_now(c, args, out, old):
    d = ops.resolve(get(args[0], "_default"))
    old = ops.resolve(old)
    if isinstance(d, Obj) and isinstance(old, Obj):
        return [("the defaults in force", zb(seq_same(d, old)))]
    return [("the defaults in force", zb(ops.same(d, old)))]


for nm, sh, spec in (("LeafListNode", LLD, spec_defaults), ("LeafNode", LFD, spec_default)):
    kw = dict(ensures=default_now, old=default_of(spec), props=P, modifies=[(0, "_default"), (0, "_default.content")])
    Contract(N + nm + "._default_stmt", [sh, STMT, SCTX], **kw)
    Contract(N + nm + "._deviate_default", [sh, STMT, SCTX, Str], **kw)
