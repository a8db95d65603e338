"""C18: names and prefixes resolve to the module and the node they stand for."""
from .yang import *
from .sn import *
from .inst import get, run, zb, ex, all_of, same_obj, some_of
from .common import use
from pyvc.inv import LoopInv
from pyvc import models
from yangson.schemadata import ModuleData
from yangson.exceptions import ModuleNotImplemented, ModuleNotImported, InvalidSchemaPath

P = ("C18",)
MDATA = ObjS(ModuleData)
MIDP = PairS()
QN = PairS()
attrs(ModuleData, main_module=MIDP, yang_id=MIDP, prefix_map=DictS(Str, MIDP), submodules=SetS(MIDP))
attrs(SchemaData, modules=DictS(MIDP, MDATA), implement=DictS(Str, Str))
attrs(SchemaContext, schema_data=SD, default_ns=Str, text_mid=MIDP)
S_ = "yangson.schemadata:SchemaData."
MNR, UP = ModuleNotRegistered, UnknownPrefix


# ---------------------------------------------------------------- prefixes
def outcome_of(f):
    """("ret", value) or ("exc", class) of a specification."""
    try:
        return "ret", f()
    except PyExc as e:
        return "exc", e.cls


def as_spec(spec, same=None):
    """The outcome is that of the specification: value or error class."""
    def ens(c, args, out, old):
        k, v = old
        if out.kind != k:
            return [("a value exactly if the specification gives one", False)]
        if k == "exc":
            return [("the documented error", issubclass(out.value.cls, v))]
        return [("value", same_obj(out.value, v))]
    return dict(ensures=ens, old=lambda c, *a: outcome_of(lambda: run(spec, *a)))


def spec_namespace(self, mid):
    if mid not in self.modules:
        raise ModuleNotRegistered
    return self.modules[mid].main_module[0]


def spec_bound(self, prefix, mid):
    """The module a prefix is bound to in a module or submodule."""
    if mid not in self.modules:
        raise ModuleNotRegistered
    pm = self.modules[mid].prefix_map
    if prefix not in pm:
        raise UnknownPrefix
    return pm[prefix]


def spec_prefix2ns(self, prefix, mid):
    return spec_bound(self, prefix, mid)[0]


def spec_resolve(self, pname, mid):
    p, colon, loc = pname.partition(":")
    if colon:
        return (loc, spec_bound(self, p, mid))
    if mid not in self.modules:
        raise ModuleNotRegistered
    return (p, self.modules[mid].main_module)


def spec_translate(self, pname, mid):
    loc, m = spec_resolve(self, pname, mid)
    return (loc, spec_namespace(self, m))


def spec_node_id(self, ni, sctx):
    p, colon, loc = ni.partition(":")
    if not colon:
        return (ni, sctx.default_ns)
    return (loc, spec_namespace(self, spec_bound(self, p, sctx.text_mid)))


Contract(S_ + "namespace", [SD, MIDP], **as_spec(spec_namespace), raises=(MNR,), props=P)
Contract(S_ + "prefix2ns", [SD, Str, MIDP], **as_spec(spec_prefix2ns), raises=(MNR, UP), props=P)
Contract(S_ + "resolve_pname", [SD, Str, MIDP], **as_spec(spec_resolve), raises=(MNR, UP), props=P)
Contract(S_ + "translate_pname", [SD, Str, MIDP], **as_spec(spec_translate), raises=(MNR, UP), props=P)
Contract(S_ + "translate_node_id", [SD, Str, SCTX], **as_spec(spec_node_id), raises=(MNR, UP), props=P)


# ---------------------------------------------------------------- prefix of a module
def ens_prefix(c, args, out, old):
    s, imod, mid = args
    bad = lambda k: out.kind == "exc" and issubclass(out.value.cls, k)
    if not c.branch(zb(models.contains(get(s, "implement"), imod))):
        return [("not implemented", bad(ModuleNotImplemented))]
    if not c.branch(zb(models.contains(get(s, "modules"), mid))):
        return [("not registered", bad(MNR))]
    pm = get(models.getitem(get(s, "modules"), mid), "prefix_map")
    did = (imod, models.getitem(get(s, "implement"), imod))
    if out.kind == "ret":
        return [("it is a prefix declared in the module", zb(models.contains(pm, out.value))),
                ("bound to the implemented revision", zb(same_obj(models.getitem(pm, out.value), did)))]
    p = S("str", c.fresh("anyprefix", STR))
    if not c.branch(zb(models.contains(pm, p))):
        return [("not imported", bad(ModuleNotImported))]
    return [("not imported", bad(ModuleNotImported)), ("no prefix is bound to it", z3.Not(zb(same_obj(models.getitem(pm, p), did))))]


Contract(S_ + "prefix", [SD, Str, MIDP], ensures=ens_prefix, props=P, raises=(ModuleNotImplemented, MNR, ModuleNotImported))


# ---------------------------------------------------------------- schema children
attrs(SNM.SchemaNode, name=Opt(Str))
QNODE = ObjS(*KINDS)
attrs(SNM.InternalNode, children=ListS(QNODE))


none_ = lambda t: uf("opt.none", I, B)(t)
gc_t = lambda o, name, ns: uf("get_child", I, STR, STR, I)(ref(o), ops.raw_term(name), ops.raw_term(ns))


def a_get_child(c, o, a, kw):
    return Opt(QNODE).wrap(gc_t(o, ops.resolve(a[0]), ops.resolve(a[1])))


for k in (SNM.GroupNode, SNM.ChoiceNode, SNM.CaseNode, SNM.ContainerNode, SNM.ListNode, SNM.RpcActionNode, SNM.NotificationNode):
    AbstractContract(k, "get_child", a_get_child, always=True)


def called(k, name, ns):
    """The node has this name and namespace."""
    nm = ops.resolve(get(k, "name"))
    return nm is not None and z3.And(ops.raw_term(nm) == ops.raw_term(name), zb(same_obj(get(k, "ns"), ns)))


def nameless(k):
    return ops.resolve(get(k, "name")) is None


def ens_get_child(c, args, out, old):
    """A child with the name, or else what a nameless child (a group of nodes under a condition) has under it."""
    self, name, ns = args
    if out.kind != "ret":
        return []
    ns = get(self, "ns") if ns is None else ns
    kids = get(self, "children")
    r = ops.resolve(out.value)
    j = c.fresh("j", I)
    c.assume(z3.And(j >= 0, j < kids.seq.nz()))
    k = kids.seq.get(j)
    if r is None:
        if nameless(k):
            return [("no nameless child has it", none_(gc_t(k, name, ns)))]
        return [("no child is it", z3.Not(zb(called(k, name, ns))))]
    return [("it is a child with this name or comes from a nameless child",
             some_of(kids, lambda k: z3.And(ref(k) == r.ref, zb(called(k, name, ns))) if not nameless(k)
                     else z3.And(gc_t(k, name, ns) == r.ref)))]


OPTNS = Opt(Str)
Contract(N + "InternalNode.get_child", [ObjS(SNM.ContainerNode), Str, OPTNS], ensures=ens_get_child, props=P)


# ---------------------------------------------------------------- data children
gdc_t = lambda o, name, ns: uf("get_data_child", I, STR, STR, I)(ref(o), ops.raw_term(name), ops.raw_term(ns))


def a_get_data_child(c, o, a, kw):
    return Opt(QNODE).wrap(gdc_t(o, ops.resolve(a[0]), ops.resolve(a[1])))


for k in (SNM.GroupNode, SNM.ChoiceNode, SNM.CaseNode, SNM.ContainerNode, SNM.ListNode):
    AbstractContract(k, "get_data_child", a_get_data_child, always=True)
is_data = lambda k: ops.resolve(k) is not None and interp.isinstance_(k, SNM.DataNode) is True
is_tree = lambda k: interp.isinstance_(k, SNM.SchemaTreeNode) is True
NODELIST = ListS(QNODE)


def new_list(c, v):
    return interp.call(interp.getattr_(NODELIST.make("todo_%d" % c.engine.next_id()), "copy"), [], {})




def inv_data_child(c, v, i, seq):
    """So far no data child has the name; the nodes to look into are those passed that are not data nodes."""
    todo, name, ns = ops.resolve(v.todo), ops.resolve(v.name), ops.resolve(v.ns)

    def passed(j):
        k = seq.get(j)
        if is_tree(k):
            return True
        if is_data(k):
            return z3.Not(zb(called(k, name, ns)))
        return some_of(todo, lambda t: ref(t) == ref(k))
    p = z3.Int("td!%d" % c.engine.next_id())
    j = z3.Int("tj!%d" % c.engine.next_id())

    def from_kids(p):
        t = todo.seq.get(p)
        ps = summarize(lambda c: zb(not is_data(seq.get(j)) and not is_tree(seq.get(j))), bound=[j], rng=z3.And(j >= 0, j < i))
        return z3.Exists([j], z3.And(j >= 0, j < i, ref(seq.get(j)) == ref(t), ops.formula_of(ps)))
    return [("passed nodes", all_of(i, passed)), ("nodes to look into", all_of(todo.seq.nz(), from_kids))]


def ens_get_data_child(c, args, out, old):
    """A data child with the name, or else what a choice, case or group has under it; operations are left out."""
    self, name, ns = args
    if out.kind != "ret":
        return []
    r = ops.resolve(out.value)
    ns = get(self, "ns") if ns is None else ns
    ns = ops.resolve(ns)
    if ns is None:
        return [("no name without a module", r is None)]
    kids = get(self, "children")
    if r is None:
        j = c.fresh("j", I)
        c.assume(z3.And(j >= 0, j < kids.seq.nz()))
        k = kids.seq.get(j)
        if is_tree(k):
            return []
        if is_data(k):
            return [("no data child is it", z3.Not(zb(called(k, name, ns))))]
        return [("nothing below has it", none_(gdc_t(k, name, ns)))]
    return [("it is a data child with this name or comes from a choice, case or group", some_of(
        kids, lambda k: not is_tree(k) and (
            z3.And(ref(k) == r.ref, zb(called(k, name, ns))) if is_data(k) else z3.And(gdc_t(k, name, ns) == r.ref))))]


Contract(N + "InternalNode.get_data_child", [ObjS(SNM.ContainerNode), Str, OPTNS], ensures=ens_get_data_child, props=P,
         loops=[LoopInv({"todo": new_list}, inv_data_child)])


# ---------------------------------------------------------------- names and paths of nodes
PLAIN = ObjS(SNM.ContainerNode, SNM.LeafNode, SNM.LeafListNode, SNM.ListNode, SNM.ChoiceNode, SNM.CaseNode,
             SNM.AnydataNode, SNM.AnyxmlNode)
ABOVE = ObjS(SNM.ContainerNode, SNM.ListNode, SNM.ChoiceNode, SNM.CaseNode, SNM.GroupNode, SNM.InputNode, SNM.OutputNode,
             SNM.NotificationNode, SNM.SchemaTreeNode)
attrs(SNM.SchemaNode, parent=Opt(ABOVE))
dp_t = lambda o: uf("data_parent", I, I)(ref(o))


def a_data_parent(c, o, a, kw):
    return Opt(ABOVE).wrap(dp_t(o))


def parent_data(node):
    """Defining equation: the closest ancestor that is a data node."""
    p = ops.resolve(get(node, "parent"))
    return closest(p)


def closest(p):
    if p is None:
        return None
    if is_data(p):
        return p
    return a_data_parent(ctx(), p, [], {})


def same_opt(a, b):
    a, b = ops.resolve(a), ops.resolve(b)
    if a is None or b is None:
        return a is b
    return a.ref == b.ref


def defines(c, node):
    """The defining equation of the closest data node, for this node."""
    c.assume(zb(same_opt(a_data_parent(c, node, [], {}), parent_data(node))))


def inv_parent(c, v, i, seq):
    p = ops.resolve(v.parent)
    if p is not None and not is_data(p):
        defines(c, p)
    return [("the answer is the closest data node from here up", same_opt(a_data_parent(c, ops.resolve(v.self), [], {}), closest(ops.resolve(v.parent))))]


def ens_data_parent(c, args, out, old):
    self, = args
    return [("the closest ancestor data node", out.kind == "ret" and same_opt(out.value, parent_data(self)))]


Contract(N + "SchemaNode.data_parent", [PLAIN], ensures=ens_data_parent, props=P,
         requires=defines,
         loops=[LoopInv({"parent": Opt(ABOVE)}, inv_parent)])


def spec_iname(self):
    dp = self.data_parent()
    if dp is not None and dp.ns == self.ns:
        return self.name
    return self.ns + ":" + self.name


def a_path(c, o, a, kw):
    return S("str", uf("data_path", I, STR)(o.ref))


def spec_path(self):
    dp = self.data_parent()
    if dp is None:
        return "/" + self.iname()
    return dp.data_path() + "/" + self.iname()


def spec_qname(self, iname):
    p, colon, loc = iname.partition(":")
    if colon:
        return (loc, p)
    return (p, self.ns)


NAMED = {"name": Str}
AbstractContract(SNM.SchemaNode, "data_parent", a_data_parent, always=True)
AbstractContract(SNM.SchemaNode, "data_path", a_path, always=True)
AbstractContract(SNM.SchemaNode, "iname", a_iname, always=True)
NAMEDNODE = ObjS(*[k for k in KINDS if k not in (SNM.GroupNode, SNM.RpcActionNode, SNM.NotificationNode)], attrs=NAMED)
Contract(N + "SchemaNode.iname", [NAMEDNODE], **as_spec(spec_iname), props=P)
Contract(N + "SchemaNode.data_path", [NAMEDNODE], **as_spec(spec_path), props=P)
Contract(N + "SchemaNode._iname2qname", [NAMEDNODE, Str], **as_spec(spec_qname), props=P)


# ---------------------------------------------------------------- routes
def segments(path):
    """The names of a path; a leading slash adds none."""
    if path == "/" or path == "":
        return []
    parts = path.split("/")
    if path[0] == "/":
        return parts[1:]
    return parts


def parts_of(n):
    p, colon, loc = n.partition(":")
    if colon:
        return (True, loc, p)
    return (False, p, "")


def ens_route(c, args, out, old):
    path, = args
    if out.kind != "ret":
        return []
    segs, r = ops.resolve(old), ops.resolve(out.value)
    n = segs.seq.nz()
    j = c.fresh("j", I)
    goals = [("one step per name", r.seq.nz() == n)]
    c.assume(z3.And(j >= 0, j < n))
    q, loc, ns = run(parts_of, segs.seq.get(j))
    name, mod = models.getitem(r.seq.get(j), 0), models.getitem(r.seq.get(j), 1)
    goals.append(("local name", zb(same_obj(name, loc))))
    if q is True or (not isinstance(q, bool) and c.branch(zb(q))):
        return goals + [("its own qualifier", zb(same_obj(mod, ns)))]
    c_prev = models.getitem(r.seq.get(j - 1), 1)
    return goals + [("the first name is qualified", j > 0), ("the qualifier of the name before", zb(same_obj(mod, c_prev)))]


def inv_route(c, v, i, seq):
    res, prev = ops.resolve(v.res), ops.resolve(v.prevns)

    def local(j):
        q, loc, ns = run(parts_of, seq.get(j))
        return same_obj(models.getitem(res.seq.get(j), 0), loc)

    def own(j):
        q, loc, ns = run(parts_of, seq.get(j))
        return q is not True or same_obj(models.getitem(res.seq.get(j), 1), ns)

    def inherited(j):
        q, loc, ns = run(parts_of, seq.get(j))
        return q is True or same_obj(models.getitem(res.seq.get(j), 1), models.getitem(res.seq.get(j - 1), 1))
    goals = [("length", res.seq.nz() == i), ("local names", all_of(i, local)), ("qualifiers", all_of(i, own)),
             ("inherited qualifiers", all_of(i, inherited, lo=1)),
             ("first name", z3.Implies(i > 0, zb(run(parts_of, seq.get(z3.IntVal(0)))[0])))]
    if prev is None:
        return goals + [("no qualifier yet", i == 0)]
    return goals + [("some step is done", i > 0), ("last module", zb(same_obj(prev, models.getitem(res.seq.get(i - 1), 1)))),
                    ("not empty", zb(prev != ""))]


def new_route(c, v):
    return interp.call(interp.getattr_(ROUTE.make("res_%d" % c.engine.next_id()), "copy"), [], {})


ROUTE = ListS(QN)
Contract(S_ + "path2route", [Str], ensures=ens_route, old=lambda c, p: run(segments, p), props=P, raises=(InvalidSchemaPath,),
         loops=[LoopInv({"res": new_route, "prevns": Opt(Str)}, inv_route)])


# ---------------------------------------------------------------- following a route
ANYN = ObjS(SNM.ContainerNode, SNM.LeafNode, SNM.ListNode, SNM.ChoiceNode, SNM.CaseNode, SNM.RpcActionNode, SNM.NotificationNode)
T_ROUTE = ListS(QN)


def step_to(c, which, node, p):
    """What one step leads to: None when there is nothing below."""
    if not interp.isinstance_(node, SNM.InternalNode):
        return None
    return Opt(QNODE).wrap((gc_t if which == "schema" else gdc_t)(node, models.getitem(p, 0), models.getitem(p, 1)))


def rec_route(which):
    """Recursion on the route: follow(node, i) is the node the steps from i on lead to."""
    f = uf("follow_" + which, I, I, I, I)

    def at(c, route, node, i):
        return Opt(QNODE).wrap(f(ref(node), route.ref, i))

    def defines(c, route, node, i, n):
        """Assumes the equation at (node, i): itself at the end, else what the step's result leads to."""
        if c.branch(i >= n):
            c.assume(zb(same_opt(at(c, route, node, i), node)))
            return
        nxt = step_to(c, which, node, route.seq.get(i))
        if nxt is None:
            c.assume(none_(f(ref(node), route.ref, i)))
        else:
            c.assume(f(ref(node), route.ref, i) == f(ref(nxt), route.ref, i + 1))
    return f, at, defines


FS, FS_AT, FS_DEF = rec_route("schema")
FD, FD_AT, FD_DEF = rec_route("data")


def ens_descendant(c, args, out, old):
    self, route = args
    if out.kind != "ret":
        return [("an answer", False)]
    FS_DEF(c, route, self, z3.IntVal(0), route.seq.nz())
    return [("the node the route leads to, or none", zb(same_opt(out.value, FS_AT(c, route, self, z3.IntVal(0)))))]


def inv_descendant(c, v, i, seq):
    node, self, route = ops.resolve(v.node), ops.resolve(v.self), ops.resolve(v.route)
    FS_DEF(c, route, node, i if not isinstance(i, int) else z3.IntVal(i), seq.nz())
    return [("the rest of the route leads to the same node", FS(ref(self), route.ref, z3.IntVal(0)) == FS(ref(node), route.ref, i))]


for k in (SNM.LeafNode, SNM.LeafListNode, SNM.AnydataNode, SNM.AnyxmlNode):
    attrs(k, get_child=interp.MISSING, get_data_child=interp.MISSING)
Contract(N + "InternalNode.get_schema_descendant", [QNODE, T_ROUTE], ensures=ens_descendant, props=P,
         loops=[LoopInv({"node": QNODE}, inv_descendant)])


# ---------------------------------------------------------------- the public entries
from yangson.datamodel import DataModel
DM = ObjS(DataModel)
attrs(DataModel, schema=ROOT, schema_data=SD)
route_of = uf("route_of_path", STR, I)


def use_route(c, fn, args, kw):
    if c.branch(uf("bad_path", STR, B)(ops.raw_term(args[-1]))):
        raise PyExc(InvalidSchemaPath)
    return T_ROUTE.wrap(route_of(ops.raw_term(args[-1])))


use(S_ + "path2route", use_route)


def ens_data_node(c, args, out, old):
    self, path = args
    if out.kind != "ret":
        return [("invalid path", issubclass(out.value.cls, InvalidSchemaPath))]
    root, route = get(self, "schema"), T_ROUTE.wrap(route_of(ops.raw_term(path)))
    n = route.seq.nz()
    if c.branch(n == 0):
        return [("the root is no data node", ops.resolve(out.value) is None)]
    FD_DEF(c, route, root, z3.IntVal(0), n)
    return [("the node the route leads to, or none", zb(same_opt(out.value, FD_AT(c, route, root, z3.IntVal(0)))))]


def inv_data_node(c, v, i, seq):
    node, child, self, route = ops.resolve(v.node), ops.resolve(v.child), ops.resolve(v.self), v.addr
    root = get(self, "schema")
    at0 = FD(ref(root), route.ref, z3.IntVal(0))
    if c.branch(zb(i == 0)):
        return [("nothing followed yet", z3.And(zb(child is None), zb(same_opt(node, root))))]
    if node is None:
        return [("the answer is none", z3.And(zb(child is None), none_(at0)))]
    FD_DEF(c, route, node, i, seq.nz())
    return [("the rest of the route leads to the same node", z3.And(zb(same_opt(child, node)), at0 == FD(ref(node), route.ref, i)))]


Contract("yangson.datamodel:DataModel.get_data_node", [DM, Str], ensures=ens_data_node, props=P, raises=(InvalidSchemaPath,),
         loops=[LoopInv({"node": Opt(QNODE), "child": Opt(QNODE)}, inv_data_node)])


def ens_schema_node(c, args, out, old):
    self, path = args
    if out.kind != "ret":
        return [("invalid path", issubclass(out.value.cls, InvalidSchemaPath))]
    root, route = get(self, "schema"), T_ROUTE.wrap(route_of(ops.raw_term(path)))
    return [("the node the route leads to, or none", zb(same_opt(out.value, FS_AT(c, route, root, z3.IntVal(0)))))]


use(N + "InternalNode.get_schema_descendant", lambda c, fn, a, kw: FS_AT(c, ops.resolve(a[1]), ops.resolve(a[0]), z3.IntVal(0)))
Contract("yangson.datamodel:DataModel.get_schema_node", [DM, Str], ensures=ens_schema_node, props=P, raises=(InvalidSchemaPath,))


# ---------------------------------------------------------------- schema node identifiers of statements
def sni_segments(sni):
    parts = sni.split("/")
    if sni.startswith("/"):
        return parts[1:]
    return parts


def use_node_id(c, fn, args, kw):
    s, ni, sctx = args
    try:
        return run(spec_node_id, s, ni, sctx)
    except PyExc as e:
        raise PyExc(e.cls)


def ens_sni(c, args, out, old):
    self, sni, sctx = args
    segs = ops.resolve(old)
    if out.kind != "ret":
        return [("a prefix of some name is not bound", some_of(segs, lambda n: outcome_of(lambda: run(spec_node_id, self, n, sctx))[0] == "exc"))]
    r = ops.resolve(out.value)
    j = c.fresh("j", I)
    goals = [("one step per name", r.seq.nz() == segs.seq.nz())]
    c.assume(z3.And(j >= 0, j < segs.seq.nz()))
    k, v = outcome_of(lambda: run(spec_node_id, self, segs.seq.get(j), sctx))
    return goals + [("every name through its prefix", k == "ret" and same_obj(r.seq.get(j), v))]


Contract(S_ + "sni2route", [SD, Str, SCTX], ensures=ens_sni, old=lambda c, s, sni, x: run(sni_segments, sni), raises=(MNR, UP), props=P)


# ---------------------------------------------------------------- a printed name gives the node's name back
def local(name):
    return z3.Not(z3.Contains(ops.raw_term(name), z3.StringVal(":")))


def plain_names(c, node):
    c.assume(local(get(node, "name")))
    c.assume(local(get(node, "ns")))


def body_back(c, real, node):
    """What the node prints, read in the context of its data parent."""
    above = ops.resolve(interp.call_method(node, "data_parent", []))
    if above is None:
        raise Infeasible()
    return real(above, run(SNM.SchemaNode.iname, node))


def ens_back(c, args, out, old):
    node, = args
    return [("the node's own name and module", out.kind == "ret" and z3.And(
        zb(same_obj(models.getitem(out.value, 0), get(node, "name"))), zb(same_obj(models.getitem(out.value, 1), get(node, "ns")))))]


Contract(N + "SchemaNode._iname2qname", [NAMEDNODE], variant="of a printed name", requires=plain_names, body=body_back, ensures=ens_back, props=P)
