"""C15: comparisons, connectives, predicates, axes and node-sets of XPath 1.0."""
from .xp import *
from pyvc.inv import LoopInv

P = ("C15",)
TE = (XPathTypeError,)
use(AST + "Expr._eval_string", use_text)
use(AST + "Expr._eval_float", lambda c, fn, a, kw: fl(as_number(c, a[0], a[1])))
use(AST + "Expr._eval_boolean", lambda c, fn, a, kw: bo(as_boolean(c, a[0], a[1])))
use(NSQ + "to_number", use_number)
use(NSQ + "node_number", lambda c, fn, a, kw: fl(node_num(c, ops.resolve(a[0]))))


def boolean_(v):
    raise NotImplementedError


def number_(v):
    raise NotImplementedError


models.model(boolean_)(lambda v: bo(boolean_of(ctx(), ops.resolve(v))))
models.model(number_)(lambda v: fl(number_of(ctx(), ops.resolve(v))))


def leafy(n):
    return not isinstance(n.schema_node, InternalNode)


def node_number_(n):
    raise NotImplementedError


models.model(node_number_)(lambda n: fl(node_num(ctx(), ops.resolve(n))))
InternalNode = SNM.InternalNode


def rel_eq(negate, a, b):
    return a != b if negate else a == b


def spec_equality(self, xctx):
    a = self.left._eval(xctx)
    b = self.right._eval(xctx)
    neg = self.negate
    if isinstance(a, NodeSet) and isinstance(b, NodeSet):
        return any(any(rel_eq(neg, str(x), str(y)) for x in a if leafy(x)) for y in b if leafy(y))
    if isinstance(a, NodeSet) or isinstance(b, NodeSet):
        s, o = (a, b) if isinstance(a, NodeSet) else (b, a)
        if isinstance(o, bool):
            return rel_eq(neg, boolean_(s), o)
        if isinstance(o, str):
            return any(rel_eq(neg, str(x), o) for x in s if leafy(x))
        return any(rel_eq(neg, node_number_(x), o) for x in s if leafy(x))
    if isinstance(a, bool) or isinstance(b, bool):
        return rel_eq(neg, boolean_(a), boolean_(b))
    if isinstance(a, float) or isinstance(b, float):
        return rel_eq(neg, number_(a), number_(b))
    return rel_eq(neg, a, b)


def rel_of(less, equal, a, b):
    if less:
        return a <= b if equal else a < b
    return a >= b if equal else a > b


def spec_relational(self, xctx):
    a = self.left._eval(xctx)
    b = self.right._eval(xctx)
    l, e = self.less, self.equal
    if isinstance(a, bool) and isinstance(b, NodeSet) or isinstance(b, bool) and isinstance(a, NodeSet):
        return rel_of(l, e, boolean_(a), boolean_(b))
    if isinstance(a, NodeSet) and isinstance(b, NodeSet):
        return any(any(rel_of(l, e, node_number_(x), number_(str(y))) for x in a if leafy(x)) for y in b if leafy(y))
    if isinstance(a, NodeSet):
        return any(rel_of(l, e, node_number_(x), number_(b)) for x in a if leafy(x))
    if isinstance(b, NodeSet):
        return any(rel_of(l, e, number_(a), node_number_(x)) for x in b if leafy(x))
    return rel_of(l, e, number_(a), number_(b))


attrs(XA.EqualityExpr, negate=Bool)
attrs(XA.RelationalExpr, less=Bool, equal=Bool)
for nm, spec in (("EqualityExpr", spec_equality), ("RelationalExpr", spec_relational)):
    for lt, rt in [(a, b) for a in ("set", "str", "flt", "bool") for b in (("set", "str", "flt", "bool") if a == "set" else (None,))]:
        def types(c, e, x, lt=lt, rt=rt):
            for side, t in (("left", lt), ("right", rt)):
                try:
                    v = value_of(c, get(e, side), x)
                except PyExc:
                    return
                if t and kind(v) != t:
                    raise Infeasible()
        Contract(AST + nm + "._eval", [ObjS(getattr(XA, nm)), XCTX], requires=types, raises=TE, props=P,
                 variant="left " + lt + (", right " + rt if rt else ""), **like(spec))


def spec_or(self, xctx):
    return True if self.left._eval_boolean(xctx) else self.right._eval_boolean(xctx)


def spec_and(self, xctx):
    return self.right._eval_boolean(xctx) if self.left._eval_boolean(xctx) else False


for nm, spec in (("OrExpr", spec_or), ("AndExpr", spec_and)):
    Contract(AST + nm + "._eval", [ObjS(getattr(XA, nm)), XCTX], raises=TE, props=P, **like(spec))


# ---------------------------------------------------------------- node-sets
PATH = uf("path of a node", I, STR)
AbstractContract(IM.InstanceNode, "path", lambda c, o, a, kw: S("str", PATH(ref(o))), always=True)


def spec_union(self, ns):
    """The nodes of the first, then those of the second that are not in the first."""
    res = NodeSet(self)
    for n in ns:
        if not any(m.path == n.path for m in self):
            res.append(n)
    return res


Contract(NSQ + "NodeSet.union", [NODES, NODES], props=P, **like(spec_union))


def path_at(s, t):
    return PATH(ref(s.get(t)))


def distinct(c, a, b):
    """No node twice in either operand."""
    for s in (a.seq, b.seq):
        i, j = z3.Int("di!%d" % c.engine.next_id()), z3.Int("dj!%d" % c.engine.next_id())
        t = uf("item", I, I, I)
        r = s.get(i).ref
        c.fact(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < s.nz()), PATH(r) != PATH(z3.substitute(r, (i, j))))))


def ens_once(c, args, out, old):
    a, b = args
    if out.kind == "exc":
        return []
    r = out.value.seq
    k, l = c.fresh("once_k", I), c.fresh("once_l", I)
    gs = [("no node twice", z3.Implies(z3.And(k >= 0, k < l, l < r.nz()), path_at(r, k) != path_at(r, l)))]
    return gs


Contract(NSQ + "NodeSet.union", [NODES, NODES], requires=distinct, ensures=ens_once, props=P, variant="once each")


# ---------------------------------------------------------------- predicates and paths
def context(node, origin, position, size):
    return XA.XPathContext(node, origin, position, size)


def kept(p, node, origin, pos, size):
    """A number keeps the node at that position, anything else those for which it is true."""
    v = p._eval(context(node, origin, pos, size))
    return v == pos if isinstance(v, float) else boolean_(v)


def spec_kept(p, ns, origin):
    return NodeSet([n for i, n in enumerate(ns) if kept(p, n, origin, i + 1, len(ns))])


def spec_predicates(self, ns, xctx):
    if len(self.predicates) > 0 and not isinstance(ns, NodeSet):
        raise XPathTypeError("")
    for p in self.predicates:
        ns = spec_kept(p, ns, xctx.origin)
    return ns


def sharing(c, *a):
    c.memo["share filters"] = True


for k in (0, 1):
    FILT = ObjS(XA.FilterExpr, attrs={"predicates": ListS(EXPR, fixed=k)})
    for nm, sh in (("string", Str), ("number", Flt), ("boolean", Bool), ("node-set", NODES)):
        Contract(AST + "Expr._apply_predicates", [FILT, sh, XCTX], raises=TE, props=P, variant=f"{k} predicates, {nm}", requires=sharing,
                 bounded="up to 1 predicate", **like(spec_predicates))


# ---------------------------------------------------------------- axes and steps
Axis = XA.Axis
QN = TupS(Str, Str)
ANYQ = OneOf(Const(None), Const(False), QN)
AXES = {}


def q_term(q):
    q = ops.resolve(q)
    e = uf("name test", I, STR, STR, I)
    if isinstance(q, tuple):
        return e(2, ops.raw_term(q[0]), ops.raw_term(q[1]))
    nothing = z3.StringVal("")
    return e(z3.IntVal(0 if q is None else 1), nothing, nothing)


def on_axis(name, node, q, more=False):
    return ListS(ANYINST).wrap(uf("axis." + name + ("+" if more else ""), I, I, I)(ref(node), q_term(q)))


def axis(name):
    AbstractContract(IM.InstanceNode, name, lambda c, o, a, kw: on_axis(name, o, a[0] if a else kw.get("qname"),
                     ops.resolve(a[1] if len(a) > 1 else kw.get("with_self", False)) is True), always=True)


for _n in ("_ancestors", "_ancestors_or_self", "_children", "_descendants", "_following_siblings", "_preceding_siblings"):
    axis(_n)
PARENTS = uf("parent nodes", I, I)
AbstractContract(IM.InstanceNode, "_parent", lambda c, o, a, kw: ListS(ANYINST).wrap(PARENTS(ref(o))), always=True)


def applied(c, self, ns, x):
    """What the predicates leave of the nodes: the same for the same nodes."""
    c.memo["share filters"] = True
    ns = ops.resolve(ns)
    if not (isinstance(ns, Obj) and ns.cls is NodeSet):
        v = uf("other predicates", I, I, I, I)(ref(self), ref(ns) if isinstance(ns, Obj) else z3.IntVal(0), ref(x))
        return NODES.wrap(v)
    k = z3.Int("canon!applied")
    for sq, r in c.memo.setdefault("applied", []):
        if sq is ns.seq or c.check(z3.Not(ops._seq_same(sq, ns.seq))) == z3.unsat:
            return r()
    tok = c.fresh("applied", I)
    if c.branch(uf("predicates fail", I, I, I, B)(ref(self), tok, ref(x))):
        r = lambda: (_ for _ in ()).throw(PyExc(XPathTypeError))
    else:
        r = lambda: NodeSet_copy(NODES.wrap(tok))
    c.memo["applied"].append((ns.seq, r))
    return r()


def NodeSet_copy(v):
    return interp.call(NodeSet, [v], {})


def applied_(self, ns, x):
    raise NotImplementedError


models.model(applied_)(lambda self, ns, x: applied(ctx(), self, ns, x))
use(AST + "Expr._apply_predicates", lambda c, fn, a, kw: applied(c, *a))


def spec_step(self, xctx):
    n, q, ax = xctx.cnode, self.qname, self.axis
    if ax == Axis.self:
        nodes = [n] if not q or q == n.qual_name else []
    elif ax == Axis.parent:
        nodes = [p for p in n._parent() if not q or q == p.qual_name]
    elif ax == Axis.child:
        nodes = n._children(q)
    elif ax == Axis.descendant:
        nodes = n._descendants(q)
    elif ax == Axis.descendant_or_self:
        nodes = n._descendants(q, True)
    elif ax == Axis.ancestor:
        nodes = n._ancestors(q)
    elif ax == Axis.ancestor_or_self:
        nodes = n._ancestors_or_self(q)
    elif ax == Axis.following_sibling:
        nodes = n._following_siblings(q)
    else:
        nodes = n._preceding_siblings(q)
    res = applied_(self, NodeSet(nodes), xctx)
    if ax == Axis.ancestor or ax == Axis.ancestor_or_self or ax == Axis.preceding_sibling:
        return NodeSet(reversed(res))
    return res


for _a in Axis:
    if _a is not Axis.attribute:
        Contract(AST + "Step._eval", [ObjS(XA.Step, attrs={"axis": Const(_a), "qname": ANYQ}), XCTX], raises=TE, props=P,
                 variant=_a.name.replace("_", "-") + " axis", **like(spec_step))


def spec_filter(self, xctx):
    return applied_(self, self.primary._eval(xctx), xctx)


Contract(AST + "FilterExpr._eval", [ObjS(XA.FilterExpr, attrs={"primary": EXPR}), XCTX], raises=TE, props=P, **like(spec_filter))


NEXT = {"up": uf("node above", I, I), "next": uf("next entry", I, I), "previous": uf("previous entry", I, I)}
for _n, _f in NEXT.items():
    AbstractContract(IM.InstanceNode if _n == "up" else IM.ArrayEntry, _n,
                     lambda c, o, a, kw, f=_f, n=_n: (ANYINST if n == "up" else ENTRY).wrap(f(ref(o))), always=True)


def spec_above(self, qname=None):
    """The node itself if it has the name; a list as a whole is not a node of the data model."""
    res = [self] if not qname or self.qual_name == qname else []
    return res + (self.up()._ancestors(qname) if isinstance(self, IM.ArrayEntry) else self.up()._ancestors_or_self(qname))


def spec_only_above(self, qname=None):
    return self.up()._ancestors(qname) if isinstance(self, IM.ArrayEntry) else self.up()._ancestors_or_self(qname)


def spec_root_above(self, qname=None):
    return [self] if qname is None else []


def spec_parent(self):
    return [self.up().up()] if isinstance(self, IM.ArrayEntry) else [self.up()]


for cls, sh in (("ObjectMember", MEMB), ("ArrayEntry", ENTRY)):
    Contract(IN + cls + "._ancestors_or_self", [sh, ANYQ], props=P, **like(spec_above))
    Contract(IN + cls + "._ancestors", [sh, ANYQ], props=P, **like(spec_only_above))
Contract(IN + "RootNode._ancestors_or_self", [ROOTN, ANYQ], props=P, **like(spec_root_above))
Contract(IN + "RootNode._ancestors", [ROOTN, ANYQ], props=P, **like(lambda self, q: []))
Contract(IN + "InstanceNode._parent", [MEMB], props=P, **like(spec_parent))
Contract(IN + "ArrayEntry._parent", [ENTRY], props=P, **like(spec_parent))
Contract(IN + "RootNode._parent", [ROOTN], props=P, **like(lambda self: []))
for n in ("_preceding_siblings", "_following_siblings"):
    Contract(IN + "InstanceNode." + n, [ObjS(IM.ObjectMember, IM.RootNode), ANYQ], props=P, **like(lambda self, q: []))


# ---------------------------------------------------------------- siblings, one after another
def nth_sibling(way):
    return uf("sibling number.%s" % way, I, I, I)


def chain_fact(c, way, e):
    """The k-th sibling is the neighbour of the one before it."""
    k = z3.Int("sib!%d" % c.engine.next_id())
    f = nth_sibling(way)
    c.fact(z3.And(f(e, 0) == e, z3.ForAll([k], z3.Implies(k >= 0, f(e, k + 1) == NEXT[way](f(e, k))), patterns=[f(e, k + 1)])))


def sib_inv(way):
    def inv(c, v, i, seq):
        f, e = nth_sibling(way), ref(v.self)
        if "sib" not in c.memo:
            c.memo["sib"] = True
            chain_fact(c, way, e)
        c.fact(f(e, i + 1) == NEXT[way](f(e, i)))
        r = v.res.seq
        return [("the nodes passed", r.nz() == i), ("stands at the last one", ref(v.en) == f(e, i)),
                ("each the neighbour of the one before", all_of(i, lambda k: ref(r.get(k)) == f(e, k + 1)))]
    return inv


def nodes_new(c, v):
    return interp.call(interp.getattr_(ListS(ENTRY).make("sibs_%d" % c.engine.next_id()), "copy"), [], {})


def sib_ens(way, rest):
    def ens(c, args, out, old):
        self, q = args
        if out.kind == "exc":
            return [("nodes are delivered", False)]
        r = out.value.seq
        q = ops.resolve(q)
        if isinstance(q, tuple):
            named = ops.py_eq(interp.getattr_(self, "qual_name"), q)
            if not c.branch(named if z3.is_expr(named) else z3.BoolVal(bool(named))):
                return [("none of that name", r.nz() == 0)]
        n = get(self, rest).seq.nz()
        e, f = ref(self), nth_sibling(way)
        return [("all of them", r.nz() == n), ("nearest first", all_of(n, lambda k: ref(r.get(k)) == f(e, k + 1)))]
    return ens


for n, way, rest in (("_preceding_siblings", "previous", "before"), ("_following_siblings", "next", "after")):
    Contract(IN + "ArrayEntry." + n, [ENTRY, ANYQ], props=P, ensures=sib_ens(way, rest),
             loops=[LoopInv({"res": nodes_new, "en": ENTRY}, sib_inv(way))])


# ---------------------------------------------------------------- paths
UNION = uf("union of node-sets", I, I, I)


def use_union(c, fn, a, kw):
    x, y = [ops.resolve(v) for v in a]
    return NODES.wrap(UNION(ref(x), ref(y)))


use(NSQ + "NodeSet.union", use_union)


def right_set(c, self, x):
    """What follows a slash is a step or a path, whose values are node-sets."""
    e, q = z3.Int("rs_e"), z3.Int("rs_q")
    c.fact(z3.ForAll([q], z3.And(KIND(ref(get(self, "right")), q) == 0, z3.Not(FAILS(ref(get(self, "right")), q)))))


def at_node(x, n):
    """The context with another node: position and size are those of the outer context."""
    return uf("xpath.context", I, I, I, I, I)(ref(n), ref(get(x, "origin")), ops.raw_term(get(x, "position")), ops.raw_term(get(x, "size")))


def path_inv(c, v, i, seq):
    m, r = c.memo, ops.resolve(v.res)
    ph = m["phase"] = m.get("phase", 0) + 1
    if ph == 1:
        return [("nothing yet", r.seq.nz() == 0)]
    if ph == 2:
        m["res"], m["at"] = r, (i if not isinstance(i, int) else z3.IntVal(i))
        return []
    q = at_node(v.xctx, seq.get(m["at"]))
    return [("joined by what is reached from this node", ref(r) == UNION(ref(m["res"]), SET(ref(get(v.self, "right")), q)))]


def path_ens(c, args, out, old):
    left = old
    if left[0] == "exc" or kind(left[1]) != "set":
        return [("no path from what is no node-set", out.kind == "exc")]
    if out.kind == "exc":
        return [("a node-set is given", False)]
    return [("what the loop has gathered", out.value is c.memo["res"] if "res" in c.memo else out.value.seq.nz() == 0)]


Contract(AST + "PathExpr._eval", [ObjS(XA.PathExpr), XCTX], requires=right_set, raises=TE, props=P, ensures=path_ens,
         old=lambda c, self, x: outcome_of(lambda: value_of(c, get(self, "left"), x)),
         loops=[LoopInv({"res": NODES}, path_inv)])
