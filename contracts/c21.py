"""C21: validation visits everything in scope and reports exactly the violations.

Each check has a truth value: pattern_bad(node, instance, content type), must_bad, props_bad, cardinality_bad,
foreign (value not in the type), dangling (no target), and bad(instance, scope, content type) for the validation
of a child.  Every _validate raises exactly when one of the checks of its scope does."""
from .inst import *
from yangson import datatype as D
from yangson.constraint import Must
from yangson.enumerations import ValidationScope
from yangson.exceptions import SchemaError, SemanticError, YangTypeError, ValidationError
from .c16 import has_tag, tag, zb

P = ("C21",)
SCOPE = EnumS(ValidationScope)
TYPES = ObjS(D.StringType, D.UnionType, D.LeafrefType, D.InstanceIdentifierType)
MUST = ObjS(Must)
attrs(Must, expression=EXPR, error_tag=Str, error_message=Opt(Str))
attrs(D.DataType, error_tag=Str, error_message=Opt(Str))
attrs(D.LinkType, require_instance=Bool)
attrs(SNM.DataNode, must=ListS(MUST))
attrs(SNM.TerminalNode, type=TYPES)
attrs(SNM.SchemaNode, val_count=Int)


def ref(x):
    return ops.resolve(x).ref


def index(e):
    return z3.IntVal(list(type(e)).index(e)) if isinstance(e, (ValidationScope, ContentType)) else \
        z3.IntVal(0) if e is None else e.ref


def flag(name, *xs):
    return uf(name, *[I] * len(xs), B)(*xs)


def raising(name, exc, pick):
    def use(c, o, a, kw):
        if c.branch(flag(name, ref(o), *pick(a))):
            raise PyExc(exc)
        return None
    return use


abstract_nodes()
inst_ct = lambda a: (ref(a[0]), index(ops.resolve(a[1])))
AbstractContract(SNM.InternalNode, "_check_schema_pattern", raising("pattern_bad", SchemaError, inst_ct), always=True)
AbstractContract(SNM.DataNode, "_check_must", raising("must_bad", SemanticError, lambda a: (ref(a[0]),)), always=True)
AbstractContract(SNM.SequenceNode, "_check_list_props", raising("props_bad", SemanticError, lambda a: (ref(a[0]),)), always=True)
AbstractContract(SNM.SequenceNode, "_check_cardinality", raising("cardinality_bad", SemanticError, lambda a: (ref(a[0]),)), always=True)
AbstractContract(IM.InstanceNode, "validate", lambda c, o, a, kw: raising(
    "bad", ValidationError, lambda a: (index(ops.resolve(a[0])), index(ops.resolve(a[1]))))(c, o, a, kw), always=True)
AbstractContract(D.DataType, "__contains__", lambda c, o, a, kw: S("bool", uf("contains", I, V, B)(o.ref, ops.to_V(a[0]))), always=True)


def a_deref(c, o, a, kw):
    if c.branch(flag("deref_fails", o.ref)):
        raise PyExc(NonexistentInstance)
    return ListS(ANYINST).wrap(uf("targets", I, I)(o.ref))


AbstractContract(IM.InstanceNode, "_deref", a_deref, always=True)
MEMBER = ObjS(IM.ObjectMember)
a_members = lambda c, o, a, kw: ListS(Str).wrap(uf("member_names", I, I)(o.ref))
a_entries = lambda c, o, a, kw: ListS(ENTRY).wrap(uf("entries", I, I)(o.ref))
a_member = lambda c, o, a, kw: MEMBER.wrap(uf("member", I, STR, I)(o.ref, ops.raw_term(ops.resolve(a[0]))))
AbstractContract(IM.InstanceNode, "_member", a_member, always=True)


def a_iter(c, o, a, kw):
    """An array instance is iterated by entries, an object instance by member names."""
    return a_entries(c, o, a, kw) if o.shape and "value" in o.shape else a_members(c, o, a, kw)


AbstractContract(IM.InstanceNode, "__iter__", a_iter, always=True)
ARRAY = ObjS(IM.ObjectMember, attrs={"value": ARRT})


def has(scope, s):
    return ops.resolve(scope).value & s.value != 0


SYN, SEM = ValidationScope.syntax, ValidationScope.semantics


# what is wrong with one instance node, per class of its schema node
def inner_bad(c, self, inst, scope, ct):
    s = [flag("pattern_bad", self.ref, inst.ref, index(ct))] if has(scope, SYN) else []
    names = a_members(c, inst, [], {})
    s.append(ex(names, lambda m: flag("bad", a_member(c, inst, [m], {}).ref, index(scope), index(ct))))
    return z3.Or(*s)


def terminal_bad(c, self, inst, scope, ct):
    t = ops.resolve(get(self, "type"))
    s = []
    if has(scope, SYN):
        s.append(z3.Not(uf("contains", I, V, B)(t.ref, ops.to_V(get(inst, "value")))))
    cls = c.class_of(t) if hasattr(c, "class_of") else interp.force_class(t)
    if issubclass(cls, D.LinkType) and has(scope, SEM):
        tg = ListS(ANYINST).wrap(uf("targets", I, I)(inst.ref))
        s.append(z3.And(ops.truth_term(get(t, "require_instance")),
                        z3.Or(flag("deref_fails", inst.ref), tg.seq.nz() == 0)))
    return z3.Or(*s)


def data_bad(c, self, inst, scope, ct):
    return flag("must_bad", self.ref, inst.ref) if has(scope, SEM) else z3.BoolVal(False)


def validate_ens(*parts, entries=False):
    def ens(c, args, out, old):
        self, inst, scope, ct = [ops.resolve(a) for a in args]
        if entries:
            lst = a_entries(c, inst, [], {})
            b = z3.BoolVal(False)
            if has(scope, SEM):
                b = z3.Or(flag("props_bad", self.ref, inst.ref), flag("cardinality_bad", self.ref, inst.ref))
            b = z3.Or(b, ex(lst, lambda e: z3.Or(*[p(c, self, ops.resolve(e), scope, ct) for p in parts])))
        else:
            b = z3.Or(*[p(c, self, inst, scope, ct) for p in parts])
        if out.kind == "ret":
            return [("accepted only without a violation", z3.Not(b))]
        return [("refused only for a violation", b)]
    return ens


VE = (ValidationError,)
ARGS = [SCOPE, CT]
Contract(N + "SchemaNode._validate", [NODE, ANYINST, SCOPE, CT], modifies=[(0, "val_count")], props=P,
         ensures=lambda c, a, out, old: [("counts and accepts", out.kind == "ret")])


def count_only(c, fn, args, kw):
    return None


from .yang import use
use(N + "SchemaNode._validate", count_only)
Contract(N + "InternalNode._validate", [ObjS(SNM.SchemaTreeNode, SNM.NotificationNode, SNM.RpcActionNode), ANYINST, SCOPE, CT],
         ensures=validate_ens(inner_bad), raises=VE, props=P)
Contract(N + "DataNode._validate", [ObjS(SNM.AnydataNode, SNM.AnyxmlNode), ANYINST, SCOPE, CT], ensures=validate_ens(data_bad), raises=VE, props=P)
Contract(N + "DataNode._validate", [CONT, ANYINST, SCOPE, CT], ensures=validate_ens(data_bad, inner_bad), raises=VE, props=P, variant="container")
Contract(N + "DataNode._validate", [LEAF, ANYINST, SCOPE, CT], ensures=validate_ens(data_bad, terminal_bad), raises=VE, props=P, variant="leaf")
Contract(N + "SequenceNode._validate", [LIST, ENTRY, SCOPE, CT], ensures=validate_ens(data_bad, inner_bad), raises=VE, props=P, variant="list entry")
Contract(N + "SequenceNode._validate", [LLIST, ENTRY, SCOPE, CT], ensures=validate_ens(data_bad, terminal_bad), raises=VE, props=P, variant="leaf-list entry")
Contract(N + "SequenceNode._validate", [LIST, ARRAY, SCOPE, CT], ensures=validate_ens(data_bad, inner_bad, entries=True), raises=VE, props=P, variant="list")
Contract(N + "SequenceNode._validate", [LLIST, ARRAY, SCOPE, CT], ensures=validate_ens(data_bad, terminal_bad, entries=True), raises=VE, props=P, variant="leaf-list")


def must_ens(c, args, out, old):
    self, inst = args
    ms = get(self, "must")
    val = lambda m: uf("must_holds", I, I, B)(ref(get(m, "expression")), inst.ref)
    b = ex(ms, lambda m: z3.Not(val(m)))
    if out.kind == "ret":
        return [("accepted only if every expression is true", z3.Not(b))]
    return [("refused only if an expression is false", b)]


Contract(N + "DataNode._check_must", [ObjS(SNM.LeafNode, SNM.LeafListNode, SNM.ListNode, SNM.ContainerNode, SNM.AnydataNode), ANYINST],
         ensures=must_ens, raises=(SemanticError,), props=P)


# ---------------------------------------------------------------- references
def leafref_ens(c, args, out, old):
    self, node = args
    sel = a_select(c, get(self, "path"), node)
    txt = lambda n: uf("text_of", I, STR)(ref(n))
    if out.kind != "ret":
        return [("refused only if the path does not select nodes", sel is None)]
    if sel is None:
        return [("the path selects nodes", False)]
    hit = ex(sel, lambda n: txt(n) == txt(node))
    k = z3.Int("k!%d" % c.engine.next_id())
    r = out.value.seq
    return [("a target exists exactly when a selected node has the same text", (r.nz() > 0) == hit)]


def a_select(c, path, node):
    path, node = ops.resolve(path), ops.resolve(node)
    if not c.branch(flag("selects_nodes", path.ref, node.ref)):
        return None
    return NODESET.wrap(uf("selected", I, I, I)(path.ref, node.ref))


from yangson.nodeset import NodeSet
from yangson.exceptions import XPathTypeError
NODESET = ListS(ANYINST, cls=NodeSet)
PATH = ObjS(Expr, attrs={"kind": Const("path")})
attrs(D.LeafrefType, path=PATH)


def a_eval(c, o, a, kw):
    """A condition has a truth value; a leafref path selects nodes (or gives some other value)."""
    if o.shape and "kind" in o.shape:
        s = a_select(c, o, a[0])
        return s if s is not None else S("str", uf("other_value", I, I, STR)(o.ref, ref(a[0])))
    return S("bool", uf("must_holds", I, I, B)(o.ref, ref(a[0])))


AbstractContract(Expr, "evaluate", a_eval, always=True)
AbstractContract(IM.InstanceNode, "__str__", lambda c, o, a, kw: S("str", uf("text_of", I, STR)(o.ref)), always=True)
DT_ = "yangson.datatype:"
Contract(DT_ + "LeafrefType._deref", [ObjS(D.LeafrefType), ANYINST], ensures=leafref_ens, raises=(XPathTypeError,), props=P)


def iid_ens(c, args, out, old):
    node, = args
    if out.kind != "ret":
        return []
    r = out.value.seq
    gone = flag("goto_fails", ref(a_top(c, node, [], {})), vref(get(node, "value")))
    return [("one target, or none when going there fails", z3.If(gone, r.nz() == 0, r.nz() == 1))]


def vref(v):
    return uf("as_int", V, I)(ops.to_V(v))


def a_top(c, o, a, kw):
    return ROOTN.wrap(uf("top", I, I)(o.ref))


def a_goto(c, o, a, kw):
    if c.branch(flag("goto_fails", o.ref, vref(a[0]))):
        raise PyExc(NonexistentInstance)
    return ANYINST.wrap(uf("goto", I, I, I)(o.ref, vref(a[0])))


AbstractContract(IM.InstanceNode, "top", a_top, always=True)
AbstractContract(IM.InstanceNode, "goto", a_goto, always=True)
Contract(DT_ + "InstanceIdentifierType._deref", [ANYINST], ensures=iid_ens, props=P)
from .yang import STMT, SCTX, find1_use
use("yangson.statement:Statement.find1", find1_use)


def ri_ens(c, args, out, old):
    self, stmt, sctx = args
    t = find1_use(c, None, [stmt, "require-instance"], {})
    new = ops.resolve(get(self, "require_instance"))
    if out.kind != "ret":
        return []
    if t is None:
        return [("inherited", eq_(new, old))]
    return [("as stated", ops.truth_term(new) == (ops.raw_term(get(t, "argument")) == z3.StringVal("true")))]


def eq_(a, b):
    return ops.same(a, b)


Contract(DT_ + "LinkType._handle_restrictions", [ObjS(D.LeafrefType, D.InstanceIdentifierType), STMT, SCTX], ensures=ri_ens,
         old=lambda c, self, *a: ops.resolve(get(self, "require_instance")), modifies=[(0, "require_instance")], props=P)
