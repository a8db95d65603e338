"""Shapes of instance nodes and the abstract content of a zipper (C07, C08, C09, C11, C16, C21)."""
import collections
from .sn import *
from yangson import instance as IM
from yangson import schpattern as SP
from yangson.exceptions import NonexistentInstance, InstanceValueError, NonexistentSchemaNode
from yangson.instvalue import StructuredValue

IN = "yangson.instance:"
MEMBER_KINDS = (SNM.LeafNode, SNM.LeafListNode, SNM.ListNode, SNM.ContainerNode, SNM.AnydataNode)
ENTRY_KINDS = (SNM.LeafListNode, SNM.ListNode)
DNODE = ObjS(SNM.LeafNode, SNM.LeafListNode, SNM.ListNode, SNM.ContainerNode, SNM.AnydataNode, SNM.AnyxmlNode)
DEQ = ListS(CELL, cls=collections.deque)
SIBS = DictS(Str, CELL)
SIBS2 = DictS(Str, CELL, cls=ObjectValue, attrs={"timestamp": TS})
ARRT = ListS(CELL, cls=ArrayValue, attrs={"timestamp": TS})
OBJT = DictS(Str, CELL, cls=ObjectValue, attrs={"timestamp": TS})
attrs(IM.InstanceNode, _path=Const(None), schema_node=DNODE, schema_data=ObjS(SchemaData), timestamp=TS, value=CELL)
attrs(IM.ObjectMember, _key=Str, siblings=SIBS)
attrs(IM.ArrayEntry, _key=Int, before=DEQ, after=DEQ)
attrs(SNM.SchemaTreeNode, schema_pattern=ObjS(SP.SchemaPattern))   # built with the first root
attrs(IM.RootNode, _key=Const("/"), parinst=Const(None), schema_node=ObjS(SNM.SchemaTreeNode))
ROOTN, MEMB, ENTRY = ObjS(IM.RootNode), ObjS(IM.ObjectMember), ObjS(IM.ArrayEntry)
ANYINST = ObjS(IM.RootNode, IM.ObjectMember, IM.ArrayEntry)
PARENT = ObjS(IM.RootNode, IM.ObjectMember, IM.ArrayEntry)
attrs(IM.ObjectMember, parinst=PARENT)
attrs(IM.ArrayEntry, parinst=ObjS(IM.ObjectMember))


def entry_ok(c, self, *a):
    """Representation invariant of an entry: its index counts the entries before it."""
    k = ops.raw_term(interp.getattr_(self, "_key"))
    c.fact(k == interp.getattr_(self, "before").seq.nz())


def member_ok(c, self, *a):
    """Representation invariant of a member: its name is not among its siblings."""
    sib = interp.getattr_(self, "siblings")
    c.fact(z3.Not(ops.map_has_term(sib.map, ops.raw_term(interp.getattr_(self, "_key")), STR)))


def entry_list(e):
    return list(reversed(e.before)) + [e.value] + list(e.after)


def member_dict(m):
    d = m.siblings.copy()
    d[m._key] = m.value
    return d


def run(fn, *a):
    return interp.run_function(fn, list(a))


def seq_same(a, b):
    return ops._seq_same(a.seq, b.seq)


def map_same(a, b):
    return ops.map_eq_term(a.map, b.map, ops.same)


def get(o, n):
    return interp.getattr_(o, n)


def is_new(o, cls):
    return isinstance(o, Obj) and not o.initial and o.cls is cls


def same_obj(a, b):
    return ops.same(a, b)


def all_of(n, p, lo=0):
    """p holds for lo..n-1 (p may branch)."""
    i = z3.Int("all!%d" % ctx().engine.next_id())
    rng = z3.And(lo <= i, i < n)
    ps = summarize(lambda c: zb(p(i)), bound=[i], rng=rng)
    return z3.ForAll([i], z3.Implies(rng, ops.formula_of(ps)))


def zb(x):
    x = x if isinstance(x, (bool, z3.ExprRef)) else ops.truth_term(x)
    return z3.BoolVal(x) if isinstance(x, bool) else x


def ex(lst, p):
    """p holds for some item (p may branch)."""
    i = z3.Int("some!%d" % ctx().engine.next_id())
    rng = z3.And(0 <= i, i < lst.seq.nz())
    ps = summarize(lambda c: zb(p(lst.seq.get(i))), bound=[i], rng=rng)
    return z3.Exists([i], z3.And(rng, ops.formula_of(ps)))


some_of = ex
