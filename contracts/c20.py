"""C20: XML encoding decodes back."""
import xml.etree.ElementTree as ET
from .codec import *
from .c03 import where, in_canonical_form
from .inst import *
from .common import use, new, mapping
from pyvc import models, verify as _V
from pyvc.core import PyExc
from pyvc.inv import LoopInv
from yangson.schemadata import ModuleData
from yangson.exceptions import RawTypeError, RawMemberError, MissingModuleNamespace

for _c in list(_V.REGISTRY):
    if _c.props in (("C03",),):
        _V.REGISTRY.remove(_c)
P = ("C20",)
ERRI = [(0, "error_tag"), (0, "error_message")]
ELEM = ObjS(ET.Element)
attrs(ET.Element, text=Opt(Str), tag=Str, attrib=DictS(Str, Str))
attrs(SchemaData, modules_by_ns=DictS(Str, ObjS(ModuleData)), modules_by_name=DictS(Str, ObjS(ModuleData)))
attrs(ModuleData, xml_namespace=Str, main_module=PairS(), yang_id=PairS())


@models.model(ET.Element)
def m_element(tag):
    o = Obj(ET.Element)
    o.seq = Seq.of([])
    o.attrs.update(tag=tag, text=None, attrib=interp.new_dict())
    return o


# ---------------------------------------------------------------- scalar types
def text_none(self, val):
    return None


TEXT = dict(CANON)
TEXT[D.EmptyType] = text_none


def element_with(c, self, val, text):
    """The element as it is read back: its text (none when empty) and, for an identity, the declared prefix."""
    text = ops.resolve(text)
    if text is not None and c.branch(ops.raw_term(text) == z3.StringVal("")):
        text = None
    at = interp.new_dict()
    if self.cls is D.IdentityrefType:
        sd = get(get(self, "sctx"), "schema_data")
        p = models.getitem(val, 1)
        mod = models.getitem(get(sd, "modules_by_name"), p)
        url = get(mod, "xml_namespace")
        c.assume(ops.raw_term(url) != z3.StringVal(""))
        by = get(sd, "modules_by_ns")
        c.assume(zb(models.contains(by, url)))
        c.assume(zb(same_obj(models.getitem(get(models.getitem(by, url), "main_module"), 0), p)))
        at = mapping(dict, [(ops.arith("+", "xmlns:", p), url)])
    return new(ET.Element, text=text, attrib=at, tag="x")


def back(c, args, out, old):
    return [("decodes to the value", out.kind == "ret" and zb(same_obj(out.value, args[1])))]


def there_and_back(c, run_, self, val):
    if self.cls is D.IdentityrefType:
        sd = get(get(self, "sctx"), "schema_data")
        c.assume(zb(models.contains(get(sd, "modules_by_name"), models.getitem(val, 1))))
    return run_(self, element_with(c, self, val, interp.call_method(self, "to_xml", [val])))


FAMILY = [(k, k.__name__, sh, vsh) for k, (sh, vsh, m) in TYPES.items() if k is not D.Decimal64Type] + \
         [(D.Decimal64Type, f"Decimal64Type fraction-digits {fd}", dec_type([fd]), dec_units(fd)) for fd in range(1, 19)]
def given(k):
    """A contained value; names of enums are not empty (RFC 7950, 9.6.4)."""
    def req(c, self, val):
        contained(k)(c, self, val)
        if k is D.EnumerationType:
            c.assume(ops.raw_term(val) != z3.StringVal(""))
    return req


for k, n, sh, vsh in FAMILY:
    if k in TEXT:
        Contract(where(k, "to_xml"), [sh, vsh], spec=TEXT[k], requires=contained(k), variant=n, props=P, modifies=ERRI)
    else:
        Contract(where(k, "to_xml"), [sh, vsh], ensures=in_canonical_form, requires=contained(k), variant=n, props=P)
    Contract(where(k, "from_xml"), [sh, vsh], requires=given(k), body=there_and_back, ensures=back, variant=n + ": inverse",
             props=P, modifies=ERRI)
for k in list(TYPES) + [D.BitsType, D.InstanceIdentifierType]:
    sh = TYPES[k][0] if k in TYPES else ObjS(k)
    if k is D.Decimal64Type:
        sh = dec_type()
    Contract(where(k, "from_xml"), [sh, ELEM], ensures=right_kind(k), variant=k.__name__ + ": any text", props=P)

AbstractContract(D.DataType, "to_xml", lambda c, o, a, kw: Opt(Str).wrap(uf("to_xml", I, V, I)(o.ref, ops.to_V(a[0]))))
AbstractContract(D.DataType, "from_xml", lambda c, o, a, kw: COOKED_OPT.wrap(uf("from_xml", I, I, V)(o.ref, ops.resolve(a[0]).ref)))
AbstractContract(D.DataType, "_xml_prefix", lambda c, o, a, kw: Opt(Str).wrap(uf("xml_prefix", I, V, I)(o.ref, ops.to_V(a[0]))))


def leafref_to(self, val):
    return self.ref_type.to_xml(val)


def leafref_prefix(self, val):
    return self.ref_type._xml_prefix(val)


def leafref_from(self, xml):
    return self.ref_type.from_xml(xml)


def union_to(self, val):
    for t in self.types:
        if val in t:
            return t.to_xml(val)
    return None


def union_prefix(self, val):
    for t in self.types:
        if val in t:
            return t._xml_prefix(val)
    return None


def union_from(self, xml):
    for t in self.types:
        v = t.from_xml(xml)
        if v is not None and v in t:
            return v
    return None


def identity_prefix(self, val):
    return val[1]


for op, lr, un, arg in (("to_xml", leafref_to, union_to, ANY), ("_xml_prefix", leafref_prefix, union_prefix, ANY),
                        ("from_xml", leafref_from, union_from, ELEM)):
    Contract(M + "LeafrefType." + op, [ObjS(D.LeafrefType), arg], spec=lr, props=P)
    Contract(M + "UnionType." + op, [ObjS(D.UnionType), arg], spec=un, props=P, modifies=[(0, "*")])
Contract(M + "IdentityrefType._xml_prefix", [ObjS(D.IdentityrefType), QNAME], spec=identity_prefix, props=P)


# ---------------------------------------------------------------- nodes of the tree
N = "yangson.schemanode:"
CHILDNODE = ObjS(SNM.LeafNode, SNM.LeafListNode, SNM.ListNode, SNM.ContainerNode)
attrs(SNM.TerminalNode, type=ObjS(D.StringType, D.UnionType, D.EmptyType, D.IdentityrefType))
attrs(SNM.ListNode, keys=ListS(PairS()))
XMLE = ListS(ELEM, cls=ET.Element)


def leaf_ens(c, args, out, old):
    self, xml = args[:2]
    v = interp.call_method(get(self, "type"), "from_xml", [xml])
    if out.kind == "exc":
        return [("refused exactly if the type cannot read it", issubclass(out.value.cls, RawTypeError) and ops.resolve(v) is None)]
    return [("the value the type reads", ops.resolve(v) is not None and zb(same_obj(out.value, v)))]


AbstractContract(D.DataType, "yang_type", lambda c, o, a, kw: S("str", c.fresh("yt", STR)), always=True)
Contract(N + "TerminalNode.from_xml", [ObjS(SNM.LeafNode), ELEM, Str], ensures=leaf_ens, raises=(RawTypeError,), props=P)


# -- names of elements
def after_first(s):
    return s[1:]


def tag_of(c, x):
    """(namespace or None, local name) of an element; states what splitting its tag gives."""
    x = ops.resolve(x)
    q = uf("xml_qualified", I, B)(x.ref)
    u, n = uf("xml_ns", I, STR)(x.ref), uf("xml_name", I, STR)(x.ref)
    brace = z3.StringVal("}")
    t = ops.raw_term(get(x, "tag"))
    c.fact(z3.Length(t) > 0)
    if c.branch(q):
        c.fact(z3.SubString(t, 0, 1) == z3.StringVal("{"))
        rest = run(after_first, get(x, "tag"))
        ref_ = uf("split_on", STR, STR, I)(ops.raw_term(rest), brace)
        c.memo[("split_len", ref_.get_id())] = (2, ref_)
        it = uf("split_item", I, I, STR)
        c.fact(z3.And(uf("split_n", I, I)(ref_) == 2, it(ref_, 0) == u, it(ref_, 1) == n))
        return S("str", u), S("str", n)
    c.fact(z3.And(z3.SubString(t, 0, 1) != z3.StringVal("{"), n == t))
    return None, S("str", n)


ROOTSN = ObjS(SNM.SchemaTreeNode, attrs={"schema_data": ObjS(SchemaData)})
use(N + "SchemaNode.schema_root", lambda c, fn, args, kw: ROOTSN.wrap(z3.Const("schema_root", I)))


def module_of(c, self, x):
    """(module name or None, local name), or raises."""
    u, n = tag_of(c, x)
    if u is None:
        return get(self, "ns"), n
    by = get(get(ROOTSN.wrap(z3.Const("schema_root", I)), "schema_data"), "modules_by_ns")
    if not c.branch(zb(models.contains(by, u))):
        raise PyExc(MissingModuleNamespace)
    return models.getitem(get(models.getitem(by, u), "yang_id"), 0), n


def opt_term(x):
    return z3.StringVal("") if x is None else ops.raw_term(x)


def a_child(which):
    def f(c, o, a, kw):
        ns = ops.resolve(a[1])
        return Opt(CHILDNODE).wrap(uf(which, I, STR, B, STR, I)(ops.resolve(o).ref, ops.raw_term(a[0]), z3.BoolVal(ns is None), opt_term(ns)))
    return f


for k in (SNM.ContainerNode, SNM.ListNode, SNM.SchemaTreeNode, SNM.InternalNode):
    AbstractContract(k, "get_data_child", a_child("get_data_child"), always=True)
    AbstractContract(k, "get_child", a_child("get_child"), always=True)
use(N + "SchemaNode.iname", lambda c, fn, args, kw: S("str", uf("iname", I, STR)(ops.resolve(args[0]).ref)))


def node_value(node, elem):
    return CELL.wrap(uf("node_from_xml", I, I, V)(ops.resolve(node).ref, ops.resolve(elem).ref))


def a_from_xml(c, o, a, kw):
    if c.branch(uf("xml_refused", I, I, B)(ops.resolve(o).ref, ops.resolve(a[0]).ref)):
        raise PyExc(RawTypeError)
    return node_value(o, a[0])


for k in (SNM.LeafNode, SNM.LeafListNode, SNM.ListNode, SNM.ContainerNode):
    AbstractContract(k, "from_xml", a_from_xml, always=True)


# -- one child element of an object
PARENTS = (("container", ObjS(SNM.ContainerNode), Str), ("list entry", ObjS(SNM.ListNode), Str),
           ("root", ObjS(SNM.SchemaTreeNode, attrs={"ns": Const(None)}), Const("")))
SEQ_KINDS = (SNM.SequenceNode,)


def child_for(c, self, x, jptr):
    """Schema node of a child element, or raises."""
    ns, name = module_of(c, self, x)
    ch = interp.call_method(self, "get_data_child", [name, ns])
    if ch is None:
        raise PyExc(RawMemberError)
    return ch


def iname_of(ch):
    return uf("iname", I, STR)(ops.resolve(ch).ref)


def child_ens(c, args, out, old):
    self, res, rval, x, jptr = args
    bad = lambda k: out.kind == "exc" and issubclass(out.value.cls, k)
    try:
        ch = child_for(c, self, x, jptr)
    except PyExc as e:
        return [("refused", bad(e.cls))]
    k = c.fresh("k", STR)
    f0, v0 = old.lookup(S("str", k))
    goals = []
    if not c.branch(k == iname_of(ch)):
        f, v = res.map.lookup(S("str", k))
        return [("other members are kept", f == f0 and (not f or zb(same_obj(v, v0))))]
    seq = interp.isinstance_(ch, SNM.SequenceNode)
    if seq and f0:
        f, v = res.map.lookup(S("str", k))
        return [("an array already there is complete", out.kind == "ret" and f and zb(same_obj(v, v0)))]
    src = rval if seq else x
    if c.branch(uf("xml_refused", I, I, B)(ops.resolve(ch).ref, ops.resolve(src).ref)):
        return [("refused below", bad(RawTypeError))]
    f, v = res.map.lookup(S("str", k))
    return [("the member is read from the element or, for lists, from all children", out.kind == "ret" and f and
             zb(same_obj(v, node_value(ch, src))))]


def in_child(c, self, res, rval, x, jptr):
    tag_of(c, x)
    if ops.resolve(self).cls is not SNM.SchemaTreeNode:
        c.assume(ops.raw_term(jptr) != z3.StringVal(""))


for n_, sh, jp in PARENTS:
    Contract(N + "InternalNode._process_xmlobj_child", [sh, OBJT, XMLE, ELEM, jp], requires=in_child, ensures=child_ens, props=P,
             old=lambda c, self, res, *a: res.map, modifies=[(1, "content"), (1, "timestamp")], variant=n_,
             raises=(MissingModuleNamespace, RawMemberError, RawTypeError))


# -- one child element of a list
def qname_of(c, self, x):
    ns, name = module_of(c, self, x)
    return ops.arith("+", ops.arith("+", ns, ":"), name)


AbstractContract(SNM.SequenceNode, "entry_from_xml", a_from_xml, always=True)
for k in (SNM.LeafListNode, SNM.ListNode):
    AbstractContract(k, "entry_from_xml", a_from_xml, always=True)


def item_ens(c, args, out, old):
    self, res, x, tag = args[:4]
    bad = lambda k: out.kind == "exc" and issubclass(out.value.cls, k)
    try:
        q = qname_of(c, self, x)
    except PyExc as e:
        return [("refused", bad(e.cls))]
    tag = ops.resolve(tag)
    n = old.nz()
    if tag is not None and not c.branch(zb(ops.py_eq(q, tag))):
        return [("elements of other names are not entries", out.kind == "ret" and zb(ops._seq_same(res.seq, old)))]
    if c.branch(uf("xml_refused", I, I, B)(ops.resolve(self).ref, ops.resolve(x).ref)):
        return [("refused below", bad(RawTypeError))]
    if out.kind == "exc":
        return [("an entry", False)]
    j = c.fresh("j", I)
    c.assume(z3.And(j >= 0, j < n))
    return [("one more entry", res.seq.nz() == n + 1), ("read from the element", zb(same_obj(res.seq.get(n), node_value(self, x)))),
            ("the others are kept", zb(same_obj(res.seq.get(j), old.get(j))))]


Contract(N + "SequenceNode._process_xmlarray_child", [ObjS(SNM.LeafListNode, SNM.ListNode), ARRT, ELEM, Opt(Str), Str],
         requires=lambda c, self, res, x, *a: tag_of(c, x), ensures=item_ens, old=lambda c, self, res, *a: res.seq,
         modifies=[(1, "content"), (1, "timestamp")], raises=(MissingModuleNamespace, RawTypeError), props=P)


# ---------------------------------------------------------------- all children
def elem_node(self, x):
    """The data child an element denotes (what the contract of one child element is about)."""
    return Opt(CHILDNODE).wrap(uf("xml_node", I, I, I)(ops.resolve(self).ref, ops.resolve(x).ref))


def use_child(c, fn, args, kw):
    self, res, rval, x = args[:4]
    ch = elem_node(self, x)
    if ch is None:
        raise PyExc(RawMemberError)
    k = S("str", iname_of(ch))
    seq = interp.isinstance_(ch, SNM.SequenceNode)
    if seq and c.branch(zb(models.contains(res, k))):
        return None
    src = rval if seq else x
    if c.branch(uf("xml_refused", I, I, B)(ops.resolve(ch).ref, ops.resolve(src).ref)):
        raise PyExc(RawTypeError)
    interp.call_method(res, "__setitem__", [k, node_value(ch, src)])


use(N + "InternalNode._process_xmlobj_child", use_child)


def new_obj(c, v):
    return interp.call(interp.getattr_(OBJT.make("res_%d" % c.engine.next_id()), "copy"), [], {})


def about(self, rval, x, k, f):
    """f(value) for the member a child element stands for, if that is k."""
    ch = elem_node(self, x)
    if ch is None:
        return False
    src = rval if interp.isinstance_(ch, SNM.SequenceNode) else x
    return z3.And(iname_of(ch) == k, z3.Not(uf("xml_refused", I, I, B)(ops.resolve(ch).ref, ops.resolve(src).ref)),
                  f(node_value(ch, src)))


def read_from(self, rval, res, i):
    """Facts about the object read from the first i children."""
    k = z3.Const("rk!%d" % ctx().engine.next_id(), STR)
    has = zb(ops.map_has_term(res.map, k, STR))
    true = lambda v: z3.BoolVal(True)

    def sourced(c):
        f, v = res.map.lookup(S("str", k))
        return zb(ex_first(rval, i, lambda x: about(self, rval, x, k, lambda w: zb(same_obj(v, w))))) if f else z3.BoolVal(False)
    present = lambda j: member_there(res, self, rval.seq.get(j))
    return [("each member comes from a child", z3.ForAll([k], z3.Implies(has, ops.formula_of(summarize(sourced, bound=[k], rng=has))))),
            ("each child gives a member", all_of(i, present))]


def member_there(res, self, x):
    ch = elem_node(self, x)
    return False if ch is None else ops.map_has_term(res.map, iname_of(ch), STR)


def ex_first(lst, n, p):
    i = z3.Int("fst!%d" % ctx().engine.next_id())
    rng = z3.And(0 <= i, i < n)
    ps = summarize(lambda c: zb(p(lst.seq.get(i))), bound=[i], rng=rng)
    return z3.Exists([i], z3.And(rng, ops.formula_of(ps)))


def obj_inv(c, v, i, seq):
    return read_from(v.self, ops.resolve(v.rval), ops.resolve(v.res), i)


def obj_ens(c, args, out, old):
    self, rval = args[:2]
    if out.kind != "ret":
        return []
    r = ops.resolve(out.value)
    return [("a new object", is_new(r, ObjectValue))] + read_from(self, rval, r, rval.seq.nz())


for n_, sh, jp in PARENTS:
    Contract(N + "InternalNode.from_xml", [sh, XMLE, jp], ensures=obj_ens, raises=(RawMemberError, RawTypeError), props=P, variant=n_,
             loops=[LoopInv({"res": new_obj}, obj_inv)])


def matches(self, x, tag):
    return uf("xml_matches", I, I, STR, B)(ops.resolve(self).ref, ops.resolve(x).ref, ops.raw_term(tag))


def use_item(c, fn, args, kw):
    self, res, x, tag = args[:4]
    if c.branch(uf("xml_unknown_ns", I, B)(ops.resolve(x).ref)):
        raise PyExc(MissingModuleNamespace)
    if c.branch(matches(self, x, tag)):
        v = a_from_xml(c, self, [x], {})
        interp.call_method(res, "append", [v])
        return v
    return None


use(N + "SequenceNode._process_xmlarray_child", use_item)


def is_match(self, x, tag):
    raise NotImplementedError


def read_entry(self, x):
    raise NotImplementedError


def m_is_match(self, x, tag):
    """On the normal path no namespace is unknown and no matching element is refused."""
    s, e = ops.resolve(self).ref, ops.resolve(x).ref
    return S("bool", z3.And(z3.Not(uf("xml_unknown_ns", I, B)(e)), matches(self, x, tag), z3.Not(uf("xml_refused", I, I, B)(s, e))))


models.model(is_match)(m_is_match)
models.model(read_entry)(lambda self, x: node_value(self, x))


def entries(self, rval, tag):
    return [read_entry(self, x) for x in rval if is_match(self, x, tag)]


def list_ens(c, args, out, old):
    self, rval, jp, tag = args
    if out.kind != "ret":
        return []
    r = ops.resolve(out.value)
    return [("an array", is_new(r, ArrayValue)), ("its entries are read from the elements of its name, in order",
                                                  seq_same(r, run(entries, self, rval, tag)))]


METH = models.METHODS
METH[(ET.Element, "findtext")] = lambda o, k, default=None: S("str", ctx().fresh("findtext", STR))
Contract(N + "SequenceNode.from_xml", [ObjS(SNM.LeafListNode), XMLE, Str, Str], ensures=list_ens, props=P,
         raises=(MissingModuleNamespace, RawTypeError), variant="leaf-list")
Contract(N + "SequenceNode.from_xml", [ObjS(SNM.ListNode), XMLE, Str, Str], ensures=list_ens, props=P,
         raises=(MissingModuleNamespace, RawTypeError), variant="list")


# ---------------------------------------------------------------- writing elements
FILTER = ObjS(IM.OutputFilter)
WRITTEN = ObjS(SNM.LeafNode, SNM.LeafListNode, SNM.ListNode, SNM.ContainerNode, SNM.InputNode, SNM.OutputNode)
OUTER = ObjS(SNM.ContainerNode, SNM.ListNode, SNM.InputNode, SNM.OutputNode, SNM.SchemaTreeNode)
attrs(IM.InstanceNode, schema_node=WRITTEN)
use(N + "SchemaNode.data_parent", lambda c, fn, args, kw: Opt(OUTER).wrap(uf("data_parent", I, I)(ops.resolve(args[0]).ref)))
use(IN + "InstanceNode._get_attributes", lambda c, fn, args, kw: interp.new_dict())    # trees without annotations
EN = ObjS(IM.ArrayEntry)
MM = ObjS(IM.ObjectMember)
AbstractContract(IM.InstanceNode, "_member", lambda c, o, a, kw: MM.wrap(uf("member", I, STR, I)(o.ref, ops.raw_term(ops.resolve(a[0])))), always=True)


def a_xml_iter(c, o, a, kw):
    k = getattr(c, "xml_counts", (1, 1))
    if o.shape and "value" in o.shape:
        return interp.new_list(Seq.of([S("str", uf("member_name", I, I, STR)(o.ref, z3.IntVal(i))) for i in range(k[0])]))
    return interp.new_list(Seq.of([EN.wrap(uf("entry_of", I, I, I)(o.ref, z3.IntVal(i))) for i in range(k[1])]))


def a_to_xml(c, o, a, kw):
    """Below: the element is completed with what the node holds."""
    e = ops.resolve(a[1])
    interp.setattr_(e, "holds", o)
    return e


AbstractContract(IM.InstanceNode, "__iter__", a_xml_iter, always=True)
AbstractContract(IM.InstanceNode, "to_xml", a_to_xml, always=True)


def expected_elements(c, self, k):
    out = []
    for cname in a_xml_iter(c, self, [], {}).seq.elems:
        m = MM.wrap(uf("member", I, STR, I)(self.ref, ops.raw_term(cname)))
        sn = ops.resolve(get(m, "schema_node"))
        many = interp.isinstance_(sn, SNM.ListNode) or interp.isinstance_(sn, SNM.LeafListNode)
        io = interp.isinstance_(sn, SNM.InputNode) or interp.isinstance_(sn, SNM.OutputNode)
        dp = Opt(OUTER).wrap(uf("data_parent", I, I)(sn.ref))
        other = io or dp is None or not c.branch(zb(ops.py_eq(get(dp, "ns"), get(sn, "ns"))))
        for node in (a_xml_iter(c, m, [], {}).seq.elems if many else [m]):
            out.append((sn, other, node))
    return out


def write_ens(c, args, out, old):
    self, flt, elem = args
    want = expected_elements(c, self, None)
    mods = get(get(self, "schema_data"), "modules_by_name")
    if out.kind == "exc":
        bad = [zb(z3.Not(zb(models.contains(mods, get(sn, "ns"))))) for sn, other, node in want if other]
        return [("refused only when a module is not there", issubclass(out.value.cls, MissingModuleNamespace) and z3.Or(*bad))]
    r = ops.resolve(out.value)
    goals = [("the given element", zb(same_obj(r, elem))), ("one element per leaf, container and entry", zb(r.seq.nz() == len(want)))]
    if r.seq.elems is None or len(r.seq.elems) != len(want):
        return goals
    for i, (x, (sn, other, node)) in enumerate(zip(r.seq.elems, want)):
        x = ops.resolve(x)
        at = get(x, "attrib")
        goals.append((f"name {i}", zb(same_obj(get(x, "tag"), get(sn, "name")))))
        goals.append((f"content {i}", zb(same_obj(get(x, "holds"), node))))
        f, v = at.map.lookup("xmlns")
        goals.append((f"namespace {i}", f == other and (not other or zb(same_obj(v, get(models.getitem(mods, get(sn, "ns")), "xml_namespace"))))))
    return goals


def fresh_element():
    def f(c):
        o = interp.call(ET.Element, ["x"], {})
        return o
    return f


def counts(k):
    def req(c, self, flt, elem):
        c.xml_counts = k
        for cname in a_xml_iter(c, self, [], {}).seq.elems:
            t = ops.raw_term(cname)
            c.fact(z3.And(z3.Length(t) > 0, z3.Not(z3.PrefixOf(z3.StringVal("@"), t))))
    return req


for k in ((0, 1), (1, 0), (1, 1), (1, 2), (2, 1)):
    Contract(IN + "InstanceNode.to_xml", [ObjS(IM.ObjectMember, attrs={"value": OBJT}), FILTER, fresh_element()], requires=counts(k),
             ensures=write_ens, props=P, raises=(MissingModuleNamespace,), modifies=[(2, "*")],
             variant="object, %d members, %d entries each" % k, bounded="objects of up to two members and lists of up to two entries")


SCALARNODE = ObjS(IM.ObjectMember, IM.ArrayEntry, attrs={"schema_node": ObjS(SNM.LeafNode, SNM.LeafListNode),
                                                       "value": AnyV(COOKED)})


def scalar_ens(c, args, out, old):
    self, flt, elem = args
    t = get(get(self, "schema_node"), "type")
    v = get(self, "value")
    p = interp.call_method(t, "_xml_prefix", [v])
    mods = get(get(self, "schema_data"), "modules_by_name")
    if out.kind == "exc":
        return [("refused only when the module of an identity is not there", p is not None and
                 z3.Not(zb(models.contains(mods, p))))]
    e = ops.resolve(out.value)
    at = get(e, "attrib")
    goals = [("the given element", zb(same_obj(e, elem))), ("its text", zb(same_obj(get(e, "text"), interp.call_method(t, "to_xml", [v]))))]
    if p is not None:
        f, w = at.map.lookup(ops.arith("+", "xmlns:", p))
        goals.append(("the prefix is declared", f and zb(same_obj(w, get(models.getitem(mods, p), "xml_namespace")))))
    return goals


Contract(IN + "InstanceNode.to_xml", [SCALARNODE, FILTER, fresh_element()], ensures=scalar_ens, props=P, raises=(MissingModuleNamespace,),
         modifies=[(2, "*")], variant="leaf or leaf-list entry")
