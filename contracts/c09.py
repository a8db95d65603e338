"""C09: routes lead where they say, and going agrees with peeking."""
from .c08 import *
from .c08 import child_of as _child, has, local_name
from .common import use, mapping, new
from pyvc import models
from pyvc import verify as _V
for _c in list(_V.REGISTRY):
    if _c.props == ("C08", "C07"):
        _V.REGISTRY.remove(_c)
from yangson.exceptions import InvalidKeyValue, NonDataNode, BadSchemaNodeType, ParserException, EndOfInput, UnexpectedInput
from yangson.instroute import InstanceRoute

P = ("C09",)
attrs(SNM.SchemaTreeNode, ns=Const(None))
MN, AN, EI, EV, EK = IM.MemberName, IM.ActionName, IM.EntryIndex, IM.EntryValue, IM.EntryKeys
attrs(MN, name=Str, namespace=Opt(Str))
attrs(EI, index=Int)
attrs(EV, value=Str)
DOCGO = (NI, IVE, NSN, NonDataNode, InvalidKeyValue, BadSchemaNodeType)
MNS, ANS, EIS, EVS = (ObjS(k) for k in (MN, AN, EI, EV))


def name_term(x):
    return z3.Not(z3.Contains(ops.raw_term(x), z3.StringVal(":")))


def plain_name(c, sel, *a):
    """Names and prefixes read from a text are identifiers."""
    c.fact(z3.And(name_term(get(sel, "name")), z3.Length(ops.raw_term(get(sel, "name"))) > 0))
    ns = ops.resolve(get(sel, "namespace"))
    if ns is not None:
        c.fact(z3.And(name_term(ns), z3.Length(ops.raw_term(ns)) > 0))


def data_child(c, o, a, kw):
    """The data child of that name and namespace: a function of both (the node's own namespace by default)."""
    name, ns = ops.resolve(a[0]), ops.resolve(a[1]) if len(a) > 1 else None
    own = ops.resolve(get(o, "ns"))
    if ns is None:
        ns = own
    if ns is None:
        return None
    ch = ops.resolve(CHILD.wrap(uf("data_child", I, STR, STR, I)(o.ref, ops.raw_term(name), ops.raw_term(ns))))
    if ch is None:
        return None
    c.fact(z3.And(zb(eq(get(ch, "name"), name)), zb(eq(get(ch, "ns"), ns))))
    inner = own is not None and c.branch(ops.raw_term(own) == ops.raw_term(ns))
    iname = uf("iname", I, STR)(ch.ref)
    c.fact(iname == (ops.raw_term(name) if inner else z3.Concat(ops.raw_term(ns), z3.StringVal(":"), ops.raw_term(name))))
    return ch


AbstractContract(SNM.InternalNode, "get_data_child", data_child, always=True)


def both(c, run_, sel, inst):
    """Outcomes of going and of peeking from the same place."""
    out = []
    for m, a in (("goto_step", [inst]), ("peek_step", [get(inst, "value"), get(inst, "schema_node")])):
        try:
            out.append(("ret", interp.call_method(sel, m, a)))
        except PyExc as e:
            out.append(("exc", e.cls))
    return tuple(out)


def agree(c, args, out, old):
    (gk, g), (pk, p) = out.value
    if gk == "exc":
        ok = any(issubclass(g, k) for k in DOCGO)
        gs = [("going fails with a documented error", ok)]
        if issubclass(g, NI):
            return gs + [("peeking gives nothing where no instance exists", pk == "ret" and zb(eq(models.getitem(p, 0), None)))]
        if pk == "exc":
            return gs + [("peeking fails with a documented error", any(issubclass(p, k) for k in DOCGO))]
        return gs + [("peeking gives nothing", zb(eq(models.getitem(p, 0), None)))]
    if pk == "exc":
        return [("peeking gives what going there gives", False)]
    return [("peeking gives what going there gives", zb(eq(models.getitem(p, 0), get(g, "value")))),
            ("and its schema node", zb(eq(models.getitem(p, 1), get(g, "schema_node"))))]


SCALARS = AnyV(("bool", "int", "str", "dec"))
PLACES = OBJECTS + [("array", ObjS(IM.ObjectMember, attrs={"value": ARRT, "schema_node": ObjS(SNM.LeafListNode, SNM.ListNode)})),
                    ("scalar", ObjS(IM.ObjectMember, attrs={"value": SCALARS, "schema_node": ObjS(SNM.LeafNode, SNM.LeafListNode)}))]


def present(c, sel, inst):
    """Values in a tree are never None."""
    v = ops.resolve(get(inst, "value"))


for nm, sh in PLACES:
    Contract(IN + "MemberName.peek_step", [MNS, sh], requires=plain_name, body=both, ensures=agree, props=P, variant="member of " + nm)
    Contract(IN + "EntryIndex.peek_step", [EIS, sh], body=both, ensures=agree, props=P, variant="entry of " + nm)


# ---------------------------------------------------------------- values and keys
from yangson import datatype as D
TYPE = ObjS(D.DataType)
attrs(SNM.TerminalNode, type=TYPE)
attrs(SNM.ListNode, keys=ListS(PairS()))


def a_parse(c, o, a, kw):
    """parse_value of a type (C02): a function of the text, nothing if the text is no value of the type."""
    t = ops.raw_term(ops.resolve(a[0]))
    if not c.branch(uf("parses", I, STR, B)(o.ref, t)):
        return None
    return SCALARS.wrap(uf("parse", I, STR, V)(o.ref, t))


AbstractContract(D.DataType, "parse_value", a_parse, always=True)


def a_canon(c, o, a, kw):
    return S("str", uf("canon", I, V, STR)(o.ref, ops.to_V(a[0])))


AbstractContract(D.DataType, "canonical_string", a_canon, always=True)


def parse_value_ens(c, args, out, old):
    self, sn = args
    t = get(sn, "type")
    v = a_parse(c, ops.resolve(t), [get(self, "value")], {})
    if v is None:
        return [("no value: refused", out.kind == "exc")]
    return [("the value the text denotes", out.kind == "ret" and zb(eq(out.value, v)))]


Contract(IN + "EntryValue.parse_value", [EVS, ObjS(SNM.LeafListNode)], ensures=parse_value_ens, raises=(InvalidKeyValue,), props=P)
for nm, sh in PLACES:
    Contract(IN + "EntryValue.peek_step", [EVS, sh], body=both, ensures=agree, props=P, variant="value in " + nm)
    Contract(IN + "ActionName.peek_step", [ANS, sh if nm not in ("array", "scalar") else sh], requires=plain_name, body=both,
             ensures=agree, props=P, variant="action in " + nm)


LISTPLACES = [(nm, sh) for nm, sh in PLACES if nm != "array"] + [
    ("list", LISTI), ("leaf-list", ObjS(IM.ObjectMember, attrs={"value": ARRT, "schema_node": ObjS(SNM.LeafListNode)}))]


def keysel(c, kargs):
    ks = []
    for i in range(0, len(kargs), 3):
        c.fact(z3.And(name_term(kargs[i]), z3.Length(ops.raw_term(kargs[i])) > 0))
        ks.append(((kargs[i], kargs[i + 1]), kargs[i + 2]))
    if len(ks) == 2:
        c.fact(z3.Not(zb(eq(ks[0][0], ks[1][0]))))
    return new(EK, keys=mapping(dict, ks))


def both_keys(c, run_, inst, *kargs):
    return both(c, run_, keysel(c, kargs), inst)


def keys_body(c, run_, sn, *kargs):
    try:
        return "ret", interp.call_method(keysel(c, kargs), "parse_keys", [sn])
    except PyExc as e:
        return "exc", e.cls


def keys_ens(c, args, out, old):
    sn, kargs = args[0], args[1:]
    k, r = out.value
    want = []
    for i in range(0, len(kargs), 3):
        ch = data_child(c, ops.resolve(sn), [kargs[i], kargs[i + 1]], {})
        if ch is None:
            return [("unknown leaf: refused", k == "exc" and issubclass(r, NSN))]
        if interp.isinstance_(ch, SNM.TerminalNode) is not True:
            return [("no leaf: refused", k == "exc" and issubclass(r, BadSchemaNodeType))]
        v = a_parse(c, ops.resolve(get(ch, "type")), [kargs[i + 2]], {})
        if v is None:
            return [("no value: refused", k == "exc" and issubclass(r, InvalidKeyValue))]
        want.append((a_iname(c, ch, [], {}), v))
    if k == "exc":
        return [("accepted", False)]
    return [("every leaf with its value", map_same(r, mapping(dict, want)))]


KEYARG = [Str, OneOf(Const(None), Str), Str]
for n in (0, 1, 2):
    Contract(IN + "EntryKeys.parse_keys", [ObjS(SNM.ListNode)] + n * KEYARG, body=keys_body, ensures=keys_ens, props=P,
             variant=f"{n} keys", bounded="up to 2 keys")
    for nm, sh in LISTPLACES:
        if n == 2 and nm != "list":
            continue
        Contract(IN + "EntryKeys.peek_step", [sh] + n * KEYARG, body=both_keys, ensures=agree, props=P, variant=f"{n} keys in {nm}",
                 bounded="up to 2 keys")


# ---------------------------------------------------------------- whole routes
from yangson.instroute import InstanceRouteItem
from pyvc.inv import LoopInv
ITEM = ObjS(InstanceRouteItem)
ROUTE = ListS(ITEM, cls=InstanceRoute)
PLACE_SN = ObjS(SNM.LeafNode, SNM.LeafListNode, SNM.ListNode, SNM.ContainerNode, SNM.AnydataNode, SNM.AnyxmlNode, SNM.SchemaTreeNode)
PLACE = ObjS(IM.InstanceNode, attrs={"value": CELL, "schema_node": PLACE_SN})     # whatever kind of node
fails = uf("goto_fails", I, I, I)          # 0: no, 1: no such instance, 2: otherwise
leads = uf("goto_leads", I, I, I)
at_ = uf("node_at", I, I, I, I)            # node reached from a node along the first i items of a route
ERR = {1: NonexistentInstance, 2: InstanceValueError}


def a_goto(c, o, a, kw):
    f = fails(ref(o), ref(a[0]))
    for k, e in ERR.items():
        if c.branch(f == k):
            raise PyExc(e)
    c.fact(f == 0)
    return PLACE.wrap(leads(ref(o), ref(a[0])))


def a_peek(c, o, a, kw):
    """peek_step as proved above, at the node whose value and schema node are given."""
    n = c.memo["node"]
    if not c.branch(z3.And(zb(eq(a[0], get(n, "value"))), zb(eq(a[1], get(n, "schema_node"))))):
        return (CELL.make("anyval_%d" % c.engine.next_id()), PLACE_SN.wrap(c.fresh("anysn", I)))
    f = fails(ref(o), ref(n))
    c.fact(z3.And(f >= 0, f <= 2))
    if c.branch(f == 0):
        m = PLACE.wrap(leads(ref(o), ref(n)))
        v = get(m, "value")
        c.fact(z3.Not(zb(eq(v, None))))
        return (v, get(m, "schema_node"))
    if c.branch(f == 1) or c.branch(z3.Bool("peek!%d" % c.engine.next_id())):
        return (None, PLACE_SN.wrap(c.fresh("sn", I)))
    c.fact(f == 2)
    raise PyExc(InstanceValueError)


AbstractContract(InstanceRouteItem, "goto_step", a_goto, always=True)
AbstractContract(InstanceRouteItem, "peek_step", a_peek, always=True)


def along(c, self, rt):
    """Axioms of the route: node_at is the iteration of goto_step."""
    s, r = ref(self), ref(rt)
    j = z3.Int("j!%d" % c.engine.next_id())
    c.fact(at_(s, r, z3.IntVal(0)) == s)
    it = ref(rt.seq.get(j))
    c.fact(z3.ForAll([j], z3.Implies(j >= 0, at_(s, r, j + 1) == leads(it, at_(s, r, j)))))


def passed(c, self, rt, i):
    """The first i items lead somewhere."""
    s, r = ref(self), ref(rt)
    return all_of(i, lambda j: fails(ref(rt.seq.get(j)), at_(s, r, j)) == 0)


def stuck(c, self, rt, kinds):
    """The item at hand (c.memo) leads nowhere, all before it do."""
    i = c.memo["at"]
    f = fails(ref(rt.seq.get(i)), at_(ref(self), ref(rt), i))
    return z3.And(0 <= i, i < rt.seq.nz(), z3.Or(*[f == k for k in kinds]), passed(c, self, rt, i))


def goto_inv(c, v, i, seq):
    self, rt = v.pre["self"], v.pre["iroute"]
    c.memo["at"] = i
    return [("the node reached so far", ref(v.inst) == at_(ref(self), ref(rt), i)), ("no item failed", passed(c, self, rt, i))]


def goto_ens(c, args, out, old):
    self, rt = args
    n = rt.seq.nz()
    if out.kind == "exc":
        k = 1 if issubclass(out.value.cls, NI) else 2
        return [("fails where the first failing item does", stuck(c, self, rt, [k]))]
    return [("every item leads somewhere", passed(c, self, rt, n)), ("the last node", ref(out.value) == at_(ref(self), ref(rt), n))]


def node_value(c, v):
    return CELL.make("val_%d" % c.engine.next_id())


def peek_inv(c, v, i, seq):
    self, rt = v.pre["self"], v.pre["iroute"]
    c.memo["at"] = i
    node = PLACE.wrap(at_(ref(self), ref(rt), i))
    c.memo["node"] = node
    return [("value of the node reached", zb(eq(v.val, get(node, "value")))),
            ("its schema node", zb(eq(v.sn, get(node, "schema_node")))),
            ("it is not None", z3.Not(zb(eq(v.val, None)))), ("no item failed", passed(c, self, rt, i))]


def peek_ens(c, args, out, old):
    self, rt = args
    n = rt.seq.nz()
    if out.kind == "exc":
        return [("fails only where going fails, not for lack of an instance", stuck(c, self, rt, [2]))]
    end = PLACE.wrap(at_(ref(self), ref(rt), n))
    if c.branch(zb(eq(out.value, None))):
        return [("nothing only where going fails", stuck(c, self, rt, [1, 2]))]
    return [("only where going does not fail", passed(c, self, rt, n)), ("the value there", zb(eq(out.value, get(end, "value"))))]


def not_none(c, self, rt):
    along(c, self, rt)
    c.fact(z3.Not(zb(eq(get(self, "value"), None))))


GOROUTE = [PLACE, ROUTE]
Contract(N_ + "goto", GOROUTE, requires=along, ensures=goto_ens, raises=tuple(ERR.values()), props=P,
         loops=[LoopInv({"inst": PLACE}, goto_inv)])
Contract(N_ + "peek", GOROUTE, requires=not_none, ensures=peek_ens, raises=tuple(ERR.values()), props=P,
         loops=[LoopInv({"val": CELL, "sn": PLACE_SN}, peek_inv)])


# ---------------------------------------------------------------- texts
from .parse import *
P = ("C09",)
IIP = ObjS(IM.InstanceIdParser)
SYN = (EndOfInput, UnexpectedInput)
II = IN + "InstanceIdParser."
EQ, LB, RB, SL = (z3.StringVal(x) for x in "=[]/")
PE = ParserException


def g_value(c, t, o):
    """*WSP "=" *WSP quoted-string *WSP "]": (error, value, end)."""
    p = skip(t, o)
    if not c.branch(ch(t, p) == EQ):
        return PE, None, None
    p = skip(t, p + 1)
    q = ch(t, p)
    if not c.branch(z3.Or(q == z3.StringVal("'"), q == z3.StringVal('"'))):
        return PE, None, None
    e = z3.IndexOf(t, q, p + 1)
    if c.branch(e < 0):
        return PE, None, None
    r = skip(t, e + 1)
    if not c.branch(ch(t, r) == RB):
        return PE, None, None
    return None, ss(z3.SubString(t, p + 1, e - p - 1)), r + 1


def contract9(name, spec, **kw):
    Contract(II + name, [IIP], **exact(spec), raises=SYN, props=P, **kw)


contract9("_get_value", g_value)
verr, vval, vend = uf("gv_err", STR, I, B), uf("gv_val", STR, I, STR), uf("gv_end", STR, I, I)


def value_use(c, fn, a, kw):
    """Proved above: a function of text and position."""
    p = a[0]
    t, o = text(p), off(p)
    if c.branch(verr(t, o)):
        raise PyExc(UnexpectedInput)
    e = vend(t, o)
    c.fact(z3.And(e > o, e <= z3.Length(t)))
    interp.setattr_(p, "offset", S("int", e))
    return ss(vval(t, o))


use(II + "_get_value", value_use)
NAMED = ("loc", "pre")


def g_key(c, t, o):
    """node-identifier and value: (error, ((name, prefix), value), end)."""
    x, nm, e = p_pname(c, t, o)
    if x is not None or c.branch(verr(t, e)):
        return PE, None, None
    return None, (nm, ss(vval(t, e))), vend(t, e)


def moved(c, v):
    """The parser, somewhere in the text."""
    p = v.pre["self"]
    interp.setattr_(p, "offset", S("int", c.fresh("offset", I)))
    return p


def sel_dict(c, v):
    return interp.call(interp.getattr_(DictS(NamedS(), Str).make("sel_%d" % c.engine.next_id()), "copy"), [], {})


def key_inv(c, v, i, seq):
    """One more pair than before, read where the parser stood; a bracket and blanks follow."""
    p, sel, m = v.self, v.sel, c.memo
    t, o = text(p), off(p)
    ph = m["phase"] = m.get("phase", 0) + 1
    if ph == 1:
        return [("no key yet", zb(ops.map_count_zero(sel.map)) if hasattr(ops, "map_count_zero") else True)]
    if ph == 2:
        m["o"], m["sel"] = o, sel.map
        return [("inside the text", z3.And(o >= 0, o <= z3.Length(t)))]
    x, kv, e = g_key(c, t, m["o"])
    if x is not None:
        return [("goes on only after a key predicate", False)]
    nm, val = kv
    return [("inside the text", z3.And(o >= 0, o <= z3.Length(t))), ("after a bracket and blanks", z3.And(ch(t, e) == LB, o == skip(t, e + 1))),
            ("each key once", z3.Not(ops.map_has_term(m["sel"], ops.named_term(nm), NAMED))),
            ("the key is added", ops.map_eq_term(sel.map, m["sel"].write(nm, val), ops.same))]


def keys_read(c, args, out, old):
    p = args[0]
    t, o = old[0], c.memo["o"]
    x, kv, e = g_key(c, t, o)
    if x is not None:
        return [("what is no key predicate is refused", out.kind == "exc")]
    nm, val = kv
    if c.branch(ops.map_has_term(c.memo["sel"], ops.named_term(nm), NAMED)):
        return [("a second predicate for a key is refused", out.kind == "exc")]
    if out.kind == "exc":
        return [("accepted", False)]
    return [("a key selector", is_new(out.value, EK)), ("the last one", z3.Not(ch(t, e) == LB)), ("where reading ends", off(p) == e),
            ("all keys", ops.map_eq_term(get(out.value, "keys").map, c.memo["sel"].write(nm, val), ops.same))]


Contract(II + "_key_predicates", [IIP], requires=inside, old=start, modifies=OFF, raises=SYN, props=P, ensures=keys_read,
         loops=[LoopInv({"self": moved, "sel": sel_dict}, key_inv)])
kerr, kobj, kend = uf("kp_err", STR, I, B), uf("kp_obj", STR, I, I), uf("kp_end", STR, I, I)
EKS = ObjS(EK)


def keys_use(c, fn, a, kw):
    """Proved above: a function of text and position."""
    p = a[0]
    t, o = text(p), off(p)
    if c.branch(kerr(t, o)):
        raise PyExc(UnexpectedInput)
    e = kend(t, o)
    c.fact(z3.And(e > o, e <= z3.Length(t)))
    interp.setattr_(p, "offset", S("int", e))
    return EKS.wrap(kobj(t, o))


use(II + "_key_predicates", keys_use)


def segment(c, t, o):
    """One "/" node-identifier with its predicates at o: (error, [checks of items], end)."""
    if not c.branch(ch(t, o) == SL):
        return PE, None, None
    x, nm, e = p_pname(c, t, o + 1)
    if x is not None:
        return PE, None, None
    items = [lambda it: is_new(it, MN) and z3.And(zb(eq(get(it, "name"), nm[0])), zb(eq(get(it, "namespace"), nm[1])))]
    if not c.branch(ch(t, e) == LB):
        return None, items, e
    p = skip(t, e + 1)
    if c.branch(z3.InRe(ch(t, p), DIGIT)):
        x, v, e = p_uint(c, t, p)
        if x is not None or not c.branch(ops.raw_term(v) >= 1):
            return PE, None, None
        e = skip(t, e)
        if not c.branch(ch(t, e) == RB):
            return PE, None, None
        return None, items + [lambda it: is_new(it, EI) and zb(eq(get(it, "index"), ops.arith("-", v, 1)))], e + 1
    if c.branch(ch(t, p) == z3.StringVal(".")):
        if c.branch(verr(t, p + 1)):
            return PE, None, None
        return None, items + [lambda it: is_new(it, EV) and zb(eq(get(it, "value"), ss(vval(t, p + 1))))], vend(t, p + 1)
    if c.branch(at_end(t, p)) or c.branch(kerr(t, p)):
        return PE, None, None
    return None, items + [lambda it: isinstance(it, Obj) and it.cls is EK and ref(it) == kobj(t, p)], kend(t, p)


def grown_by(c, before, after, items):
    n = before.nz()
    gs = [("as many items as the text has", after.nz() == n + len(items)),
          ("items read before remain", all_of(n, lambda i: zb(eq(after.get(i), before.get(i)))))]
    if c.check(after.nz() == n + len(items)) == z3.unsat:
        return gs
    c.assume(after.nz() == n + len(items))
    return gs + [("the item as in the text", f(after.get(n + j))) for j, f in enumerate(items)]


def parse_inv(c, v, i, seq):
    p, res, m = v.self, v.res, c.memo
    t, o = text(p), off(p)
    ph = m["phase"] = m.get("phase", 0) + 1
    if ph == 1:
        return [("nothing is read yet", z3.And(res.seq.nz() == 0, o == 0))]
    if ph == 2:
        m["o"], m["res"] = o, res.seq
        return [("inside the text", z3.And(o >= 0, o <= z3.Length(t)))]
    x, items, e = segment(c, t, m["o"])
    if x is not None:
        return [("goes on only after a segment", False)]
    return [("inside the text", z3.And(o >= 0, o <= z3.Length(t))), ("stands after the segment", o == e)] + grown_by(c, m["res"], res.seq, items)


def parsed(c, args, out, old):
    p = args[0]
    t = old[0]
    if "o" not in c.memo:
        return [("the root", z3.And(t == SL, out.kind == "ret" and out.value.seq.nz() == 0))]
    x, items, e = segment(c, t, c.memo["o"])
    if x is not None:
        return [("what is no segment is refused", out.kind == "exc")]
    if out.kind == "exc":
        return [("accepted", False)]
    if out.value.cls is not InstanceRoute:
        return [("a route", False)]
    return [("the end of the text", e == z3.Length(t))] + grown_by(c, c.memo["res"], out.value.seq, items)


def fresh_items(c, v):
    return interp.call(interp.getattr_(ListS(ITEM).make("res_%d" % c.engine.next_id()), "copy"), [], {})


def at_zero(c, self):
    inside(c, self)
    c.assume(off(self) == 0)


Contract(II + "parse", [IIP], requires=at_zero, old=start, modifies=OFF, raises=SYN, props=P, ensures=parsed,
         loops=[LoopInv({"self": moved, "res": fresh_items}, parse_inv)])


# ---------------------------------------------------------------- printed forms read back
def is_identifier(x):
    x = x if z3.is_expr(x) else ops.raw_term(x)
    return z3.And(z3.Length(x) > 0, z3.InRe(ch(x, 0), FIRST), z3.InRe(z3.SubString(x, 1, z3.Length(x) - 1), z3.Star(IDENT[1])))


class Reading:
    """Step by step derivation of what is read in a text: every step is proved from the hypotheses by the
    solver before the next may use it; equalities found are applied to the goals."""

    def __init__(self, c, t, hyps):
        self.c, self.t, self.hyps, self.eqs = c, t, list(hyps), []

    def known(self, *fs):
        for f in fs:
            s = z3.Solver()
            s.set("timeout", 5000)
            s.add(*self.hyps)
            s.add(z3.Not(f))
            if s.check() == z3.unsat:
                self.hyps.append(f)
                self.c.fact(f)

    def equal(self, r, e):
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(*self.hyps)
        s.add(r != e)
        if s.check() == z3.unsat:
            self.eqs.append((z3.simplify(r), z3.simplify(e)))
            self.c.fact(r == e)

    def longest(self, cls, q, e):
        """Meaning of a greedy run: it ends at e if all characters from q to e belong to it and the one at e does not."""
        t, r = self.t, regex.run_end(cls, self.t, q)
        inside_, outside = z3.InRe(z3.SubString(t, q, e - q), z3.Star(cls[1])), z3.Not(z3.InRe(ch(t, e), cls[1]))
        self.known(q <= e, e <= z3.Length(t), inside_, outside)
        self.hyps.append(z3.Implies(z3.And(q <= e, e <= z3.Length(t), inside_, outside), r == e))
        self.equal(r, e)

    def first_at(self, q, p, e):
        """Meaning of IndexOf: e is the first occurrence of a character from p on if it is there and not between."""
        t = self.t
        there, not_before = ch(t, e) == q, z3.Not(z3.Contains(z3.SubString(t, p, e - p), q))
        self.known(there, not_before, z3.Length(q) == 1, p <= e)
        self.hyps.append(z3.Implies(z3.And(z3.Length(q) == 1, 0 <= p, p <= e, there, not_before), z3.IndexOf(t, q, p) == e))
        self.equal(z3.IndexOf(t, q, p), e)

    def apply(self, x):
        if not z3.is_expr(x):
            return x
        for _ in range(4):
            x = z3.simplify(x)
            for r, e in self.eqs:
                x = z3.substitute(x, (r, e))
        return x

    def impossible(self, since):
        """The conditions met on the path since then contradict what is known."""
        return z3.Not(z3.And(*[self.apply(x) for x in self.c.decisions[since:]]))

    def goals(self, gs):
        return [(n, self.apply(g)) for n, g in gs]


def name_back(c, run_, sel, pre, post):
    return run_(sel)


def str_of(c, run_, sel, *a):
    return ops.resolve(run_(sel))


def printed(c, sel, *a):
    plain_name(c, sel)
    c.fact(is_identifier(get(sel, "name")))
    ns = ops.resolve(get(sel, "namespace"))
    if ns is not None:
        c.fact(is_identifier(ns))


def member_back(c, args, out, old):
    """In any text, followed by nothing, "[" or "/", the printed name reads as the name."""
    sel, pre, post = args
    if out.kind == "exc":
        return []
    s = ops.raw_term(out.value)
    pre, post = ops.raw_term(pre), ops.raw_term(post)
    c.assume(z3.Or(z3.Length(post) == 0, ch(post, 0) == LB, ch(post, 0) == SL))
    t = z3.Concat(pre, s, post)
    o = z3.Length(pre)
    name, ns = ops.raw_term(get(sel, "name")), ops.resolve(get(sel, "namespace"))
    a = o + 1
    ids = ([] if ns is None else [ops.raw_term(ns)]) + [name]
    rd = Reading(c, t, [is_identifier(x) for x in ids] + [z3.Or(z3.Length(post) == 0, ch(post, 0) == LB, ch(post, 0) == SL)])
    for x in ids:
        k = z3.Length(x)
        rd.known(z3.SubString(t, a, k) == x, ch(t, a) == ch(x, 0), z3.SubString(t, a + 1, k - 1) == z3.SubString(x, 1, k - 1))
        rd.known(ch(t, a + k) == (ch(post, 0) if x is name else z3.StringVal(":")))
        rd.longest(IDENT, a + 1, a + k)
        a = a + k + 1
    k0 = len(c.decisions)
    x, nm, e = p_pname(c, t, o + 1)
    if x is not None:
        return [("it is a name", rd.impossible(k0))]
    return rd.goals([("a slash", ch(t, o) == SL), ("name", str_is(nm[0], name)), ("namespace", zb(eq(nm[1], ns))),
                     ("all of it is read", e == o + z3.Length(s))])


Contract(IN + "MemberName.__str__", [MNS, Str, Str], requires=printed, body=str_of, ensures=member_back, props=P)


def quoted_back(c, args, out, old):
    v, pre, post = (ops.raw_term(x) for x in args)
    if out.kind == "exc":
        return []
    s = z3.Concat(EQ, ops.raw_term(out.value), RB)
    t = z3.Concat(pre, s, post)
    o = z3.Length(pre)
    rd = Reading(c, t, [z3.Contains(v, z3.StringVal('"')) if c.branch(z3.Contains(v, z3.StringVal('"'))) else
                        z3.Not(z3.Contains(v, z3.StringVal('"'))), no_both(v)])
    end = o + 2 + z3.Length(v)
    rd.known(ch(t, o) == EQ, z3.SubString(t, o + 2, z3.Length(v)) == v, ch(t, end + 1) == RB, ch(t, o + 1) == ch(t, end))
    rd.longest(BLANK, o, o)
    rd.longest(BLANK, o + 1, o + 1)
    rd.first_at(ch(t, o + 1), o + 2, end)
    rd.longest(BLANK, end + 1, end + 1)
    k0 = len(c.decisions)
    x, val, e = g_value(c, t, o)
    if x is not None:
        return [("it is a quoted string", rd.impossible(k0))]
    return rd.goals([("the value", str_is(val, v)), ("all of it is read", e == z3.Length(pre) + z3.Length(s))])


def no_both(t):
    return z3.Not(z3.And(z3.Contains(t, z3.StringVal("'")), z3.Contains(t, z3.StringVal('"'))))


def one_quote(c, v, *a):
    c.assume(no_both(ops.raw_term(v)))


Contract(IN + "_quoted", [Str, Str, Str], requires=one_quote, body=str_of, ensures=quoted_back, props=P)


# ---------------------------------------------------------------- other printed segments
def value_text(c, args, out, old):
    """[.="value"] or [.='value'] with the quote the value does not contain."""
    v = ops.raw_term(get(args[0], "value"))
    if out.kind == "exc":
        return [("printed", False)]
    r = ops.raw_term(out.value)
    q = z3.SubString(r, 3, 1)
    return [("form", r == z3.Concat(z3.StringVal("[.="), q, v, q, RB)), ("quote", z3.Or(q == z3.StringVal("'"), q == z3.StringVal('"'))),
            ("not in the value", z3.Not(z3.Contains(v, q)))]


def one_quote_of(c, sel, *a):
    c.assume(no_both(ops.raw_term(get(sel, "value"))))


Contract(IN + "EntryValue.__str__", [EVS], requires=one_quote_of, ensures=value_text, props=P)


def index_text(c, args, out, old):
    if out.kind == "exc":
        return [("printed", False)]
    n = ops.raw_term(ops.arith("+", get(args[0], "index"), 1))
    return [("form", ops.raw_term(out.value) == z3.Concat(LB, ops.str_int_term(n) if hasattr(ops, "str_int_term") else z3.IntToStr(n), RB))]


Contract(IN + "EntryIndex.__str__", [EIS], ensures=index_text, props=P)


# ---------------------------------------------------------------- segments of the routes of instances
def member_entry(c, args, out, old):
    """The member's name, with its prefix taken apart."""
    k = ops.raw_term(get(args[0], "_key"))
    if out.kind == "exc" or not is_new(out.value, MN):
        return [("a member name", False)]
    nm, ns = ops.raw_term(get(out.value, "name")), ops.resolve(get(out.value, "namespace"))
    return [("name and prefix", k == (nm if ns is None else z3.Concat(ops.raw_term(ns), z3.StringVal(":"), nm))),
            ("nothing left in the prefix", True if ns is None else name_term(ns)),
            ("nothing left in the name", z3.Implies(z3.BoolVal(ns is None), z3.Not(z3.Contains(nm, z3.StringVal(":")))))]


Contract(IN + "ObjectMember._instance_route_entry", [MEMB], ensures=member_entry, props=P)

BACK, CANON = uf("parses_back", I, B), uf("canonical text", I, STR)
AbstractContract(IM.InstanceNode, "_parses_back", lambda c, o, a, kw: S("bool", BACK(o.ref)), always=True)
AbstractContract(IM.InstanceNode, "__str__", lambda c, o, a, kw: S("str", CANON(o.ref)), always=True)


def is_index(r, e):
    return isinstance(r, Obj) and r.cls is EI and zb(eq(get(r, "index"), get(e, "_key")))


def leaflist_entry(c, args, out, old):
    """By value only if the canonical text means the value and no earlier entry has it, otherwise by position."""
    e = args[0]
    if out.kind == "exc":
        return [("a segment", False)]
    v, r = get(e, "value"), out.value
    seen = zb(models.contains(get(e, "before"), v))
    if r.cls is EV:
        return [("its text means the value", BACK(e.ref)), ("the first one", z3.Not(seen)), ("its canonical text", str_is(get(r, "value"), CANON(e.ref)))]
    return [("position", is_index(r, e)), ("otherwise by value", z3.Or(z3.Not(BACK(e.ref)), seen))]


LLE = ObjS(IM.ArrayEntry, attrs={"schema_node": ObjS(SNM.LeafListNode)})
Contract(IN + "ArrayEntry._instance_route_entry", [LLE], requires=entry_ok, ensures=leaflist_entry, props=P, variant="leaf-list")


def key_insts(c, o, a, kw):
    """The key leaf of that name: there or not, a function of entry and name."""
    if "lookups" not in c.memo:
        return interp.call(IM.InstanceNode.__getitem__, [o] + list(a), kw)
    k = ops.raw_term(ops.resolve(a[0]))
    if c.branch(uf("key.missing", I, STR, B)(o.ref, k)):
        raise PyExc(NI)
    return ops.resolve(MEMB.wrap(uf("key.inst", I, STR, I)(o.ref, k)))


AbstractContract(IM.ArrayEntry, "__getitem__", key_insts, always=True)


def list_entry(n):
    def ens(c, args, out, old):
        """All the keys in canonical form if they all are there and mean their values, otherwise the position."""
        e = args[0]
        if out.kind == "exc":
            return [("a segment", False)]
        sn = ops.resolve(get(e, "schema_node"))
        ks = [ops.resolve(models.getitem(get(sn, "keys"), i)) for i in range(n)]
        ok, pairs = [], []
        for k in ks:
            nm, ns = models.getitem(k, 0), models.getitem(k, 1)
            own = c.branch(zb(eq(ns, get(sn, "ns"))))
            it = ops.raw_term(nm) if own else z3.Concat(ops.raw_term(ns), z3.StringVal(":"), ops.raw_term(nm))
            ki = uf("key.inst", I, STR, I)(e.ref, it)
            ok.append(z3.And(z3.Not(uf("key.missing", I, STR, B)(e.ref, it)), BACK(ki)))
            pairs.append(((nm, None if own else ns), CANON(ki)))
        r = out.value
        if r.cls is not EK:
            return [("position", is_index(r, e)), ("otherwise by keys", z3.Not(z3.And(*ok)) if n else True)]
        m = ops.resolve(get(r, "keys")).map
        gs = [("keys are there and mean their values", z3.And(*ok)), ("has keys", n > 0)]
        want = mapping(dict, [(tuple_of(p), S("str", t)) for p, t in pairs])
        return gs + [("every key with its canonical text", ops.map_eq_term(m, want.map, ops.same))]
    return ens


def tuple_of(p):
    return (p[0], p[1])


attrs(SNM.ListNode, keys=ListS(PairS()))
for _n in (0, 1, 2):
    Contract(IN + "ArrayEntry._instance_route_entry", [ObjS(IM.ArrayEntry, attrs={"schema_node": ObjS(SNM.ListNode, attrs={
        "keys": ListS(PairS(), fixed=_n), "ns": Str})})],
             requires=lambda c, *a: c.memo.__setitem__("lookups", 1), ensures=list_entry(_n), props=P, variant=f"list with {_n} keys", bounded="up to 2 keys")
