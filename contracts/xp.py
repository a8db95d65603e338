"""Values of XPath expressions (C14, C15): abstract evaluation of subexpressions and the conversions of XPath 1.0."""
from .yang import *
from .inst import *
from .common import use, new, ref, mapping
from pyvc import models, absfp
import decimal
from pyvc.core import F64
from yangson import xpathast as XA, nodeset as NSM
from yangson.nodeset import NodeSet
from yangson.exceptions import XPathTypeError

absfp.ENABLED = True
AST = "yangson.xpathast:"
NSQ = "yangson.nodeset:"
EXPR = ObjS(XA.Expr)
NODES = ListS(ANYINST, cls=NodeSet)
XCTX = ObjS(XA.XPathContext)
attrs(XA.XPathContext, cnode=ANYINST, origin=ANYINST, position=Nat, size=Nat)
attrs(XA.UnaryExpr, expr=Opt(EXPR))
attrs(XA.BinaryExpr, left=EXPR, right=EXPR)
CANON = uf("canonical text", I, STR)
KIND = uf("xpath.kind", I, I, I)
VAL = {"str": uf("xpath.str", I, I, STR), "flt": uf("xpath.num", I, I, F64), "bool": uf("xpath.bool", I, I, B)}
SET = uf("xpath.set", I, I, I)
FAILS = uf("xpath.fails", I, I, B)
NUMV, STRV, BOOLV = uf("xpath.as number", I, I, F64), uf("xpath.as string", I, I, STR), uf("xpath.as boolean", I, I, B)
SETNUM, SETSTR = uf("xpath.set number", I, F64), uf("xpath.set string", I, STR)
FTEXT = uf("number text", F64, STR)
TNUM = uf("text number", STR, F64)
NAN = z3.fpNaN(F64)
fp = lambda x: z3.FPVal(x, F64)


def position(c, e, x):
    """The names of expression and context, unless the value is a type error."""
    e, x = ops.resolve(e), ops.resolve(x)
    r, q = ref(e), ref(x) if not is_fresh(x) else fresh_ctx(c, x)
    if c.branch(FAILS(r, q)):
        raise PyExc(XPathTypeError)
    return r, q


def value_of(c, e, x):
    """The value of a subexpression in a context: any of the four types, or a type error."""
    r, q = position(c, e, x)
    k = KIND(r, q)
    c.fact(z3.And(k >= 0, k <= 3))
    if c.branch(k == 0):
        v = NODES.wrap(SET(r, q))
        linked(c, r, q, SETNUM(SET(r, q)), SETSTR(SET(r, q)), v.seq.nz() > 0)
        return v
    v = S("str", VAL["str"](r, q)) if c.branch(k == 1) else S("flt", VAL["flt"](r, q)) if c.branch(k == 2) else S("bool", VAL["bool"](r, q))
    linked(c, r, q, number_of(c, v), string_of(c, v), boolean_of(c, v))
    return v


def linked(c, r, q, n, s, b):
    """What conversions of the value are, for code that calls them in place of the value."""
    c.fact(z3.And(NUMV(r, q) == n, STRV(r, q) == s, BOOLV(r, q) == b))


def as_number(c, e, x):
    return NUMV(*position(c, e, x))


def as_string(c, e, x):
    return STRV(*position(c, e, x))


def as_boolean(c, e, x):
    return BOOLV(*position(c, e, x))


def is_fresh(x):
    return isinstance(x, Obj) and not x.initial


def fresh_ctx(c, x):
    """Contexts are equal when their nodes, positions and sizes are."""
    return uf("xpath.context", I, I, I, I, I)(ref(get(x, "cnode")), ref(get(x, "origin")), ops.raw_term(get(x, "position")), ops.raw_term(get(x, "size")))


AbstractContract(XA.Expr, "_eval", lambda c, o, a, kw: value_of(c, o, a[0]), always=True)
AbstractContract(IM.InstanceNode, "__str__", lambda c, o, a, kw: S("str", CANON(o.ref)), always=True)
is_set = lambda v: isinstance(v, Obj) and v.cls is NodeSet


def kind(v):
    v = ops.resolve(v)
    return "set" if isinstance(v, Obj) else ops.kind_of(v)


def boolean_of(c, v):
    k = kind(v)
    if k == "set":
        return v.seq.nz() > 0
    t = ops.raw_term(v)
    if k == "bool":
        return z3.BoolVal(t) if isinstance(t, bool) else t
    if k == "str":
        return z3.Length(t) > 0
    return z3.Not(z3.Or(z3.fpIsZero(t), z3.fpIsNaN(t)))


def node_num(c, n):
    v = ops.resolve(get(n, "value"))
    if kind(v) == "bool":
        return z3.If(ops.raw_term(v), fp(1), fp(0))
    return TNUM(CANON(n.ref))


def number_of(c, v):
    k = kind(v)
    if k == "set":
        n = node_num(c, ops.resolve(v.seq.get(z3.IntVal(0)))) if c.branch(v.seq.nz() > 0) else NAN
        if v.initial:
            c.fact(SETNUM(v.ref) == n)
        return n
    t = ops.raw_term(v)
    if k == "flt":
        return t
    return z3.If(t, fp(1), fp(0)) if k == "bool" else TNUM(t)


def string_of(c, v):
    k = kind(v)
    if k == "set":
        t = CANON(ref(v.seq.get(z3.IntVal(0)))) if c.branch(v.seq.nz() > 0) else z3.StringVal("")
        if v.initial:
            c.fact(SETSTR(v.ref) == t)
        return t
    t = ops.raw_term(v)
    if k == "str":
        return t
    return z3.If(t, z3.StringVal("true"), z3.StringVal("false")) if k == "bool" else FTEXT(t)


def spec_text(v):
    """Decimal form without exponent, integers without a point."""
    return format(decimal.Decimal(repr(v)), "f")


def spec_int(v):
    return str(int(v))


def define_text(c, t):
    """string() of a number."""
    c.fact(z3.And(z3.Implies(z3.fpIsNaN(t), FTEXT(t) == z3.StringVal("NaN")),
                  z3.Implies(z3.fpIsInf(t), FTEXT(t) == z3.If(z3.fpIsNegative(t), z3.StringVal("-Infinity"), z3.StringVal("Infinity")))))
    if not c.branch(z3.Or(z3.fpIsNaN(t), z3.fpIsInf(t))):
        whole = c.branch(z3.fpEQ(t, z3.fpRoundToIntegral(z3.RTZ(), t)))
        c.fact(FTEXT(t) == ops.raw_term(run(spec_int if whole else spec_text, S("flt", t))))


def use_number(c, fn, a, kw):
    return S("flt", number_of(c, ops.resolve(a[-1])))


def use_text(c, fn, a, kw):
    return ss_(as_string(c, a[0], a[1]))


def ss_(t):
    return S("str", t)


def fl(t):
    return S("flt", t)


def bo(t):
    return S("bool", t)


def same_value(got, k, want):
    """The value of the given type (NaN is NaN, -0 is not 0)."""
    got = ops.resolve(got)
    if kind(got) != k:
        return False
    g = ops.raw_term(got)
    if not z3.is_expr(g):
        g = {"flt": fp, "bool": z3.BoolVal, "str": z3.StringVal}[k](g)
    return g == want


def a_list_of(name):
    return lambda c, o, a, kw: ListS(ANYINST).wrap(uf("nodes." + name, I, I)(ref(o)))


AbstractContract(IM.InstanceNode, "_deref", a_list_of("deref"), always=True)


def outcome_of(f):
    try:
        return "ret", f()
    except PyExc as e:
        return "exc", e.cls


def like(spec):
    """The outcome of the specification, which evaluates subexpressions as the context does."""
    def ens(c, args, out, old):
        k, v = old
        if out.kind != k:
            return [("a value exactly if the specification gives one", False)]
        if k == "exc":
            return [("fails as documented", issubclass(out.value.cls, v))]
        return [("the value of the standard", ops.same(out.value, v))]
    return dict(ensures=ens, old=lambda c, *a: outcome_of(lambda: run(spec, *a)))
