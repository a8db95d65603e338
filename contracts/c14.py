"""C14: numbers, strings and booleans of XPath 1.0."""
from .xp import *

P = ("C14",)
TE = (XPathTypeError,)


def computes(spec):
    """The value and type the standard says, or the documented type error."""
    def ens(c, args, out, old):
        try:
            k, want = spec(c, *args)
        except PyExc as e:
            return [("fails as documented", out.kind == "exc" and issubclass(out.value.cls, e.cls))]
        if out.kind == "exc":
            return [("no error", False)]
        return [("a " + {"flt": "number", "str": "string", "bool": "truth value"}[k], kind(out.value) == k),
                ("the value of the standard", same_value(out.value, k, want))]
    return ens


def conv(target, args, spec, **kw):
    Contract(target, args, ensures=computes(spec), raises=TE, props=P, **kw)


# ---------------------------------------------------------------- conversions
VALUES = (("string", Str), ("number", Flt), ("boolean", Bool), ("node-set", NODES))
for nm, sh in VALUES:
    conv(NSQ + "to_boolean", [sh], lambda c, v: ("bool", boolean_of(c, v)), variant=nm)
    if nm != "string":
        conv(NSQ + "to_number", [sh], lambda c, v: ("flt", number_of(c, v)), variant=nm)
conv(NSQ + "node_number", [ANYINST], lambda c, n: ("flt", node_num(c, n)))
NUMERAL = r"[ \t\r\n]*(-?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+))[ \t\r\n]*"
import re


def numeral_value(s):
    """[S] ['-'] Number [S], otherwise NaN."""
    m = re.compile(NUMERAL).fullmatch(s)
    return float(m[1]) if m else float("nan")


Contract(NSQ + "to_number", [Str], spec=numeral_value, props=P, variant="string")
use(NSQ + "to_number", use_number)
use(NSQ + "node_number", lambda c, fn, a, kw: fl(node_num(c, ops.resolve(a[0]))))
conv(AST + "Expr._eval_boolean", [EXPR, XCTX], lambda c, e, x: ("bool", boolean_of(c, value_of(c, e, x))))
conv(AST + "Expr._eval_float", [EXPR, XCTX], lambda c, e, x: ("flt", number_of(c, value_of(c, e, x))))


def text_of(c, e, x):
    v = value_of(c, e, x)
    if kind(v) == "flt":
        define_text(c, ops.raw_term(v))
    return "str", string_of(c, v)


conv(AST + "Expr._eval_string", [EXPR, XCTX], text_of)


# ---------------------------------------------------------------- operators and functions
RNE, RTN, RTP = z3.RNE(), z3.RTN(), z3.RTP()
nums, strs, bools = as_number, as_string, as_boolean
use(AST + "Expr._eval_string", use_text)
use(AST + "Expr._eval_float", lambda c, fn, a, kw: fl(as_number(c, a[0], a[1])))
use(AST + "Expr._eval_boolean", lambda c, fn, a, kw: bo(as_boolean(c, a[0], a[1])))


def nodes(c, e, x):
    v = value_of(c, e, x)
    if kind(v) != "set":
        raise PyExc(XPathTypeError)
    return v


def fun(name, spec, requires=None, **kw):
    """spec(c, self, ctx) -> (type, value)."""
    cls = getattr(XA, name, None)
    if cls is None:
        return
    conv(AST + name + "._eval", [ObjS(cls), XCTX], spec, requires=requires, **kw)


attrs(XA.AdditiveExpr, plus=Bool)
attrs(XA.UnaryMinusExpr, negate=Bool)
attrs(XA.Number, value=Flt)
attrs(XA.Literal, value=Str)


def additive(c, e, x):
    a, b = nums(c, get(e, "left"), x), nums(c, get(e, "right"), x)
    return "flt", z3.If(ops.truth_term(get(e, "plus")), z3.fpAdd(RNE, a, b), z3.fpSub(RNE, a, b))


def multiplicative(c, e, x):
    """*, div (IEEE 754) and mod (remainder of a truncating division, as Java and ECMAScript do)."""
    a, b = nums(c, get(e, "left"), x), nums(c, get(e, "right"), x)
    op = ops.resolve(get(e, "operator"))
    if op is XA.MultiplicativeOp.multiply:
        return "flt", z3.fpMul(RNE, a, b)
    if op is XA.MultiplicativeOp.divide:
        return "flt", z3.fpDiv(RNE, a, b)
    return "flt", z3.If(z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b), z3.fpIsInf(a), z3.fpIsZero(b)), NAN, z3.If(z3.fpIsInf(b), a, uf("fmod", F64, F64, F64)(a, b)))


def minus(c, e, x):
    v = nums(c, get(e, "expr"), x)
    return "flt", z3.If(ops.truth_term(get(e, "negate")), z3.fpNeg(v), v)


def has_expr(c, e, x):
    if ops.resolve(get(e, "expr")) is None:
        raise Infeasible()


def rounded(mode):
    """Towards the given side, infinities and NaN unchanged, the sign of zero kept."""
    return lambda c, e, x: ("flt", z3.fpRoundToIntegral(mode, nums(c, get(e, "expr"), x)))


def xround(v):
    """The closest integer, the greater one of two; the sign of zero kept."""
    RNA, down = z3.RNA(), z3.fpRoundToIntegral(z3.RTZ(), v)
    tie = z3.fpEQ(z3.fpAbs(z3.fpSub(RNE, v, down)), fp(0.5))
    return z3.If(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v)), v,
                 z3.If(z3.And(tie, z3.fpLT(v, fp(0))), z3.fpRoundToIntegral(RTP, v), z3.fpRoundToIntegral(RNA, v)))


fun("AdditiveExpr", additive)
attrs(XA.MultiplicativeExpr, operator=EnumS(XA.MultiplicativeOp))
fun("MultiplicativeExpr", multiplicative)
fun("UnaryMinusExpr", minus, has_expr)
fun("Number", lambda c, e, x: ("flt", ops.raw_term(get(e, "value"))))
fun("Literal", lambda c, e, x: ("str", ops.raw_term(get(e, "value"))))
fun("FuncTrue", lambda c, e, x: ("bool", z3.BoolVal(True)))
fun("FuncFalse", lambda c, e, x: ("bool", z3.BoolVal(False)))
fun("FuncNot", lambda c, e, x: ("bool", z3.Not(bools(c, get(e, "expr"), x))), has_expr)
fun("FuncBoolean", lambda c, e, x: ("bool", bools(c, get(e, "expr"), x)), has_expr)
fun("FuncCeiling", rounded(RTP), has_expr)
fun("FuncFloor", rounded(RTN), has_expr)
conv(AST + "xpath_round", [Flt], lambda c, v: ("flt", xround(ops.raw_term(v))))
use(AST + "xpath_round", lambda c, fn, a, kw: fl(xround(ops.raw_term(ops.resolve(a[0])))))
fun("FuncRound", lambda c, e, x: ("flt", xround(nums(c, get(e, "expr"), x))), has_expr)
to_f = lambda t: ops.to_fp(S("int", t))
fun("FuncLast", lambda c, e, x: ("flt", to_f(ops.raw_term(get(x, "size")))))
fun("FuncPosition", lambda c, e, x: ("flt", to_f(ops.raw_term(get(x, "position")))))
fun("FuncCount", lambda c, e, x: ("flt", to_f(nodes(c, get(e, "expr"), x).seq.nz())), has_expr)
two = lambda c, e, x: (strs(c, get(e, "left"), x), strs(c, get(e, "right"), x))


def contains(c, e, x):
    s, p = two(c, e, x)
    return "bool", z3.Contains(s, p)


def starts(c, e, x):
    s, p = two(c, e, x)
    return "bool", z3.PrefixOf(p, s)


def before(c, e, x):
    """What precedes the first occurrence, nothing if there is none."""
    s, p = two(c, e, x)
    i = z3.IndexOf(s, p, 0)
    return "str", z3.If(z3.Contains(s, p), z3.SubString(s, 0, i), z3.StringVal(""))


def after(c, e, x):
    s, p = two(c, e, x)
    i = z3.IndexOf(s, p, 0)
    k = i + z3.Length(p)
    return "str", z3.If(z3.Contains(s, p), z3.SubString(s, k, z3.Length(s) - k), z3.StringVal(""))


def own_text(c, e, x):
    """The argument, or the context node."""
    a = ops.resolve(get(e, "expr"))
    return CANON(ref(get(x, "cnode"))) if a is None else strs(c, a, x)


fun("FuncContains", contains)
fun("FuncStartsWith", starts)
fun("FuncSubstringBefore", before)
fun("FuncSubstringAfter", after)
fun("FuncString", lambda c, e, x: ("str", own_text(c, e, x)))
fun("FuncStringLength", lambda c, e, x: ("flt", to_f(z3.Length(own_text(c, e, x)))))


def number(c, e, x):
    a = ops.resolve(get(e, "expr"))
    return "flt", (node_num(c, ops.resolve(get(x, "cnode"))) if a is None else nums(c, a, x))


fun("FuncNumber", number)


# ---------------------------------------------------------------- strings put together of characters
attrs(XA.FuncConcat, parts=ListS(EXPR))
attrs(XA.FuncSubstring, length=Opt(EXPR))
attrs(XA.FuncTranslate, nchars=EXPR)


def text(e, x):
    return e._eval_string(x)


def spec_concat(self, xctx):
    res = ""
    for p in self.parts:
        res += p._eval_string(xctx)
    return res


def spec_substring(self, xctx):
    """The characters whose position p has p >= round(start) and, given a length, p < round(start) + round(length)."""
    s = self.left._eval_string(xctx)
    start = round_(self.right._eval_float(xctx))
    if self.length is not None:
        end = start + round_(self.length._eval_float(xctx))
    res = ""
    for p, ch in enumerate(s, 1):
        if p >= start and (self.length is None or p < end):
            res += ch
    return res


def round_(v):
    raise NotImplementedError


models.model(round_)(lambda v: fl(xround(ops.raw_term(ops.resolve(v)))))


def fun2(name, spec, requires=None, **kw):
    cls = getattr(XA, name)

    def req(c, e, x):
        c.memo["fold joins"] = True
        if requires:
            requires(c, e, x)
    Contract(AST + name + "._eval", [ObjS(cls), XCTX], requires=req, raises=kw.pop("raises", TE), props=P, **like(spec), **kw)


fun2("FuncConcat", spec_concat)
fun2("FuncSubstring", spec_substring)


# ---------------------------------------------------------------- names, sums and functions of node-sets
attrs(XA.FuncName, local=Bool)


def node_set(v):
    if not isinstance(v, NodeSet):
        raise XPathTypeError("")
    return v


def spec_name(self, xctx):
    if self.expr is None:
        node = xctx.cnode
    else:
        ns = node_set(self.expr._eval(xctx))
        if len(ns) == 0:
            return ""
        node = ns[0]
    if node.parinst is None:
        return ""
    i = node.name.find(":")
    return node.name[i + 1:] if self.local and i >= 0 else node.name


def spec_current(self, xctx):
    return NodeSet([xctx.origin])


def spec_deref(self, xctx):
    ns = node_set(self.expr._eval(xctx))
    return NodeSet(ns[0]._deref() if ns else [])


fun2("FuncName", spec_name)
fun2("FuncCurrent", spec_current)
fun2("FuncDeref", spec_deref, has_expr)


def ens_sum(c, args, out, old):
    """A number: 0 for no nodes, the node's own number for one; how more of them round is left open."""
    e, x = args
    try:
        ns = nodes(c, get(e, "expr"), x)
    except PyExc as ex:
        return [("fails as documented", out.kind == "exc" and issubclass(out.value.cls, ex.cls))]
    if out.kind == "exc":
        return [("no error", False)]
    n = ns.seq.nz()
    if c.branch(n == 0):
        return [("zero", same_value(out.value, "flt", fp(0)))]
    if c.branch(n == 1):
        return [("the number of the node", z3.fpEQ(ops.raw_term(ops.resolve(out.value)), node_num(c, ops.resolve(ns.seq.get(z3.IntVal(0)))))
                 if not c.branch(z3.fpIsNaN(node_num(c, ops.resolve(ns.seq.get(z3.IntVal(0)))))) else z3.fpIsNaN(ops.raw_term(ops.resolve(out.value))))]
    return [("a number", kind(out.value) == "flt")]


conv_sum = Contract(AST + "FuncSum._eval", [ObjS(XA.FuncSum), XCTX], requires=has_expr, ensures=ens_sum, raises=TE, props=P)


def type_error_only(c, args, out, old):
    """The first argument must be a node-set; what is then computed is not stated."""
    e, x = args
    arg = get(e, "left")
    try:
        nodes(c, arg, x)
    except PyExc as ex:
        return [("fails as documented", out.kind == "exc" and issubclass(out.value.cls, ex.cls))]
    return []


attrs(XA.FuncBitIsSet)
Contract(AST + "FuncBitIsSet._eval", [ObjS(XA.FuncBitIsSet), XCTX], ensures=type_error_only, raises=TE, props=P)
