"""Text and JSON codecs of scalar types: specifications shared by C02 and C03."""
import base64
from .dt import *
from pyvc import interp
from pyvc.core import PyExc, R
from pyvc.shapes import uf
from pyvc.models import numeral_re
from yangson.exceptions import ParserException, InvalidArgument
from yangson.instance import InstanceIdParser

attrs(D.LeafrefType, ref_type=ANYTYPE)
attrs(D.UnionType, types=ListS(ANYTYPE))
BITS = DictS(Str, Int)

# ---- operations of a data type of unknown class (induction hypothesis / open recursion)
COOKED_OPT = AnyV(("none", "bool", "int", "str", "dec", "bytes"),
                  refs=((tuple, TUP), (InstanceRoute, ROUTE)))
RAW_OPT = AnyV(("none", "bool", "int", "str"), refs=((list, JARR),))
AbstractContract(D.DataType, "__contains__", abs_contains)


def canon_fn(t, v):
    return uf("canon", I, V, STR)(t.ref, ops.to_V(v))


AbstractContract(D.DataType, "canonical_string", lambda c, o, a, kw: S("str", canon_fn(o, a[0])))
AbstractContract(D.DataType, "parse_value",
                 lambda c, o, a, kw: COOKED_OPT.wrap(uf("parse", I, STR, V)(o.ref, ops.to_term(a[0], STR))))
AbstractContract(D.DataType, "from_yang",
                 lambda c, o, a, kw: COOKED_OPT.wrap(uf("from_yang", I, STR, V)(o.ref, ops.to_term(a[0], STR))))
AbstractContract(D.DataType, "from_raw",
                 lambda c, o, a, kw: COOKED_OPT.wrap(uf("from_raw", I, V, V)(o.ref, ops.to_V(a[0]))))
AbstractContract(D.DataType, "to_raw",
                 lambda c, o, a, kw: RAW_OPT.wrap(uf("to_raw", I, V, V)(o.ref, ops.to_V(a[0]))))


def route_parse(c, fn, args, kw):
    """InstanceIdParser.parse: an instance route, or a parser exception (decided by C09)."""
    o = args[0]
    t = ops.raw_term(ops.resolve(o.attrs["input"])) if "input" in o.attrs else c.fresh("text", STR)
    if c.branch(uf("iid_ok", STR, B)(t)):
        return ROUTE.wrap(uf("iid_val", STR, I)(t))
    raise PyExc(ParserException)


Contract("yangson.instance:InstanceIdParser.parse", [ObjS(InstanceIdParser)], use=route_parse, any_exc=True)

# type -> (shape of the receiver, shape of contained values, membership spec)
TYPES = {
    D.BooleanType: (ObjS(D.BooleanType), Bool, spec_boolean),
    D.StringType: (ObjS(D.StringType), Str, spec_string),
    D.BinaryType: (ObjS(D.BinaryType), Bytes, spec_binary),
    D.EnumerationType: (ObjS(D.EnumerationType), Str, spec_enum),
    D.EmptyType: (ObjS(D.EmptyType), Const((None,)), spec_empty),
    D.IdentityrefType: (ObjS(D.IdentityrefType), QNAME, spec_identityref),
    D.Decimal64Type: (dec_type(), Dec, spec_decimal),
}
for k_, (lo_, hi_) in INT_TYPES.items():
    TYPES[k_] = (ObjS(k_), Int, spec_int(lo_, hi_))


def contained(k):
    spec = TYPES[k][2]

    def req(c, self, val):
        if k is D.Decimal64Type:
            return      # shape: dec_units (implied by containment; the bounds play no role)
        r = interp.run_function(spec, [self, val])
        c.assume(z3_(ops.truth_term(r)))
        if k is D.IdentityrefType:
            for j in range(2):
                w = ops.raw_term(ops.resolve(val.seq.get(j)))
                c.assume(z3.Not(z3.Contains(w, z3.StringVal(":"))))
    return req


def z3_(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


# ---- canonical forms
def canon_str(self, val):
    return val


def canon_int(self, val):
    return str(val)


def canon_bool(self, val):
    return "true" if val else "false"


def canon_empty(self, val):
    return ""


def canon_binary(self, val):
    return base64.b64encode(val).decode("ascii")


def canon_identity(self, val):
    return val[1] + ":" + val[0]


def canon_leafref(self, val):
    return self.ref_type.canonical_string(val)


def canon_union(self, val):
    for t in self.types:
        if val in t:
            return t.canonical_string(val)
    return None


CANON = {D.StringType: canon_str, D.EnumerationType: canon_str, D.BooleanType: canon_bool,
         D.EmptyType: canon_empty, D.BinaryType: canon_binary, D.IdentityrefType: canon_identity}
for k_ in INT_TYPES:
    CANON[k_] = canon_int


def kind_is(k):
    """Kinds of values a decoder of the type may deliver."""
    if k in INT_TYPES:
        return ("int",)
    return {D.BooleanType: ("bool",), D.StringType: ("str",), D.EnumerationType: ("str",), D.BinaryType: ("bytes",),
            D.EmptyType: ("tuple",), D.IdentityrefType: ("tuple",), D.Decimal64Type: ("dec", "decsp"),
            D.BitsType: ("tuple",), D.InstanceIdentifierType: ("route",)}[k]


def kind_name(v):
    v = ops.resolve(v)
    if v is None:
        return "none"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, tuple):
        return "tuple"
    if isinstance(v, Obj):
        if v.cls is InstanceRoute:
            return "route"
        if v.cls is tuple:
            return "tuple"
        return "obj"
    k = ops.kind_of(v)
    if k == "conc":
        return type(v).__name__
    return k


def right_kind(k):
    def ens(c, args, out, old):
        if out.kind != "ret":
            return []
        kn = kind_name(out.value)
        return [("right kind or nothing", kn == "none" or kn in kind_is(k) or
                 (kn == "decimal" and "dec" in kind_is(k)))]
    return ens
