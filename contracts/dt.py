"""Shapes and specifications of scalar data types (shared by C01-C04, C20)."""
import re
import decimal
import z3
from pyvc.verify import Contract, AbstractContract, lemma
from pyvc.shapes import *
from pyvc.core import *
from pyvc.core import B, I, STR
from pyvc import ops
from pyvc.models import model
from yangson import datatype as D
from yangson.constraint import Intervals, Pattern
from yangson.instroute import InstanceRoute
from yangson.schemadata import SchemaContext, SchemaData
from .common import *

M = "yangson.datatype:"
TUP = TupSeq(AnyV(COOKED))
ROUTE = ListS(AnyV(("none",)), cls=InstanceRoute)
# any Python value a caller may pass
ANY = AnyV(("none", "bool", "int", "str", "dec", "decsp", "flt", "bytes"),
           refs=((tuple, TUP), (ArrayValue, ARR), (ObjectValue, OBJ), (InstanceRoute, ROUTE)))
# any JSON value
JARR = ListS(AnyV(("none", "bool", "int", "str", "flt")))
JOBJ = DictS(Str, AnyV(("none", "bool", "int", "str", "flt")))
JSON = AnyV(("none", "bool", "int", "str", "flt"), refs=((list, JARR), (dict, JOBJ)))


def intervals(num):
    return ObjS(Intervals, attrs={"intervals": ListS(ListS(num, lens=(1, 2)), nonempty=True),
                                  "error_tag": Opt(Str), "error_message": Opt(Str)})


IV_INT, IV_DEC = intervals(Int), intervals(Dec)
PATTERN = ObjS(Pattern, attrs={"regex": ObjS(re.Pattern), "invert_match": Bool, "error_tag": Opt(Str),
                               "error_message": Str, "pattern": Str})
QNAME = TupSeq(Str, lens=(2, 2))
SD = ObjS(SchemaData)
SCTX = ObjS(SchemaContext, attrs={"schema_data": SD, "default_ns": Str})

attrs(D.DataType, sctx=SCTX, name=Opt(Str), error_tag=Opt(Str), error_message=Opt(Str), units=Opt(Str))
attrs(D.IntegralType, range=Opt(IV_INT))
attrs(D.LinearType, length=Opt(IV_INT))
attrs(D.StringType, patterns=ListS(PATTERN))
attrs(D.BitsType, bit=DictS(Str, Int))
attrs(D.EnumerationType, enum=DictS(Str, Int))
attrs(D.IdentityrefType, bases=ListS(QNAME))


def dec_units(fd):
    """Any decimal that is a multiple of 10^-fd and has at most 28 digits."""
    def make(c):
        n = c.fresh("units", I)
        c.fact(z3.And(n < 10 ** 28, n > -10 ** 28))
        return S("dec", z3.ToReal(n) / z3.RealVal(10 ** fd))
    return make


def dec_type(fds=range(1, 19)):
    """A decimal64 type object: any fraction-digits, its epsilon, any range."""
    sh = ObjS(D.Decimal64Type, attrs={"fraction_digits": Choice(*fds), "range": Opt(IV_DEC)})

    def make(c):
        o = sh.make("dec64")
        fd = sh.attrs["fraction_digits"].wrap(uf("attr.fd", I, I)(o.ref))
        o.attrs["fraction_digits"] = fd
        o.attrs["_epsilon"] = decimal.Decimal(10) ** -fd
        return o
    return make


INT_TYPES = {D.Int8Type: (-2**7, 2**7 - 1), D.Int16Type: (-2**15, 2**15 - 1), D.Int32Type: (-2**31, 2**31 - 1),
             D.Int64Type: (-2**63, 2**63 - 1), D.Uint8Type: (0, 2**8 - 1), D.Uint16Type: (0, 2**16 - 1),
             D.Uint32Type: (0, 2**32 - 1), D.Uint64Type: (0, 2**64 - 1)}

# a data type of unknown class: membership is a pure function of type and value
ALLTYPES = (D.StringType, D.BooleanType, D.Int32Type, D.Uint8Type, D.UnionType, D.EnumerationType, D.BitsType,
            D.BinaryType, D.EmptyType, D.Decimal64Type, D.IdentityrefType, D.InstanceIdentifierType, D.LeafrefType)
ANYTYPE = ObjS(*ALLTYPES)


def member_fn(t, v):
    return S("bool", uf("member", I, V, B)(t.ref, ops.to_V(v)))


def abs_contains(c, o, args, kw):
    r = member_fn(o, args[0])
    if not c.branch(r.t):
        for a in ("error_tag", "error_message"):
            s = c.fresh("err", STR)
            c.fact(z3.Length(s) > 0)
            c.set_attr(o, a, S("str", s))
        return False
    return True


# ---------------------------------------------------------------- specifications
def spec_in_intervals(self, value):
    return any(r[0] <= value and value <= r[-1] for r in self.intervals)


def spec_boolean(self, val):
    return isinstance(val, bool)


def spec_empty(self, val):
    return isinstance(val, tuple) and len(val) == 1 and val[0] is None


def spec_length(self, n):
    return self.length is None or spec_in_intervals(self.length, n)


def spec_string(self, val):
    return (isinstance(val, str) and spec_length(self, len(val)) and
            all((p.regex.match(val) is not None) != p.invert_match for p in self.patterns))


def spec_binary(self, val):
    return isinstance(val, bytes) and spec_length(self, len(val))


def spec_enum(self, val):
    return isinstance(val, str) and val in self.enum


def spec_bits(self, val):
    return (isinstance(val, tuple) and all(isinstance(b, str) and b in self.bit for b in val) and
            all(all(val[i] != val[j] for j in range(i)) for i in range(len(val))))


def spec_int(lo, hi):
    def spec(self, val):
        if not isinstance(val, int) or isinstance(val, bool):
            return False
        if self.range is None:
            return lo <= val and val <= hi
        return spec_in_intervals(self.range, val)
    return spec


def is_multiple(val, eps):
    """val is an integer multiple of eps (modelled exactly, see below)."""
    return val % eps == 0


@model(is_multiple)
def m_is_multiple(val, eps):
    m = z3.RealVal(10 ** -eps.as_tuple().exponent)
    x = ops.raw_term(ops.resolve(val)) * m
    return S("bool", z3.ToReal(z3.ToInt(x)) == x)


def within_digits(val, eps):
    return abs(val) < 10 ** 28 * eps


@model(within_digits)
def m_within_digits(val, eps):
    m = z3.RealVal(10 ** -eps.as_tuple().exponent)
    x = ops.raw_term(ops.resolve(val)) * m
    return S("bool", z3.And(x < z3.RealVal(10 ** 28), x > -z3.RealVal(10 ** 28)))


def is_finite_decimal(v):
    return isinstance(v, decimal.Decimal) and v.is_finite()


@model(is_finite_decimal)
def m_is_finite_decimal(v):
    v = ops.resolve(v)
    return ops.kind_of(v) == "dec"


def spec_decimal(self, val):
    if not is_finite_decimal(val):
        return False
    if self.range is None:
        scaled = val * 10 ** self.fraction_digits
        if scaled < -2**63 or scaled > 2**63 - 1:
            return False
    elif not spec_in_intervals(self.range, val):
        return False
    return is_multiple(val, self._epsilon) and within_digits(val, self._epsilon)


def spec_instid(self, val):
    return isinstance(val, InstanceRoute)


def spec_leafref(self, val):
    return val in self.ref_type


def spec_union(self, val):
    return any(val in t for t in self.types)


def derived(val, base):
    """Ghost: val is derived from base (C12 decides the real relation)."""


@model(derived)
def m_derived(val, base):
    return S("bool", uf("derived", V, V, B)(ops.to_V(val), ops.to_V(base)))


def spec_identityref(self, val):
    return isinstance(val, tuple) and all(derived(val, b) for b in self.bases)
