"""C01: membership of every scalar type."""
from .dt import *

P = ("C01",)
ERR = [(0, "error_tag"), (0, "error_message")]


def err_info(c, args, out, old):
    """A refusal leaves a non-empty tag and message."""
    if out.kind != "ret":
        return []
    r = out.value
    t = ops.truth_term(r)
    if not (t if isinstance(t, bool) else c.branch(t)):
        o = args[0]
        res = []
        for a in ("error_tag", "error_message"):
            v = o.attrs.get(a)
            res.append((f"refusal sets {a}", v is not None and ops.kind_of(ops.resolve(v)) == "str" and
                        _nonempty(v)))
        return res
    return []


def _nonempty(v):
    t = ops.truth_term(v)
    return t


def use_spec(spec):
    """At a call site: the spec decides, and a refusal sets the error information."""
    def use(c, fn, args, kw):
        from pyvc import interp
        r = interp.run_function(spec, args, kw)
        return r
    return use


# ranges and lengths: inclusive, any number of parts, one- or two-element parts
Contract("yangson.constraint:Intervals.__contains__", [IV_INT, OneOf(Int, Flt)], spec=spec_in_intervals, use="spec",
         variant="int", props=P)
Contract("yangson.constraint:Intervals.__contains__", [IV_DEC, Dec], spec=spec_in_intervals, use="spec",
         variant="decimal", props=P)

# derivation is decided by C12; here it is a pure relation
Contract("yangson.schemadata:SchemaData.is_derived_from", [SD, TUP, QNAME], spec=None,
         use=lambda c, fn, args, kw: m_derived(args[1], args[2]), any_exc=True)

attrs(D.LeafrefType, ref_type=ANYTYPE)
attrs(D.UnionType, types=ListS(ANYTYPE))
AbstractContract(D.DataType, "__contains__", abs_contains)
AbstractContract(D.DataType, "canonical_string",
                 lambda c, o, a, kw: S("str", c.fresh("havoc_canon", STR)))


def con(cls, spec, shape=None, **kw):
    Contract(M + cls.__name__ + ".__contains__", [shape or ObjS(cls), ANY], spec=spec, ensures=err_info,
             modifies=ERR, props=P, **kw)


con(D.BooleanType, spec_boolean)
con(D.EmptyType, spec_empty)
con(D.StringType, spec_string)
con(D.BinaryType, spec_binary)
con(D.EnumerationType, spec_enum)
con(D.BitsType, spec_bits)
con(D.InstanceIdentifierType, spec_instid)
con(D.LeafrefType, spec_leafref)
con(D.UnionType, spec_union)
con(D.IdentityrefType, spec_identityref)
con(D.Decimal64Type, spec_decimal, dec_type(), timeout=120, max_paths=6000)
for k, (lo, hi) in INT_TYPES.items():
    Contract(M + "IntegralType.__contains__", [ObjS(k), ANY], spec=spec_int(lo, hi), ensures=err_info,
             modifies=ERR, props=P, variant=k.__name__)
