"""C02: JSON encoding of scalars."""
from .codec import *
from .c03 import where

P = ("C02",)
from pyvc import verify as _V
# the contracts of C03 were only imported for their helpers
for _c in list(_V.REGISTRY):
    if _c.props == ("C03",):
        _V.REGISTRY.remove(_c)

SMALL = [D.Int8Type, D.Int16Type, D.Int32Type, D.Uint8Type, D.Uint16Type, D.Uint32Type]
BIG = [D.Int64Type, D.Uint64Type]


def raw_same(self, val):
    return val


def raw_empty(self, val):
    return [None]


# RFC 7951, section 6: numbers and booleans as they are, 64-bit integers and everything
# else as the canonical text, empty as [null]
RAW = {k: raw_same for k in SMALL}
RAW.update({k: canon_int for k in BIG})
RAW.update({D.BooleanType: raw_same, D.EmptyType: raw_empty})
for k in (D.StringType, D.EnumerationType, D.BinaryType, D.IdentityrefType):
    RAW[k] = CANON[k]


def back(c, args, out, old):
    if out.kind != "ret":
        return []
    raw, val = out.value
    return [("decodes to the value", ops.same(val, args[1]))]


def body(c, run, self, val):
    raw = interp.call_method(self, "to_raw", [val])
    return (raw, run(self, raw))


def raw_text(c, args, out, old):
    """decimal64: the JSON form is a string in canonical form."""
    from .c03 import in_canonical_form
    return in_canonical_form(c, args, out, old)


ERRI = [(0, "error_tag"), (0, "error_message")]
FAMILY = [(k, k.__name__, sh, vsh) for k, (sh, vsh, m) in TYPES.items() if k is not D.Decimal64Type] + \
         [(D.Decimal64Type, f"Decimal64Type fraction-digits {fd}", dec_type([fd]), dec_units(fd)) for fd in range(1, 19)]
for k, n, sh, vsh in FAMILY:
    if k in RAW:
        Contract(where(k, "to_raw"), [sh, vsh], spec=RAW[k], requires=contained(k), variant=n, props=P,
                 modifies=ERRI)
    else:
        Contract(where(k, "to_raw"), [sh, vsh], ensures=raw_text, requires=contained(k), variant=n, props=P)
    Contract(where(k, "from_raw"), [sh, vsh], requires=contained(k), body=body, ensures=back,
             variant=n + ": inverse", props=P, modifies=ERRI)
for k in list(TYPES) + [D.BitsType, D.InstanceIdentifierType]:
    sh = TYPES[k][0] if k in TYPES else ObjS(k)
    if k is D.Decimal64Type:
        sh = dec_type()
    Contract(where(k, "from_raw"), [sh, JSON], ensures=right_kind(k), variant=k.__name__ + ": any JSON", props=P)


def leafref_to(self, val):
    return self.ref_type.to_raw(val)


def leafref_from(self, raw):
    return self.ref_type.from_raw(raw)


def union_to(self, val):
    for t in self.types:
        if val in t:
            return t.to_raw(val)
    return None


def union_from(self, raw):
    for t in self.types:
        v = t.from_raw(raw)
        if v is not None and v in t:
            return v
    return None


Contract(M + "LeafrefType.to_raw", [ObjS(D.LeafrefType), ANY], spec=leafref_to, props=P)
Contract(M + "LeafrefType.from_raw", [ObjS(D.LeafrefType), JSON], spec=leafref_from, props=P)
Contract(M + "UnionType.to_raw", [ObjS(D.UnionType), ANY], spec=union_to, props=P, modifies=[(0, "*")])
Contract(M + "UnionType.from_raw", [ObjS(D.UnionType), JSON], spec=union_from, props=P)
