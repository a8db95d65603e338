"""C03: canonical text is canonical and parses back."""
from .codec import *

P = ("C03",)


def where(k, name):
    """The real function a class uses for a method."""
    from pyvc.interp import lookup_mro
    raw, owner = lookup_mro(k, name)
    return f"{M}{owner.__name__}.{name}"


def in_canonical_form(c, args, out, old):
    if out.kind != "ret":
        return []
    v = ops.resolve(out.value)
    if ops.kind_of(v) != "str":
        return [("canonical form", False)]
    d, nz, z = z3.Range("0", "9"), z3.Range("1", "9"), z3.Re("0")
    form = z3.Concat(z3.Option(z3.Re("-")), z3.Union(z, z3.Concat(nz, z3.Star(d))), z3.Re("."),
                     z3.Union(d, z3.Concat(z3.Star(d), nz)))
    t = ops.raw_term(v)
    t = z3.StringVal(t) if isinstance(t, str) else t
    return [("canonical form", z3.InRe(t, form))]


def roundtrip(decode):
    def body(c, run, self, val):
        t = interp.call_method(self, "canonical_string", [val])
        return (t, run(self, t))
    return body


def back(c, args, out, old):
    if out.kind != "ret":
        return []
    return [("parses back to the value", ops.same(out.value[1], args[1]))]


FAMILY = [(k, k.__name__, sh, vsh) for k, (sh, vsh, m) in TYPES.items() if k is not D.Decimal64Type] + \
         [(D.Decimal64Type, f"Decimal64Type fraction-digits {fd}", dec_type([fd]), dec_units(fd)) for fd in range(1, 19)]
for k, n, sh, vsh in FAMILY:
    big = {}
    if k in CANON:
        Contract(where(k, "canonical_string"), [sh, vsh], spec=CANON[k], requires=contained(k), variant=n, props=P)
    else:
        Contract(where(k, "canonical_string"), [sh, vsh], ensures=in_canonical_form, requires=contained(k),
                 variant=n, props=P, **big)
    Contract(where(k, "parse_value"), [sh, vsh], requires=contained(k), body=roundtrip("parse_value"), ensures=back,
             variant=n + ": inverse", props=P, **big)
    Contract(where(k, "parse_value"), [sh, Str], ensures=right_kind(k), variant=n + ": any text", props=P)
for k in (D.BitsType, D.InstanceIdentifierType):
    Contract(where(k, "parse_value"), [ObjS(k), Str], ensures=right_kind(k), variant=k.__name__ + ": any text",
             props=P)


# equal values have the same canonical string (distinct values: follows from the inverse)
def same_req(c, self, a, b):
    c.assume(z3_(ops.py_eq(a, b)))


def same_body(c, run, self, a, b):
    return (run(self, a), run(self, b))


def same_ens(c, args, out, old):
    if out.kind != "ret":
        return []
    return [("equal values, equal text", ops.same(out.value[0], out.value[1]))]


for k in (D.Int64Type, D.StringType, D.BinaryType, D.IdentityrefType, D.EnumerationType):
    sh, vsh, _ = TYPES[k]
    Contract(where(k, "canonical_string"), [sh, vsh, vsh], requires=same_req, body=same_body, ensures=same_ens,
             variant=k.__name__ + ": congruent", props=P)
for fd in (1, 2, 6, 17, 18):
    Contract(where(D.Decimal64Type, "canonical_string"), [dec_type([fd]), dec_units(fd), dec_units(fd)],
             requires=same_req, body=same_body, ensures=same_ens,
             variant=f"Decimal64Type fraction-digits {fd}: congruent", props=P)

# references and unions
SCALAR = COOKED_OPT
Contract(M + "LeafrefType.canonical_string", [ObjS(D.LeafrefType), ANY], spec=canon_leafref, props=P)
Contract(M + "UnionType.canonical_string", [ObjS(D.UnionType), ANY], spec=canon_union, props=P,
         modifies=[(0, "*")])


def parse_leafref(self, text):
    return self.ref_type.parse_value(text)


def from_yang_leafref(self, text):
    return self.ref_type.from_yang(text)


def parse_union(self, text):
    for t in self.types:
        v = t.parse_value(text)
        if v is not None and v in t:
            return v
    return None


Contract(M + "LeafrefType.parse_value", [ObjS(D.LeafrefType), Str], spec=parse_leafref, props=P)
Contract(M + "LeafrefType.from_yang", [ObjS(D.LeafrefType), Str], spec=from_yang_leafref, props=P)
Contract(M + "UnionType.parse_value", [ObjS(D.UnionType), Str], spec=parse_union, props=P)


# defaults in YANG text
def from_yang_spec(self, text):
    r = self.parse_value(text)
    if r is None:
        raise InvalidArgument(text)
    return r


for k in (D.BooleanType, D.StringType, D.EnumerationType, D.BinaryType, D.EmptyType):
    Contract(where(k, "from_yang"), [ObjS(k), Str], spec=from_yang_spec, variant=k.__name__, props=P)
Contract(where(D.Decimal64Type, "from_yang"), [dec_type(), Str], spec=from_yang_spec, variant="Decimal64Type",
         props=P, max_paths=3000)
Contract(where(D.Int32Type, "from_yang"), [ObjS(D.Int32Type), Str], ensures=right_kind(D.Int32Type),
         raises=(InvalidArgument,), variant="integers", props=P)
