"""C19: equality, hash and copy of structured values."""
from pyvc.verify import Contract, lemma
from pyvc.shapes import *
from pyvc.core import *
import z3
from pyvc import ops, interp
from yangson.instvalue import ArrayValue, ObjectValue, StructuredValue
from .common import *

P = ("C19",)
M = "yangson.instvalue:"


# What "structurally equal" means: same kind of value, same entries in the same
# order / same member names with equal members.  Scalars compare by Python ==.
def spec_array_eq(self, val):
    if not isinstance(val, ArrayValue):
        return False
    return len(self) == len(val) and all(self[i] == val[i] for i in range(len(self)))


def spec_object_eq(self, val):
    if not isinstance(val, ObjectValue):
        return False
    return (all(k in val and self[k] == val[k] for k in self.keys())
            and all(k in self for k in val.keys()))


def spec_ne(self, val):
    return not (self == val)


ANY = AnyV(refs=((ArrayValue, ARR), (ObjectValue, OBJ)))
ANY2 = OneOf(ARR, OBJ, AnyV(COOKED + ("flt", "decsp")), ListS(CELL), DictS(Str, CELL))

Contract(M + "StructuredValue.__eq__", [ARR, ANY2], spec=spec_array_eq, variant="array", props=P)
Contract(M + "StructuredValue.__eq__", [OBJ, ANY2], spec=spec_object_eq, variant="object", props=P)
Contract(M + "StructuredValue.__ne__", [ARR, ANY2], spec=spec_ne, variant="array", props=P)
Contract(M + "StructuredValue.__ne__", [OBJ, ANY2], spec=spec_ne, variant="object", props=P)


def copy_ensures(c, args, out, old):
    r = out.value
    o = args[0]
    return [("fresh object", isinstance(r, Obj) and not r.initial),
            ("same class", isinstance(r, Obj) and r.cls is o.cls),
            ("equal content", ops.same(r, o) if False else content_same(r, o))]


Contract(M + "StructuredValue.copy", [ARR], ensures=copy_ensures, variant="array", props=P)
Contract(M + "StructuredValue.copy", [OBJ], ensures=copy_ensures, variant="object", props=P)


# Equal values have equal hashes (two runs of the real __hash__).  Induction
# hypothesis: equal entries/members have equal hashes (built-in scalars: the
# guarantee Python gives for its own types; nested values: this contract).
def entry_hash_hypothesis(c, a, b):
    from pyvc.models import hash_term
    if a.seq is not None:
        i = z3.Int("eh!i")
        rng = z3.And(i >= 0, i < a.seq.nz(), i < b.seq.nz())
        ps = summarize(lambda cc: z3.Implies(z_(ops.py_eq(a.seq.get(i), b.seq.get(i))),
                                             hash_term(a.seq.get(i)) == hash_term(b.seq.get(i))), bound=[i], rng=rng)
        c.fact(z3.ForAll([i], z3.Implies(rng, ops.formula_of(ps))))
    else:
        k = z3.String("eh!k")
        h = S("str", k)
        rng = z3.And(a.map.base.has_t(k), b.map.base.has_t(k))
        ps = summarize(lambda cc: z3.Implies(z_(ops.py_eq(a.map.base.get(h), b.map.base.get(h))),
                                             hash_term(a.map.base.get(h)) == hash_term(b.map.base.get(h))),
                       bound=[k], rng=rng)
        c.fact(z3.ForAll([k], z3.Implies(rng, ops.formula_of(ps))))


def z_(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def hash_pre(c, a, b):
    entry_hash_hypothesis(c, a, b)
    eq = ops.seq_eq_term(a.seq, b.seq) if a.seq is not None else ops.map_eq_term(a.map, b.map, ops.py_eq)
    c.assume(z_(eq))


def hash_body(c, run, a, b):
    return (run(a), run(b))


def hash_ensures(c, args, out, old):
    h1, h2 = out.value
    return [("equal values have equal hashes", ops.py_eq(h1, h2))]


Contract(M + "ArrayValue.__hash__", [ARR, ARR], requires=hash_pre, body=hash_body, ensures=hash_ensures, props=P)
Contract(M + "ObjectValue.__hash__", [OBJ, OBJ], requires=hash_pre, body=hash_body, ensures=hash_ensures, props=P)
