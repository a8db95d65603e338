"""Shapes shared by the contracts."""
from pyvc.shapes import *
from pyvc.core import *
from pyvc import ops
from yangson.instvalue import ArrayValue, ObjectValue

TS = ObjS(__import__("datetime").datetime)


class _Cell(AnyV):
    """A scalar, an array or an object (lazily unfolded)."""


COOKED = ("none", "bool", "int", "str", "dec", "bytes")
CELL = _Cell(COOKED)
ARR = ListS(CELL, cls=ArrayValue, attrs={"timestamp": AnyV()})
OBJ = DictS(Str, CELL, cls=ObjectValue, attrs={"timestamp": AnyV()})
WORDS = TupSeq(Str)          # bits, identityref and route-like tuples
CELL.refs = ((ArrayValue, ARR), (ObjectValue, OBJ), (tuple, WORDS))


def content_same(a, b):
    """Same content (seq or map) of two container objects."""
    if a.seq is not None and b.seq is not None:
        return ops._seq_same(a.seq, b.seq)
    if a.map is not None and b.map is not None:
        return ops.map_eq_term(a.map, b.map)
    return False


def use(target, fn):
    """Meaning of a function at call sites, for contracts decided elsewhere."""
    from pyvc.verify import BY_FN, locate, Skip
    try:
        f, _ = locate(target)
    except Skip:
        return

    class Use:
        name = target.split(":")[1]
        recursive = False

        def apply(self, c, f_, args, kw):
            c.assumed_contracts.add(self.name)
            return fn(c, f_, args, kw)
    BY_FN[f] = Use()


def ref(x):
    return ops.resolve(x).ref
def new(cls, **attrs_):
    o = Obj(cls)
    o.attrs.update(attrs_)
    return o


def mapping(cls, pairs):
    o = Obj(cls)
    m = Map()
    for k, v in pairs:
        m = m.write(k, v)
    o.map = m
    return o


