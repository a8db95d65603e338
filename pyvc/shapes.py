"""Shapes: declared types of initial (pre-state) values, materialised lazily."""
import collections
import enum
import z3
from .core import *
from .core import I, B, R, STR, F64, V, SORT, PAIR, NAMED, TUPLES


_uf_cache = {}


def uf(name, *sorts):
    key = (name,) + tuple(s.name() if hasattr(s, "name") else str(s) for s in sorts)
    if key not in _uf_cache:
        _uf_cache[key] = z3.Function(name + "/" + "_".join(key[1:]), *sorts)
    return _uf_cache[key]


class Shape:
    sort = I

    def wrap(self, t):
        raise NotImplementedError

    def make(self, name):
        return self.wrap(ctx().fresh(name, self.sort))


class Scalar(Shape):
    def __init__(self, k):
        self.k = k
        self.sort = SORT[k]

    def wrap(self, t):
        return S(self.k, t)


Int, Bool, Str, Dec, Flt, Bytes = (Scalar(k) for k in ("int", "bool", "str", "dec", "flt", "bytes"))


class BoundedInt(Scalar):
    def __init__(self, lo=None, hi=None):
        super().__init__("int")
        self.lo, self.hi = lo, hi

    def wrap(self, t):
        if self.lo is not None:
            ctx().fact(t >= self.lo)
        if self.hi is not None:
            ctx().fact(t <= self.hi)
        return S("int", t)


Nat = BoundedInt(0)


class Const(Shape):
    def __init__(self, v):
        self.v = v

    def wrap(self, t):
        return self.v


class AnyV(Shape):
    """Value of statically unknown kind."""
    sort = V

    def __init__(self, kinds=("none", "bool", "int", "str", "dec", "decsp", "flt", "bytes"), refs=()):
        """refs: list of (class, shape) for heap kinds."""
        self.kinds, self.refs = tuple(kinds), tuple(refs)

    def wrap(self, t):
        c = [ISV[k](t) for k in self.kinds]
        if self.refs:
            c.append(z3.And(V.is_ref(t), V.rv(t) > 0,
                            z3.Or(*[clsid_f(V.rv(t)) == clsid(rc) for rc, _ in self.refs])))
        key = ("anyfact", id(self), t.get_id())
        if key not in ctx().memo:
            ctx().memo[key] = A(t, self)
            ctx().fact(z3.Or(*c))
            if "bytes" in self.kinds:
                pass
        return ctx().memo[key]


class Opt(Shape):
    def __init__(self, inner):
        self.inner = inner

    def wrap(self, t):
        if ctx().branch(uf("opt.none", I, B)(t)):
            return None
        if self.inner.sort == I and not isinstance(self.inner, Scalar):
            return self.inner.wrap(t)
        return self.inner.wrap(uf("opt.val", I, self.inner.sort)(t))


class OneOf(Shape):
    def __init__(self, *shapes):
        self.shapes = shapes

    def wrap(self, t):
        tag = uf("oneof.tag", I, I)(t)
        i = ctx().choose([tag == j for j in range(len(self.shapes))])
        sh = self.shapes[i]
        return sh.wrap(t if sh.sort == I and not isinstance(sh, Scalar)
                       else uf(f"oneof.val{i}", I, sh.sort)(t))


class EnumS(Shape):
    def __init__(self, cls):
        self.members = list(cls)

    def wrap(self, t):
        i = ctx().choose([t == j for j in range(len(self.members))])
        return self.members[i]


class ObjS(Shape):
    """Initial object of a class (or one of several), with per-use attribute shapes."""

    def __init__(self, *classes, attrs=None):
        self.classes, self.attrs = classes, attrs

    def wrap(self, t):
        c = ctx()
        key = ("obj", t.get_id())
        o = c.memo.get(key)
        if o is None:
            classes = list(self.classes)
            o = Obj(classes[0] if len(classes) == 1 else None, ref=t, initial=True,
                    cands=classes if len(classes) > 1 else None, shape=self.attrs)
            o.extra["keep"] = t
            c.memo[key] = o
            c.fact(t > 0)
            c.fact(z3.Or(*[clsid_f(t) == clsid(k) for k in classes]))
        return o


class ListS(Shape):
    def __init__(self, elem, cls=list, attrs=None, nonempty=False, lens=None, fixed=None):
        self.elem, self.cls, self.attrs, self.nonempty = elem, cls, attrs, nonempty
        self.lens = lens
        self.fixed = fixed          # exactly so many elements, unrolled

    def wrap(self, t):
        c = ctx()
        key = ("obj", t.get_id(), self.cls)
        o = c.memo.get(key)
        if o is None:
            o = Obj(self.cls, ref=t, initial=True, shape=self.attrs)
            n = uf("len", I, I)(t)
            c.fact(n >= (1 if self.nonempty else 0))
            if self.lens:
                c.fact(z3.And(n >= self.lens[0], n <= self.lens[1]))
            c.fact(t > 0)
            c.fact(clsid_f(t) == clsid(self.cls))
            elem = self.elem
            item = lambda i: elem.wrap(uf("item", I, I, elem.sort)(t, i))
            if self.fixed is not None:
                c.fact(n == self.fixed)
                o.seq = Seq.of([item(z3.IntVal(j)) for j in range(self.fixed)])
            else:
                o.seq = Seq(n, item)
            o.extra["keep"] = t
            c.memo[key] = o
        return o


def TupSeq(elem, lens=None):
    return ListS(elem, cls=tuple, lens=lens)


class Choice(Shape):
    """One of finitely many concrete values (case split)."""

    def __init__(self, *vals):
        self.vals = vals

    def wrap(self, t):
        c = ctx()
        key = ("choice", t.get_id())
        if key not in c.memo:
            c.memo[key] = (self.vals[c.choose([t == j for j in range(len(self.vals))])], t)
        return c.memo[key][0]


class TupS(Shape):
    def __init__(self, *elems):
        self.elems = elems

    def wrap(self, t):
        return tuple(e.wrap(uf(f"tup{j}", I, e.sort)(t)) for j, e in enumerate(self.elems))


class PairS(Shape):
    """A pair of strings, by value."""
    sort = PAIR

    def wrap(self, t):
        if z3.is_app(t) and t.decl().eq(PAIR.mk):
            return (S("str", t.arg(0)), S("str", t.arg(1)))
        return (S("str", PAIR.one(t)), S("str", PAIR.two(t)))


class TupleS(Shape):
    """A tuple of n strings, by value."""

    def __init__(self, n):
        self.n, self.sort = n, TUPLES[n]

    def wrap(self, t):
        if z3.is_app(t) and t.decl().eq(self.sort.constructor(0)):
            return tuple(S("str", x) for x in t.children())
        return tuple(S("str", self.sort.accessor(0, i)(t)) for i in range(self.n))


class NamedS(Shape):
    """A pair of a string and a string or None, by value."""
    sort = NAMED

    def wrap(self, t):
        if z3.is_app(t) and t.decl().eq(NAMED.local):
            return (S("str", t.arg(0)), None)
        if z3.is_app(t) and t.decl().eq(NAMED.qual):
            return (S("str", t.arg(0)), S("str", t.arg(1)))
        if ctx().branch(NAMED.is_local(t)):
            return (S("str", NAMED.lname(t)), None)
        return (S("str", NAMED.qname(t)), S("str", NAMED.space(t)))


def key_term(k, sort):
    """z3 term of a host key for the given key sort, or None if it cannot be one."""
    from .ops import to_term, to_V
    if sort == V:
        return to_V(k)
    return to_term(k, sort)


class DictBase:
    def __init__(self, ref, ksh, vsh, vwrap=None):
        self.ref, self.ksh, self.vsh = ref, ksh, vsh

    def has_t(self, kt):
        return uf("has", I, self.ksh.sort, B)(self.ref, kt)

    def has(self, k):
        kt = key_term(k, self.ksh.sort)
        if kt is None:
            return z3.BoolVal(False)
        if isinstance(k, A) and self.ksh.sort != V:
            pass
        return self.has_t(kt)

    def get(self, k):
        return self.vsh.wrap(uf("dget", I, self.ksh.sort, self.vsh.sort)(
            self.ref, key_term(k, self.ksh.sort)))

    def n(self):
        n = uf("dlen", I, I)(self.ref)
        return n

    def key_at(self, i):
        return self.ksh.wrap(uf("dkey", I, I, self.ksh.sort)(self.ref, i))


class DictS(Shape):
    def __init__(self, key, val, cls=dict, attrs=None, keyfact=None):
        self.key, self.val, self.cls, self.attrs = key, val, cls, attrs
        self.keyfact = keyfact

    def wrap(self, t):
        c = ctx()
        key = ("obj", t.get_id(), self.cls)
        o = c.memo.get(key)
        if o is None:
            o = Obj(self.cls, ref=t, initial=True, shape=self.attrs)
            o.map = Map(DictBase(t, self.key, self.val))
            c.fact(t > 0)
            c.fact(clsid_f(t) == clsid(self.cls))
            c.fact(uf("dlen", I, I)(t) >= 0)
            if self.keyfact:
                kv = z3.Const("kf!%d" % c.engine.next_id(), self.key.sort)
                c.fact(z3.ForAll([kv], z3.Implies(
                    uf("has", I, self.key.sort, B)(t, kv), self.keyfact(t, kv))))
            o.extra["keep"] = t
            c.memo[key] = o
        return o


class SetS(Shape):
    def __init__(self, elem, cls=set):
        self.elem, self.cls = elem, cls

    def wrap(self, t):
        c = ctx()
        key = ("obj", t.get_id(), self.cls)
        o = c.memo.get(key)
        if o is None:
            o = Obj(self.cls, ref=t, initial=True)
            o.map = Map(DictBase(t, self.elem, Const(True)))
            c.fact(t > 0)
            o.extra["keep"] = t
            c.memo[key] = o
        return o


class FnS(Shape):
    """Unknown pure callable: res = UF(handle, args)."""

    def __init__(self, args, res, name="fn"):
        self.args, self.res, self.name = args, res, name

    def wrap(self, t):
        args, res, name = self.args, self.res, self.name

        def call(*a):
            from .ops import to_term
            ts = []
            for sh, x in zip(args, a):
                k = key_term(x, sh.sort)
                if k is None:
                    raise Unsupported("argument kind of unknown function")
                ts.append(k)
            return res.wrap(uf("call." + name, I, *[s.sort for s in args], res.sort)(t, *ts))
        f = UFunc(call)
        f.ref = t
        return f


# registry: attribute shapes by class
ATTRS = {}


def attrs(cls, **kw):
    ATTRS.setdefault(cls, {}).update(kw)


def attr_shape(obj, name):
    if obj.shape and name in obj.shape:
        return obj.shape[name], (obj.base.__name__ + "*")
    return class_shape(obj.base, name)


def class_shape(cls, name):
    for k in cls.__mro__:
        if k in ATTRS and name in ATTRS[k]:
            return ATTRS[k][name], k.__name__
    return None, None
