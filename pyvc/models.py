"""Models of built-ins: the trusted specifications of the Python library used here."""
import base64
import hashlib
import binascii
import collections
import datetime
import decimal
import enum
import math
import re
import types
import itertools
import z3
from .core import *
from .core import I, B, R, STR, F64, V, PYCLS, SORT, GETV, ISV
from .ops import *
from .ops import _has_user
from . import interp, ops
from .interp import (new_list, new_dict, new_set, mutate, getattr_, call, isinstance_, Slice,
                     native_to_host)
from .loops import KeyIter, GenExp, _quant_seq
from .core import TUPLES
from .shapes import TupleS, uf, key_term, AnyV, Str as StrSh, Int as IntSh

FUNC = {}


def model(*fns):
    def deco(f):
        for x in fns:
            FUNC[x] = f
        return f
    return deco


def sint(v):
    return wrap_scalar("int", v) if z3.is_expr(v) else v


class IterSeq:
    """An iterator object."""

    def __init__(self, seq):
        self.seq = seq
        self.pos = 0


# ------------------------------------------------------------ iteration
def iter_seq(v):
    v = resolve(v)
    if isinstance(v, Seq) or isinstance(v, KeyIter):
        return v
    if isinstance(v, GenExp):
        return v.seq()
    if isinstance(v, IterSeq):
        if v.pos == 0:
            v.pos = None
            return v.seq
        raise Unsupported("partially consumed iterator")
    if isinstance(v, tuple):
        return Seq.of(v)
    if isinstance(v, str):
        return Seq.of(v)
    if isinstance(v, range):
        return Seq.of(v)
    if isinstance(v, S):
        if v.k == "str":
            return Seq(z3.Length(v.t), lambda i: S("str", z3.SubString(v.t, i, 1)))
        if v.k == "bytes":
            raise Unsupported("iteration over bytes")
        raise PyExc(TypeError)
    if isinstance(v, Obj):
        if _has_user(v, "__iter__"):
            r = interp.call_method(v, "__iter__", [])
            return iter_seq(r)
        if v.seq is not None:
            return v.seq
        if v.map is not None:
            q = map_iter(v.map, "keys")
            if isinstance(v.cls, type) and issubclass(v.cls, (set, frozenset)) and not isinstance(q, KeyIter) and q.concrete:
                return any_order(q, ("order", id(v.map)), v.map)
            return q
        raise PyExc(TypeError)
    if isinstance(v, type) and issubclass(v, enum.Enum):
        return Seq.of(list(v))
    if isinstance(v, (set, frozenset)):
        return any_order(Seq.of(sorted(v, key=repr)), ("order", id(v)), v)
    if isinstance(v, (list, dict)):
        return Seq.of(list(v))
    if v is None or isinstance(v, (bool, int, float, decimal.Decimal)):
        raise PyExc(TypeError)
    raise Unsupported(f"iteration over {v!r}")


def any_order(q, key, keep):
    """The elements of a set come in any order (the same one as long as the set is not changed)."""
    els = list(q.elems)
    if len(els) < 2:
        return q
    if len(els) > 4:
        raise Unsupported("iteration over a set with more than 4 given elements")
    c = ctx()
    if key not in c.memo:
        perms = list(itertools.permutations(range(len(els))))
        k = c.fresh("order", I)
        c.memo[key] = (perms[c.choose([k == j for j in range(len(perms))])], keep)
    return Seq.of([els[i] for i in c.memo[key][0]])


def map_iter(m, what):
    if m.base is None:
        if not m.writes:
            return Seq.of([])
        ks = [k for k, _ in m.writes]
        if m.concrete:
            f = {"keys": lambda k, v: k, "values": lambda k, v: v, "items": lambda k, v: (k, v)}[what]
            return Seq.of([f(k, v) for k, v in m.writes])
        from .ops import py_eq_bool
        live = []
        for k, v in m.writes:              # a later write to an equal key replaces or removes the earlier one
            hit = next((j for j, (k2, _) in enumerate(live) if py_eq_bool(k2, k)), None)
            if v is Map.DEL:
                if hit is not None:
                    del live[hit]
            elif hit is None:
                live.append((k, v))
            else:
                live[hit] = (live[hit][0], v)
        f = {"keys": lambda k, v: k, "values": lambda k, v: v, "items": lambda k, v: (k, v)}[what]
        return Seq.of([f(k, v) for k, v in live])
    return KeyIter(m, what)


@model(iter)
def m_iter(v):
    v = resolve(v)
    if isinstance(v, IterSeq):
        return v
    return IterSeq(iter_seq(v))


@model(next)
def m_next(it, *d):
    it = resolve(it)
    if isinstance(it, GenExp):
        # first element satisfying the generator
        s = it.seq()
        it = IterSeq(s)
    if not isinstance(it, IterSeq):
        raise Unsupported("next()")
    s = it.seq
    if not isinstance(s, Seq):
        raise Unsupported("next() on unordered")
    p = it.pos
    if s.concrete:
        if p >= s.n:
            if d:
                return d[0]
            raise PyExc(StopIteration)
        it.pos += 1
        return s.elems[p]
    if ctx().branch(s.nz() > p):
        it.pos += 1
        return s.get(p)
    if d:
        return d[0]
    raise PyExc(StopIteration)


# ------------------------------------------------------------ simple builtins
@model(len)
def m_len(v):
    v = resolve(v)
    if isinstance(v, S):
        if v.k in ("str", "bytes"):
            return sint(z3.Length(v.t))
        raise PyExc(TypeError)
    if isinstance(v, Obj):
        if _has_user(v, "__len__"):
            return interp.call_method(v, "__len__", [])
        if v.seq is not None:
            return v.seq.n if isinstance(v.seq.n, int) else sint(v.seq.n)
        if v.map is not None:
            m = v.map
            if m.base is None:
                if m.concrete:
                    return len(m.writes)
                raise Unsupported("len of mapping with symbolic keys")
            if not m.writes:
                n = m.base.n()
                ctx().fact(n >= 0)
                return sint(n)
            raise Unsupported("len of an updated mapping")
        raise PyExc(TypeError)
    if is_concrete(v) or isinstance(v, tuple):
        try:
            return len(v)
        except TypeError:
            raise PyExc(TypeError)
    raise PyExc(TypeError)


@model(itertools.product)
def m_product(*vs):
    seqs = [iter_seq(resolve(v)) for v in vs]
    if not all(s.concrete for s in seqs):
        raise Unsupported("product of symbolic sequences")
    return new_list([tuple(x) for x in itertools.product(*[s.elems for s in seqs])])


@model(isinstance)
def m_isinstance(v, cls):
    if isinstance(cls, Obj):
        raise Unsupported("isinstance class")
    return isinstance_(v, cls)


@model(issubclass)
def m_issubclass(a, b):
    return issubclass(a, b)


@model(hasattr)
def m_hasattr(o, name):
    try:
        getattr_(o, name)
        return True
    except PyExc as e:
        if issubclass(e.cls, AttributeError):
            return False
        raise


@model(getattr)
def m_getattr(o, name, *d):
    if not isinstance(name, str):
        raise Unsupported("getattr name")
    return getattr_(o, name, *d)


@model(callable)
def m_callable(o):
    return isinstance(o, (Closure, Bound, UFunc, BuiltinMethod)) or (not isinstance(o, (S, A, Obj)) and callable(o))


@model(any)
def m_any(v):
    v = resolve(v)
    if isinstance(v, GenExp):
        return v.quant(False)
    s = iter_seq(v)
    if isinstance(s, KeyIter):
        raise Unsupported("any over keys")
    return _quant_seq(s, False)


@model(all)
def m_all(v):
    v = resolve(v)
    if isinstance(v, GenExp):
        return v.quant(True)
    s = iter_seq(v)
    if isinstance(s, KeyIter):
        raise Unsupported("all over keys")
    return _quant_seq(s, True)


@model(cast_ := __import__("typing").cast)
def m_cast(t, v):
    return v


@model(reversed)
def m_reversed(v):
    return IterSeq(iter_seq(v).reverse())


@model(enumerate)
def m_enumerate(v, start=0):
    s = iter_seq(v)
    if isinstance(s, KeyIter):
        raise Unsupported("enumerate over unordered")
    if s.concrete:
        return IterSeq(Seq.of([(interp_add(start, i), x) for i, x in enumerate(s.elems)]))
    return IterSeq(Seq(s.n, lambda i: (arith("+", start, sint(i)), s.get(i))))


def interp_add(a, b):
    return arith("+", a, b)


@model(zip)
def m_zip(*vs):
    ss = [iter_seq(v) for v in vs]
    if any(isinstance(s, KeyIter) for s in ss):
        raise Unsupported("zip over unordered")
    if all(s.concrete for s in ss):
        return IterSeq(Seq.of(list(zip(*[s.elems for s in ss]))))
    n = ss[0].nz()
    for s in ss[1:]:
        n = z3.If(s.nz() < n, s.nz(), n)
    return IterSeq(Seq(z3.simplify(n), lambda i: tuple(s.get(i) for s in ss)))


@model(map)
def m_map(f, v):
    s = iter_seq(v)
    if isinstance(s, KeyIter):
        raise Unsupported("map over unordered")
    if s.concrete:
        return IterSeq(Seq.of([call(f, [x]) for x in s.elems]))
    return IterSeq(Seq(s.n, lambda i: call(f, [s.get(i)])))


@model(sum)
def m_sum(v, start=0):
    s = iter_seq(v)
    if isinstance(s, KeyIter) or not s.concrete:
        n = None if isinstance(s, KeyIter) or start != 0 else s.nz()
        if n is None:
            raise Unsupported("sum of symbolic sequence")
        c = ctx()
        if c.branch(n == 0):
            return 0
        first = resolve(s.get(z3.IntVal(0)))
        if kind_of(first) != "flt":
            raise Unsupported("sum of symbolic sequence")
        if c.branch(n == 1):
            return arith("+", 0, first)
        return S("flt", c.fresh("havoc!sum", ops.F64))
    acc = start
    for x in s.elems:
        acc = arith("+", acc, x)
    return acc


@model(max)
def m_max(*a, **kw):
    return minmax(">", a, kw)


@model(min)
def m_min(*a, **kw):
    return minmax("<", a, kw)


def minmax(op, a, kw):
    if kw:
        raise Unsupported("min/max with key")
    if len(a) == 1:
        s = iter_seq(a[0])
        if isinstance(s, KeyIter) or not s.concrete:
            raise Unsupported("min/max of symbolic sequence")
        a = s.elems
        if not a:
            raise PyExc(ValueError)
    best = a[0]
    for x in a[1:]:
        if isinstance(best, Obj) or isinstance(x, Obj):
            # e.g. timestamps: some value out of the two
            if ctx().branch(ctx().fresh("mm", B)):
                best = x
            continue
        t = py_lt(x, best, op)
        if t if isinstance(t, bool) else ctx().branch(t):
            best = x
    return best


@model(abs)
def m_abs(v):
    v = resolve(v)
    if is_concrete(v):
        return abs(v)
    if isinstance(v, S) and v.k in ("int", "dec"):
        return S(v.k, z3.If(v.t >= 0, v.t, -v.t))
    if isinstance(v, S) and v.k == "flt":
        return S("flt", z3.fpAbs(v.t))
    raise Unsupported("abs")


@model(round)
def m_round(v, *nd):
    v = resolve(v)
    if nd:
        raise Unsupported("round with digits")
    if is_concrete(v):
        try:
            return round(v)
        except (ValueError, OverflowError) as e:
            raise PyExc(type(e))
    if isinstance(v, S) and v.k == "flt":
        fp_to_int_guard(v.t)
        return S("int", fp_int(z3.fpRoundToIntegral(z3.RNE(), v.t)))
    if isinstance(v, S) and v.k == "int":
        return v
    raise Unsupported("round")


def fp_to_int_guard(t):
    if ctx().branch(z3.fpIsNaN(t)):
        raise PyExc(ValueError)
    if ctx().branch(z3.fpIsInf(t)):
        raise PyExc(OverflowError)


def fp_int(t):
    return z3.ToInt(z3.fpToReal(t))


@model(math.floor)
def m_floor(v):
    return mround(v, z3.RTN(), math.floor)


@model(math.ceil)
def m_ceil(v):
    return mround(v, z3.RTP(), math.ceil)


@model(math.trunc)
def m_trunc(v):
    return mround(v, z3.RTZ(), math.trunc)


def mround(v, mode, nat):
    v = resolve(v)
    if is_concrete(v):
        try:
            return nat(v)
        except (ValueError, OverflowError) as e:
            raise PyExc(type(e))
    if isinstance(v, S) and v.k == "int":
        return v
    if isinstance(v, S) and v.k == "flt":
        fp_to_int_guard(v.t)
        r = z3.fpRoundToIntegral(mode, v.t)
        return S("int", ops.came_from(fp_int(r), z3.If(z3.fpIsZero(r), z3.FPVal(0.0, F64), r)))
    raise Unsupported("rounding")


@model(math.isnan)
def m_isnan(v):
    v = resolve(v)
    if is_concrete(v):
        return math.isnan(v)
    if isinstance(v, S) and v.k == "flt":
        return sbool(z3.fpIsNaN(v.t))
    if isinstance(v, S) and v.k in ("int", "bool"):
        return False
    raise PyExc(TypeError)


@model(math.isinf)
def m_isinf(v):
    v = resolve(v)
    if is_concrete(v):
        return math.isinf(v)
    if isinstance(v, S) and v.k == "flt":
        return sbool(z3.fpIsInf(v.t))
    if isinstance(v, S) and v.k in ("int", "bool"):
        return False
    raise PyExc(TypeError)


@model(math.isfinite)
def m_isfinite(v):
    v = resolve(v)
    if is_concrete(v):
        return math.isfinite(v)
    if isinstance(v, S) and v.k == "flt":
        return sbool(z3.Not(z3.Or(z3.fpIsInf(v.t), z3.fpIsNaN(v.t))))
    return True


@model(math.copysign)
def m_copysign(a, b):
    a, b = resolve(a), resolve(b)
    if is_concrete(a) and is_concrete(b):
        return math.copysign(a, b)
    x, y = to_fp(a), to_fp(b)
    return S("flt", z3.If(z3.fpIsNegative(y), z3.fpNeg(z3.fpAbs(x)), z3.fpAbs(x)))


@model(math.fmod)
def m_fmod(a, b):
    a, b = resolve(a), resolve(b)
    if is_concrete(a) and is_concrete(b):
        try:
            return math.fmod(a, b)
        except ValueError:
            raise PyExc(ValueError)
    x, y = to_fp(a), to_fp(b)
    c = ctx()
    # fmod(x, 0) and fmod(inf, y) raise ValueError, unless an operand is NaN
    nan = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
    if c.branch(z3.And(z3.Not(nan), z3.Or(z3.fpIsZero(y), z3.fpIsInf(x)))):
        raise PyExc(ValueError)
    if c.branch(nan):
        return S("flt", z3.fpNaN(F64))
    if c.branch(z3.fpIsInf(y)):
        return S("flt", x)
    return S("flt", uf("fmod", F64, F64, F64)(x, y))


@model(hash)
def m_hash(v):
    v = resolve(v)
    if isinstance(v, Obj):
        if v.map is not None and issubclass(v.base, (dict, set)) and not _has_user(v, "__hash__"):
            raise PyExc(TypeError)
        if v.seq is not None and issubclass(v.base, list) and not _has_user(v, "__hash__"):
            raise PyExc(TypeError)
    return S("int", uf("hash", V, I)(to_V(v)))


@model(repr)
def m_repr(v):
    if isinstance(v, S) and v.k == "flt":
        return S("str", uf("repr_flt", F64, STR)(v.t))
    return repr(v) if is_concrete(v) else S("str", ctx().fresh("repr", STR))


@model(id)
def m_id(v):
    if isinstance(v, Obj):
        return S("int", v.ref)
    raise Unsupported("id")


@model(ord)
def m_ord(v):
    v = resolve(v)
    if is_concrete(v):
        return ord(v)
    return S("int", z3.StrToCode(v.t))


@model(chr)
def m_chr(v):
    v = resolve(v)
    if is_concrete(v):
        return chr(v)
    return S("str", z3.StrFromCode(v.t))


def py_pow(a, b):
    a, b = resolve(a), resolve(b)
    if is_concrete(a) and is_concrete(b):
        try:
            return a ** b
        except Exception as e:
            raise PyExc(type(e))
    if a == 10 and isinstance(b, S) and b.k == "int":
        c = ctx()
        t = uf("pow10", I, I)(b.t)
        c.fact(z3.Implies(b.t >= 0, t >= 1))
        return S("int", t)
    if isinstance(a, decimal.Decimal) and a == 10 and isinstance(b, S) and b.k == "int":
        t = uf("dpow10", I, R)(b.t)
        ctx().fact(t > 0)
        return S("dec", t)
    raise Unsupported("power")


# ------------------------------------------------------------ sorted
@model(sorted)
def m_sorted(v, key=None, reverse=False):
    s = iter_seq(v)
    if isinstance(s, Seq) and s.concrete and len(s.elems) <= 1:
        return new_list(s.elems)
    if isinstance(s, Seq) and s.concrete and all(is_concrete(x) for x in s.elems) and key is None \
            and reverse is False:
        try:
            return new_list(sorted(s.elems))
        except TypeError:
            raise PyExc(TypeError)
    if isinstance(s, KeyIter) and s.what == "keys" and key is None and reverse is False \
            and s.ksh.sort == STR and not s.m.writes:
        return new_list(sorted_keys(s.m.base))
    if isinstance(s, KeyIter):
        s = keys_as_seq(s)
    return new_list(sort_seq(s, key, reverse))


def sort_seq(s, key=None, reverse=False):
    """A sorted permutation of a symbolic sequence."""
    c = ctx()
    if not isinstance(reverse, bool):
        raise Unsupported("sort direction")
    q = c.engine.next_id()
    n = s.nz()
    bs = [b.sort() for b in c.bound]
    P = z3.Function(f"perm!{q}", *bs, I, I)
    Q = z3.Function(f"permi!{q}", *bs, I, I)
    k, l = z3.Ints(f"so!k{q} so!l{q}")

    def p(i):
        return P(*c.bound, i)

    def inv(i):
        return Q(*c.bound, i)
    rk = z3.And(k >= 0, k < n)
    c.fact(z3.ForAll([k], z3.Implies(rk, z3.And(p(k) >= 0, p(k) < n, inv(p(k)) == k)), patterns=[p(k)]))
    c.fact(z3.ForAll([k], z3.Implies(rk, z3.And(inv(k) >= 0, inv(k) < n, p(inv(k)) == k)), patterns=[inv(k)]))

    def kv(i):
        x = s.get(i)
        return interp.call(key, [x]) if key is not None else x

    def lt(cc):
        try:
            return py_lt(kv(k), kv(l), "<=" if not reverse else ">=")
        except PyExc as e:
            return e
    ps = summarize(lt, bound=[k, l], rng=z3.And(rk, l >= 0, l < n))
    for x in ps:
        if isinstance(x.outcome, PyExc):
            raise Unsupported(f"sort key may raise {x.outcome.cls.__name__}")
    rel = formula_of(ps)
    srt = z3.substitute(rel, (k, p(k)), (l, p(l)))
    c.fact(z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k < l, l < n), srt), patterns=[z3.MultiPattern(p(k), p(l))]))

    def get(i):
        cc = ctx()
        cc.fact(z3.Implies(z3.And(i >= 0, i < n), z3.And(p(i) >= 0, p(i) < n, inv(p(i)) == i)))
        return s.get(p(i))
    r = Seq(s.n, get)
    r.perm_of = s
    r.inv = inv
    return r


def sorted_keys(b):
    """The sorted sequence of a symbolic set of strings (a function of the set)."""
    c = ctx()
    q = c.engine.next_id()
    rec = c.memo.setdefault(("sorted",), [])
    for b0, r in rec:
        if b0 is b:
            return r
    n = c.fresh("sk_n", I)
    g = z3.Function(f"sk!{q}", I, STR)
    h = z3.Function(f"skpos!{q}", STR, I)
    k, l = z3.Ints(f"sk!k{q} sk!l{q}")
    x = z3.String(f"sk!x{q}")
    c.fact(n >= 0)
    c.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(b.has_t(g(k)), h(g(k)) == k)), patterns=[g(k)]))
    c.fact(z3.ForAll([x], z3.Implies(b.has_t(x), z3.And(h(x) >= 0, h(x) < n, g(h(x)) == x)), patterns=[h(x)]))
    c.fact(z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k < l, l < n), g(k) < g(l)),
                     patterns=[z3.MultiPattern(g(k), g(l))]))
    for b0, r0 in rec:
        i = z3.Int(f"sk!i{q}")
        g0 = r0.sk_fn
        c.fact(z3.Implies(z3.ForAll([x], b.has_t(x) == b0.has_t(x)),
                          z3.And(n == r0.n, z3.ForAll([i], g(i) == g0(i), patterns=[g(i)]))))

    def get(t):
        cc = ctx()
        cc.fact(z3.Implies(z3.And(t >= 0, t < n), b.has_t(g(t))))
        return S("str", g(t))
    r = Seq(n, get)
    r.sk_fn = g
    c.memo[("sorted",)] = rec + [(b, r)]
    return r


# ------------------------------------------------------------ construction
def construct(cls, args, kw):
    c = ctx()
    con = c.engine.class_contract(cls)
    if con is not None:
        return con(c, args, kw)
    if issubclass(cls, BaseException):
        o = Obj(cls)
        o.attrs["args"] = tuple(args)
        return o
    f = CONS.get(cls) or FUNC.get(cls)
    if f is not None:
        return f(*args, **kw)
    if issubclass(cls, enum.Enum):
        if all(is_concrete(a) for a in args):
            try:
                return cls(*args)
            except ValueError:
                raise PyExc(ValueError)
        raise Unsupported("enum lookup")
    meta = type(cls)
    if meta is not type and meta.__name__ == "_Singleton":
        # singleton metaclass: one shared instance
        return singleton(cls)
    init, own = interp.lookup_mro(cls, "__init__")
    new, nown = interp.lookup_mro(cls, "__new__")
    if isinstance(init, types.FunctionType) and (interp.interpretable(init)):
        o = alloc(cls)
        interp.call_fn(init, [o] + list(args), kw, own)
        return o
    if init is object.__init__ and (new is object.__new__) and not args and not kw:
        return alloc(cls)
    if issubclass(cls, tuple) and cls is not tuple and cls.__module__.startswith("yangson"):
        o = Obj(cls)
        o.seq = iter_seq(args[0]) if args else Seq.of([])
        return o
    if issubclass(cls, list) and not isinstance(init, types.FunctionType):
        o = Obj(cls)
        o.seq = iter_seq(args[0]) if args else Seq.of([])
        return o
    if all(is_concrete(a) for a in args) and all(is_concrete(a) for a in kw.values()) and pure_native(cls):
        try:
            return native_to_host(cls(*args, **kw))
        except Exception as e:
            raise PyExc(type(e), e.args)
    raise Unsupported(f"construction of {cls.__name__}")


_singletons = {}


def singleton(cls):
    """The one instance of a singleton class (identity-stable, no own state)."""
    if cls not in _singletons:
        o = Obj(cls)
        o.extra["singleton"] = True
        _singletons[cls] = o
    o = _singletons[cls]
    c = ctx()
    k = ("clsfact", cls)
    if k not in c.memo:
        c.memo[k] = True
        c.fact(clsid_f(o.ref) == clsid(cls))
    return o


def alloc(cls):
    o = Obj(cls)
    if issubclass(cls, (list, tuple, collections.deque)):
        o.seq = Seq.of([])
    elif issubclass(cls, (dict, set, frozenset)):
        o.map = Map()
    c = ctx()
    c.fact(clsid_f(o.ref) == clsid(cls))
    return o


@model(list.__init__, dict.__init__, set.__init__)
def m_container_init(o, *args):
    return super_method(o, "__init__", args, {})


@model(object.__init__)
def m_object_init(o, *args):
    return None


@model(list.__eq__, dict.__eq__, tuple.__eq__)
def m_container_eq(o, x):
    return super_method(o, "__eq__", (x,), {})


CONS = {}


def cons(*cls):
    def deco(f):
        for k in cls:
            CONS[k] = f
        return f
    return deco


def copy_seq(v):
    s = iter_seq(v)
    if isinstance(s, KeyIter):
        return None, s
    return s, None


@cons(list)
def c_list(v=None):
    if v is None:
        return new_list()
    s, ki = copy_seq(v)
    if ki is not None:
        return new_list(keys_as_seq(ki))
    return new_list(s)


def keys_as_seq(ki):
    """Sequence view of a base mapping in insertion order (each key once)."""
    m = ki.m
    if m.writes:
        raise Unsupported("ordered view of updated mapping")
    b = m.base
    c = ctx()
    n = b.n()
    c.fact(n >= 0)
    if not hasattr(b, "key_at"):
        raise Unsupported("ordered view")
    i, j = z3.Int("ko!i"), z3.Int("ko!j")
    ks = b.ksh.sort
    kf = uf("dkey", I, I, ks)
    kx = z3.Const("ko!k", ks)
    pos = uf("dpos", I, ks, I)
    c.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
        b.has_t(kf(b.ref, i)), pos(b.ref, kf(b.ref, i)) == i)), patterns=[kf(b.ref, i)]))
    c.fact(z3.ForAll([kx], z3.Implies(b.has_t(kx), z3.And(
        pos(b.ref, kx) >= 0, pos(b.ref, kx) < n, kf(b.ref, pos(b.ref, kx)) == kx)),
        patterns=[b.has_t(kx)]))

    def get(t):
        cc = ctx()
        kt = kf(b.ref, t)
        cc.fact(z3.Implies(z3.And(t >= 0, t < n), b.has_t(kt)))
        return ki.item(kt)
    return Seq(n, get)


@cons(tuple)
def c_tuple(v=None):
    if v is None:
        return ()
    s, ki = copy_seq(v)
    if ki is not None:
        s = keys_as_seq(ki)
    if s.concrete:
        return tuple(s.elems)
    o = Obj(tuple)
    o.seq = s
    return o


@cons(collections.deque)
def c_deque(v=None):
    o = Obj(collections.deque)
    o.seq = Seq.of([]) if v is None else iter_seq(v)
    return o


@cons(dict)
def c_dict(v=None, **kw):
    o = new_dict()
    if v is not None:
        dict_update(o, v)
    for k, x in kw.items():
        o.map = o.map.write(k, x)
    return o


@cons(set, frozenset)
def c_set(v=None):
    o = Obj(set)
    o.map = Map()
    if v is None:
        return o
    s = iter_seq(v)
    if isinstance(s, KeyIter):
        if s.what != "keys":
            raise Unsupported("set of values")
        o.map = s.m
        return o
    if s.concrete:
        for x in s.elems:
            o.map = o.map.write(x, True)
        return o
    from .loops import CompBase
    c = ctx()
    # element kind from a generic element
    i = z3.Int("si!%d" % c.engine.next_id())
    rng = z3.And(i >= 0, i < s.nz())
    ps = summarize(lambda cc: resolve(s.get(i)), bound=[i], rng=rng)
    from .shapes import Str as SS, Int as SI, Dec as SDc
    ks = {kind_of(p.outcome) for p in ps}
    if len(ks) > 1 or not ks <= {"str", "int", "dec"}:
        ps = [p for p in ps if c.check(rng, p.cond) != z3.unsat]
    if not ps:
        return o              # no index is feasible: the sequence is empty
    if all(kind_of(p.outcome) == "str" for p in ps):
        ksh = SS
    elif all(kind_of(p.outcome) == "int" for p in ps):
        ksh = SI
    elif all(kind_of(p.outcome) == "dec" for p in ps):
        ksh = SDc
    elif all(isinstance(p.outcome, A) for p in ps) and ps:
        ksh = ps[0].outcome.shape
        raise Unsupported("set of values of unknown kind")
    else:
        raise Unsupported("set of symbolic sequence")

    def has_t(kt):
        return z3.Exists([i], z3.And(rng, z3.Or(*[z3.And(p.cond, kt == raw_term(p.outcome)) for p in ps])))
    # cardinality: at most the length, equal to it iff all entries are distinct
    card = c.fresh("card", I)
    n = s.nz()
    j = z3.Int("sj!%d" % c.engine.next_id())

    def el(t):
        r = raw_term(ps[-1].outcome)
        for p in ps[:-1]:
            r = z3.If(p.cond, raw_term(p.outcome), r)
        return z3.substitute(r, (i, t))
    c.fact(z3.And(card >= 0, card <= n, (card > 0) == (n > 0)))
    c.fact((card == n) == z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), el(i) != el(j))))
    o.map = Map(CompBase(ksh, has_t, n=card))
    return o


def merged_map(a, b):
    """What b holds, else what a holds."""
    from .loops import CompBase
    from .ops import map_has_term
    ksh = b.base.ksh
    if a.base is not None and a.base.ksh.sort != ksh.sort:
        raise Unsupported("update from a mapping with other keys")

    def get(k):
        f, x = b.lookup(k)
        if f:
            return x
        f, x = a.lookup(k)
        if f:
            return x
        raise Infeasible()
    return Map(CompBase(ksh, lambda t: z3.Or(map_has_term(b, t, ksh.sort), map_has_term(a, t, ksh.sort)), get))


def dict_update(o, v):
    v = resolve(v)
    if isinstance(v, Obj) and v.map is not None:
        if v.map.base is None:
            m = o.map
            for k, x in v.map.writes:
                m = m.write(k, x)
            o.map = m
            return
        if o.map.base is None and not o.map.writes:
            o.map = v.map
            return
        o.map = merged_map(o.map, v.map)
        return
    s = iter_seq(v)
    if not isinstance(s, KeyIter) and s.concrete:
        m = o.map
        for kv in s.elems:
            k, x = interp.unpack(kv, 2)
            m = m.write(k, x)
        o.map = m
        return
    raise Unsupported("dict from symbolic pairs")


@cons(str)
def c_str(v="", *a):
    if a:
        raise Unsupported("str with encoding")
    return py_str(v)


@cons(bool)
def c_bool(v=False):
    return sbool(truth_term(v))


@cons(type)
def c_type(v, *a):
    v = resolve(v)
    if isinstance(v, S):
        return PYCLS[v.k]
    if isinstance(v, Obj):
        return interp.force_class(v)
    return type(v)


@cons(range)
def c_range(a, b=None, step=1):
    if b is None:
        a, b = 0, a
    a, b = resolve(a), resolve(b)
    if is_concrete(a) and is_concrete(b) and is_concrete(step):
        return Seq.of(list(range(a, b, step)))
    if step != 1:
        raise Unsupported("range step")
    az, bz = zint(a), zint(b)
    n = z3.If(bz > az, bz - az, z3.IntVal(0))
    return Seq(z3.simplify(n), lambda i: wrap_scalar("int", az + i))


# int(str): the language accepted by Python's int() on text, as an uninterpreted
# partial function constrained by str(int) being accepted with that value.
def int_of_str(t, base=10):
    c = ctx()
    ok = uf(f"int_ok{base}", STR, B)(t)
    val = uf(f"int_val{base}", STR, I)(t)
    if base == 10:
        x = z3.Int("ios!x")
        k = ("int_axiom",)
        if k not in c.memo:
            c.memo[k] = True
        # instantiate str->int inverse for every int-to-string term seen
    return ok, val


@cons(int)
def c_int(v=0, base=10):
    v = resolve(v)
    if is_concrete(v) and is_concrete(base):
        try:
            return int(v) if base == 10 and not isinstance(v, str) else int(v, base) if isinstance(v, str) else int(v)
        except (ValueError, TypeError, OverflowError) as e:
            raise PyExc(type(e))
    if isinstance(v, S):
        if v.k == "int":
            return v
        if v.k == "bool":
            return S("int", zint(v))
        if v.k == "str":
            if not isinstance(base, int):
                raise Unsupported("int base")
            inv = inv_str_int(v.t)
            if inv is not None and base == 10:
                return S("int", inv)
            ok, val = int_of_str(v.t, base)
            if ctx().branch(ok):
                return S("int", val)
            raise PyExc(ValueError)
        if v.k == "flt":
            fp_to_int_guard(v.t)
            r = z3.fpRoundToIntegral(z3.RTZ(), v.t)
            return S("int", ops.came_from(fp_int(r), z3.If(z3.fpIsZero(r), z3.FPVal(0.0, F64), r)))
        if v.k == "dec":
            return S("int", z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
        if v.k == "bytes":
            raise Unsupported("int of bytes")
        if v.k == "decsp":
            if ctx().branch(z3.Or(v.t == 1, v.t == 2)):
                raise PyExc(OverflowError)
            raise PyExc(ValueError)
    raise PyExc(TypeError)


def inv_str_int(t):
    """x if t is syntactically str(x)."""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        cnd, a, b = t.children()
        if z3.is_app(a) and a.decl().name() == "str.from_int" or \
                (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STR_FROM_INT if hasattr(z3, "Z3_OP_STR_FROM_INT") else False):
            x = a.children()[0]
            if z3.simplify(str_int_term(x)).eq(z3.simplify(t)):
                return x
    return None


@cons(float)
def c_float(v=0.0):
    v = resolve(v)
    if is_concrete(v) and not isinstance(v, (Obj, tuple)):
        try:
            return float(v)
        except (ValueError, TypeError, OverflowError) as e:
            raise PyExc(type(e))
    if isinstance(v, S):
        if v.k == "flt":
            return v
        if v.k in ("int", "bool"):
            return S("flt", to_fp(v))
        if v.k == "str":
            if ctx().branch(uf("float_ok", STR, B)(v.t)):
                return S("flt", uf("float_val", STR, F64)(v.t))
            raise PyExc(ValueError)
        if v.k == "dec":
            f = ops.exact_fp(v.t)
            return S("flt", z3.fpRealToFP(z3.RNE(), v.t, F64) if f is None else f)
        if v.k == "decsp":
            if ctx().branch(z3.Or(v.t == 1, v.t == 2)):
                return S("flt", z3.If(v.t == 1, z3.fpPlusInfinity(F64), z3.fpMinusInfinity(F64)))
            if ctx().branch(v.t == 3):
                raise PyExc(ValueError)
            return float("nan")
    raise PyExc(TypeError)


@cons(decimal.Decimal)
def c_decimal(v="0"):
    v = resolve(v)
    if is_concrete(v) and not isinstance(v, tuple):
        try:
            return decimal.Decimal(v)
        except decimal.InvalidOperation:
            raise PyExc(decimal.InvalidOperation)
        except TypeError:
            raise PyExc(TypeError)
        except ValueError:
            raise PyExc(ValueError)
    if isinstance(v, S):
        if v.k in ("int", "bool"):
            return S("dec", z3.ToReal(zint(v)))
        if v.k == "dec":
            return v
        if v.k == "flt":
            c = ctx()
            if c.branch(z3.fpIsNaN(v.t)):
                return S("decsp", z3.IntVal(0))
            if c.branch(z3.fpIsInf(v.t)):
                return S("decsp", z3.If(z3.fpIsNegative(v.t), z3.IntVal(2), z3.IntVal(1)))
            return S("dec", ops.came_from(z3.fpToReal(v.t), v.t))
        if v.k == "str" and z3.is_app(v.t) and v.t.decl().name().startswith("repr_flt"):
            x = v.t.arg(0)
            if ctx().check(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x))) == z3.unsat:
                return S("dec", uf("dec_of_repr", F64, R)(x))
        if v.k == "str":
            c = ctx()
            if not c.branch(uf("dec_ok", STR, B)(v.t)):
                raise PyExc(decimal.InvalidOperation)
            sp = uf("dec_special", STR, B)(v.t)
            if c.branch(sp):
                k = uf("dec_spk", STR, I)(v.t)
                c.fact(z3.And(k >= 0, k <= 3))
                return S("decsp", k)
            return S("dec", uf("dec_val", STR, R)(v.t))
    raise PyExc(TypeError)


@cons(object)
def c_object():
    return Obj(object)


@model(datetime.datetime.now)
def m_now(*a):
    return now_obj()


def now_obj():
    o = Obj(datetime.datetime)
    return o


# ------------------------------------------------------------ containers: in / [] / del
def contains(cont, x):
    cont = resolve(cont)
    if isinstance(cont, Obj):
        if _has_user(cont, "__contains__"):
            return truth_term(interp.call_method(cont, "__contains__", [x]))
        if cont.cls is None:
            f = interp.call_method(cont, "__contains__", [x])
            return truth_term(f)
        if cont.map is not None:
            return map_contains(cont.map, x)
        if cont.seq is not None:
            return seq_contains(cont.seq, x)
        raw, _ = interp.lookup_mro(cont.base, "__contains__")
        if raw is None:
            raise PyExc(TypeError)
        raise Unsupported("in")
    if isinstance(cont, tuple):
        return disj([py_eq(e, x) for e in cont])
    if isinstance(cont, (str, S)) and kind_of(cont) == "str":
        x = resolve(x)
        if kind_of(x) != "str":
            raise PyExc(TypeError)
        if is_concrete(x) and is_concrete(cont):
            return x in cont
        return z3.Contains(raw_term(cont), raw_term(x))
    if isinstance(cont, (list, set, frozenset, dict)):
        x = resolve(x)
        if is_concrete(x):
            try:
                return x in cont
            except TypeError:
                raise PyExc(TypeError)
        return disj([py_eq(e, x) for e in cont])
    if isinstance(cont, Seq):
        return seq_contains(cont, x)
    if isinstance(cont, bytes) or isinstance(cont, S) and cont.k == "bytes":
        raise Unsupported("in bytes")
    raise PyExc(TypeError)


def check_hashable(x):
    x = resolve(x)
    if isinstance(x, Obj):
        if x.cls is None:
            for k in list(x.cands):
                pass
        if not _has_user(x, "__hash__") and issubclass(x.base, (list, dict, set)):
            raise PyExc(TypeError)
        if issubclass(x.base, list) and x.seq is not None and not _has_user(x, "__hash__"):
            raise PyExc(TypeError)
        if x.cls is tuple and x.seq is not None:
            return
    if isinstance(x, tuple):
        for y in x:
            check_hashable(y)


def map_contains(m, x):
    check_hashable(x)
    t = False
    if m.base is not None:
        xr = x
        ks = m.base.ksh.sort
        if isinstance(x, A) and x.res is None and ks == STR:
            t = z3.And(V.is_str(x.t), m.base.has_t(V.sv(x.t)))
        elif isinstance(x, (A, S)) or is_concrete(x):
            t = m.base.has(x)
        else:
            kt = key_term(x, ks) if not isinstance(x, tuple) or ks == V else m_tuple_key(m, x)
            t = z3.BoolVal(False) if kt is None else m.base.has_t(kt)
        if not hasattr(m.base, "_has") and not m.writes:
            # a key is present only in a non-empty mapping
            pass
    for wk, wv in m.writes:
        e = py_eq(wk, x)
        if wv is Map.DEL:
            t = conj([t, neg(e)])
        else:
            t = disj([t, e])
    return t


def m_tuple_key(m, x):
    return key_term(x, m.base.ksh.sort)


def seq_contains(s, x):
    if s.concrete:
        out = []
        for e in s.elems:
            out.append(py_eq(e, x))
        return disj(out)
    c = ctx()
    i = z3.Int("in!%d" % c.engine.next_id())
    rng = z3.And(i >= 0, i < s.nz())
    ps = summarize(lambda cc: py_eq(s.get(i), x), bound=[i], rng=rng)
    return z3.Exists([i], z3.And(rng, formula_of(ps)))


def norm_index(s, i, exc=True):
    """Normalised in-range index; raises IndexError."""
    i = resolve(i)
    if kind_of(i) not in ("int", "bool"):
        raise PyExc(TypeError)
    if s.concrete and isinstance(i, int):
        n = s.n
        if -n <= i < n:
            return i % n if n else i
        raise PyExc(IndexError)
    iz, n = zint(i), s.nz()
    c = ctx()
    if c.branch(iz >= 0):
        if c.branch(iz < n):
            return z3.simplify(iz)
        raise PyExc(IndexError)
    if c.branch(iz + n >= 0):
        return z3.simplify(iz + n)
    raise PyExc(IndexError)


def slice_bounds(s, sl):
    if sl.step is not None and sl.step != 1:
        raise Unsupported("slice step")
    n = s.n

    def b(x, d):
        if x is None:
            return d
        x = resolve(x)
        if x is None:
            return d
        if kind_of(x) not in ("int", "bool"):
            raise PyExc(TypeError)
        if isinstance(x, int) and isinstance(n, int):
            return max(0, min(n, x + n if x < 0 else x))
        xz, nz_ = zint(x), s.nz()
        c = ctx()
        if c.branch(xz < 0):
            if c.branch(xz + nz_ < 0):
                return 0
            return z3.simplify(xz + nz_)
        if c.branch(xz > nz_):
            return n
        return z3.simplify(xz)
    lo = b(sl.lo, 0)
    hi = b(sl.hi, n)
    if isinstance(lo, int) and isinstance(hi, int):
        return lo, max(lo, hi)
    c = ctx()
    lz = z3.IntVal(lo) if isinstance(lo, int) else lo
    hz = z3.IntVal(hi) if isinstance(hi, int) else hi
    if c.branch(hz < lz):
        return lo, lo
    return lo, hi


def str_seq(v):
    t = raw_term(v)
    k = kind_of(v)
    return Seq(z3.Length(t), lambda i: S(k, z3.SubString(t, i, 1)))


def getitem(o, i):
    o = resolve(o)
    if isinstance(i, Slice):
        return getslice(o, i)
    if isinstance(o, Obj):
        if _has_user(o, "__getitem__"):
            return interp.call_method(o, "__getitem__", [i])
        if o.seq is not None:
            return o.seq.get(norm_index(o.seq, i))
        if o.map is not None:
            check_hashable(i)
            f, v = o.map.lookup(i)
            if f:
                return v
            raise PyExc(KeyError, (i,))
        if o.cls is re.Match:
            return interp.call_method(o, "group", [i])
        raise PyExc(TypeError)
    if isinstance(o, tuple):
        return Seq.of(o).get(norm_index(Seq.of(o), i))
    if isinstance(o, (str,)) or isinstance(o, S) and o.k == "str":
        i = resolve(i)
        if is_concrete(o) and is_concrete(i):
            try:
                return o[i]
            except (IndexError, TypeError) as e:
                raise PyExc(type(e))
        s = str_seq(o)
        return s.get(norm_index(s, i))
    if isinstance(o, type):
        return o
    if isinstance(o, dict):
        i = resolve(i)
        if is_concrete(i):
            try:
                return o[i]
            except (KeyError, TypeError) as e:
                raise PyExc(type(e))
    if o is None or isinstance(o, (int, float, decimal.Decimal)) or isinstance(o, S):
        raise PyExc(TypeError)
    if hasattr(o, "__class_getitem__") or isinstance(o, types.GenericAlias):
        return o
    raise Unsupported(f"subscript of {o!r}")


def getslice(o, sl):
    if isinstance(o, tuple):
        lo, hi = slice_bounds(Seq.of(o), sl)
        if isinstance(lo, int) and isinstance(hi, int):
            return o[lo:hi]
        r = Obj(tuple)
        r.seq = Seq.of(o).slice(lo, hi)
        return r
    if isinstance(o, (str, bytes, S)) and kind_of(o) in ("str", "bytes"):
        if is_concrete(o) and all(is_concrete(x) for x in (sl.lo, sl.hi, sl.step)):
            try:
                return o[slice(sl.lo, sl.hi, sl.step)]
            except TypeError:
                raise PyExc(TypeError)
        s = str_seq(o)
        lo, hi = slice_bounds(s, sl)
        lz = z3.IntVal(lo) if isinstance(lo, int) else lo
        hz = z3.IntVal(hi) if isinstance(hi, int) else hi
        return wrap_scalar(kind_of(o), z3.SubString(raw_term(o), lz, hz - lz))
    if isinstance(o, Obj) and o.seq is not None:
        if _has_user(o, "__getitem__"):
            raise Unsupported("slice of user sequence")
        lo, hi = slice_bounds(o.seq, sl)
        base = seq_cls(o)
        if base is collections.deque:
            raise PyExc(TypeError)
        s = o.seq.slice(lo, hi)
        if base is tuple and s.concrete:
            return tuple(s.elems)
        r = Obj(base)
        r.seq = s
        return r
    if isinstance(o, Obj) and o.map is not None:
        raise PyExc(TypeError)
    if o is None or isinstance(o, (int, float, S)):
        raise PyExc(TypeError)
    raise Unsupported("slice")


def setitem(o, i, v):
    o = resolve(o)
    if isinstance(i, Slice):
        raise Unsupported("slice assignment")
    if isinstance(o, Obj):
        if _has_user(o, "__setitem__"):
            interp.call_method(o, "__setitem__", [i, v])
            return
        raw_setitem(o, i, v)
        return
    raise PyExc(TypeError)


def raw_setitem(o, i, v):
    if o.map is not None:
        check_hashable(i)
        mutate(o, map=o.map.write(i, v))
        return
    if o.seq is not None:
        if issubclass(o.base, tuple):
            raise PyExc(TypeError)
        ix = norm_index(o.seq, i)
        s = o.seq
        if s.concrete and isinstance(ix, int):
            el = list(s.elems)
            el[ix] = v
            mutate(o, seq=Seq.of(el))
            return
        iz = z3.IntVal(ix) if isinstance(ix, int) else ix

        def get(t):
            return v if ctx().branch(t == iz) else s.get(t)
        mutate(o, seq=Seq(s.n, get))
        return
    raise PyExc(TypeError)


def delitem(o, i):
    o = resolve(o)
    if isinstance(o, Obj):
        if _has_user(o, "__delitem__"):
            interp.call_method(o, "__delitem__", [i])
            return
        if isinstance(i, Slice):
            raise Unsupported("slice deletion")
        if o.map is not None:
            check_hashable(i)
            f, _ = o.map.lookup(i)
            if not f:
                raise PyExc(KeyError, (i,))
            mutate(o, map=o.map.write(i, Map.DEL))
            return
        if o.seq is not None:
            if issubclass(o.base, tuple):
                raise PyExc(TypeError)
            ix = norm_index(o.seq, i)
            mutate(o, seq=seq_remove(o.seq, ix))
            return
    raise PyExc(TypeError)


def seq_remove(s, ix):
    if s.concrete and isinstance(ix, int):
        el = list(s.elems)
        del el[ix]
        return Seq.of(el)
    iz = z3.IntVal(ix) if isinstance(ix, int) else ix
    n1 = z3.simplify(s.nz() - 1)

    def get(t):
        return s.get(t) if ctx().branch(t < iz) else s.get(z3.simplify(t + 1))
    return Seq(n1, get)


def seq_append(s, x):
    r = s.concat(Seq.of([x]))
    if getattr(s, "placeholder", False):
        r.appended_to = (s, [x])
    elif getattr(s, "appended_to", None):
        r.appended_to = (s.appended_to[0], s.appended_to[1] + [x])
    return r


def inplace(op, cur, v):
    cur = resolve(cur)
    if isinstance(cur, Obj):
        if op == "+" and cur.seq is not None and not issubclass(cur.base, tuple):
            add = iter_seq(v)
            if isinstance(add, KeyIter):
                add = keys_as_seq(add)
            if getattr(cur.seq, "placeholder", False) or getattr(cur.seq, "appended_to", None):
                if not add.concrete:
                    raise Unsupported("extending accumulator by symbolic sequence")
                s = cur.seq
                for x in add.elems:
                    s = seq_append(s, x)
                mutate(cur, seq=s)
            else:
                mutate(cur, seq=cur.seq.concat(add))
            return cur
        if op in ("|", "&", "-") and cur.map is not None:
            r = set_op(op, cur, resolve(v)) if not issubclass(cur.base, dict) else dict_or(cur, v)
            mutate(cur, map=r.map)
            return cur
    return arith(op, cur, v)


def dict_or(a, b):
    o = Obj(dict)
    o.map = a.map
    dict_update(o, b)
    return o


def set_op(op, a, b):
    """Set algebra as a formula-defined set."""
    from .loops import CompBase
    b = resolve(b)
    if not (isinstance(b, Obj) and b.map is not None):
        if isinstance(b, (set, frozenset)):
            b = new_set(list(b))
        else:
            raise PyExc(TypeError)
    x, y = a.map, b.map
    r = Obj(set)
    if x.base is None and y.base is None:
        if op == "|":
            m = x
            for k, v in y.writes:
                m = m.write(k, v)
            r.map = m
            return r
        if x.concrete and y.concrete and all(is_concrete(k) for k, _ in x.writes + y.writes):
            ys = {k for k, _ in y.writes}
            m = Map()
            for k, v in x.writes:
                if (k in ys) == (op == "&"):
                    m = m.write(k, v)
            r.map = m
            return r
        if not x.writes:
            r.map = Map()
            return r
    if op == "|" and x.base is None and not x.writes:
        r.map = y
        return r
    if y.base is None and not y.writes:
        r.map = Map() if op == "&" else x
        return r
    ksh = (x.base or y.base).ksh if (x.base or y.base) else None
    if ksh is None:
        k0 = (x.writes + y.writes)[0][0]
        if kind_of(k0) == "str":
            ksh = StrSh
        elif isinstance(k0, tuple) and len(k0) in TUPLES and all(kind_of(x) == "str" for x in k0):
            ksh = TupleS(len(k0))
        else:
            raise Unsupported("set operation on symbolic keys")
    ks = ksh.sort
    if (x.base and x.base.ksh.sort != ks) or (y.base and y.base.ksh.sort != ks):
        raise Unsupported("set operation on different key kinds")

    def has_t(kt):
        hx, hy = map_has_term(x, kt, ks), map_has_term(y, kt, ks)
        return {"|": z3.Or(hx, hy), "&": z3.And(hx, hy), "-": z3.And(hx, z3.Not(hy))}[op]
    r.map = Map(CompBase(ksh, has_t))
    return r


# ------------------------------------------------------------ methods
def call_method(o, name, args, kw):
    if name.startswith("super."):
        return super_method(o, name[6:], args, kw)
    o = resolve(o) if isinstance(o, A) else o
    if isinstance(o, SuperObj):
        if name == "__new__":
            cls = args[0]
            r = alloc(cls)
            if r.seq is not None and len(args) > 1:
                r.seq = iter_seq(args[1])
            return r
        raise Unsupported("super method " + name)
    if isinstance(o, Obj):
        kind = "map" if o.map is not None else "seq" if o.seq is not None else None
        f = None
        if kind:
            f = METHODS.get((base_kind(o), name)) or METHODS.get((kind, name))
        if f is None:
            f = METHODS.get((o.base, name))
        if f is None:
            raise Unsupported(f"method {o.base.__name__}.{name}")
        return f(o, *args, **kw)
    if isinstance(o, tuple):
        f = METHODS.get(("seq", name))
        if f is not None and not (is_concrete(o) and all(is_concrete(a) for a in args)):
            return f(o, *args, **kw)
    k = kind_of(o)
    if is_concrete(o) and all(is_concrete(a) for a in args) and not kw:
        try:
            r = getattr(o, name)(*args)
        except Exception as e:
            raise PyExc(type(e))
        return native_to_host(r)
    if is_concrete(o) and k == "str" and name == "join":
        return m_join(o, *args)
    f = METHODS.get((k, name))
    if f is None:
        raise Unsupported(f"method {k}.{name}")
    return f(o, *args, **kw)


def base_kind(o):
    for k in (collections.deque, list, tuple, dict, set, frozenset):
        if issubclass(o.base, k):
            return k
    return o.base


def super_method(o, name, args, kw):
    """super().m() reaching a built-in base class."""
    if name == "__init__":
        if o.seq is not None and args:
            c = ctx()
            c.set_field(o, "seq", iter_seq(args[0]))
        elif o.map is not None and args:
            t = Obj(dict)
            t.map = Map()
            dict_update(t, args[0])
            ctx().set_field(o, "map", t.map)
        return None
    if name == "__setitem__":
        raw_setitem(o, *args)
        return None
    if name == "__eq__":
        x = resolve(args[0])
        if o.seq is not None:
            s = as_seq(x)
            if s is None or seq_cls(x) is not seq_cls(o):
                return NotImplemented
            return sbool(seq_eq_term(o.seq, s))
        if o.map is not None:
            if not (isinstance(x, Obj) and x.map is not None and
                    issubclass(x.base, dict) == issubclass(o.base, dict)):
                return NotImplemented
            return sbool(map_eq_term(o.map, x.map, py_eq))
        return o is x if o is x else NotImplemented
    if name == "copy":
        base = base_kind(o)
        r = Obj(base)
        r.seq, r.map = o.seq, o.map
        return r
    f = METHODS.get((base_kind(o), name)) or METHODS.get(("seq" if o.seq is not None else "map", name))
    if f:
        return f(o, *args, **kw)
    raise Unsupported("super()." + name)


METHODS = {}


def meth(kind, name):
    def deco(f):
        METHODS[(kind, name)] = f
        return f
    return deco


@meth("seq", "append")
def l_append(o, x):
    mutate(o, seq=seq_append(o.seq, x))


@meth("seq", "extend")
def l_extend(o, v):
    inplace("+", o, v)


@meth("seq", "appendleft")
def l_appendleft(o, x):
    mutate(o, seq=Seq.of([x]).concat(o.seq))


@meth("seq", "pop")
def l_pop(o, i=-1):
    s = o.seq
    ix = norm_index(s, i)
    v = s.get(ix)
    mutate(o, seq=seq_remove(s, ix))
    return v


@meth("seq", "popleft")
def l_popleft(o):
    return l_pop(o, 0)


@meth("seq", "remove")
def l_remove(o, x):
    ix = l_index(o, x)
    mutate(o, seq=seq_remove(o.seq, raw_term(ix) if isinstance(ix, S) else ix))


@meth("seq", "insert")
def l_insert(o, i, x):
    s = o.seq
    lo, _ = slice_bounds(s, Slice(i, None, None))
    mutate(o, seq=s.slice(0, lo).concat(Seq.of([x])).concat(s.slice(lo, s.n)))


@meth("seq", "reverse")
def l_reverse(o):
    mutate(o, seq=o.seq.reverse())


@meth("seq", "copy")
def l_copy(o):
    r = Obj(base_kind(o))
    r.seq = o.seq
    return r


@meth("seq", "clear")
def l_clear(o):
    mutate(o, seq=Seq.of([]))


@meth("seq", "__len__")
def l_len(o):
    return m_len(o)


@meth("seq", "__iter__")
def l_iter(o):
    return IterSeq(iter_seq(o))


@meth("seq", "__contains__")
def l_contains(o, x):
    return sbool(contains(o, x))


@meth("seq", "__getitem__")
def l_getitem(o, i):
    if isinstance(o, tuple):
        return getitem(o, i)
    return o.seq.get(norm_index(o.seq, i))


@meth("seq", "index")
def l_index(o, x):
    s = as_seq(o)
    c = ctx()
    if s.concrete:
        for i, e in enumerate(s.elems):
            if py_eq_bool(e, x):
                return i
        raise PyExc(ValueError)
    i = z3.Int("ix!%d" % c.engine.next_id())
    rng = z3.And(i >= 0, i < s.nz())
    ps = summarize(lambda cc: py_eq(s.get(i), x), bound=[i], rng=rng)
    f = formula_of(ps)
    if c.branch(z3.Exists([i], z3.And(rng, f))):
        w = c.fresh("index", I)
        c.assume(z3.substitute(z3.And(rng, f), (i, w)))
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < w), z3.Not(f))))
        return S("int", w)
    raise PyExc(ValueError)


@meth("seq", "count")
def l_count(o, x):
    raise Unsupported("count")


@meth("seq", "sort")
def l_sort(o, key=None, reverse=False):
    if o.seq.concrete and all(is_concrete(x) for x in o.seq.elems) and key is None:
        mutate(o, seq=Seq.of(sorted(o.seq.elems)))
        return
    mutate(o, seq=sort_seq(o.seq, key, reverse))


@meth("seq", "__hash__")
def l_hash(o):
    if isinstance(o, tuple):
        return tuple_hash(Seq.of(o))
    if issubclass(o.base, tuple):
        return tuple_hash(o.seq)
    raise PyExc(TypeError)


def tuple_hash(s):
    """Hash of a tuple: a congruence (equal length and pairwise equal entry hashes)."""
    c = ctx()
    h = c.fresh("tuphash", I)
    rec = c.memo.setdefault(("tuphash",), [])
    for s0, h0 in rec:
        c.fact(z3.Implies(_hash_cong(s, s0), h == h0))
    c.memo[("tuphash",)] = rec + [(s, h)]
    return S("int", h)


def _hash_cong(s, t):
    c = ctx()
    i = z3.Int("hc!%d" % c.engine.next_id())
    rng = z3.And(i >= 0, i < s.nz(), s.nz() == t.nz())

    def th(cc):
        a, b = s.get(i), t.get(i)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return conj([True if len(a) == len(b) else False] + [zeq(p, q) for p, q in zip(a, b)])
        return zeq(a, b)

    def zeq(p, q):
        if kind_of(p) == kind_of(q) and kind_of(p) in ("int", "str"):
            return raw_term(p) == raw_term(q)
        return hash_term(p) == hash_term(q)
    ps = summarize(th, bound=[i], rng=rng)
    return z3.And(s.nz() == t.nz(), z3.ForAll([i], z3.Implies(rng, formula_of(ps))))


def hash_term(v):
    return uf("hash", V, I)(to_V(v))


# mappings
@meth("map", "copy")
def d_copy(o):
    r = Obj(base_kind(o))
    r.map = o.map
    return r


@meth("map", "keys")
def d_keys(o):
    return DictView(o, "keys")


@meth("map", "values")
def d_values(o):
    return DictView(o, "values")


@meth("map", "items")
def d_items(o):
    return DictView(o, "items")


def DictView(o, what):
    s = map_iter(o.map, what)
    if what == "keys":
        r = Obj(set)
        r.map = o.map
        r.extra["view"] = True
        return r
    return s


@meth("map", "get")
def d_get(o, k, d=None):
    check_hashable(k)
    f, v = o.map.lookup(k)
    return v if f else d


@meth("map", "pop")
def d_pop(o, k=None, *d):
    if issubclass(o.base, (set, frozenset)):
        raise Unsupported("set.pop")
    check_hashable(k)
    f, v = o.map.lookup(k)
    if f:
        mutate(o, map=o.map.write(k, Map.DEL))
        return v
    if d:
        return d[0]
    raise PyExc(KeyError, (k,))


@meth("map", "setdefault")
def d_setdefault(o, k, d=None):
    f, v = o.map.lookup(k)
    if f:
        return v
    mutate(o, map=o.map.write(k, d))
    return d


@meth("map", "update")
def d_update(o, *vs, **kw):
    for v in vs:
        v = resolve(v)
        if issubclass(o.base, (set, frozenset)):
            r = set_op("|", o, v if isinstance(v, Obj) and v.map is not None else c_set(v))
            mutate(o, map=r.map)
            continue
        t = Obj(dict)
        t.map = o.map
        dict_update(t, v)
        mutate(o, map=t.map)


@meth("map", "__contains__")
def d_contains(o, k):
    return sbool(map_contains(o.map, k))


@meth("map", "__len__")
def d_len(o):
    return m_len(o)


@meth("map", "__iter__")
def d_iter(o):
    return iter_seq(o)


@meth("map", "__getitem__")
def d_getitem(o, k):
    f, v = o.map.lookup(k)
    if f:
        return v
    raise PyExc(KeyError, (k,))


@meth("map", "add")
def s_add(o, x):
    check_hashable(x)
    mutate(o, map=o.map.write(x, True))


@meth("map", "discard")
def s_discard(o, x):
    mutate(o, map=o.map.write(x, Map.DEL))


@meth("map", "remove")
def s_remove(o, x):
    delitem(o, x)


@meth("map", "union")
def s_union(o, *vs):
    r = o
    for v in vs:
        v = resolve(v)
        r = set_op("|", r, v if isinstance(v, Obj) and v.map is not None else c_set(v))
    if r is o:
        r = d_copy(o)
    return r


@meth("map", "intersection")
def s_inter(o, *vs):
    r = d_copy(o)
    for v in vs:
        v = resolve(v)
        r = set_op("&", r, v if isinstance(v, Obj) and v.map is not None else c_set(v))
    return r


@meth("map", "difference")
def s_diff(o, *vs):
    r = d_copy(o)
    for v in vs:
        v = resolve(v)
        r = set_op("-", r, v if isinstance(v, Obj) and v.map is not None else c_set(v))
    return r


@meth("map", "issubset")
def s_issubset(o, v):
    v = resolve(v)
    ks = (o.map.base or v.map.base)
    if ks is None:
        return sbool(conj([map_contains(v.map, k) for k, _ in o.map.writes]))
    ks = ks.ksh.sort
    k = z3.Const("sub!%d" % ctx().engine.next_id(), ks)
    return sbool(z3.ForAll([k], z3.Implies(map_has_term(o.map, k, ks), map_has_term(v.map, k, ks))))


@meth("map", "clear")
def d_clear(o):
    mutate(o, map=Map())


# strings
def concat_parts(t):
    t = z3.simplify(t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [y for x in t.children() for y in concat_parts(x)]
    return [t]


def wrap_str(parts):
    if not parts:
        return ""
    if len(parts) == 1:
        return parts[0].as_string() if z3.is_string_value(parts[0]) and parts[0].as_string().isascii() \
            else S("str", parts[0])
    return S("str", z3.Concat(*parts))


@meth("str", "partition")
def st_partition(s, sep):
    sep = resolve(sep)
    if kind_of(sep) != "str":
        raise PyExc(TypeError)
    t, p = raw_term(s), raw_term(sep)
    c = ctx()
    if z3.is_expr(t) and isinstance(sep, str) and len(sep) == 1:
        # x + sep + y where x is known to be free of the separator
        ks = concat_parts(t)
        for i, x in enumerate(ks):
            if z3.is_string_value(x) and x.as_string().startswith(sep):
                head = ks[:i]
                if all(c.check(z3.Contains(h, p)) == z3.unsat for h in head):
                    rest = ([strval(x.as_string()[1:])] if len(x.as_string()) > 1 else []) + ks[i + 1:]
                    return (wrap_str(head), sep, wrap_str(rest))
                break
            if z3.is_string_value(x) and sep in x.as_string():
                break
    if c.branch(z3.Contains(t, p)):
        i = z3.IndexOf(t, p, 0)
        a = z3.SubString(t, 0, i)
        b = z3.SubString(t, i + z3.Length(p), z3.Length(t) - i - z3.Length(p))
        fa, fb = c.fresh("part_a", STR), c.fresh("part_b", STR)
        fa, fb = uf("part_a", STR, STR, STR)(t, p), uf("part_b", STR, STR, STR)(t, p)
        c.fact(z3.Implies(z3.Contains(t, p), z3.And(
            t == z3.Concat(fa, p, fb), z3.Not(z3.Contains(z3.Concat(fa, z3.SubString(p, 0, z3.Length(p) - 1)), p)))))
        return (S("str", fa), sep, S("str", fb))
    return (s, "", "")


@meth("str", "startswith")
def st_startswith(s, p, *a):
    p = resolve(p)
    if len(a) == 1 and kind_of(p) == "str" and kind_of(resolve(a[0])) == "int":
        t, q, o = raw_term(s), raw_term(p), raw_term(resolve(a[0]))
        if ctx().check(o < 0) != z3.unsat:
            raise Unsupported("startswith at a negative position")
        k = z3.IntVal(len(p)) if isinstance(p, str) else z3.Length(q)
        return wrap_scalar("bool", z3.And(o <= z3.Length(t), z3.SubString(t, o, k) == q))
    if a:
        raise Unsupported("startswith with position")
    if isinstance(p, tuple):
        return sbool(disj([z3.PrefixOf(raw_term(x), raw_term(s)) for x in p]))
    if kind_of(p) != "str":
        raise PyExc(TypeError)
    return sbool(z3.PrefixOf(raw_term(p), raw_term(s)))


@meth("str", "endswith")
def st_endswith(s, p):
    p = resolve(p)
    return sbool(z3.SuffixOf(raw_term(p), raw_term(s)))


@meth("str", "find")
def st_find(s, p, *a):
    if len(a) > 1:
        raise Unsupported("find with end")
    return S("int", z3.IndexOf(raw_term(s), raw_term(resolve(p)), zint(a[0]) if a else z3.IntVal(0)))


@meth("str", "index")
def st_index(s, p):
    p = resolve(p)
    if not ctx().branch(z3.Contains(raw_term(s), raw_term(p))):
        raise PyExc(ValueError)
    return S("int", z3.IndexOf(raw_term(s), raw_term(p), 0))


@meth("str", "replace")
def st_replace(s, a, b):
    return S("str", uf("str_replace", STR, STR, STR, STR)(raw_term(s), raw_term(resolve(a)), raw_term(resolve(b))))


def str_uf(name):
    def f(s, *a):
        a = [resolve(x) for x in a]
        if any(kind_of(x) != "str" for x in a if x is not None):
            raise PyExc(TypeError)
        a = [x for x in a if x is not None]
        t = raw_term(s)
        if not a and z3.is_expr(t) and z3.is_app_of(t, z3.Z3_OP_ITE) and all(z3.is_string_value(t.arg(i)) for i in (1, 2)):
            return S("str", z3.If(t.arg(0), *[z3.StringVal(getattr(t.arg(i).as_string(), name)()) for i in (1, 2)]))
        return S("str", uf("str_" + name, *([STR] * (1 + len(a))), STR)(raw_term(s), *[raw_term(x) for x in a]))
    return f


for _n in ("strip", "lstrip", "rstrip", "upper", "lower", "title"):
    METHODS[("str", _n)] = str_uf(_n)


@meth("str", "rstrip")
def st_rstrip(s, chars=None):
    t = raw_term(s)
    ent = ctx().memo.get(("fixed", t.get_id())) if resolve(chars) == "0" else None
    if ent is None:
        return str_uf("rstrip")(s, chars)
    # library facts: a fixed-point numeral without its trailing zeros
    c = ctx()
    r = uf("rstrip0", STR, STR)(t)
    dot = z3.SuffixOf(z3.StringVal("."), r)
    c.fact(z3.If(dot, z3.InRe(r, numeral_re(0)), z3.InRe(r, numeral_re(-1))))
    c.fact(z3.Implies(z3.Not(dot), dec_text_facts(r, ent[1])))
    c.fact(z3.Implies(dot, dec_text_facts(z3.Concat(r, z3.StringVal("0")), ent[1])))
    return S("str", r)


@meth("str", "isdigit")
def st_isdigit(s):
    return sbool(uf("str_isdigit", STR, B)(raw_term(s)))


@meth("str", "split")
def st_split(s, sep=None, maxsplit=-1):
    sep = resolve(sep)
    c = ctx()
    t = raw_term(s)
    if sep is None:
        ref = uf("split_ws", STR, I)(t)
    else:
        if kind_of(sep) != "str":
            raise PyExc(TypeError)
        ref = uf("split_on", STR, STR, I)(t, raw_term(sep))
    if maxsplit != -1:
        raise Unsupported("split with maxsplit")
    n = uf("split_n", I, I)(ref)
    c.fact(n >= (0 if sep is None else 1))
    it = uf("split_item", I, I, STR)
    k = c.memo.get(("split_len", ref.get_id()))
    if k is not None:           # bounded contracts fix the number of parts
        return new_list(Seq.of([S("str", it(ref, z3.IntVal(i))) for i in range(k[0])]))
    return new_list(Seq(n, lambda i: S("str", it(ref, i))))


def m_join(s, v):
    q = iter_seq(v)
    if not isinstance(q, KeyIter) and q.concrete:
        out = ""
        for i, x in enumerate(q.elems):
            x = resolve(x)
            if kind_of(x) != "str":
                raise PyExc(TypeError)
            if i:
                out = arith("+", out, s)
            out = arith("+", out, x)
        return out
    if s == "" and not isinstance(q, KeyIter) and ctx().memo.get("fold joins"):
        r = join_fold(q)
        if r is not None:
            return r
    r = S("str", ctx().fresh("join", STR))
    ctx().memo[("joined", r.t.get_id())] = (s, q, r)
    return r


def _concat_all(items):
    res = ""
    for x in items:
        res += x
    return res


def join_fold(q):
    """Concatenation of strings as the recursion it is; items left out of a filtered sequence add nothing."""
    from .loops import filter_source
    src = filter_source(q)
    base, cond = src if src else (q, None)
    probe = base.get(z3.IntVal(0)) if not base.concrete else None
    if probe is not None and kind_of(resolve(probe)) != "str":
        return None
    if cond is None:
        return interp.run_function(_concat_all, [IterSeq(base)])
    n = base.nz()
    pairs = Seq(n, lambda i: (base.get(i), S("bool", cond(i))))
    return interp.run_function(_concat_pairs, [IterSeq(pairs)])


def _concat_pairs(items):
    res = ""
    for x, k in items:
        if k:
            res += x
    return res


METHODS[("str", "join")] = m_join


@meth("str", "encode")
def st_encode(s, *a):
    return S("bytes", uf("str_encode", STR, STR)(raw_term(s)))


@model(hashlib.sha1)
def m_sha1(data=b""):
    o = Obj(type(hashlib.sha1()))
    o.attrs["_data"] = data
    return o


@meth(type(hashlib.sha1()), "hexdigest")
def sha1_hex(o):
    return S("str", uf("sha1_hex", STR, STR)(raw_term(o.attrs["_data"])))


@meth("bytes", "decode")
def by_decode(s, enc="utf-8"):
    if enc == "ascii":
        # only applied to base64 output, which is ASCII
        return S("str", uf("ascii_decode", STR, STR)(raw_term(s)))
    raise Unsupported("decode")


@meth("int", "__hash__")
def i_hash(v):
    return m_hash(v)


for _k in ("str", "bool", "dec", "flt", "bytes", "decsp"):
    METHODS[(_k, "__hash__")] = i_hash


# ------------------------------------------------------------ decimals
@meth("dec", "quantize")
def dec_quantize(v, eps, *a):
    eps = resolve(eps)
    v = resolve(v)
    c = ctx()
    if is_concrete(eps) and eps.as_tuple().digits == (1,):
        # exact: round half even to a multiple of a power of ten, at most 28 digits
        k = eps.as_tuple().exponent
        m = z3.RealVal(10 ** -k) if k <= 0 else 1 / z3.RealVal(10 ** k)
        x = raw_term(v) * m
        f = z3.ToInt(x)
        d = x - z3.ToReal(f)
        half = z3.RealVal("1/2")
        n = z3.If(z3.Or(d > half, z3.And(d == half, f % 2 != 0)), f + 1, f)
        lim = z3.IntVal(10 ** 28)
        if c.branch(z3.Or(n >= lim, n <= -lim)):
            raise PyExc(decimal.InvalidOperation)
        r = S("dec", z3.ToReal(n) / m)
        r.scale = -k
        return r
    vt, et = raw_term(v), raw_term(eps)
    q = uf("dec_quant", R, R, R)(vt, et)
    ok = uf("dec_quant_ok", R, R, B)(vt, et)
    # context precision may be exceeded
    if not c.branch(ok):
        raise PyExc(decimal.InvalidOperation)
    mult = uf("dec_mult", R, R, B)     # v is an integer multiple of eps
    c.fact(mult(q, et))
    c.fact(z3.Implies(mult(vt, et), q == vt))
    c.fact(z3.And(q - vt <= et, vt - q <= et))
    c.fact(uf("dec_quant_ok", R, R, B)(q, et))
    c.fact(uf("dec_quant", R, R, R)(q, et) == q)
    return S("dec", q)


@meth("dec", "to_integral_value")
def dec_integral(v, rounding=None, *a):
    """Exact rounding to an integer; of a decimal that is exactly a float: in floating point, with its sign."""
    rounding = resolve(rounding)
    f = ops.exact_fp(v.t) if isinstance(v, S) else None
    modes = {decimal.ROUND_FLOOR: z3.RTN, decimal.ROUND_CEILING: z3.RTP, decimal.ROUND_DOWN: z3.RTZ, decimal.ROUND_HALF_EVEN: z3.RNE,
             None: z3.RNE, decimal.ROUND_HALF_UP: z3.RNA}
    if f is None or a:
        raise Unsupported("to_integral_value")
    if rounding in modes:
        r = z3.fpRoundToIntegral(modes[rounding](), f)
    elif rounding == decimal.ROUND_HALF_DOWN:          # ties towards zero
        z, n = z3.fpRoundToIntegral(z3.RTZ(), f), z3.fpRoundToIntegral(z3.RNA(), f)
        half = z3.fpEQ(z3.fpAbs(z3.fpSub(z3.RNE(), f, z)), z3.FPVal(0.5, F64))
        r = z3.If(half, z, n)
    else:
        raise Unsupported("rounding mode")
    return S("dec", ops.came_from(z3.fpToReal(r), r))


@meth("decsp", "to_integral_value")
def decsp_integral(v, *a):
    if ctx().branch(raw_term(v) == 3):
        raise PyExc(decimal.InvalidOperation)
    return v


@meth("decsp", "quantize")
def decsp_quantize(v, eps, *a):
    k = raw_term(v)
    # quiet NaN is returned; infinity vs finite signals; sNaN signals
    if ctx().branch(k == 0):
        return v
    raise PyExc(decimal.InvalidOperation)


@meth("dec", "is_finite")
def dec_isfinite(v):
    return True


@meth("decsp", "is_finite")
def decsp_isfinite(v):
    return False


@meth("dec", "is_nan")
def dec_isnan(v):
    return False


@meth("decsp", "is_nan")
def decsp_isnan(v):
    return sbool(z3.Or(raw_term(v) == 0, raw_term(v) == 3))


def numeral_re(fd):
    """-?(0|[1-9][0-9]*)[.] and fd digits; -1: any digits, the last one not zero."""
    d, nz, z = z3.Range("0", "9"), z3.Range("1", "9"), z3.Re("0")
    intp = z3.Concat(z3.Option(z3.Re("-")), z3.Union(z, z3.Concat(nz, z3.Star(d))), z3.Re("."))
    frac = {0: z3.Re(""), -1: z3.Concat(z3.Star(d), nz)}.get(fd)
    return z3.Concat(intp, z3.Loop(d, fd, fd) if frac is None else frac)


def dec_text_facts(t, x):
    return z3.And(uf("dec_ok", STR, B)(t), z3.Not(uf("dec_special", STR, B)(t)), uf("dec_val", STR, R)(t) == x)


def py_format(v, spec):
    k = kind_of(v)
    fd = getattr(v, "scale", None)
    if k == "dec" and spec == "f" and fd:
        # library facts: fixed-point text of a value with exponent -fd
        t = uf(f"fixed_{fd}", R, STR)(raw_term(v))
        c = ctx()
        c.fact(z3.InRe(t, numeral_re(fd)))
        c.fact(dec_text_facts(t, raw_term(v)))
        c.memo[("fixed", t.get_id())] = (t, raw_term(v))
        return S("str", t)
    return S("str", uf(f"format_{k}_{spec}", SORT[k], STR)(raw_term(v)))


@model(format)
def m_format(v, spec=""):
    v = resolve(v)
    if is_concrete(v) and is_concrete(spec):
        return format(v, spec)
    return py_format(v, spec)


# ------------------------------------------------------------ base64 (trusted)
def b64_ok(t):
    return uf("b64_ok", STR, B)(t)


@model(base64.b64decode)
def m_b64decode(s, altchars=None, validate=False):
    s = resolve(s)
    k = kind_of(s)
    if k == "bytes":
        raise Unsupported("b64decode of bytes")
    if k == "obj" or k in ("none", "int", "bool", "flt", "dec", "decsp", "tuple", "conc"):
        raise PyExc(TypeError)
    c = ctx()
    t = raw_term(s)
    if c.branch(z3.Not(uf("is_ascii", STR, B)(t))):
        raise PyExc(ValueError)
    if c.branch(b64_ok(t)):
        return S("bytes", uf("b64_dec", STR, STR)(t))
    raise PyExc(binascii.Error)


@model(base64.b64encode)
def m_b64encode(s, altchars=None):
    s = resolve(s)
    k = kind_of(s)
    if k != "bytes":
        raise PyExc(TypeError)
    c = ctx()
    t = raw_term(s)
    e = uf("b64_enc", STR, STR)(t)
    a = uf("ascii_decode", STR, STR)(e)
    c.fact(z3.And(b64_ok(a), uf("is_ascii", STR, B)(a), uf("b64_dec", STR, STR)(a) == t))
    return S("bytes", e)


# ------------------------------------------------------------ regular expressions
@meth(re.Pattern, "match")
def re_match(o, s, *a):
    s = resolve(s)
    if kind_of(s) != "str":
        raise PyExc(TypeError)
    c = ctx()
    if c.branch(uf("re_match", I, STR, B)(o.ref, raw_term(s))):
        m = Obj(re.Match)
        m.attrs["_re"] = (o, s)
        return m
    return None


@meth(re.Pattern, "fullmatch")
def re_fullmatch(o, s, *a):
    s = resolve(s)
    if kind_of(s) != "str":
        raise PyExc(TypeError)
    if ctx().branch(uf("re_fullmatch", I, STR, B)(o.ref, raw_term(s))):
        m = Obj(re.Match)
        m.attrs["_re"] = (o, s)
        return m
    return None


def re_concrete(pat, name, args):
    """match / fullmatch / search of a concrete pattern on a symbolic string."""
    from . import regex
    if name == "sub" and len(args) == 2 and isinstance(resolve(args[0]), str) and kind_of(resolve(args[1])) == "str":
        return S("str", uf("re_sub %r %d %r" % (pat.pattern, pat.flags, args[0]), STR, STR)(raw_term(args[1])))
    s = resolve(args[0])
    if kind_of(s) != "str":
        raise PyExc(TypeError)
    if len(args) == 2 and name == "match" and kind_of(resolve(args[1])) == "int":
        return match_at(pat, s, raw_term(resolve(args[1])))
    if len(args) > 1 or name not in ("match", "fullmatch", "search"):
        raise Unsupported(f"Pattern.{name}")
    try:
        lang = regex.language(pat)
    except regex.NoTranslation as e:
        raise Unsupported(f"regular expression {pat.pattern!r}: {e}")
    full = z3.Full(z3.ReSort(STR))
    lang = {"match": lambda: z3.Concat(lang, full), "fullmatch": lambda: lang,
            "search": lambda: z3.Concat(full, lang, full)}[name]()
    if ctx().branch(z3.InRe(raw_term(s), lang)):
        m = Obj(re.Match)
        m.attrs["_re"] = (pat, s)
        m.attrs["_how"] = name
        return m
    return None


def match_at(pat, s, pos):
    """pat.match(s, pos): exact for a run of single characters followed by a greedy run of one class."""
    from . import regex
    c = ctx()
    try:
        lang, simple = regex.language(pat), regex.simple(pat)
    except regex.NoTranslation as e:
        raise Unsupported(f"regular expression {pat.pattern!r}: {e}")
    t = raw_term(s)
    n = z3.Length(t)
    p = pos
    if c.check(z3.Or(pos < 0, pos > n)) != z3.unsat:
        p = z3.If(pos < 0, z3.IntVal(0), z3.If(pos > n, n, pos))
    if simple is None:
        end = uf("re_end_" + pat.pattern, STR, I, I)(t, p)
        if not c.branch(uf("re_at_" + pat.pattern, STR, I, B)(t, p)):
            return None
        c.fact(z3.And(end >= p, end <= n, z3.InRe(z3.SubString(t, p, end - p), lang)))
    else:
        k, head, tail = simple
        if k and not c.branch(z3.InRe(z3.SubString(t, p, k), head)):
            return None
        if k:
            c.fact(p + k <= n)
        end = p + k if tail is None else regex.run_end(tail, t, p + k)
    m = Obj(re.Match)
    m.attrs["_re"] = (pat, s)
    m.attrs["_how"] = "at"
    m.attrs["_span"] = (p, end)
    return m


@meth(re.Match, "end")
def re_mend(m, g=0):
    if m.attrs.get("_how") != "at" or g != 0:
        raise Unsupported("end of a match")
    return S("int", m.attrs["_span"][1])


@meth(re.Match, "start")
def re_mstart(m, g=0):
    if m.attrs.get("_how") != "at" or g != 0:
        raise Unsupported("start of a match")
    return S("int", m.attrs["_span"][0])


@meth(re.Match, "group")
def re_group(m, g=0):
    o, s = m.attrs["_re"]
    if m.attrs.get("_how") == "at":
        if g != 0:
            raise Unsupported("group of a match at a position")
        p, e = m.attrs["_span"]
        return S("str", z3.SubString(raw_term(s), p, e - p))
    if not isinstance(g, int):
        raise Unsupported("group name")
    if isinstance(o, re.Pattern):
        from . import regex
        c = ctx()
        t = raw_term(s)
        r = uf(f"group_{o.pattern}_{m.attrs['_how']}_{g}", STR, STR)(t)
        try:
            lang = regex.language(o) if g == 0 else regex.group_language(o, g)
        except regex.NoTranslation as e:
            raise Unsupported(f"regular expression {o.pattern!r}: {e}")
        if m.attrs["_how"] == "fullmatch" and g == 0:
            return s
        if lang is not None:
            c.fact(z3.InRe(r, lang))
        c.fact(z3.PrefixOf(r, t) if m.attrs["_how"] == "match" and g == 0 else z3.Contains(t, r))
        return S("str", r)
    return S("str", uf("re_group", I, STR, I, STR)(o.ref if isinstance(o, Obj) else z3.IntVal(0), raw_term(s), g))


PURE = set()


def pure_native(f):
    import builtins
    if isinstance(f, type):
        return f in (int, str, float, bool, bytes, tuple, list, dict, set, decimal.Decimal, frozenset)
    m = getattr(f, "__module__", None)
    if m in ("builtins", "_hashlib", "math", "base64", "binascii", "operator", "decimal", "re", "_operator"):
        return getattr(f, "__name__", "") not in ("print", "open", "exec", "eval", "input", "setattr", "delattr", "__import__")
    s = getattr(f, "__self__", None)
    if s is not None and isinstance(s, (str, bytes, int, float, tuple, decimal.Decimal, re.Pattern)):
        return True
    return f in PURE


def _bool_compare(op):
    def f(o, x):
        x = resolve(x)
        if kind_of(x) not in ("bool", "int"):
            return NotImplemented
        return sbool(interp.compare(op(), o, x))
    return f


for _n, _o in (("__eq__", interp.ast.Eq), ("__ne__", interp.ast.NotEq), ("__lt__", interp.ast.Lt), ("__le__", interp.ast.LtE),
               ("__gt__", interp.ast.Gt), ("__ge__", interp.ast.GtE)):
    METHODS[("bool", _n)] = _bool_compare(_o)
