"""Python operations on host values."""
import collections
import decimal
import enum
import types
import z3
from .core import *
from .core import I, B, R, STR, F64, V, SORT, PYCLS, MKV, GETV, ISV
from .shapes import uf, attr_shape, ATTRS, Const

RNE = z3.RNE()


def zint(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, S) and x.k == "int":
        return x.t
    if isinstance(x, S) and x.k == "bool":
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if z3.is_expr(x):
        return x
    raise Unsupported(f"not an int: {x!r}")


def strval(s):
    # z3 string literal: escape non-printable
    return z3.StringVal(s)


def fpval(x):
    return z3.FPVal(x, F64)


def resolve(v):
    """Case-split a value of unknown kind."""
    while isinstance(v, A):
        if v.res is not None:
            v = v.res[0]
            continue
        c = ctx()
        t = z3.simplify(v.t)
        kinds = list(v.shape.kinds)
        alts = [ISV[k](t) for k in kinds]
        for rc, _ in v.shape.refs:
            alts.append(z3.And(V.is_ref(t), clsid_f(V.rv(t)) == clsid(rc)))
        j = c.choose(alts)
        if j < len(kinds):
            k = kinds[j]
            res = None if k == "none" else S(k, z3.simplify(GETV[k](t)))
            if k == "none":
                res = None
        else:
            res = v.shape.refs[j - len(kinds)][1].wrap(z3.simplify(V.rv(t)))
        c.set_field(v, "res", (res,))
        return res
    return v


def kind_of(v):
    if isinstance(v, S):
        return v.k
    if v is None:
        return "none"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, enum.Enum):
        return "conc"
    if isinstance(v, int):
        return "int"
    if isinstance(v, str):
        return "str"
    if isinstance(v, float):
        return "flt"
    if isinstance(v, bytes):
        return "bytes"
    if isinstance(v, decimal.Decimal):
        return "dec" if v.is_finite() else "decsp"
    if isinstance(v, Obj):
        return "obj"
    if isinstance(v, tuple):
        return "tuple"
    return "conc"


def dec_to_z3(d):
    n, m = d.as_integer_ratio()
    return z3.RealVal(n) / z3.RealVal(m) if m != 1 else z3.RealVal(n)


def to_term(v, sort):
    """Host value -> z3 term of the given scalar sort; None if wrong kind."""
    if isinstance(v, A):
        v = resolve(v)
    k = kind_of(v)
    if k in ("obj",):
        return v.ref if sort == I else None
    if k == "tuple" and sort in TUPLES.values():
        return tuple_term(v, sort)
    if k == "tuple" and sort == NAMED:
        return named_term(v)
    if k == "tuple" or k == "conc":
        return None
    if k == "none":
        return None
    if SORT[k] != sort:
        return None
    return raw_term(v, k)


def named_term(v):
    if len(v) != 2:
        return None
    a, b = to_term(v[0], STR), resolve(v[1])
    if a is None:
        return None
    if b is None:
        return NAMED.local(a)
    b = to_term(b, STR)
    return None if b is None else z3.simplify(NAMED.qual(a, b))


def tuple_term(v, sort):
    if TUPLES.get(len(v)) != sort:
        return None
    ts = [to_term(x, STR) for x in v]
    return None if any(x is None for x in ts) else z3.simplify(sort.constructor(0)(*ts))


def raw_term(v, k=None):
    k = k or kind_of(v)
    if isinstance(v, S):
        return v.t
    if k == "bool":
        return z3.BoolVal(v)
    if k == "int":
        return z3.IntVal(v)
    if k == "str":
        return strval(v)
    if k == "flt":
        return fpval(v)
    if k == "bytes":
        return strval(v.decode("latin-1"))
    if k == "dec":
        return dec_to_z3(v)
    if k == "decsp":
        return z3.IntVal({"NaN": 0, "sNaN": 3, "Infinity": 1, "-Infinity": 2}.get(
            str(v) if not v.is_nan() else ("sNaN" if v.is_snan() else "NaN"), 0))
    raise Unsupported(f"term of {v!r}")


def to_V(v):
    if isinstance(v, A):
        return v.t if v.res is None else to_V(v.res[0])
    k = kind_of(v)
    if k == "none":
        return V.none
    if k == "obj":
        return V.ref(v.ref)
    if k == "tuple":
        c = ctx()
        r = c.fresh("tupref", I)
        c.fact(uf("len", I, I)(r) == len(v))
        c.fact(r > 0)
        c.fact(clsid_f(r) == clsid(tuple))
        for i, x in enumerate(v):
            c.fact(uf("item", I, I, V)(r, i) == to_V(x))
        return V.ref(r)
    if k == "conc":
        raise Unsupported(f"no V term for {v!r}")
    return MKV[k](raw_term(v, k))


def wrap_scalar(k, t):
    """Host value of a z3 term, made concrete when it is a literal."""
    t = z3.simplify(t)
    if k == "int" and z3.is_int_value(t):
        return t.as_long()
    if k == "bool":
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    if k == "str" and z3.is_string_value(t):
        s = t.as_string()
        if "\\" not in s:
            return s
    return S(k, t)


def sbool(t):
    if isinstance(t, bool):
        return t
    return wrap_scalar("bool", t)


def bool_term(v):
    """z3 Bool of a host bool."""
    if isinstance(v, S) and v.k == "bool":
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    raise Unsupported(f"not a bool: {v!r}")


# ------------------------------------------------------------ truthiness
def truth_term(v):
    """z3 Bool (or python bool) of truth value; may fork on kinds."""
    v = resolve(v)
    if isinstance(v, Poison):
        raise Unsupported("untracked variable: " + v.why)
    if isinstance(v, S):
        if v.k == "bool":
            return v.t
        if v.k == "int":
            return v.t != 0
        if v.k in ("str", "bytes"):
            return z3.Length(v.t) > 0
        if v.k == "dec":
            return v.t != 0
        if v.k == "decsp":
            return True
        if v.k == "flt":
            return z3.Not(z3.fpIsZero(v.t))
    if isinstance(v, Obj):
        if v.cls is not None and not _has_user(v, "__bool__") and not _has_user(v, "__len__"):
            if v.seq is not None:
                return v.seq.n > 0 if isinstance(v.seq.n, int) else v.seq.n > 0
            if v.map is not None:
                return map_nonempty(v.map)
            if not hasattr(v.cls, "__len__") and not hasattr(v.cls, "__bool__"):
                return True
        elif v.cls is None:
            if all(not hasattr(k, "__len__") and not hasattr(k, "__bool__") for k in v.cands):
                return True
        from . import interp
        if _has_user(v, "__bool__"):
            return truth_term(interp.call_method(v, "__bool__", []))
        if _has_user(v, "__len__"):
            return truth_term(interp.call_method(v, "__len__", []))
        raise Unsupported(f"truth of {v!r}")
    if isinstance(v, (Closure, Bound, BuiltinMethod, UFunc, SuperObj)):
        return True
    if isinstance(v, tuple):
        return len(v) > 0
    return bool(v)


def _has_user(o, name):
    for k in (o.cands or [o.cls]):
        for b in k.__mro__:
            if name in b.__dict__ and isinstance(b.__dict__[name], types.FunctionType):
                return True
    return False


def map_nonempty(m):
    if m.base is None:
        if not any(v is Map.DEL for _, v in m.writes):
            return len(m.writes) > 0
        if m.writes and m.writes[-1][1] is not Map.DEL:
            return True
        raise Unsupported("emptiness of map with deletions")
    if m.writes:
        if m.writes[-1][1] is not Map.DEL:
            return True
        ks = m.base.ksh.sort
        k = z3.Const("mk!%d" % ctx().engine.next_id(), ks)
        return z3.Exists([k], map_has_term(m, k, ks))
    return dict_nonempty_base(m.base)


def dict_nonempty_base(b):
    ks = b.ksh.sort
    c = ctx()
    w = c.fresh("wit", ks)
    k = z3.Const("mk!%d" % c.engine.next_id(), ks)
    n = b.n()
    c.fact(z3.Implies(n > 0, b.has_t(w)))
    c.fact(z3.ForAll([k], z3.Implies(b.has_t(k), n > 0)))
    return n > 0


def map_has_term(m, kt, ks):
    """z3 Bool for membership of a z3 key term."""
    from .shapes import key_term
    t = m.base.has_t(kt) if m.base is not None else z3.BoolVal(False)
    for wk, wv in m.writes:
        wt = key_term(wk, ks)
        if wt is None:
            continue
        t = z3.If(kt == wt, z3.BoolVal(wv is not Map.DEL), t)
    return t


def truthy(v):
    t = truth_term(v)
    return t if isinstance(t, bool) else ctx().branch(t)


# ------------------------------------------------------------ equality
NUM = ("int", "bool", "dec", "flt")


def num_eq(a, ka, b, kb):
    if "flt" in (ka, kb):
        if ka == kb:
            return z3.fpEQ(a, b)
        # int/bool/dec vs float: exact comparison of real values
        if ka == "flt":
            a, ka, b, kb = b, kb, a, ka
        if ka != "bool" and exact_fp(a) is not None:
            return z3.fpEQ(exact_fp(a), b)
        x = to_real(a, ka)
        fin = z3.Not(z3.Or(z3.fpIsNaN(b), z3.fpIsInf(b)))
        return z3.And(fin, z3.fpToReal(b) == x)
    if ka == kb == "bool":
        return a == b
    if "dec" in (ka, kb):
        return to_real(a, ka) == to_real(b, kb)
    return to_intt(a, ka) == to_intt(b, kb)


def to_real(t, k):
    if k == "dec":
        return t
    if k == "flt":
        return z3.fpToReal(t)
    return z3.ToReal(to_intt(t, k))


def to_intt(t, k):
    return z3.If(t, z3.IntVal(1), z3.IntVal(0)) if k == "bool" else t


def py_eq(a, b):
    """Python == as z3 Bool or python bool (may fork, may call user __eq__)."""
    if a is b and not isinstance(a, (S, A)):
        if not (isinstance(a, float) and a != a) and not isinstance(a, Obj):
            return True
    if isinstance(a, A) and isinstance(b, A) and a.res is None and b.res is None:
        fast = _any_eq_term(a, b)
        if fast is not None:
            return fast
    if isinstance(a, A) and a.res is None and not isinstance(b, (Obj, tuple, A)):
        r = _any_scalar_eq(a, b)
        if r is not None:
            return r
    if isinstance(b, A) and b.res is None and not isinstance(a, (Obj, tuple, A)):
        r = _any_scalar_eq(b, a)
        if r is not None:
            return r
    a, b = resolve(a), resolve(b)
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("untracked variable: " + (a.why if isinstance(a, Poison) else b.why))
    ka, kb = kind_of(a), kind_of(b)
    if ka == "conc" or kb == "conc":
        if ka == kb == "conc":
            if isinstance(a, (Bound, BuiltinMethod, UFunc, Closure)):
                return a is b
            return bool(a == b)
        o = b if ka == "conc" else a
        c_ = a if ka == "conc" else b
        if isinstance(o, Obj) and isinstance(c_, (list, dict, set)):
            raise Unsupported("comparison with native container")
        return False
    if ka in NUM and kb in NUM:
        if is_concrete(a) and is_concrete(b):
            return a == b
        return num_eq(raw_term(a, ka), ka, raw_term(b, kb), kb)
    if "decsp" in (ka, kb):
        if ka == kb:
            return z3.And(raw_term(a, ka) == raw_term(b, kb), raw_term(a, ka) != 0, raw_term(a, ka) != 3)
        if "flt" in (ka, kb):
            d, f = (a, b) if ka == "decsp" else (b, a)
            d, f = raw_term(d, "decsp"), raw_term(f, "flt")
            return z3.And(z3.fpIsInf(f), d == z3.If(z3.fpIsNegative(f), z3.IntVal(2), z3.IntVal(1)))
        return False
    if ka in ("str", "bytes") and kb == ka:
        if is_concrete(a) and is_concrete(b):
            return a == b
        return raw_term(a, ka) == raw_term(b, kb)
    if ka == "obj" or kb == "obj":
        return obj_eq(a, b)
    if ka == "tuple" and kb == "tuple":
        if len(a) != len(b):
            return False
        return conj([py_eq_t(x, y) for x, y in zip(a, b)])
    if ka != kb:
        return False
    if ka == "none":
        return True
    return False


def py_eq_t(a, b):
    r = py_eq(a, b)
    return r


def conj(ts):
    out = []
    for t in ts:
        if isinstance(t, bool):
            if not t:
                return False
        else:
            out.append(t)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def disj(ts):
    out = []
    for t in ts:
        if isinstance(t, bool):
            if t:
                return True
        else:
            out.append(t)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def neg(t):
    return (not t) if isinstance(t, bool) else z3.Not(t)


def _any_scalar_eq(a, b):
    """A vs scalar: a term without forking."""
    kb = kind_of(b)
    t = a.t
    kinds = a.shape.kinds
    if kb == "conc":
        return None
    if kb == "none":
        return V.is_none(t)
    if kb in ("str", "bytes"):
        return t == MKV[kb](raw_term(b, kb))
    if kb in ("int", "bool") :
        alts = []
        for k in kinds:
            if k in NUM:
                alts.append(z3.And(ISV[k](t), num_eq(GETV[k](t), k, raw_term(b, kb), kb)))
        return z3.Or(*alts) if alts else False
    return None


def _any_eq_term(a, b):
    """A vs A without forking: kind-wise disjunction (no refs of user-eq classes)."""
    ta, tb = a.t, b.t
    alts = []
    for ka in a.shape.kinds:
        for kb in b.shape.kinds:
            if ka in NUM and kb in NUM:
                if (ka == "flt") != (kb == "flt"):
                    return None
                alts.append(z3.And(ISV[ka](ta), ISV[kb](tb), num_eq(GETV[ka](ta), ka, GETV[kb](tb), kb)))
            elif ka == kb:
                if ka == "decsp":
                    alts.append(z3.And(V.is_decsp(ta), ta == tb, V.dk(ta) != 0, V.dk(ta) != 3))
                elif ka == "none":
                    alts.append(z3.And(V.is_none(ta), V.is_none(tb)))
                else:
                    alts.append(z3.And(ISV[ka](ta), ta == tb))
    if a.shape.refs and b.shape.refs:
        e = uf("structeq", I, I, B)
        x = z3.Const("seq!x", I)
        y = z3.Const("seq!y", I)
        c = ctx()
        if "structeq" not in c.memo:
            c.memo["structeq"] = True
            c.fact(z3.ForAll([x], e(x, x)))
            c.fact(z3.ForAll([x, y], e(x, y) == e(y, x)))
        alts.append(z3.And(V.is_ref(ta), V.is_ref(tb), e(V.rv(ta), V.rv(tb))))
    return z3.Or(*alts) if alts else False


def obj_eq(a, b):
    r = rich(a, b, "__eq__", "__eq__")
    if r is not NotImplemented:
        return truth_term(r)
    sa, sb = as_seq(a), as_seq(b)
    if sa is not None and sb is not None:
        ca, cb = seq_cls(a), seq_cls(b)
        if ca is not cb:
            return False
        return seq_eq_term(sa, sb)
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.map is not None and b.map is not None:
            if issubclass(a.base, dict) != issubclass(b.base, dict):
                return False
            return map_eq_term(a.map, b.map, py_eq)
        if a is b:
            return True
        if a.initial and b.initial:
            return a.ref == b.ref
        return False
    return False


def rich(a, b, op, refl):
    """What a comparison method of either operand's own class says, if it has one."""
    for x, y, m in ((a, b, op), (b, a, refl)):
        if isinstance(x, Obj) and _has_user(x, m):
            from . import interp
            r = interp.call_method(x, m, [y])
            if r is not NotImplemented:
                return r
    return NotImplemented


DUNDER = {"<": ("__lt__", "__gt__"), "<=": ("__le__", "__ge__"), ">": ("__gt__", "__lt__"), ">=": ("__ge__", "__le__")}


def as_seq(v):
    if isinstance(v, tuple):
        return Seq.of(v)
    if isinstance(v, Obj) and v.seq is not None:
        return v.seq
    return None


def seq_cls(v):
    if isinstance(v, tuple):
        return tuple
    for k in (tuple, list, collections.deque):
        if issubclass(v.base, k):
            return k
    return v.base


def seq_eq_term(x, y):
    if x.concrete and y.concrete:
        if x.n != y.n:
            return False
        return conj([py_eq(p, q) for p, q in zip(x.elems, y.elems)])
    if x.concrete or y.concrete:
        n = x.n if x.concrete else y.n
        o = y if x.concrete else x
        if not ctx().branch(o.nz() == n):
            return False
        return conj([py_eq(x.get(i), y.get(i)) for i in range(n)])
    n = x.nz()
    i = z3.Int("eqi!%d" % ctx().engine.next_id())
    rng = z3.And(i >= 0, i < n)
    if not ctx().branch(n == y.nz()):
        return False

    def th(c):
        return py_eq(x.get(i), y.get(i))
    ps = summarize(th, bound=[i], rng=rng)
    f = formula_of(ps)
    return z3.ForAll([i], z3.Implies(rng, f))


def formula_of(paths):
    """Or of And(cond, value) over a summary whose outcomes are bools/terms."""
    alts = []
    for p in paths:
        v = p.outcome
        if isinstance(v, bool):
            if v:
                alts.append(p.cond)
        else:
            alts.append(z3.And(p.cond, v))
    return z3.simplify(z3.Or(*alts)) if alts else z3.BoolVal(False)


def map_eq_term(x, y, same=None, sub=False):
    """Equality of mappings as a formula (quantified over keys); sub: y extends x."""
    same = same or globals()["same"]
    ks = None
    for m in (x, y):
        if m.base is not None:
            ks = m.base.ksh.sort
            ksh = m.base.ksh
    if ks is None:
        if x.concrete and y.concrete and not sub:
            return _fin_map_eq(x, y, same)
        if not x.writes and not y.writes:
            return True
        ks, ksh = STR, None
        from .shapes import Str as ksh
    k = z3.Const("meq!%d" % ctx().engine.next_id(), ks)

    def th(c):
        hk = ksh.wrap(k)
        fx, vx = x.lookup(hk)
        fy, vy = y.lookup(hk)
        if sub and not fx:
            return True
        if fx != fy:
            return False
        if not fx:
            return True
        return same(vx, vy)
    ps = summarize(th, bound=[k], rng=z3.BoolVal(True))
    return z3.ForAll([k], formula_of(ps))


def _fin_map_eq(x, y, same):
    if len(x.writes) != len(y.writes):
        return False
    out = []
    for k, v in x.writes:
        f, w = y.lookup(k)
        if not f:
            return False
        out.append(same(v, w))
    return conj(out)


def same(a, b):
    """Semantic sameness used by specifications: same class and equal content.

    Unlike ==, True is not 1; objects are compared by identity unless both are
    (fresh or symbolic) plain containers, which are compared by content.
    """
    if isinstance(a, A) and isinstance(b, A) and a.res is None and b.res is None:
        return a.t == b.t
    if isinstance(a, A) and a.res is None and not isinstance(b, (A, Obj, tuple)) and kind_of(b) != "conc":
        return a.t == to_V(b)
    if isinstance(b, A) and b.res is None and not isinstance(a, (A, Obj, tuple)) and kind_of(a) != "conc":
        return b.t == to_V(a)
    if isinstance(a, A) and a.res is None and isinstance(b, Obj):
        if b.initial:
            return a.t == V.ref(b.ref)
    if isinstance(b, A) and b.res is None and isinstance(a, Obj):
        if a.initial:
            return b.t == V.ref(a.ref)
    a, b = resolve(a), resolve(b)
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a is b:
            return True
        if a.cls is not None and a.cls is b.cls:
            if a.seq is not None and b.seq is not None:
                if a.initial and b.initial and not a.extra.get("dirty") and not b.extra.get("dirty"):
                    if z3.is_true(z3.simplify(a.ref == b.ref)):
                        return True
                return _seq_same(a.seq, b.seq)
            if a.map is not None and b.map is not None:
                return map_eq_term(a.map, b.map)
        if a.initial and b.initial:
            return a.ref == b.ref
        if not a.initial and not b.initial and a.cls is b.cls and a.cls is not None \
                and a.cls.__module__.startswith("yangson"):
            ks = set(a.attrs) | set(b.attrs)
            out = []
            for k in ks:
                if k not in a.attrs or k not in b.attrs:
                    return False
                out.append(same(a.attrs[k], b.attrs[k]))
            return conj(out)
        return False
    if isinstance(a, (Obj, tuple)) and isinstance(b, (Obj, tuple)):
        sa, sb = as_seq(a), as_seq(b)
        if sa is not None and sb is not None and seq_cls(a) is seq_cls(b):
            return _seq_same(sa, sb)
        return False
    ka, kb = kind_of(a), kind_of(b)
    if ka != kb:
        return False
    if ka == "conc":
        return a is b or (type(a) is type(b) and not callable(a) and a == b)
    if ka == "none":
        return True
    if ka == "flt":
        return raw_term(a, ka) == raw_term(b, kb)
    return raw_term(a, ka) == raw_term(b, kb) if not (is_concrete(a) and is_concrete(b)) else a == b


def _seq_same(x, y):
    if x is y:
        return True
    if x.concrete and y.concrete:
        if x.n != y.n:
            return False
        return conj([same(p, q) for p, q in zip(x.elems, y.elems)])
    if x.concrete or y.concrete:
        n = x.n if x.concrete else y.n
        o = y if x.concrete else x
        if not ctx().branch(o.nz() == n):
            return False
        return conj([same(x.get(i), y.get(i)) for i in range(n)])
    n = x.nz()
    if not ctx().branch(n == y.nz()):
        return False
    i = z3.Int("sqi!%d" % ctx().engine.next_id())
    rng = z3.And(i >= 0, i < n)
    ps = summarize(lambda c: same(x.get(i), y.get(i)), bound=[i], rng=rng)
    return z3.ForAll([i], z3.Implies(rng, formula_of(ps)))


def py_eq_bool(a, b):
    t = py_eq(a, b)
    return t if isinstance(t, bool) else ctx().branch(t)


# ------------------------------------------------------------ ordering / arithmetic
def py_lt(a, b, op):
    """op in < <= > >=; returns z3/py bool; raises PyExc(TypeError)."""
    a, b = resolve(a), resolve(b)
    ka, kb = kind_of(a), kind_of(b)
    import operator
    f = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[op]
    if is_concrete(a) and is_concrete(b):
        try:
            return f(a, b)
        except TypeError:
            raise PyExc(TypeError)
        except decimal.InvalidOperation:
            raise PyExc(decimal.InvalidOperation)
    if ka in NUM and kb in NUM:
        x, y = raw_term(a, ka), raw_term(b, kb)
        if "flt" in (ka, kb):
            if ka == kb:
                g = {"<": z3.fpLT, "<=": z3.fpLEQ, ">": z3.fpGT, ">=": z3.fpGEQ}[op]
                return g(x, y)
            fl, other, ok_, flip = (x, y, kb, False) if ka == "flt" else (y, x, ka, True)
            if ok_ != "bool" and exact_fp(other) is not None:
                g = {"<": z3.fpLT, "<=": z3.fpLEQ, ">": z3.fpGT, ">=": z3.fpGEQ}[op]
                x, y = (fl, exact_fp(other)) if ka == "flt" else (exact_fp(other), fl)
                return g(x, y)
            r = to_real(other, ok_)
            fr = z3.fpToReal(fl)
            nan, inf, ng = z3.fpIsNaN(fl), z3.fpIsInf(fl), z3.fpIsNegative(fl)
            # value of fl op r  (or r op fl when flip)
            o = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op] if flip else op
            infres = z3.Not(ng) if o in (">", ">=") else ng
            return z3.And(z3.Not(nan), z3.If(inf, infres, f_apply(o, fr, r)))
        if "dec" in (ka, kb):
            if "bool" not in (ka, kb) and (ctx().memo.get(("exact_fp", getattr(x, "get_id", int)())) or ctx().memo.get(("exact_fp", getattr(y, "get_id", int)()))) \
                    and exact_fp(x) is not None and exact_fp(y) is not None:
                return {"<": z3.fpLT, "<=": z3.fpLEQ, ">": z3.fpGT, ">=": z3.fpGEQ}[op](exact_fp(x), exact_fp(y))
            return f_apply(op, to_real(x, ka), to_real(y, kb))
        return f_apply(op, to_intt(x, ka), to_intt(y, kb))
    if "decsp" in (ka, kb) and ka in NUM + ("decsp",) and kb in NUM + ("decsp",):
        # NaN ordering signals InvalidOperation; infinities order as expected
        nan = disj([z3.Or(raw_term(v, k) == 0, raw_term(v, k) == 3)
                    for v, k in ((a, ka), (b, kb)) if k == "decsp"])
        if ctx().branch(nan):
            raise PyExc(decimal.InvalidOperation)

        def rank(v, k):
            if k == "decsp":
                return z3.If(raw_term(v, k) == 1, z3.IntVal(1), z3.IntVal(-1))
            return z3.IntVal(0)
        if ka in ("decsp",) or kb in ("decsp",):
            return f_apply(op, rank(a, ka), rank(b, kb))
    if ka == kb and ka in ("str", "bytes"):
        x, y = raw_term(a, ka), raw_term(b, kb)
        return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: y < x, ">=": lambda: y <= x}[op]()
    if ka == kb == "tuple":
        return tuple_lt(a, b, op)
    if isinstance(a, Obj) or isinstance(b, Obj):
        r = rich(a, b, *DUNDER[op])
        if r is not NotImplemented:
            return truth_term(r)
        raise Unsupported("ordering of objects")
    raise PyExc(TypeError)


def tuple_lt(a, b, op):
    strict = op[0]
    for x, y in zip(a, b):
        if not py_eq_bool(x, y):
            return py_lt(x, y, strict)
    n, m = len(a), len(b)
    return {"<": n < m, "<=": n <= m, ">": n > m, ">=": n >= m}[op]


def f_apply(op, x, y):
    return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]()


def exact_fp(t):
    """The float an int or decimal term came from exactly, if it did."""
    if isinstance(t, (bool, int)) and abs(t) < 2 ** 53:
        return fpval(float(t))
    if not z3.is_expr(t):
        return None
    if z3.is_int_value(t):
        return exact_fp(t.as_long())
    if z3.is_rational_value(t) and t.denominator_as_long() == 1:
        return exact_fp(t.numerator_as_long())
    e = ctx().memo.get(("exact_fp", t.get_id()))
    return e[0] if e else None


def came_from(t, f):
    ctx().memo[("exact_fp", t.get_id())] = (f, t)
    return t


def to_fp(v):
    v = resolve(v)
    k = kind_of(v)
    if isinstance(v, S) and k == "int" and exact_fp(v.t) is not None:
        return exact_fp(v.t)
    if k == "flt":
        return raw_term(v, k)
    if k in ("int", "bool"):
        if is_concrete(v):
            return fpval(float(v))
        return z3.fpRealToFP(RNE, z3.ToReal(to_intt(raw_term(v, k), k)), F64)
    raise Unsupported("float of " + k)


def arith(op, a, b):
    from . import interp
    a, b = resolve(a), resolve(b)
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("untracked variable")
    ka, kb = kind_of(a), kind_of(b)
    if is_concrete(a) and is_concrete(b) and ka != "conc" and kb != "conc":
        try:
            return interp.NATIVE_BIN[op](a, b)
        except Exception as e:
            raise PyExc(type(e), e.args)
    if ka in NUM and kb in NUM:
        if "flt" in (ka, kb):
            if "dec" in (ka, kb):
                raise PyExc(TypeError)
            x, y = to_fp(a), to_fp(b)
            if op == "+":
                return S("flt", z3.fpAdd(RNE, x, y))
            if op == "-":
                return S("flt", z3.fpSub(RNE, x, y))
            if op == "*":
                return S("flt", z3.fpMul(RNE, x, y))
            if op == "/":
                if ctx().branch(z3.fpIsZero(y)):
                    raise PyExc(ZeroDivisionError)
                return S("flt", z3.fpDiv(RNE, x, y))
            if op == "%":
                if ctx().branch(z3.fpIsZero(y)):
                    raise PyExc(ZeroDivisionError)
                return S("flt", uf("pyfmod", F64, F64, F64)(x, y))
            raise Unsupported("float " + op)
        if "dec" in (ka, kb):
            x, y = to_real(raw_term(a, ka), ka), to_real(raw_term(b, kb), kb)
            if op == "+":
                return S("dec", x + y)
            if op == "-":
                return S("dec", x - y)
            if op == "*":
                return S("dec", x * y)
            raise Unsupported("decimal " + op)
        x, y = to_intt(raw_term(a, ka), ka), to_intt(raw_term(b, kb), kb)
        if op == "+":
            return wrap_scalar("int", x + y)
        if op == "-":
            return wrap_scalar("int", x - y)
        if op == "*":
            return wrap_scalar("int", x * y)
        if op in ("//", "%"):
            if ctx().branch(y == 0):
                raise PyExc(ZeroDivisionError)
            # Python floor division; z3 div/mod are Euclidean
            q = z3.If(y > 0, x / y, z3.If(x % y == 0, x / y, x / y - 1))
            q = z3.If(y > 0, x / y, (-x) / (-y))
            return wrap_scalar("int", q if op == "//" else x - y * q)
        if op == "&":
            if ka == kb == "bool":
                return wrap_scalar("bool", z3.And(raw_term(a, ka), raw_term(b, kb)))
            return wrap_scalar("int", uf("bitand", I, I, I)(x, y))
        if op == "|":
            if ka == kb == "bool":
                return wrap_scalar("bool", z3.Or(raw_term(a, ka), raw_term(b, kb)))
            return wrap_scalar("int", uf("bitor", I, I, I)(x, y))
        if op == "<<":
            return wrap_scalar("int", x * uf("pow2", I, I)(y))
        if op == "/":
            if ctx().branch(y == 0):
                raise PyExc(ZeroDivisionError)
            return S("flt", z3.fpRealToFP(RNE, z3.ToReal(x) / z3.ToReal(y), F64))
        raise Unsupported("int " + op)
    if op == "+" and ka == kb and ka in ("str", "bytes"):
        return wrap_scalar(ka, z3.Concat(raw_term(a, ka), raw_term(b, kb)))
    if op == "*" and ka == "str" and kb == "int":
        return S("str", uf("strrep", STR, I, STR)(raw_term(a), raw_term(b)))
    sa, sb = as_seq(a), as_seq(b)
    if op == "+" and sa is not None and sb is not None:
        if seq_cls(a) is not seq_cls(b):
            raise PyExc(TypeError)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        o = Obj(seq_cls(a))
        o.seq = sa.concat(sb)
        return o
    if isinstance(a, Obj) and isinstance(b, Obj) and a.map is not None and b.map is not None \
            and op in ("|", "&", "-"):
        from .models import set_op
        return set_op(op, a, b)
    if isinstance(a, Obj) or isinstance(b, Obj):
        d = {"+": "__add__", "-": "__sub__", "*": "__mul__", "|": "__or__", "&": "__and__",
             "%": "__mod__", "/": "__truediv__"}.get(op)
        if isinstance(a, Obj) and d and _has_user(a, d):
            return interp.call_method(a, d, [b])
    if op == "%" and ka == "str":
        return S("str", ctx().fresh("strfmt", STR))
    if ka in ("none", "str", "bytes", "tuple") or kb in ("none", "str", "bytes", "tuple") \
            or "dec" in (ka, kb):
        raise PyExc(TypeError)
    raise Unsupported(f"{ka} {op} {kb}")


# ------------------------------------------------------------ str()
def py_str(v):
    v = resolve(v)
    if isinstance(v, S):
        if v.k == "str":
            return v
        if v.k == "int":
            c = ctx()
            t = uf("str_int", I, STR)(v.t)
            if z3.is_int_value(z3.simplify(v.t)):
                return str(z3.simplify(v.t).as_long())
            return S("str", str_int_term(v.t))
        if v.k == "bool":
            return S("str", z3.If(v.t, strval("True"), strval("False")))
        return S("str", uf("str_" + v.k, SORT[v.k], STR)(v.t))
    if isinstance(v, Obj):
        if _has_user(v, "__str__"):
            from . import interp
            return interp.call_method(v, "__str__", [])
        return S("str", uf("str_ref", I, STR)(v.ref))
    if isinstance(v, tuple) and not is_concrete(v):
        return S("str", ctx().fresh("str_tuple", STR))
    if isinstance(v, (Bound, Closure, UFunc)):
        return S("str", ctx().fresh("str_fn", STR))
    return str(v)


def str_int_term(t):
    return z3.If(t >= 0, z3.IntToStr(t), z3.Concat(strval("-"), z3.IntToStr(-t)))


def pair_term(v):
    return tuple_term(v, TUPLES[2])
