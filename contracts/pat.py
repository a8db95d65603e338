"""Schema patterns as languages over finite bags of member names (C05, C06).

L(p, ct, B): the bag B of members is one of the sets pattern p denotes for content type ct
  Empty {0}; NotAllowed {}; EmptyConfig {0} for config, {} otherwise; inactive Member or
  Conditional {0}; active Member {{name}}; Alternative L(p) | L(q); active ChoicePattern
  (L(p) | L(q)) - {0}, inactive {0}; Pair { B1 + B2 | B1 in L(p), B2 in L(q) }.
"""
from .dt import *
from pyvc import interp
from yangson import schpattern as SP
from yangson.xpathast import Expr
from yangson.enumerations import ContentType

BAG = z3.DeclareSort("Bag")
emp = z3.Const("bag.emp", BAG)
add = z3.Function("bag.add", BAG, STR, BAG)
sum_ = z3.Function("bag.sum", BAG, BAG, BAG)
isin = z3.Function("bag.in", STR, BAG, B)
# the two ways to split sum(b1,b2) == add(b,x)
rem = z3.Function("bag.rem", BAG, STR, BAG)

wit = z3.Function("bag.some", BAG, STR)

b_, b1_, b2_ = z3.Consts("b! b1! b2!", BAG)
x_, y_ = z3.Consts("x! y!", STR)
BAG_AXIOMS = [
    z3.ForAll([b_, x_], add(b_, x_) != emp),
    z3.ForAll([b_, x_], rem(add(b_, x_), x_) == b_),
    z3.ForAll([b_, x_], z3.Implies(isin(x_, b_), add(rem(b_, x_), x_) == b_), patterns=[isin(x_, b_)]),
    z3.ForAll([x_], z3.Not(isin(x_, emp))),
    z3.ForAll([b_, x_, y_], isin(y_, add(b_, x_)) == z3.Or(y_ == x_, isin(y_, b_)), patterns=[isin(y_, add(b_, x_))]),
    z3.ForAll([b_, x_], isin(x_, add(b_, x_)), patterns=[add(b_, x_)]),
    z3.ForAll([b_], z3.Implies(b_ != emp, isin(wit(b_), b_)), patterns=[wit(b_)]),
    z3.ForAll([b_], sum_(b_, emp) == b_),
    z3.ForAll([b_], sum_(emp, b_) == b_),
    z3.ForAll([b1_, b2_], sum_(b1_, b2_) == sum_(b2_, b1_), patterns=[sum_(b1_, b2_)]),
    z3.ForAll([b1_, b2_, x_], sum_(add(b1_, x_), b2_) == add(sum_(b1_, b2_), x_),
              patterns=[sum_(add(b1_, x_), b2_), z3.MultiPattern(add(b1_, x_), sum_(b1_, b2_))]),
    z3.ForAll([b1_, b2_], (sum_(b1_, b2_) == emp) == z3.And(b1_ == emp, b2_ == emp), patterns=[sum_(b1_, b2_)]),
    z3.ForAll([b1_, b2_, x_], isin(x_, sum_(b1_, b2_)) == z3.Or(isin(x_, b1_), isin(x_, b2_)),
              patterns=[isin(x_, sum_(b1_, b2_))]),
]


def bag_model():
    """The axioms hold of finite multisets, represented as arrays of counts."""
    ARRS = z3.ArraySort(STR, I)
    out = []
    a, b = z3.Const("a", ARRS), z3.Const("b", ARRS)
    x, y = z3.Consts("mx my", STR)
    ad = lambda m, k: z3.Store(m, k, z3.Select(m, k) + 1)
    rm = lambda m, k: z3.Store(m, k, z3.Select(m, k) - 1)
    zero = z3.K(STR, z3.IntVal(0))
    has = lambda k, m: z3.Select(m, k) > 0
    k = z3.Const("mk", STR)
    nn = lambda m, *ks: [z3.Select(m, q) >= 0 for q in ks]
    sel = z3.Select
    # sum is represented by a fresh array s with s[k] == a[k] + b[k] at the instances needed
    s, t = z3.Consts("ms mt", ARRS)
    is_sum = lambda r, m, n, *ks: [sel(r, q) == sel(m, q) + sel(n, q) for q in ks]
    out.append(("add is not empty", [sel(a, x) >= 0], z3.Not(sel(ad(a, x), x) == sel(zero, x))))
    out.append(("rem undoes add", [], rm(ad(a, x), x) == a))
    out.append(("add undoes rem", [has(x, a)], ad(rm(a, x), x) == a))
    out.append(("membership of add", nn(a, x, y), has(y, ad(a, x)) == z3.Or(y == x, has(y, a))))
    out.append(("sum with empty", is_sum(s, a, zero, k), sel(s, k) == sel(a, k)))
    out.append(("sum commutes", is_sum(s, a, b, k) + is_sum(t, b, a, k), sel(s, k) == sel(t, k)))
    out.append(("sum of add", is_sum(s, ad(a, x), b, k, x) + is_sum(t, a, b, k, x), sel(s, k) == sel(ad(t, x), k)))
    out.append(("empty sum", is_sum(s, a, b, k) + nn(a, k) + nn(b, k),
                (sel(s, k) == 0) == z3.And(sel(a, k) == 0, sel(b, k) == 0)))
    out.append(("membership of sum", is_sum(s, a, b, x) + nn(a, x) + nn(b, x), has(x, s) == z3.Or(has(x, a), has(x, b))))
    return out


PATS = (SP.Empty, SP.EmptyConfig, SP.NotAllowed, SP.ConditionalPattern, SP.Member, SP.Alternative,
        SP.ChoicePattern, SP.Pair)
PAT = ObjS(*PATS)
EXPR = ObjS(Expr)
attrs(SP.ConditionalPattern, pattern=PAT)
attrs(SP.Conditional, when=Opt(EXPR), _val_when=Opt(Bool))
attrs(SP.Typeable, ctype=EnumS(ContentType))
attrs(SP.Member, name=Str, ctype=EnumS(ContentType), when=Opt(EXPR), _val_when=Opt(Bool))
attrs(SP.Alternative, left=PAT, right=PAT)
attrs(SP.Pair, left=PAT, right=PAT)
CT = EnumS(ContentType)
Lf = z3.Function("L", I, I, BAG, B)
names_ref = z3.Function("mandnames", I, I, I)
memb_ref = z3.Function("membnames", I, I, I)


def ctv(ct):
    return z3.IntVal(ct.value)


def L(o, ct, b):
    """Membership of bag term b in the language of pattern object o (one level unfolded)."""
    if isinstance(o, Obj) and o.cls is not None and (not o.initial or o.extra.get("unfold")):
        return L1(o, ct, b)
    return Lf(o.ref, ctv(ct), b)


def attr(o, n):
    return ops.resolve(interp.getattr_(o, n))


def bit(x):
    return bool(x)


def active_cond(o):
    """when is absent or true (z3 formula or bool)."""
    if attr(o, "when") is None:
        return True
    v = attr(o, "_val_when")
    return False if v is None else ops.truth_term(v)


def L1(o, ct, b):
    k = o.cls
    if k is SP.Empty:
        return b == emp
    if k is SP.NotAllowed:
        return z3.BoolVal(False)
    if k is SP.EmptyConfig:
        return b == emp if ct == ContentType.config else z3.BoolVal(False)
    if k is SP.ConditionalPattern:
        a = zb(active_cond(o))
        return z3.If(a, L(attr(o, "pattern"), ct, b), b == emp)
    if k is SP.Member:
        on = attr(o, "ctype").value & ct.value != 0
        a = z3.And(zb(active_cond(o)), z3.BoolVal(on))
        return z3.If(a, b == add(emp, ops.raw_term(attr(o, "name"))), b == emp)
    if k is SP.ChoicePattern:
        if attr(o, "ctype").value & ct.value == 0:
            return b == emp
        return z3.And(b != emp, z3.Or(L(attr(o, "left"), ct, b), L(attr(o, "right"), ct, b)))
    if k is SP.Alternative:
        return z3.Or(L(attr(o, "left"), ct, b), L(attr(o, "right"), ct, b))
    if k is SP.Pair:
        p, q = z3.Consts("p!%d q!%d" % ((ctx().engine.next_id(),) * 2), BAG)
        return z3.Exists([p, q], z3.And(sum_(p, q) == b, L(attr(o, "left"), ct, p), L(attr(o, "right"), ct, q)))
    raise Unsupported("pattern class " + k.__name__)


Wf = z3.Function("whole", I, B)            # NotAllowed is not part of the pattern


def NA(r):
    return clsid_f(r) == clsid(SP.NotAllowed)


def W(o):
    """No part of the pattern is NotAllowed, except a branch of a choice (one level unfolded, like L)."""
    if isinstance(o, Obj) and o.cls is not None and (not o.initial or o.extra.get("unfold")):
        if o.cls is SP.NotAllowed:
            return z3.BoolVal(False)
        if o.cls is SP.ConditionalPattern:
            return W(attr(o, "pattern"))
        if o.cls is SP.ChoicePattern:
            return z3.And(*[z3.Or(W(x), is_na(x)) for x in (attr(o, "left"), attr(o, "right"))])
        if issubclass(o.cls, (SP.Alternative, SP.Pair)):
            return z3.And(W(attr(o, "left")), W(attr(o, "right")))
        return z3.BoolVal(True)
    return z3.And(Wf(o.ref), z3.Not(NA(o.ref)))


def is_na(o):
    return z3.BoolVal(o.cls is SP.NotAllowed) if o.cls is not None else NA(o.ref)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def a_nullable(c, o, a, kw):
    return S("bool", Lf(o.ref, ctv(ops.resolve(a[0])), emp))


def a_deriv(c, o, a, kw):
    x, ct = ops.raw_term(ops.resolve(a[0])), ops.resolve(a[1])
    d = uf("deriv", I, STR, I, I)(o.ref, x, ctv(ct))
    b = z3.Const("db!", BAG)
    c.fact(z3.ForAll([b], Lf(d, ctv(ct), b) == Lf(o.ref, ctv(ct), add(b, x)), patterns=[Lf(d, ctv(ct), b)]))
    c.fact(z3.ForAll([b], Lf(d, ctv(ct), b) == Lf(o.ref, ctv(ct), add(b, x)), patterns=[Lf(o.ref, ctv(ct), add(b, x))]))
    c.fact(z3.Implies(Wf(o.ref), z3.Or(Wf(d), NA(d))))
    c.fact(z3.Implies(NA(o.ref), NA(d)))
    return PAT.wrap(d)


def a_empty(c, o, a, kw):
    e = uf("isempty", I, B)(o.ref)
    b = z3.Const("eb!", BAG)
    for ct in ContentType:
        c.fact(z3.Implies(e, z3.ForAll([b], Lf(o.ref, ctv(ct), b) == (b == emp), patterns=[Lf(o.ref, ctv(ct), b)])))
    return S("bool", e)


NAMES = ListS(Str)


def list_hits(lst, b):
    """Some name of the list occurs in the bag."""
    return seq_hits(lst.seq, b)


def seq_hits(seq, b):
    if getattr(seq, "parts", None):
        return z3.Or(*[seq_hits(p, b) for p in seq.parts])
    if seq.concrete:
        return z3.Or(*[isin(ops.raw_term(x), b) for x in seq.elems]) if seq.elems else z3.BoolVal(False)
    i = z3.Int("lh!%d" % ctx().engine.next_id())
    ps = summarize(lambda cc: isin(ops.raw_term(ops.resolve(seq.get(i))), b), bound=[i],
                   rng=z3.And(i >= 0, i < seq.nz()))
    return z3.Exists([i], z3.And(i >= 0, i < seq.nz(), ops.formula_of(ps)))


def a_mand(c, o, a, kw):
    """None, or names one of which every denoted set contains."""
    ct = ops.resolve(a[0])
    r = names_ref(o.ref, ctv(ct))
    if c.branch(r > 0):
        n = NAMES.wrap(r)
        b = z3.Const("mb!", BAG)
        c.fact(z3.ForAll([b], z3.Implies(Lf(o.ref, ctv(ct), b), list_hits(n, b)), patterns=[Lf(o.ref, ctv(ct), b)]))
        return n
    c.fact(z3.Implies(z3.And(Wf(o.ref), z3.Not(NA(o.ref))), Lf(o.ref, ctv(ct), emp)))
    return None


def a_members(c, o, a, kw):
    """Names covering every member of every denoted set."""
    ct = ops.resolve(a[0])
    r = memb_ref(o.ref, ctv(ct))
    n = NAMES.wrap(r)
    b, x = z3.Const("mb!", BAG), z3.Const("mx!", STR)
    i = z3.Int("mi!")
    el = ops.raw_term(ops.resolve(n.seq.get(i)))
    at = z3.Function("memb_at", I, STR, I)
    c.fact(z3.ForAll([b, x], z3.Implies(z3.And(Lf(o.ref, ctv(ct), b), isin(x, b)),
                                        z3.And(at(r, x) >= 0, at(r, x) < n.seq.nz(),
                                               z3.substitute(el, (i, at(r, x))) == x)),
                     patterns=[z3.MultiPattern(Lf(o.ref, ctv(ct), b), isin(x, b))]))
    return n


def register():
    AbstractContract(SP.SchemaPattern, "nullable", a_nullable)
    AbstractContract(SP.SchemaPattern, "deriv", a_deriv)
    AbstractContract(SP.SchemaPattern, "empty", a_empty)
    AbstractContract(SP.SchemaPattern, "_mandatory_members", a_mand)
    AbstractContract(SP.SchemaPattern, "_members", a_members)


def use_combine(kind):
    """Contract of Alternative.combine / Pair.combine at call sites."""
    def use(c, fn, args, kw):
        _, p, q = args
        d = uf("combine_" + kind, I, I, I)(p.ref, q.ref)
        b, b1, b2 = z3.Consts("ub! ub1! ub2!", BAG)
        for ct in ContentType:
            lp, lq = Lf(p.ref, ctv(ct), b), Lf(q.ref, ctv(ct), b)
            if p.cls is not None and not p.initial or q.cls is not None and not q.initial:
                lp, lq = L(p, ct, b), L(q, ct, b)
            if kind == "alt":
                c.fact(z3.ForAll([b], Lf(d, ctv(ct), b) == z3.Or(lp, lq), patterns=[Lf(d, ctv(ct), b)]))
            else:
                u1 = z3.Function("split1!%s" % c.engine.next_id(), BAG, BAG)
                u2 = z3.Function("split2!%s" % c.engine.next_id(), BAG, BAG)
                sp = lambda x, y: z3.And(L(p, ct, x), L(q, ct, y))
                c.fact(z3.ForAll([b], z3.Implies(Lf(d, ctv(ct), b), z3.And(sum_(u1(b), u2(b)) == b, sp(u1(b), u2(b)))),
                                 patterns=[Lf(d, ctv(ct), b)]))
                c.fact(z3.ForAll([b1, b2], z3.Implies(sp(b1, b2), Lf(d, ctv(ct), sum_(b1, b2))),
                                 patterns=[sum_(b1, b2)]))
        wp, wq = W(p), W(q)
        whole = z3.And(Wf(d), z3.Not(NA(d)))
        if kind == "alt":
            c.fact(z3.Implies(z3.And(z3.Or(wp, is_na(p)), z3.Or(wq, is_na(q))),
                              z3.If(z3.And(is_na(p), is_na(q)), NA(d), whole)))
        else:
            c.fact(z3.Implies(z3.And(z3.Or(wp, is_na(p)), z3.Or(wq, is_na(q))),
                              z3.If(z3.Or(is_na(p), is_na(q)), NA(d), whole)))
        return PAT.wrap(d)
    return use


def prelude(c):
    for a in BAG_AXIOMS:
        c.fact(a)
    r = z3.Int("pr!")
    b = z3.Const("pb!", BAG)
    for ct in ContentType:
        c.fact(z3.ForAll([r, b], z3.Implies(clsid_f(r) == clsid(SP.NotAllowed), z3.Not(Lf(r, ctv(ct), b))),
                         patterns=[Lf(r, ctv(ct), b)]))
