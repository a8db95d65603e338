"""C12: identity derivation is the transitive closure of base statements, and asking changes nothing."""
from .yang import *
from .inst import ex, all_of, zb, get, run
from pyvc.inv import LoopInv
from yangson.schemadata import IdentityAdjacency

P = ("C12",)
QN = PairS()
NAMES = SetS(QN)
ADJ = ObjS(IdentityAdjacency)
attrs(IdentityAdjacency, bases=NAMES, derivs=NAMES)
attrs(SchemaData, identity_adjs=DictS(QN, ADJ))
S_ = "yangson.schemadata:SchemaData."


def member(s, x):
    """x: a term of sort PAIR."""
    return ops.map_has_term(s.map, x, PAIR)


def reach(which):
    """The least relation closed under the adjacency sets, through its defining equation."""
    return uf("reach_" + which, PAIR, PAIR, B)


def adj(self, i):
    """Adjacency of a name: (present, object)."""
    return get(self, "identity_adjs").map.lookup(i)


def unfolded(c, self, which, i, x):
    """i reaches x: directly or through a name next to i."""
    f, a = adj(self, i)
    if not c.branch(zb(f)):
        return z3.BoolVal(False)
    nxt = get(ops.resolve(a), which)
    m = z3.Const("via!%d" % c.engine.next_id(), PAIR)
    return z3.Or(zb(member(nxt, x)), z3.Exists([m], z3.And(zb(member(nxt, m)), reach(which)(m, x))))


def use_derived(c, fn, args, kw):
    return S("bool", reach("bases")(ops.pair_term(args[1]), ops.pair_term(args[2])))


def ens_derived(c, args, out, old):
    self, i, b = args
    if out.kind != "ret":
        return []
    return [("exactly when a chain of bases leads there", ops.truth_term(out.value) == unfolded(c, self, "bases", i, ops.pair_term(b)))]


Contract(S_ + "is_derived_from", [SD, QN, QN], ensures=ens_derived, use=use_derived, recursive=True, props=P)


def use_derived_from(c, fn, args, kw):
    """A new set: what the name reaches through derivs."""
    i = ops.pair_term(args[1])
    t = uf("derived_set", PAIR, I)(i)
    x = z3.Const("dx!%d" % c.engine.next_id(), PAIR)
    s = NAMES.wrap(t)
    c.fact(z3.ForAll([x], member(s, x) == reach("derivs")(i, x), patterns=[member(s, x)]))
    return interp.call(interp.getattr_(s, "copy"), [], {})


def is_new_set(r):
    return isinstance(r, Obj) and r.base is set and not r.initial


def ens_derived_from(c, args, out, old):
    self, i = args
    if out.kind != "ret":
        return []
    r = ops.resolve(out.value)
    if not is_new_set(r):
        return [("a new set", False)]
    x = c.fresh("x", PAIR)
    return [("exactly the identities a chain leads to", member(r, x) == unfolded(c, self, "derivs", i, x))]


def new_set(c, v):
    return interp.call(interp.getattr_(NAMES.make("names_%d" % c.engine.next_id()), "copy"), [], {})


def grows(c, v, visited, ki):
    """The result holds what was there and what the visited names reach."""
    x, m = (z3.Const("%s!%d" % (n, c.engine.next_id()), PAIR) for n in "xm")
    now, before = ops.resolve(v.res), ops.resolve(v.pre["res"])
    return [("what has been gathered", z3.ForAll([x], member(now, x) == z3.Or(
        zb(member(before, x)), z3.Exists([m], z3.And(visited(m), reach("derivs")(m, x))))))]


def shrinks(c, v, i, seq):
    """The result holds what all names so far reach."""
    x = z3.Const("x!%d" % c.engine.next_id(), PAIR)
    now, before = ops.resolve(v.res), ops.resolve(v.pre["res"])
    return [("what is left", z3.ForAll([x], member(now, x) == z3.And(zb(member(before, x)), all_of(
        i + 1, lambda j: reach("derivs")(ops.pair_term(v.identities.seq.get(j)), x), lo=1))))]


Contract(S_ + "derived_from", [SD, QN], ensures=ens_derived_from, use=use_derived_from, recursive=True, props=P,
         loops=[LoopInv({"res": new_set}, grows)])


def ens_all(c, args, out, old):
    self, ids = args
    if out.kind != "ret":
        return []
    r = ops.resolve(out.value)
    if not is_new_set(r):
        return [("a new set", False)]
    x = c.fresh("x", PAIR)
    n = ids.seq.nz()
    every = all_of(n, lambda j: reach("derivs")(ops.pair_term(ids.seq.get(j)), x))
    return [("exactly the identities derived from all of them", member(r, x) == z3.And(n > 0, every))]


Contract(S_ + "derived_from_all", [SD, ListS(QN)], ensures=ens_all, props=P, loops=[LoopInv({"res": new_set}, shrinks)])


# ---------------------------------------------------------------- where the adjacency comes from
from yangson import schemanode as SNM


def bases_use(c, fn, args, kw):
    """Base statements of the identity under contract: a list of the stated length."""
    n = (args[0].shape or {}).get("nbase")
    if n is None or args[1] != "base":
        return find_all_use(c, fn, args, kw)
    return ListS(STMT, fixed=n.v).wrap(uf("find_all", I, V, V, I)(args[0].ref, key_of("base"), key_of(None)))


use("yangson.statement:Statement.find_all", bases_use)
use("yangson.schemadata:SchemaData.if_features", if_features_use)
qn_of = lambda c, fn, a, kw: QN.wrap(uf("translated", I, STR, I, PAIR)(a[0].ref, ops.raw_term(ops.resolve(a[1])), a[2].ref))
use(S_ + "translate_pname", qn_of)
use(S_ + "namespace", lambda c, fn, a, kw: S("str", uf("namespace", I, I, STR)(a[0].ref, a[1].ref)))


def holds(self, which, i, x):
    """x is in the set of i (which must be a registered name)."""
    f, a = get(self, "identity_adjs").map.lookup((S("str", PAIR.one(i)), S("str", PAIR.two(i))))
    return zb(member(get(ops.resolve(a), which), x)) if f else z3.BoolVal(False)


def names_of(c, stmt, sctx):
    """The identity itself and its bases."""
    sd, mid = get(sctx, "schema_data"), get(sctx, "text_mid")
    me = (get(stmt, "argument"), S("str", uf("namespace", I, I, STR)(sd.ref, mid.ref)))
    bs = bases_use(c, None, [stmt, "base"], {})
    return me, [qn_of(c, None, [sd, get(b, "argument"), mid], {}) for b in bs.seq.elems]


def pick_pair(c, self, stmt, sctx):
    """Any two names, the first one split by cases: the identity, one of its bases, any other."""
    sd = get(sctx, "schema_data")
    me, bs = names_of(c, stmt, sctx)
    x, y = c.fresh("x", PAIR), c.fresh("y", PAIR)
    for n in [me] + bs:
        if c.branch(x == ops.pair_term(n)):
            x = ops.pair_term(n)
            break
    return x, y, holds(sd, "bases", x, y), holds(sd, "derivs", x, y)


def own_adjacency(c, self, stmt, sctx):
    """Representation invariant: adjacencies and their sets are not shared."""
    sd = get(sctx, "schema_data")
    me, bs = names_of(c, stmt, sctx)
    c.assume(z3.Distinct(*[ops.pair_term(n) for n in [me] + bs]))        # no identity is its own base (RFC 7950, 7.18.2)
    d = get(sd, "identity_adjs")
    p, q = z3.Const("ap!%d" % c.engine.next_id(), PAIR), z3.Const("aq!%d" % c.engine.next_id(), PAIR)
    val = uf("dget", I, PAIR, I)
    b, e = (uf("attr.IdentityAdjacency." + w, I, I) for w in ("bases", "derivs"))
    o1, o2 = val(d.ref, p), val(d.ref, q)
    c.fact(z3.ForAll([p, q], z3.Implies(o1 == o2, p == q), patterns=[z3.MultiPattern(o1, o2)]))
    a1, a2 = z3.Int("ao!%d" % c.engine.next_id()), z3.Int("ap!%d" % c.engine.next_id())
    for f in (b, e):
        c.fact(z3.ForAll([a1, a2], z3.Implies(f(a1) == f(a2), a1 == a2), patterns=[z3.MultiPattern(f(a1), f(a2))]))
    c.fact(z3.ForAll([a1, a2], b(a1) != e(a2), patterns=[z3.MultiPattern(b(a1), e(a2))]))


def ens_identity(k):
    def ens(c, args, out, old):
        self, stmt, sctx = args
        if out.kind != "ret":
            return []
        sd, mid = get(sctx, "schema_data"), get(sctx, "text_mid")
        x, y, b0, d0 = old
        b1, d1 = holds(sd, "bases", x, y), holds(sd, "derivs", x, y)
        if not c.branch(ops.truth_term(if_features_use(c, None, [sd, stmt, mid], {}))):
            return [("no change without the features", z3.And(b0 == b1, d0 == d1))]
        me, names = names_of(c, stmt, sctx)
        f, _ = adj(sd, me)
        me, names = ops.pair_term(me), [ops.pair_term(n) for n in names]
        named = lambda t: z3.Or(*[t == n for n in names]) if names else z3.BoolVal(False)
        return [("its bases are added", b1 == z3.Or(b0, z3.And(x == me, named(y)))),
                ("it is added to the derived ones of its bases", d1 == z3.Or(d0, z3.And(y == me, named(x)))),
                ("the identity is registered", f)]
    return ens


def the_graph(args, o, what):
    """Only the adjacency dictionary and the sets in it may be written."""
    d = get(get(args[2], "schema_data"), "identity_adjs")
    nm = o.ref.decl().name() if z3.is_app(o.ref) else ""
    return what == "content" and (o is d or nm.startswith(("attr.IdentityAdjacency.bases", "attr.IdentityAdjacency.derivs")))


for k in (0, 1, 2):
    Contract("yangson.schemanode:InternalNode._identity_stmt", [ObjS(SNM.SchemaTreeNode), ObjS(Statement, attrs={"nbase": Const(k)}), SCTX], requires=own_adjacency,
             ensures=ens_identity(k), old=pick_pair, modifies=[the_graph], props=P, variant=f"{k} bases",
             bounded="up to 2 base statements")
