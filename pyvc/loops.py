"""Loop and comprehension rules.

for-loops over a sequence of unknown length are handled without user
invariants when every fall-through iteration leaves the loop-carried state
unchanged ("stateless": the facts of previous iterations are exactly "each fell
through"), or changes it in one of the recognised ways (append one element per
iteration, append under a condition, add to a set).  Everything else needs an
invariant from the sidecar contract, or is undecided (Unsupported).
"""
import ast
import types
import z3
from .absfp import abstracted
from .core import *
from .core import I, B, R, STR, V
from .ops import *
from . import interp
from .interp import (Return, Break, Continue, block, ev, assign, Frame, UNBOUND, new_list)
from .shapes import uf


def assigned_names(nodes):
    out = []
    todo = list(nodes)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.append(n.id)
        elif isinstance(n, (ast.FunctionDef,)):
            out.append(n.name)
            continue
        elif isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            continue
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.append(n.name)
        todo.extend(ast.iter_child_nodes(n))
    return list(dict.fromkeys(out))


def run_iter(body, fr):
    """Run a loop body once; return outcome kind."""
    try:
        block(body, fr)
        return Outcome("fall")
    except Continue:
        return Outcome("fall")
    except Break:
        return Outcome("break")
    except Return as r:
        return Outcome("ret", r.v)
    except PyExc as e:
        return Outcome("exc", e)


def exec_for(s, fr):
    from .models import iter_seq, IterSeq
    itv = ev(s.iter, fr)
    itv = resolve(itv)
    seq = iter_seq(itv)
    if isinstance(seq, KeyIter):
        return for_keys(s, seq, fr)
    if seq.concrete:
        for x in seq.elems:
            assign(s.target, x, fr)
            try:
                block(s.body, fr)
            except Break:
                return
            except Continue:
                pass
        block(s.orelse, fr)
        return
    symbolic_for(s, seq, fr)


class KeyIter:
    """Iteration over the keys of a symbolic mapping/set (order irrelevant)."""

    def __init__(self, m, what="keys"):
        self.m, self.what = m, what
        self.ksh = m.base.ksh
        self.concrete = False

    def item(self, kt):
        k = self.ksh.wrap(kt)
        if self.what == "keys":
            return k
        f, v = self.m.lookup(k)
        if not f:
            raise Infeasible()
        return v if self.what == "values" else (k, v)


class LoopSummary:
    pass


class Comp:
    """A scalar carried from one iteration to the next (name or attribute).

    Its value at the start of iteration t is st(t), st a fresh function: st(0) is
    the value before the loop and st(t+1) what iteration t leaves (see Fold)."""

    def __init__(self, c, what, init):
        self.what, self.init = what, resolve(init)
        self.kinds = {self.kind(self.init)}
        self.bound = list(c.bound)
        self.nid = c.engine.next_id()
        self.fs = {}

    @staticmethod
    def kind(v):
        k = kind_of(v)
        if k not in SORT and k != "none":
            raise Unsupported("loop carries a value of kind " + k)
        return k

    @property
    def sort(self):
        if len(self.kinds) > 1:
            return V
        k = next(iter(self.kinds))
        return None if k == "none" else SORT[k]

    def term(self, t):
        key = tuple(sorted(self.kinds))
        if key not in self.fs:
            self.fs[key] = (z3.Function("st!%d!%s" % (self.nid, "_".join(key)),
                                        *[b.sort() for b in self.bound], I, self.sort), AnyV_(key))
        f, sh = self.fs[key]
        return f(*self.bound, t)

    def at(self, t):
        if self.sort is None:
            return None
        x = self.term(t)
        if self.sort == V:
            return self.fs[tuple(sorted(self.kinds))][1].wrap(x)
        return wrap_scalar(next(iter(self.kinds)), x)

    def enc(self, v):
        if self.sort == V:
            return to_V(v)
        return raw_term(v)

    def put(self, fr, v):
        if isinstance(self.what, str):
            fr.set(self.what, v)
        else:
            interp.setattr_(self.what[0], self.what[1], v)

    def read(self, fr):
        if isinstance(self.what, str):
            return fr.env.get(self.what, UNBOUND)
        return interp.getattr_(self.what[0], self.what[1])


def AnyV_(kinds):
    from .shapes import AnyV
    return AnyV(kinds)


def put_state(fr, comps, t):
    for k in comps:
        k.put(fr, k.at(t))


class Fold:
    """The recursion st(t+1) = T(t) of a loop's carried values; two loops over the
    same range with equal start and provably equal step have equal states (induction)."""

    def __init__(self, c, comps, ps, i, n, rng, fallf):
        self.comps, self.i, self.n, self.rng, self.fallf = comps, i, n, rng, fallf
        self.bound = [b.get_id() for b in c.bound]
        self.T = []
        for a, k in enumerate(comps):
            if k.sort is None:
                self.T.append(None)
                continue
            t = k.term(i)
            for p in ps:
                if p.outcome[0].kind == "fall":
                    t = z3.If(p.cond, k.enc(p.outcome[4][a]), t)
            self.T.append(t)
            c.fact(k.term(z3.IntVal(0)) == k.enc(k.init))
        self.keep = [k for k in comps if k.sort is not None]
        self.T = [t for t in self.T if t is not None]
        self.share(c)

    def step(self, t):
        return z3.And(*[k.term(t + 1) == z3.substitute(T, (self.i, t)) for k, T in zip(self.keep, self.T)])

    def share(self, c):
        import itertools
        reg = c.memo.get("folds", ())
        self.w = None
        for old in reg:
            if len(old.keep) != len(self.keep) or old.bound != self.bound:
                continue
            s = z3.Solver()
            s.set("timeout", 4000)
            s.add(c.all_assumptions())
            if old.n is None or self.n is None:
                if old.n is not self.n:
                    continue
            elif not old.n.eq(self.n):
                s.push()
                s.add(old.n != self.n)
                r = s.check()
                s.pop()
                if r != z3.unsat:
                    continue
            for perm in itertools.islice(itertools.permutations(range(len(self.keep))), 24):
                ks = [old.keep[j] for j in perm]
                Ts = [old.T[j] for j in perm]
                if any(a.sort != b.sort for a, b in zip(self.keep, ks)):
                    continue
                j = self.i
                Ts = [z3.substitute(t, (old.i, j)) for t in Ts]
                goal = [a.enc(a.init) == b.enc(b.init) for a, b in zip(self.keep, ks)]
                hyp = z3.And(self.rng, *[a.term(j) == b.term(j) for a, b in zip(self.keep, ks)])
                goal.append(z3.Implies(hyp, z3.And(*[a == b for a, b in zip(self.T, Ts)])))
                s.push()
                s.add(z3.Not(z3.And(*goal)))
                r = s.check()
                s.pop()
                if r != z3.unsat:
                    continue
                q = z3.Int("fq!%d" % c.engine.next_id())
                for a, b in zip(self.keep, ks):
                    c.fact(z3.ForAll([q], a.term(q) == b.term(q), patterns=[a.term(q)]))
                s.push()
                s.add(hyp)
                s.add(z3.substitute(old.fallf, (old.i, j)) != self.fallf)
                if s.check() == z3.unsat:
                    self.w = old.w
                    self.old = old
                s.pop()
                c.memo["folds"] = reg + (self,)
                return
        c.memo["folds"] = reg + (self,)


def summarise_body(s, fr, mk_item, bound, rng, carried, accs, comps=()):
    """Run the body for an arbitrary iteration; returns list of SubPath with
    outcome (kind, env snapshot of carried names, appended elements per acc)."""
    def th(c):
        env = dict(fr.env)
        f2 = Frame(env, fr.globs, fr.owner, fr.fn, fr.parent_env)
        for nm, ph in carried.items():
            env[nm] = ph
        marks = []
        for o, field, ph in accs:
            c.set_field(o, field, ph)
        put_state(f2, comps, bound[0])
        w0 = len(c.writes)
        if mk_item is None:
            out = run_while_iter(s, f2)
        else:
            assign(s.target, mk_item(), f2)
            out = run_iter(s.body, f2)
        st = {nm: f2.env.get(nm, UNBOUND) for nm in carried}
        deltas = [(getattr(o, field)) for o, field, ph in accs]
        ws = [w for w in c.writes[w0:]]
        end = [resolve(k.read(f2)) for k in comps] if out.kind == "fall" else None
        return (out, st, deltas, ws, end)
    return summarize(th, bound=bound, rng=rng)


def host_same(a, b):
    if a is b:
        return True
    if isinstance(a, S) and isinstance(b, S) and a.k == b.k:
        return z3.is_true(z3.simplify(a.t == b.t)) or a.t.eq(b.t)
    if isinstance(a, A) and isinstance(b, A):
        return a.t.eq(b.t)
    if interp.is_concrete(a) and interp.is_concrete(b):
        return type(a) is type(b) and a == b
    return False


class Carrier(Exception):
    pass


def symbolic_for(s, seq, fr):
    c = ctx()
    n = seq.nz()
    names = assigned_names(s.body)
    tnames = set(assigned_names([s.target]))
    carried0 = {nm: fr.env[nm] for nm in names if nm in fr.env and nm not in tnames
                and fr.env[nm] is not UNBOUND and not isinstance(fr.env[nm], Poison)}
    i = z3.Int("it!%d" % c.engine.next_id())
    rng = z3.And(i >= 0, i < n)
    inv = c.engine.loop_contract(fr, s)
    if inv is not None:
        return inv.run(s, seq, fr, c)
    generic_for(s, fr, c, names, tnames, carried0, i, rng,
                lambda: seq.get(i), lambda t: seq.get(t),
                z3.And(i >= 0, i < n), n)


def for_keys(s, ki, fr):
    c = ctx()
    names = assigned_names(s.body)
    tnames = set(assigned_names([s.target]))
    carried0 = {nm: fr.env[nm] for nm in names if nm in fr.env and nm not in tnames
                and fr.env[nm] is not UNBOUND and not isinstance(fr.env[nm], Poison)}
    inv = c.engine.loop_contract(fr, s)
    if inv is not None:
        return inv.run_keys(s, ki, fr, c)
    ks = ki.ksh.sort
    k = z3.Const("ik!%d" % c.engine.next_id(), ks)
    rng = map_has_term(ki.m, k, ks)
    generic_for(s, fr, c, names, tnames, carried0, k, rng,
                lambda: ki.item(k), lambda t: ki.item(t), rng, None)


def generic_for(s, fr, c, names, tnames, carried0, i, rng, item, item_at, rng_, n):
    # 1. which pre-existing containers does the body mutate?  what is carried over?
    accs = []
    carried = dict(carried0)
    comps = []
    mark = next(Obj._n)
    for attempt in range(12):
        ps = summarise_body(s, fr, item, [i], rng, carried, accs, comps)
        changed = False
        acc_objs = [o for o, _, _ in accs]
        for p in ps:
            out, st, deltas, ws, end = p.outcome
            for (o, what) in ws:
                if not (o.initial or _ref_num(o) < mark):
                    continue
                if what == "content":
                    if any(o is q for q in acc_objs):
                        continue
                    field = "seq" if o.seq is not None else "map"
                    if field == "seq":
                        ph = Seq(c.fresh("acc_n", I), lambda j: (_ for _ in ()).throw(
                            Unsupported("reads accumulator")))
                        ph.placeholder = True
                    else:
                        ph = Map(_NoBase() if n is not None or item is None else _AtKey(o.map, i))
                    accs.append((o, field, ph))
                    acc_objs.append(o)
                    changed = True
                elif out.kind == "fall":
                    if any(not isinstance(k.what, str) and k.what[0] is o and k.what[1] == what for k in comps):
                        continue
                    comps.append(Comp(c, (o, what), interp.getattr_(o, what)))
                    changed = True
            if out.kind != "fall":
                continue
            for nm, v0 in list(carried.items()):
                if not host_same(st.get(nm, UNBOUND), v0):
                    del carried[nm]
                    if v0 is UNBOUND or isinstance(v0, Poison):
                        raise Unsupported("loop carries an unbound name")
                    comps.append(Comp(c, nm, v0))
                    changed = True
            for k, v in zip(comps, end or ()):
                if v is UNBOUND:
                    raise Unsupported("loop deletes a name")
                if k.kind(v) not in k.kinds:
                    k.kinds.add(k.kind(v))
                    changed = True
        if not changed:
            break
    else:
        raise Unsupported("loop state does not settle")
    if comps and n is None and item is not None:
        raise Unsupported("order-dependent loop over an unordered collection")
    falls = [p for p in ps if p.outcome[0].kind == "fall"]
    fallf = z3.simplify(z3.Or(*[p.cond for p in falls])) if falls else z3.BoolVal(False)
    fold = Fold(c, comps, ps, i, n, rng, fallf) if comps else None
    local = [nm for nm in list(names) + list(tnames) if nm not in carried0]
    if item is None:
        return while_exit(s, fr, c, accs, comps, fold, i, fallf, local)
    if accs:
        return accum_for(s, fr, c, ps, falls, accs, carried, i, rng, item_at, n, local, comps)

    def done():
        if comps:
            put_state(fr, comps, n)
            c.fact(z3.Implies(n > 0, fold.step(n - 1)))
        for nm in local:
            fr.set(nm, Poison("loop variable " + nm))
        block(s.orelse, fr)
    # 3. stateless rule
    all_fall = z3.ForAll([i], z3.Implies(rng, fallf))
    exits = [p for p in ps if p.outcome[0].kind != "fall"]
    if not exits:
        return done()
    # concrete witness of the first exiting iteration
    if c.branch(z3.Not(all_fall)):
        w = first_exit(c, fold, i, fallf, rng, n)
        put_state(fr, comps, w)
        assign(s.target, item_at(w), fr)
        out = run_iter(s.body, fr)
        if out.kind == "fall":
            raise Infeasible()
        if out.kind == "break":
            return
        if out.kind == "ret":
            raise Return(out.value)
        raise out.value
    done()


def first_exit(c, fold, i, fallf, rng, n):
    if fold is not None and fold.w is not None:
        w = fold.w
    else:
        w = c.fresh("first", i.sort())
        if fold is not None:
            fold.w = w
            if getattr(fold, "old", None) is not None:
                fold.old.w = w
    c.assume(z3.substitute(z3.And(rng, z3.Not(fallf)), (i, w)))
    if n is not None:
        j = z3.Int("pj!%d" % c.engine.next_id())
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w), z3.substitute(fallf, (i, j)))))
    return w


def run_while_iter(s, f2):
    try:
        if not truthy(ev(s.test, f2)):
            return Outcome("stop")
    except PyExc as e:
        return Outcome("exc", e)
    return run_iter(s.body, f2)


def while_exit(s, fr, c, accs, comps, fold, i, fallf, local):
    """Partial correctness: some iteration w is the first that does not fall through."""
    if accs:
        raise Unsupported("while loop that fills a container")
    if fold is None:
        raise Unsupported("while loop without carried state")
    c.engine.partial = True
    w = first_exit(c, fold, i, fallf, i >= 0, w_n)
    put_state(fr, comps, w)
    c.fact(z3.Implies(w > 0, fold.step(w - 1)))
    out = run_while_iter(s, fr)
    if out.kind == "fall":
        raise Infeasible()
    if out.kind == "stop":
        for nm in local:
            fr.set(nm, Poison("loop variable " + nm))
        return block(s.orelse, fr)
    if out.kind == "break":
        return
    if out.kind == "ret":
        raise Return(out.value)
    raise out.value


w_n = object()


class _NoBase:
    class ksh:
        sort = STR

    def has(self, k):
        raise Unsupported("reads accumulator")


class _AtKey:
    """A mapping during a loop over distinct keys: at the iteration's own key, as before the loop."""

    def __init__(self, old, i):
        self.old, self.i = old, i
        self.ksh = old.base.ksh if old.base is not None else None
        if self.ksh is None:
            from .shapes import Str
            self.ksh = Str

    def has(self, k):
        from .shapes import key_term
        t = key_term(k, self.ksh.sort)
        if t is None or not z3.simplify(t).eq(self.i):
            raise Unsupported("reads accumulator at another key")
        return map_has_term(self.old, t, self.ksh.sort)

    def get(self, k):
        return self.old.lookup(k)[1]

    def n(self):
        raise Unsupported("reads accumulator size")


def _ref_num(o):
    try:
        return -o.ref.as_long()
    except Exception:
        return 0


def accum_for(s, fr, c, ps, falls, accs, carried, i, rng, item_at, n, local, comps=()):
    exits = [p for p in ps if p.outcome[0].kind != "fall"]
    breaks = any(p.outcome[0].kind == "break" for p in exits)
    if n is None and any(p.outcome[0].kind in ("break", "ret") for p in exits):
        raise Unsupported("accumulating loop with early exit")
    if exits:
        fallf = z3.simplify(z3.Or(*[p.cond for p in falls])) if falls else z3.BoolVal(False)
        all_fall = z3.ForAll([i], z3.Implies(rng, fallf))
        if c.branch(z3.Not(all_fall)):
            w = c.fresh("first", i.sort())
            c.assume(z3.substitute(z3.And(rng, z3.Not(fallf)), (i, w)))
            j = z3.Int("pj!%d" % c.engine.next_id())
            if n is not None:
                c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w), z3.substitute(fallf, (i, j)))))
            if breaks:              # the containers hold what the iterations before w added
                rw = z3.And(i >= 0, i < w)
                for a, (o, field, ph) in enumerate(accs):
                    old = getattr(o, field)
                    if field == "seq":
                        interp.mutate(o, seq=old.concat(accum_seq(s, fr, c, falls, accs, a, carried, i, rw, item_at, w, comps)))
                    else:
                        interp.mutate(o, map=accum_map(s, fr, c, falls, accs, a, carried, i, rw, item_at, w, old, comps))
                put_state(fr, comps, w)
                assign(s.target, item_at(w), fr)
                out = run_iter(s.body, fr)
                if out.kind == "fall":
                    raise Infeasible()
                if out.kind == "break":
                    return
                if out.kind == "ret":
                    raise Return(out.value)
                raise out.value
            put_state(fr, comps, w)
            assign(s.target, item_at(w), fr)
            for o, field, ph in accs:
                c.set_field(o, field, ph)
            out = run_iter(s.body, fr)
            if out.kind in ("exc", "ret"):
                # content of a half-filled container is unknown (reading it is undecided)
                for o, field, ph in accs:
                    if field == "seq":
                        interp.mutate(o, seq=Seq(c.fresh("half_n", I), lambda j: (_ for _ in ()).throw(
                            Unsupported("reads a half-filled container"))))
                    else:
                        interp.mutate(o, map=Map(_NoBase()))
                if out.kind == "ret":
                    raise Return(out.value)
                raise out.value
            raise Infeasible()
    if n is None:
        return accum_keys(s, fr, c, ps, falls, accs, carried, i, rng, item_at, local)
    for a, (o, field, ph) in enumerate(accs):
        old = getattr(o, field)
        if field == "seq":
            newseq = accum_seq(s, fr, c, falls, accs, a, carried, i, rng, item_at, n, comps)
            interp.mutate(o, seq=old.concat(newseq))
        else:
            newmap = accum_map(s, fr, c, falls, accs, a, carried, i, rng, item_at, n, old, comps)
            interp.mutate(o, map=newmap)
    put_state(fr, comps, n)
    for nm in local:
        fr.set(nm, Poison("loop variable " + nm))
    block(s.orelse, fr)


def _appended(delta, ph):
    """Elements appended to placeholder sequence ph, or None."""
    parts = getattr(delta, "appended_to", None)
    if delta is ph:
        return []
    if parts and parts[0] is ph:
        return parts[1]
    return None


def accum_seq(s, fr, c, falls, accs, a, carried, i, rng, item_at, n, comps=()):
    ph = accs[a][2]
    ones, zeros = [], []
    for p in falls:
        el = _appended(p.outcome[2][a], ph)
        if el is None:
            raise Unsupported("loop changes a list other than by appending")
        if len(el) == 1:
            ones.append(p)
        elif len(el) == 0:
            zeros.append(p)
        else:
            raise Unsupported("loop appends several elements")
    env0 = dict(fr.env)

    def elem(t):
        env = dict(env0)
        f2 = Frame(env, fr.globs, fr.owner, fr.fn, fr.parent_env)
        cc = ctx()
        saved = [(o, field, getattr(o, field)) for o, field, _ in accs]
        w0 = len(cc.writes)
        for o, field, phx in accs:
            cc.set_field(o, field, phx)
        old = [(k, k.read(f2)) for k in comps if not isinstance(k.what, str)]
        put_state(f2, comps, t)
        try:
            assign(s.target, item_at(t), f2)
            out = run_iter(s.body, f2)
            if out.kind != "fall":
                raise Infeasible()
            el = _appended(accs[a][0].seq, ph)
            if not el:
                raise Infeasible()
            return el[0]
        finally:
            for o, field, v in saved:
                cc.set_field(o, field, v)
            for k, v in old:
                k.put(f2, v)
            del cc.writes[w0:]          # the re-run is a view of an element, not an effect
    elem = snapshot(elem)
    if not zeros:
        return Seq(n, elem)
    if not ones:
        return Seq.of([])
    cond = z3.simplify(z3.Or(*[p.cond for p in ones]))
    return filter_seq(c, n, i, cond, elem)


_SHAPES = {}


def shape_key(t):
    """Number of a term up to the names of bound variables and the order of and, or, =."""
    seen = {}

    def go(t):
        k = t.get_id()
        if k in seen:
            return seen[k]
        if z3.is_quantifier(t):
            key = ("q", t.is_forall(), tuple(str(t.var_sort(j)) for j in range(t.num_vars())), go(t.body()))
        elif z3.is_var(t):
            key = ("v", z3.get_var_index(t), str(t.sort()))
        else:
            d = t.decl()
            args = tuple(go(x) for x in t.children())
            if d.kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ):
                args = tuple(sorted(args))
            key = ("a", d.get_id(), t.get_id() if t.num_args() == 0 else 0, args)
            _keep.append(t)
        r = _SHAPES.setdefault(key, len(_SHAPES))
        seen[k] = r
        return r
    return go(t)


_keep = []          # terms whose ids are in use as keys stay alive


def filter_source(q):
    """The sequence a filtered one was taken from, and its condition by position."""
    f = getattr(q, "filter_of", None)
    if f is None:
        return None
    n, i, cond, elem = f
    return Seq(n, elem), (lambda t: z3.substitute(cond, (i, t)))


def same_filter(c, key, n, i, cond):
    """Conditions that are provably equivalent on the same range select the same items."""
    for k2, n2, i2, cond2, nb in reversed(c.memo.get("filters", ())):
        if nb or c.bound:
            continue
        j = c.fresh("same", I)
        nz = lambda x: z3.IntVal(x) if isinstance(x, int) else x
        s = z3.Solver()
        fs = list(c.decisions) + c.guarded_facts() + [z3.Not(z3.And(nz(n) == nz(n2), z3.Implies(
            z3.And(j >= 0, j < nz(n)), z3.substitute(cond, (i, j)) == z3.substitute(cond2, (i2, j)))))]
        flat = abstracted(fs)
        s.add(*(fs if flat is None else flat))
        s.set("timeout", 3000)
        if s.check() == z3.unsat:
            c.memo[key] = c.memo[k2]
            return


def filter_seq(c, n, i, cond, elem):
    """Subsequence of 0..n-1 on which cond holds, mapped by elem."""
    key = ("filter", n.get_id() if z3.is_expr(n) else n, shape_key(z3.substitute(cond, (i, z3.Int("canon!i")))))
    if key not in c.memo and c.memo.get("share filters"):
        same_filter(c, key, n, i, cond)
    if key in c.memo:
        m, g, h = c.memo[key]
    else:
        m = c.fresh("flt_n", I)
        q = c.engine.next_id()
        nb = [b.sort() for b in c.bound]
        gf = z3.Function(f"flt_ix!{q}", *nb, I, I)
        hf = z3.Function(f"flt_inv!{q}", *nb, I, I)
        g = lambda t: gf(*c.bound, t)
        h = lambda t: hf(*c.bound, t)
        k, l, j = z3.Int(f"fk!{q}"), z3.Int(f"fl!{q}"), z3.Int(f"fj!{q}")
        nz_ = z3.IntVal(n) if isinstance(n, int) else n
        c.fact(z3.And(m >= 0, m <= nz_))
        c.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.And(
            g(k) >= 0, g(k) < nz_, z3.substitute(cond, (i, g(k))), h(g(k)) == k)),
            patterns=[g(k)]))
        c.fact(z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k < l, l < m), g(k) < g(l)),
                         patterns=[z3.MultiPattern(g(k), g(l))]))
        c.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nz_, z3.substitute(cond, (i, j))),
                                         z3.And(h(j) >= 0, h(j) < m, g(h(j)) == j)),
                         patterns=[h(j)]))
        # trigger-free instance: existence
        c.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nz_, z3.substitute(cond, (i, j))), m > 0)))
        c.memo[key] = (m, g, h)
        if c.memo.get("share filters"):
            c.memo.setdefault("filters", []).append((key, n, i, cond, len(c.bound)))

    def get(t):
        cc = ctx()
        ix = g(t)
        cc.fact(z3.Implies(z3.And(t >= 0, t < m), z3.And(ix >= 0, ix < (z3.IntVal(n) if isinstance(n, int) else n),
                                                         z3.substitute(cond, (i, ix)))))
        return elem(ix)
    r = Seq(m, get)
    r.filter_of = (n, i, cond, elem)

    def covers(t):
        """Item number t of the unfiltered sequence, if it passes, is among these (an instance of the facts)."""
        nz_ = z3.IntVal(n) if isinstance(n, int) else n
        hh = h(t)
        ctx().fact(z3.Implies(z3.And(t >= 0, t < nz_, z3.substitute(cond, (i, t))), z3.And(hh >= 0, hh < m, g(hh) == t)))
    r.covers = covers
    return r


class CompBase:
    """Mapping/set content defined by a formula over key terms."""

    def __init__(self, ksh, has_t, get=None, n=None):
        self.ksh, self._has, self._get, self._n = ksh, has_t, get, n
        self.vsh = None

    def has_t(self, kt):
        return self._has(kt)

    def has(self, k):
        from .shapes import key_term
        kt = key_term(k, self.ksh.sort)
        return z3.BoolVal(False) if kt is None else self._has(kt)

    def get(self, k):
        if self._get is None:
            return True
        return self._get(k)

    def n(self):
        c = ctx()
        if self._n is None:
            self._n = c.fresh("card", I)
            c.fact(self._n >= 0)
        return self._n


def _writes_on(m, ph):
    if m is ph:
        return []
    if m.base is ph.base:
        return list(m.writes[len(ph.writes):])
    return None


def accum_map(s, fr, c, falls, accs, a, carried, i, rng, item_at, n, old, comps=()):
    """Loop adds keys to a set (values True) or writes one entry per iteration."""
    ph = accs[a][2]
    obj = accs[a][0]
    alts = []
    from .shapes import key_term, Str as _Str, AnyV
    ksh = old.base.ksh if old.base is not None else None
    samples = []
    for p in falls:
        w = _writes_on(p.outcome[2][a], ph)
        if w is None or any(v is Map.DEL for _, v in w):
            raise Unsupported("loop updates a mapping in an unsupported way")
        for k, v in w:
            samples.append((p.cond, k, v))
    if not samples:
        return old
    if ksh is None:
        k0 = samples[0][1]
        ksh = _Str if kind_of(k0) == "str" else None
        if ksh is None:
            raise Unsupported("mapping accumulator with non-string keys")
    isset = issubclass(obj.base, (set, frozenset)) or all(v is True for _, _, v in samples)
    if not isset:
        return accum_dict(s, fr, c, falls, accs, a, i, rng, item_at, n, old, comps, ksh)
    terms = [(cond, key_term(k, ksh.sort)) for cond, k, _ in samples]

    def has_t(kt):
        oldh = map_has_term(old, kt, ksh.sort) if (old.base is not None or old.writes) else z3.BoolVal(False)
        ex = z3.Exists([i], z3.And(rng, z3.Or(*[z3.And(cond, kt == t) for cond, t in terms])))
        return z3.Or(oldh, ex)
    return Map(CompBase(ksh, has_t))


def accum_dict(s, fr, c, falls, accs, a, i, rng, item_at, n, old, comps, ksh):
    """d[k(i)] = v(i) on some iterations: at key k, the value of the last iteration writing k."""
    from .shapes import key_term
    o, field, ph = accs[a]
    if n is None:
        raise Unsupported("dictionary filled from an unordered iteration")
    cs, kt = [], None
    for p in falls:
        w = _writes_on(p.outcome[2][a], ph)
        if len(w) > 1:
            raise Unsupported("loop writes several entries per iteration")
        if w:
            t = key_term(w[0][0], ksh.sort)
            if t is None:
                raise Unsupported("key kind")
            cs.append(p.cond)
            kt = t if kt is None else z3.If(p.cond, t, kt)
    cond = z3.simplify(z3.Or(*cs))
    at = lambda f, t: z3.substitute(f, (i, t))
    # share the "last writer" with an equal earlier loop
    last = None
    for (n0, b0, i0, c0, k0, l0) in c.memo.get("lasts", ()):
        if b0 != [b.get_id() for b in c.bound] or not n0.eq(n) or k0.sort() != kt.sort():
            continue
        sv = z3.Solver()
        sv.set("timeout", 4000)
        sv.add(c.all_assumptions())
        c1, k1 = at_(c0, i0, i), at_(k0, i0, i)
        sv.add(rng, z3.Or(c1 != cond, z3.And(cond, k1 != kt)))
        if sv.check() == z3.unsat:
            last = l0
            break
    if last is None:
        lf = z3.Function("last!%d" % c.engine.next_id(), *[b.sort() for b in c.bound], ksh.sort, I)
        bnd = list(c.bound)
        last = lambda k: lf(*bnd, k)
        x = z3.Const("lk!%d" % c.engine.next_id(), ksh.sort)
        j = z3.Int("lj!%d" % c.engine.next_id())
        c.fact(z3.ForAll([x], z3.And(last(x) >= -1, last(x) < n), patterns=[last(x)]))
        c.fact(z3.ForAll([x], z3.Implies(last(x) >= 0, z3.And(at(cond, last(x)), at(kt, last(x)) == x)),
                         patterns=[last(x)]))
        c.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, at(cond, j)), last(at(kt, j)) >= j)))
        c.memo["lasts"] = c.memo.get("lasts", ()) + ((n, [b.get_id() for b in c.bound], i, cond, kt, last),)
    oldw = old

    def has_t(k):
        oldh = map_has_term(oldw, k, ksh.sort) if (oldw.base is not None or oldw.writes) else z3.BoolVal(False)
        return z3.Or(oldh, last(k) >= 0)

    def get(k):
        kt_ = key_term(k, ksh.sort)
        cc = ctx()
        if not cc.branch(last(kt_) >= 0):
            f, v = oldw.lookup(k)
            if not f:
                raise Infeasible()
            return v
        t = last(kt_)
        env = dict(fr0)
        f2 = Frame(env, fr.globs, fr.owner, fr.fn, fr.parent_env)
        saved = [(o_, fl, getattr(o_, fl)) for o_, fl, _ in accs]
        w0 = len(cc.writes)
        for o_, fl, phx in accs:
            cc.set_field(o_, fl, phx)
        prev = [(k_, k_.read(f2)) for k_ in comps if not isinstance(k_.what, str)]
        put_state(f2, comps, t)
        try:
            assign(s.target, item_at(t), f2)
            out = run_iter(s.body, f2)
            w = _writes_on(o.map, ph) if out.kind == "fall" else None
            if not w:
                raise Infeasible()
            return w[0][1]
        finally:
            for o_, fl, v in saved:
                cc.set_field(o_, fl, v)
            for k_, v in prev:
                k_.put(f2, v)
            del cc.writes[w0:]
    fr0 = dict(fr.env)
    return Map(CompBase(ksh, has_t, snapshot(get)))


def at_(f, i, t):
    return z3.substitute(f, (i, t))


def pointwise(s, fr, c, ps, falls, accs, a, i, rng, item_at, old):
    """Loop over distinct keys writing or deleting only the entry of its own key."""
    from .shapes import key_term
    o, field, ph = accs[a]
    if not isinstance(ph.base, _AtKey) or ph.base.ksh.sort != i.sort():
        return None
    sets, dels = [], []
    for p in falls:
        w = _writes_on(p.outcome[2][a], ph)
        if w is None:
            return None
        for k, v in w:
            t = key_term(k, i.sort())
            if t is None or not z3.simplify(t).eq(i):
                return None
        if w:
            (dels if w[-1][1] is Map.DEL else sets).append(p.cond)
    setf = z3.And(rng, z3.Or(*sets)) if sets else z3.BoolVal(False)
    delf = z3.And(rng, z3.Or(*dels)) if dels else z3.BoolVal(False)
    env0 = dict(fr.env)
    at = lambda f, k: z3.substitute(f, (i, k))
    sort = i.sort()

    def has_t(k):
        return z3.Or(at(setf, k), z3.And(map_has_term(old, k, sort), z3.Not(at(delf, k))))

    def get(k):
        t = key_term(k, sort)
        cc = ctx()
        if not sets or not cc.branch(at(setf, t)):
            f, v = old.lookup(k)
            if not f:
                raise Infeasible()
            return v
        f2 = Frame(dict(env0), fr.globs, fr.owner, fr.fn, fr.parent_env)
        saved = [(q, fl, getattr(q, fl)) for q, fl, _ in accs]
        w0 = len(cc.writes)
        for q, fl, phx in accs:
            cc.set_field(q, fl, Map(_AtKey(phx.base.old, t)) if isinstance(getattr(phx, "base", None), _AtKey) else phx)
        m0 = o.map
        try:
            assign(s.target, item_at(t), f2)
            out = run_iter(s.body, f2)
            w = _writes_on(o.map, m0) if out.kind == "fall" else None
            if not w:
                raise Infeasible()
            return w[-1][1]
        finally:
            for q, fl, v in saved:
                cc.set_field(q, fl, v)
            del cc.writes[w0:]
    return Map(CompBase(ph.base.ksh, has_t, snapshot(get)))


def accum_keys(s, fr, c, ps, falls, accs, carried, i, rng, item_at, local):
    for a, (o, field, ph) in enumerate(accs):
        if field == "map":
            old = o.map
            pw = pointwise(s, fr, c, ps, falls, accs, a, i, rng, item_at, old)
            if pw is not None:
                interp.mutate(o, map=pw)
                continue
            interp.mutate(o, map=accum_map(s, fr, c, falls, accs, a, carried, i, rng, item_at, None, old))
        else:
            raise Unsupported("list built from an unordered iteration")
    for nm in local:
        fr.set(nm, Poison("loop variable " + nm))
    block(s.orelse, fr)


def exec_while(s, fr):
    c = ctx()
    inv = c.engine.loop_contract(fr, s)
    if inv is not None:
        return inv.run_while(s, fr, c)
    if isinstance(s.test, ast.Constant) and s.test.value:
        return while_rule(s, fr, c)
    for k in range(40):
        # concrete iterations are executed; from the first undetermined test on, the loop rule
        mark = len(c.decisions), len(c.writes)
        t = truth_term(ev(s.test, fr))
        if not isinstance(t, bool):
            if c.check(t) == z3.unsat:
                t = False
            elif c.check(z3.Not(t)) == z3.unsat:
                t = True
            else:
                return while_rule(s, fr, c)
        if not t:
            block(s.orelse, fr)
            return
        try:
            block(s.body, fr)
        except Break:
            return
        except Continue:
            pass
    return while_rule(s, fr, c)


def while_rule(s, fr, c):
    names = assigned_names(s.body + [s.test])
    carried0 = {nm: fr.env[nm] for nm in names if nm in fr.env and fr.env[nm] is not UNBOUND}
    i = z3.Int("wi!%d" % c.engine.next_id())
    generic_for(s, fr, c, names, set(), carried0, i, i >= 0, None, None, i >= 0, None)


# ------------------------------------------------------------ comprehensions
def comp_seq(gens, elt, fr):
    from .models import iter_seq
    env = dict(fr.env)
    if len(gens) == 1:
        g = gens[0]
        seq = iter_seq(resolve(ev(g.iter, fr)))
        if isinstance(seq, KeyIter):
            if seq.what != "keys" or seq.m.writes:
                raise Unsupported("list comprehension over an unordered collection")
            from .models import keys_as_seq
            seq = keys_as_seq(seq)
        if seq.concrete:
            out = []
            f2 = Frame(env, fr.globs, fr.owner, fr.fn, fr.parent_env)
            for x in seq.elems:
                assign(g.target, x, f2)
                if all(truthy(ev(q, f2)) for q in g.ifs):
                    out.append(ev(elt, f2))
            return Seq.of(out)
        return sym_comp(g, elt, fr, env, seq)
    # nested generators: only when all but the last are concrete
    g = gens[0]
    seq = iter_seq(resolve(ev(g.iter, fr)))
    if isinstance(seq, KeyIter) or not seq.concrete:
        raise Unsupported("nested comprehension over symbolic sequence")
    acc = Seq.of([])
    for x in seq.elems:
        f2 = Frame(dict(env), fr.globs, fr.owner, fr.fn, fr.parent_env)
        assign(g.target, x, f2)
        if all(truthy(ev(q, f2)) for q in g.ifs):
            acc = acc.concat(comp_seq(gens[1:], elt, f2))
    return acc


def sym_comp(g, elt, fr, env, seq):
    c = ctx()
    n = seq.nz()
    mark = next(Obj._n)
    i = z3.Int("ci!%d" % c.engine.next_id())
    rng = z3.And(i >= 0, i < n)

    def body(t, f2):
        assign(g.target, seq.get(t), f2)
        if not all(truthy(ev(q, f2)) for q in g.ifs):
            return ("skip", None)
        return ("elt", ev(elt, f2))

    def th(cc):
        f2 = Frame(dict(env), fr.globs, fr.owner, fr.fn, fr.parent_env)
        try:
            return body(i, f2)
        except PyExc as e:
            return ("exc", e)
    ps = summarize(th, bound=[i], rng=rng)
    for p in ps:
        for (o, what) in p.writes:
            if o.initial or _ref_num(o) < mark:
                raise Unsupported(f"comprehension with side effects on {o!r} {what}")
    exc = [p for p in ps if p.outcome[0] == "exc"]
    if exc:
        ok = z3.simplify(z3.Or(*[p.cond for p in ps if p.outcome[0] != "exc"])) \
            if len(exc) < len(ps) else z3.BoolVal(False)
        allok = z3.ForAll([i], z3.Implies(rng, ok))
        if c.branch(z3.Not(allok)):
            w = c.fresh("cexc", I)
            c.assume(z3.substitute(z3.And(rng, z3.Not(ok)), (i, w)))
            j = z3.Int("pj!%d" % c.engine.next_id())
            c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w), z3.substitute(ok, (i, j)))))
            f2 = Frame(dict(env), fr.globs, fr.owner, fr.fn, fr.parent_env)
            body(w, f2)
            raise Infeasible()

    def elem(t):
        f2 = Frame(dict(env), fr.globs, fr.owner, fr.fn, fr.parent_env)
        try:
            tag, v = body(t, f2)
        except PyExc:
            raise Infeasible()
        if tag != "elt":
            raise Infeasible()
        return v
    elem = snapshot(elem)
    skips = [p for p in ps if p.outcome[0] == "skip"]
    if not skips:
        return Seq(n, elem)
    keep = [p.cond for p in ps if p.outcome[0] == "elt"]
    if not keep:
        return Seq.of([])
    return filter_seq(c, n, i, z3.simplify(z3.Or(*keep)), elem)


class GenExp:
    """A generator expression not yet consumed."""

    def __init__(self, node, fr):
        self.node, self.fr = node, fr
        self.used = False

    def seq(self):
        self.used = True
        return comp_seq(self.node.generators, self.node.elt, self.fr)

    def quant(self, universal):
        """all()/any() of the generator."""
        from .models import iter_seq
        g = self.node.generators
        if len(g) != 1:
            s = self.seq()
            return _quant_seq(s, universal)
        gen = g[0]
        fr = self.fr
        seq = iter_seq(resolve(ev(gen.iter, fr)))
        env = dict(fr.env)
        if not isinstance(seq, KeyIter) and seq.concrete:
            f2 = Frame(env, fr.globs, fr.owner, fr.fn, fr.parent_env)
            for x in seq.elems:
                assign(gen.target, x, f2)
                if not all(truthy(ev(q, f2)) for q in gen.ifs):
                    continue
                t = truthy(ev(self.node.elt, f2))
                if t != universal:
                    return t
            return universal
        c = ctx()
        if isinstance(seq, KeyIter):
            i = z3.Const("qk!%d" % c.engine.next_id(), seq.ksh.sort)
            rng = map_has_term(seq.m, i, seq.ksh.sort)
            get = seq.item
        else:
            i = z3.Int("qi!%d" % c.engine.next_id())
            rng = z3.And(i >= 0, i < seq.nz())
            get = seq.get

        def body(t, f2):
            assign(gen.target, get(t), f2)
            if not all(truthy(ev(q, f2)) for q in gen.ifs):
                return universal
            return truth_term(ev(self.node.elt, f2))

        def th(cc):
            f2 = Frame(dict(env), fr.globs, fr.owner, fr.fn, fr.parent_env)
            try:
                return body(i, f2)
            except PyExc as e:
                return e
        ps = summarize(th, bound=[i], rng=rng)
        exc = [p for p in ps if isinstance(p.outcome, PyExc)]
        norm = [p for p in ps if not isinstance(p.outcome, PyExc)]
        f = formula_of(norm)
        if exc:
            # stops at the first element that decides or raises
            cont = f if universal else z3.simplify(z3.And(z3.Or(*[p.cond for p in norm]), z3.Not(f)))
            allc = z3.ForAll([i], z3.Implies(rng, cont))
            if c.branch(allc):
                return universal
            w = c.fresh("qfirst", i.sort())
            c.assume(z3.substitute(z3.And(rng, z3.Not(cont)), (i, w)))
            if z3.is_int(i) and not isinstance(seq, KeyIter):
                j = z3.Int("pj!%d" % c.engine.next_id())
                c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w), z3.substitute(cont, (i, j)))))
            f2 = Frame(dict(env), fr.globs, fr.owner, fr.fn, fr.parent_env)
            r = body(w, f2)
            r = r if isinstance(r, bool) else c.branch(r)
            if r == universal:
                raise Infeasible()
            return r
        if universal:
            return sbool(z3.ForAll([i], z3.Implies(rng, f)))
        return sbool(z3.Exists([i], z3.And(rng, f)))


def _quant_seq(s, universal):
    if s.concrete:
        for x in s.elems:
            if truthy(x) != universal:
                return not universal
        return universal
    c = ctx()
    i = z3.Int("qi!%d" % c.engine.next_id())
    rng = z3.And(i >= 0, i < s.nz())
    ps = summarize(lambda cc: truth_term(s.get(i)), bound=[i], rng=rng)
    f = formula_of(ps)
    return sbool(z3.ForAll([i], z3.Implies(rng, f)) if universal
                 else z3.Exists([i], z3.And(rng, f)))


def dict_comp(n, fr):
    from .models import iter_seq
    if len(n.generators) != 1:
        raise Unsupported("nested dict comprehension")
    g = n.generators[0]
    seq = iter_seq(resolve(ev(g.iter, fr)))
    f2 = Frame(dict(fr.env), fr.globs, fr.owner, fr.fn, fr.parent_env)
    o = interp.new_dict()
    if isinstance(seq, KeyIter) or not seq.concrete:
        return sym_dict_comp(n, g, fr, f2, o, seq)
    for x in seq.elems:
        assign(g.target, x, f2)
        if all(truthy(ev(q, f2)) for q in g.ifs):
            k = ev(n.key, f2)
            o.map = o.map.write(k, ev(n.value, f2))
    return o


def sym_dict_comp(n, g, fr, f2, o, seq):
    """{k: e(k) for k in xs}: the keys are the items, each value is computed from its key."""
    from .shapes import Str as StrSh, key_term
    if not (isinstance(g.target, ast.Name) and isinstance(n.key, ast.Name) and n.key.id == g.target.id) or g.ifs:
        raise Unsupported("dict comprehension over symbolic collection")
    c = ctx()
    if isinstance(seq, KeyIter):
        if seq.what != "keys":
            raise Unsupported("dict comprehension over symbolic items")
        ksh = seq.ksh
        i = z3.Const("dc!%d" % c.engine.next_id(), ksh.sort)
        item = seq.item
        rng = map_has_term(seq.m, i, ksh.sort)
        has_t = lambda t: map_has_term(seq.m, t, ksh.sort)
    else:
        ksh = StrSh
        i = z3.Int("dc!%d" % c.engine.next_id())
        item = seq.get
        rng = z3.And(i >= 0, i < seq.nz())

        def has_t(t):
            j = z3.Int("dk!%d" % ctx().engine.next_id())
            kt = key_term(seq.get(j), ksh.sort)
            if kt is None:
                raise Unsupported("dict comprehension with keys that are not strings")
            return z3.Exists([j], z3.And(j >= 0, j < seq.nz(), kt == t))
    env0 = dict(fr.env)

    def value_of(k):
        f = Frame(dict(env0), fr.globs, fr.owner, fr.fn, fr.parent_env)
        assign(g.target, k, f)
        return ev(n.value, f)

    def attempt(cc):
        try:
            value_of(item(i))
            return False
        except PyExc:
            return True
    bad = formula_of(summarize(attempt, bound=[i], rng=rng))
    if c.branch(z3.Exists([i], z3.And(rng, bad))):
        w = c.fresh("bad", i.sort())
        c.assume(z3.substitute(z3.And(rng, bad), (i, w)))
        value_of(item(w))
        raise Infeasible()
    o.map = Map(CompBase(ksh, snapshot(has_t), snapshot(value_of)))
    return o
