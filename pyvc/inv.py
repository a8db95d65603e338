"""Loops with a stated invariant (Hoare rule): for object-valued state that the automatic rules cannot carry.

The path splits in two: an arbitrary iteration (state arbitrary under the invariant; the body runs; the
invariant is an obligation for the next state; the path ends, unless the body leaves the loop) and the rest
of the function (state arbitrary under the invariant at exhaustion).  Partial correctness: termination of
while loops is not shown.  An invariant that does not hold makes the contract undecided, never refuted."""
import ast
import z3
from .core import *
from .core import I, ctx, Infeasible
from . import interp
from .interp import Break, Continue, ev, block, assign, UNBOUND


class LoopDone(BaseException):
    """The path of one arbitrary iteration ends here."""


class Vars:
    def __init__(self, fr, pre):
        self.__dict__["_fr"], self.__dict__["pre"] = fr, pre

    def __getattr__(self, k):
        return self._fr.get(k)


class LoopInv:
    """inv(c, v, i, seq) -> [(name, goal)]: v.x current value of variable x, v.pre its value before the loop,
    i number of finished iterations (None for while), seq what is iterated.
    state: variable -> shape or maker(c, v); content: variables holding a container that the body fills."""

    def __init__(self, state, inv, which=0, target=None, variant=None):
        self.state, self.inv, self.which, self.target, self.variant = state, inv, which, target, variant

    def matches(self, con, fr, s):
        from .verify import locate, Skip
        try:
            fn = locate(self.target or con.target)[0]
        except Skip:
            return False
        if fr.fn is not fn:
            return False
        loops = [n for n in ast.walk(interp.fn_ast(fn)) if isinstance(n, (ast.For, ast.While))]
        loops.sort(key=lambda n: (n.lineno, n.col_offset))
        return self.which < len(loops) and loops[self.which] is s

    def goals(self, c, fr, pre, i, seq):
        try:
            return list(self.inv(c, Vars(fr, pre), i, seq))
        except (AttributeError, KeyError) as e:
            raise Unsupported("invariant does not fit the loop: " + str(e))

    def havoc(self, c, fr, names, pre):
        for nm in dict.fromkeys(list(names) + list(self.state)):
            if nm in self.state:
                mk = self.state[nm]
                v = mk.make("lv_" + nm + "_%d" % c.engine.next_id()) if hasattr(mk, "wrap") else mk(c, Vars(fr, pre))
                was = pre.get(nm)
                if nm not in self.plain and isinstance(v, Obj) and isinstance(was, Obj) and not was.initial:
                    v.initial = False          # a new object that the body fills in place
                fr.set(nm, v)
            elif nm in fr.env:
                fr.set(nm, Poison("loop variable " + nm))

    def enter(self, s, fr, c):
        from .loops import assigned_names
        names = assigned_names(s.body) + (assigned_names([s.target]) if isinstance(s, ast.For) else assigned_names([s.test]))
        for nm in self.state:
            if fr.env.get(nm, UNBOUND) is UNBOUND:
                raise Unsupported("invariant names an unbound variable " + nm)
        aug = {id(n.target) for b in s.body for n in ast.walk(b) if isinstance(n, ast.AugAssign)}
        self.plain = {n.id for b in s.body for n in ast.walk(b)
                      if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load) and id(n) not in aug}
        return list(dict.fromkeys(names)), dict(fr.env)

    def establish(self, c, fr, pre, i, seq):
        for nm, g in self.goals(c, fr, pre, i, seq):
            c.obligations.append(("loop invariant established: " + nm, g))

    def assume(self, c, fr, pre, i, seq):
        gs = [g if z3.is_expr(g) else z3.BoolVal(bool(g)) for _, g in self.goals(c, fr, pre, i, seq)]
        stat = c.engine.inv_stats.setdefault(id(self), [0, 0])
        if gs and c.check(z3.And(*gs)) == z3.unsat:
            stat[1] += 1
            raise Infeasible()
        stat[0] += 1
        for g in gs:
            c.assume(g)

    def arbitrary(self, c):
        b = z3.Bool("arb!%d" % c.engine.next_id())
        return c.branch(b)

    def body(self, s, fr, c, pre, i, seq):
        mark = next(Obj._n)
        standins = {id(fr.env.get(nm)): pre.get(nm) for nm in self.state if isinstance(fr.env.get(nm), Obj)}
        w0 = len(c.writes)
        left = False
        try:
            block(s.body, fr)
        except Continue:
            pass
        except Break:
            left = True
        finally:
            for o, what in c.writes[w0:]:
                was = standins.get(id(o))
                if isinstance(was, Obj) and was.initial:      # written in place: so is what it stands for
                    c.write(was, what)
                if isinstance(o, Obj) and not o.initial and z3.is_int_value(o.ref) and -o.ref.as_long() <= mark \
                        and not any(o is fr.env.get(nm) for nm in self.state) and what != "self":
                    raise Unsupported(f"loop writes {what} of an object not named by the invariant")
        if left:
            return
        for nm, g in self.goals(c, fr, pre, i, seq):
            c.obligations.append(("loop invariant kept: " + nm, g))
        raise LoopDone()

    def run(self, s, seq, fr, c):
        names, pre = self.enter(s, fr, c)
        self.establish(c, fr, pre, z3.IntVal(0), seq)
        n = seq.nz()
        if self.arbitrary(c):
            self.havoc(c, fr, names, pre)
            i = c.fresh("iter", I)
            c.assume(z3.And(i >= 0, i < n))
            self.assume(c, fr, pre, i, seq)
            assign(s.target, seq.get(i), fr)
            return self.body(s, fr, c, pre, i + 1, seq)
        self.havoc(c, fr, names, pre)
        self.assume(c, fr, pre, n, seq)
        block(s.orelse, fr)

    def run_keys(self, s, ki, fr, c):
        """Keys in any order: i is the predicate "already visited" on key terms."""
        from .ops import map_has_term
        names, pre = self.enter(s, fr, c)
        ks = ki.ksh.sort
        q = c.engine.next_id()
        has = lambda t: map_has_term(ki.m, t, ks)
        self.establish(c, fr, pre, lambda t: z3.BoolVal(False), ki)
        if self.arbitrary(c):
            self.havoc(c, fr, names, pre)
            d = z3.Function("visited!%d" % q, ks, z3.BoolSort())
            x = z3.Const("vk!%d" % q, ks)
            c.fact(z3.ForAll([x], z3.Implies(d(x), has(x)), patterns=[d(x)]))
            k = c.fresh("key", ks)
            c.assume(z3.And(has(k), z3.Not(d(k))))
            self.assume(c, fr, pre, lambda t: d(t), ki)
            assign(s.target, ki.item(k), fr)
            return self.body(s, fr, c, pre, lambda t: z3.Or(d(t), t == k), ki)
        self.havoc(c, fr, names, pre)
        self.assume(c, fr, pre, has, ki)
        block(s.orelse, fr)

    def run_while(self, s, fr, c):
        from .ops import truth_term
        names, pre = self.enter(s, fr, c)
        self.establish(c, fr, pre, None, None)
        if self.arbitrary(c):
            self.havoc(c, fr, names, pre)
            self.assume(c, fr, pre, None, None)
            if not c.branch(truth_term(ev(s.test, fr))):
                raise Infeasible()
            return self.body(s, fr, c, pre, None, None)
        self.havoc(c, fr, names, pre)
        self.assume(c, fr, pre, None, None)
        if c.branch(truth_term(ev(s.test, fr))):
            raise Infeasible()
        block(s.orelse, fr)
