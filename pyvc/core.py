"""pyvc core: symbolic values, path contexts and exploration.

pyvc is a deductive verifier for the Python subset yangson is written in.  It
generates verification conditions from the AST of the functions *as they are in
/repo* (no transcription, no translation to another language) and discharges
them with z3 (cvc5 as a second back end).
"""
import decimal
import enum
import itertools
import os
import pickle
import tempfile
import time
import types
import z3

z3.set_param("warning", False)


class Unsupported(Exception):
    """The engine has no (sound) rule for this construct: obligation undecided."""


class Infeasible(Exception):
    """Current path was found infeasible."""


class PyExc(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, cls, args=(), obj=None):
        self.cls, self.eargs, self.obj = cls, args, obj

    def __repr__(self):
        return f"PyExc({self.cls.__name__})"


# ---------------------------------------------------------------- sorts
I, B, R, STR = z3.IntSort(), z3.BoolSort(), z3.RealSort(), z3.StringSort()
F64 = z3.Float64()
_V = z3.Datatype("V")
_V.declare("none")
_V.declare("bool", ("bv", B))
_V.declare("int", ("iv", I))
_V.declare("str", ("sv", STR))
_V.declare("dec", ("dv", R))
_V.declare("decsp", ("dk", I))       # NaN / infinities / sNaN of Decimal
_V.declare("flt", ("fv", F64))
_V.declare("bytes", ("yv", STR))     # byte strings as strings over 0..255
_V.declare("ref", ("rv", I))
V = _V.create()
_P = z3.Datatype("Pair")
_P.declare("mk", ("one", STR), ("two", STR))
PAIR = _P.create()                     # pairs of strings used by value (dictionary keys)
TUPLES = {2: PAIR}                     # tuples of n strings by value
for _n in (1, 3):
    _T = z3.Datatype("Tuple%d" % _n)
    _T.declare("mk", *[("f%d" % _k, STR) for _k in range(_n)])
    TUPLES[_n] = _T.create()
_Q = z3.Datatype("Named")
_Q.declare("local", ("lname", STR))
_Q.declare("qual", ("qname", STR), ("space", STR))
NAMED = _Q.create()                    # (name, None) or (name, namespace), by value

SORT = {"int": I, "bool": B, "str": STR, "dec": R, "flt": F64, "bytes": STR, "decsp": I}
PYCLS = {"int": int, "bool": bool, "str": str, "dec": decimal.Decimal,
         "flt": float, "bytes": bytes, "decsp": decimal.Decimal}
MKV = {"int": V.int, "bool": V.bool, "str": V.str, "dec": V.dec, "flt": V.flt,
       "bytes": V.bytes, "decsp": V.decsp}
GETV = {"int": V.iv, "bool": V.bv, "str": V.sv, "dec": V.dv, "flt": V.fv,
        "bytes": V.yv, "decsp": V.dk}
ISV = {"int": V.is_int, "bool": V.is_bool, "str": V.is_str, "dec": V.is_dec,
       "flt": V.is_flt, "bytes": V.is_bytes, "decsp": V.is_decsp,
       "none": V.is_none, "ref": V.is_ref}

clsid_f = z3.Function("clsid", I, I)
_cls_ids = {}


def clsid(cls):
    if cls not in _cls_ids:
        _cls_ids[cls] = len(_cls_ids) + 1
    return _cls_ids[cls]


# ---------------------------------------------------------------- values
class S:
    """Symbolic scalar of a known Python class."""
    __slots__ = ("k", "t", "scale")

    def __init__(self, k, t):
        self.k, self.t = k, t

    def __repr__(self):
        return f"S<{self.k}:{self.t}>"


class A:
    """Symbolic value of unknown class; resolved (by case split) when inspected."""
    __slots__ = ("t", "shape", "res")

    def __init__(self, t, shape):
        self.t, self.shape, self.res = t, shape, None

    def __repr__(self):
        return f"A<{self.t}>"


class Obj:
    """Heap object: instance, list, deque, dict, set, symbolic-length tuple."""
    _n = itertools.count(1)

    def __init__(self, cls, ref=None, initial=False, cands=None, shape=None):
        self.cls = cls              # exact class, or None with cands
        self.cands = cands
        self.initial = initial
        self.ref = ref if ref is not None else z3.IntVal(-next(Obj._n))
        self.attrs = {}
        self.shape = shape          # dict of attr shapes (overrides)
        self.seq = None
        self.map = None
        self.extra = {}

    @property
    def base(self):
        return self.cls if self.cls is not None else self.cands[0]

    def __repr__(self):
        return f"Obj<{self.cls.__name__ if self.cls else [c.__name__ for c in self.cands]}@{self.ref}>"


class Closure:
    def __init__(self, node, env, mod, owner=None, name="<lambda>"):
        self.node, self.env, self.mod, self.owner, self.name = node, env, mod, owner, name
        self.defaults = None


class Bound:
    def __init__(self, func, self_, owner=None):
        self.func, self.self_, self.owner = func, self_, owner

    def __repr__(self):
        return f"Bound<{self.func}>"


class SuperObj:
    def __init__(self, owner, obj):
        self.owner, self.obj = owner, obj


class BuiltinMethod:
    """A method of a built-in type, bound to a host value."""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __repr__(self):
        return f"BM<{self.name}>"


class UFunc:
    """A symbolic (unknown, pure) callable."""

    def __init__(self, fn):
        self.fn = fn


class Poison:
    """Value of a variable the engine does not track any more."""

    def __init__(self, why):
        self.why = why


class Seq:
    """Immutable functional sequence."""

    def __init__(self, n, get, elems=None):
        self.n, self._get, self.elems = n, get, elems

    @staticmethod
    def of(elems):
        elems = list(elems)
        return Seq(len(elems), None, elems)

    @property
    def concrete(self):
        return self.elems is not None

    def nz(self):
        return z3.IntVal(self.n) if isinstance(self.n, int) else self.n

    def get(self, i):
        """i: python int or z3 Int, assumed in range."""
        if self.elems is not None:
            if isinstance(i, int):
                return self.elems[i]
            i = z3.simplify(i)
            if z3.is_int_value(i):
                return self.elems[i.as_long()]
            for j in range(len(self.elems) - 1):
                if ctx().branch(i == j):
                    return self.elems[j]
            if not self.elems:
                raise Infeasible()
            ctx().assume(i == len(self.elems) - 1)
            return self.elems[-1]
        return self._get(i if not isinstance(i, int) else z3.IntVal(i))

    def concat(self, other):
        if self.concrete and other.concrete:
            return Seq.of(self.elems + other.elems)
        if self.concrete and not self.elems:
            return other
        if other.concrete and not other.elems:
            return self
        n1 = self.nz()
        a, b = self, other

        def get(i):
            if ctx().branch(i < n1):
                return a.get(i)
            return b.get(z3.simplify(i - n1))
        r = Seq(z3.simplify(n1 + other.nz()), get)
        r.parts = [self, other]
        return r

    def reverse(self):
        if self.concrete:
            return Seq.of(self.elems[::-1])
        n = self.nz()
        return Seq(n, lambda i: self.get(z3.simplify(n - 1 - i)))

    def slice(self, lo, hi):
        """lo, hi z3/py ints with 0 <= lo <= hi <= n."""
        if isinstance(lo, int) and isinstance(hi, int) and self.concrete:
            return Seq.of(self.elems[lo:hi])
        lz = z3.IntVal(lo) if isinstance(lo, int) else lo
        hz = z3.IntVal(hi) if isinstance(hi, int) else hi
        return Seq(z3.simplify(hz - lz), lambda i: self.get(z3.simplify(i + lz)))


class Map:
    """Immutable functional mapping with layered writes.

    base: None (empty) or an object with has(kt)->z3 Bool / get(key)->value /
    n: z3 Int / key(i)->host key (insertion order).  writes: tuple of (key, value or DEL).
    """
    DEL = object()

    def __init__(self, base=None, writes=()):
        self.base, self.writes = base, writes

    def write(self, k, v):
        w = list(self.writes)
        if self.base is None:
            for j, (wk, wv) in enumerate(w):
                if same_key(wk, k) is True:
                    if v is Map.DEL:
                        del w[j]
                    else:
                        w[j] = (k, v)
                    return Map(None, tuple(w))
        w.append((k, v))
        return Map(self.base, tuple(w))

    def lookup(self, k):
        """Return (True, value) or (False, None), forking as needed."""
        from .ops import py_eq_bool
        for wk, wv in reversed(self.writes):
            if py_eq_bool(wk, k):
                return (False, None) if wv is Map.DEL else (True, wv)
        if self.base is None:
            return (False, None)
        if ctx().branch(self.base.has(k)):
            return (True, self.base.get(k))
        return (False, None)

    @property
    def concrete(self):
        return self.base is None and all(v is not Map.DEL for _, v in self.writes) and \
            self._distinct()

    def _distinct(self):
        ks = [k for k, _ in self.writes]
        for a in range(len(ks)):
            for b in range(a):
                if same_key(ks[a], ks[b]) is not False:
                    return False
        return True


def same_key(a, b):
    """True/False/None (unknown) equality of keys, without forking."""
    if is_concrete(a) and is_concrete(b):
        return a == b
    if isinstance(a, S) and isinstance(b, S) and a.k == b.k:
        t = z3.simplify(a.t == b.t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    return None


CONC = (type(None), bool, int, str, float, bytes, decimal.Decimal, enum.Enum)


def is_concrete(v):
    """True for fully concrete host values."""
    if isinstance(v, (S, A, Obj, Closure, Bound, SuperObj, BuiltinMethod, UFunc, Poison, Seq, Map)):
        return False
    if isinstance(v, (tuple, list, set, frozenset)):
        return all(is_concrete(x) for x in v)
    if isinstance(v, dict):
        return all(is_concrete(x) and is_concrete(y) for x, y in v.items())
    return True


# ---------------------------------------------------------------- path context
_CTX = []
_quant = {}


def has_quantifier(f):
    """Does a formula contain a quantifier?"""
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(x):
            return True
        todo += x.children()
    return False


class FeasSolver:
    """Feasibility of paths: a quantifier-free solver in front of a time-limited full one.
    Over-approximates feasibility (an infeasible path only adds provable obligations)."""
    QF, FULL, NESTED = 700, int(os.environ.get("PYVC_FULLMS", "250")), int(os.environ.get("PYVC_NESTMS", "40"))

    def __init__(self, nested=False):
        self.qf = z3.Solver()
        self.qf.set("timeout", self.QF)
        self.full = z3.Solver()
        self.full.set("timeout", self.NESTED if nested else self.FULL)
        if nested:
            self.full.set("mbqi", False)
        self.nq = 0

    def add(self, f):
        if has_quantifier(f):
            self.nq += 1
        else:
            self.qf.add(f)
        self.full.add(f)

    def check(self, *extra):
        q = any(has_quantifier(e) for e in extra)
        if not q:
            r = self.qf.check(*extra)
            if r == z3.unsat or not self.nq:
                return r
        return self.full.check(*extra)


def snapshot(fn):
    """fn evaluated later, in the heap as it is now (elements of comprehensions and
    loop-built lists are computed on demand)."""
    c0 = ctx()
    pos = len(c0.trail)

    def run(*a):
        c = ctx()
        chain = []
        while c is not None and c is not c0:
            chain.append((c, 0))
            c = c.parent
        if c is None:
            return fn(*a)           # created in an exploration that has ended
        chain.append((c0, pos))
        if not any(len(x.trail) > p for x, p in chain):
            return fn(*a)
        redo = []
        for x, p in chain:
            for e in reversed(x.trail[p:]):
                if len(e) == 4:
                    redo.append((e[0], e[1], getattr(e[0], e[1]), True))
                    setattr(e[0], e[1], e[2])
                else:
                    redo.append((e[0], e[1], e[0].get(e[1], Map.DEL), False))
                    if e[2] is Map.DEL:
                        e[0].pop(e[1], None)
                    else:
                        e[0][e[1]] = e[2]
        cur = ctx()
        n = len(cur.trail)
        try:
            return fn(*a)
        finally:
            done = {(id(o), k) for o, k, v, f in redo}
            cur.trail[n:] = [e for e in cur.trail[n:] if (id(e[0]), e[1]) not in done]
            for o, k, v, f in reversed(redo):
                if f:
                    setattr(o, k, v)
                elif v is Map.DEL:
                    o.pop(k, None)
                else:
                    o[k] = v
    return run


def ctx():
    return _CTX[-1]


class Ctx:
    """One path of one exploration."""
    stats = {"feas": 0, "feas_time": 0.0}

    def __init__(self, parent=None, prefix=(), bound=(), engine=None):
        self.parent = parent
        self.engine = engine if engine is not None else parent.engine
        self.prefix = list(prefix)
        self.pos = 0
        self.taken = []              # decisions taken: list of bool
        self.alts = []               # alternative prefixes discovered
        self.decisions = []          # z3 branch conditions taken on this path
        self.facts = []              # (guard index, z3) background facts
        self.bound = list(parent.bound) + list(bound) if parent else list(bound)
        self.trail = []
        self.writes = []             # (obj, what, description)
        self.deadline = parent.deadline if parent else None
        self.forker = None
        self.solver = FeasSolver(parent is not None)
        if parent:
            for f in parent.all_assumptions():
                self.solver.add(f)
        self.base_count = 0
        self.memo = dict(parent.memo) if parent else {}
        self.depth = parent.depth if parent else 0
        self.obligations = []
        self.assumed_contracts = set()
        self.havoc_n = 0

    # -- assumptions
    def all_assumptions(self):
        res = []
        if self.parent:
            res += self.parent.all_assumptions()
        res += self.decisions
        res += [f for _, f in self.facts]
        return res

    def assume(self, f):
        """Assert a branch-like condition (part of the path's meaning)."""
        f = z3.simplify(f) if z3.is_expr(f) else z3.BoolVal(bool(f))
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise Infeasible()
        self.decisions.append(f)
        self.solver.add(f)

    def fact(self, f):
        """Assert a background truth (valid regardless of branching taken later)."""
        if isinstance(f, bool):
            if not f:
                raise Infeasible()
            return
        self.facts.append((len(self.decisions), f))
        self.solver.add(f)

    def guarded_facts(self):
        out = []
        for n, f in self.facts:
            g = self.decisions[:n]
            out.append(z3.Implies(z3.And(*g), f) if g else f)
        return out

    def check(self, *extra):
        Ctx.stats["feas"] += 1
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Unsupported("time budget of the function exhausted")
        r = self.solver.check(*extra)
        Ctx.stats["feas_time"] += time.time() - t
        return r

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            nc = z3.Not(cond)
            if self.check(cond) == z3.unsat:
                d = False
            elif self.check(nc) == z3.unsat:
                d = True
            elif self.forker is not None:
                d = self.forker.split()
            else:
                d = True
                self.alts.append(self.taken + [False])
        self.pos += 1
        self.taken.append(d)
        f = cond if d else z3.simplify(z3.Not(cond))
        self.decisions.append(f)
        self.solver.add(f)
        return d

    def choose(self, conds):
        """Choose the index of the first true condition (exhaustive)."""
        for i, c in enumerate(conds[:-1]):
            if self.branch(c):
                return i
        self.assume(conds[-1])
        return len(conds) - 1

    # -- fresh symbols (functions of the enclosing bound variables)
    def fresh(self, name, sort):
        n = self.engine.next_id()
        if self.bound:
            f = z3.Function(f"{name}!{n}", *[b.sort() for b in self.bound], sort)
            return f(*self.bound)
        return z3.Const(f"{name}!{n}", sort)

    # -- undo trail
    def set_attr(self, o, a, v):
        self.trail.append((o.attrs, a, o.attrs.get(a, Map.DEL)))
        o.attrs[a] = v

    def set_dict(self, d, a, v):
        self.trail.append((d, a, d.get(a, Map.DEL)))
        d[a] = v

    def set_field(self, o, field, v):
        self.trail.append((o, field, getattr(o, field), "f"))
        setattr(o, field, v)

    def undo1(self):
        e = self.trail.pop()
        if len(e) == 4:
            setattr(e[0], e[1], e[2])
        elif e[2] is Map.DEL:
            e[0].pop(e[1], None)
        else:
            e[0][e[1]] = e[2]

    def undo(self):
        while self.trail:
            self.undo1()

    def write(self, obj, what):
        self.writes.append((obj, what))


class Outcome:
    """kind: 'ret' | 'exc' | 'fall' | 'break' | 'continue'."""

    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value

    def __repr__(self):
        return f"Outcome({self.kind},{self.value!r})"


class SubPath:
    def __init__(self, cond, outcome, facts, writes, extra=None):
        self.cond, self.outcome, self.facts, self.writes, self.extra = \
            cond, outcome, facts, writes, extra


def explore(engine, thunk, parent=None, bound=(), max_paths=600, pre=None, on_path=None,
            deadline=None):
    """Enumerate all paths of thunk(ctx); call on_path(ctx, outcome) for each.

    State changed by a path is undone before the next path starts.
    """
    work = [[]]
    n = 0
    while work:
        prefix = work.pop()
        n += 1
        if n > max_paths:
            raise Unsupported(f"more than {max_paths} paths")
        c = Ctx(parent=parent, prefix=prefix, bound=bound, engine=engine)
        if deadline:
            c.deadline = deadline
        _CTX.append(c)
        try:
            try:
                if pre:
                    pre(c)
                out = thunk(c)
                feasible = True
            except Infeasible:
                feasible = False
            if feasible:
                on_path(c, out)
        finally:
            c.undo()
            _CTX.pop()
        work.extend(c.alts)
    return n


class Forker:
    """Path exploration by process duplication: a branch with two feasible sides continues in two processes.
    Concurrency is limited by tokens in a pipe; without a token the second side is finished first."""
    TOKENS = None          # (read fd, write fd), non-blocking read end

    def __init__(self, state):
        self.state, self.children, self.out, self.token = state, [], None, False

    @classmethod
    def init(cls):
        cls.TOKENS = os.pipe()
        os.set_blocking(cls.TOKENS[0], False)

    @classmethod
    def give(cls):
        if cls.TOKENS:
            os.write(cls.TOKENS[1], b"t")

    def take(self):
        if not self.TOKENS:
            return False
        try:
            return bool(os.read(self.TOKENS[0], 1))
        except BlockingIOError:
            return False

    def split(self):
        fd, path = tempfile.mkstemp(prefix="pyvcfork")
        os.close(fd)
        tok = self.take()
        pid = os.fork()
        if pid == 0:
            self.children, self.out, self.token = [], path, tok
            self.state.reset()
            return False
        if tok:
            self.children.append((pid, path))
        else:
            self.collect(pid, path)
        return True

    def collect(self, pid, path):
        os.waitpid(pid, 0)
        try:
            with open(path, "rb") as f:
                self.state.merge(pickle.load(f))
        except Exception:
            self.state.fail("verifier: a path's process died (memory)")
        finally:
            os.unlink(path)

    def finish(self):
        if self.token:
            self.give()
            self.token = False
        for pid, path in self.children:
            self.collect(pid, path)
        self.children = []
        if self.out is not None:
            try:
                with open(self.out, "wb") as f:
                    pickle.dump(self.state.dump(), f)
            finally:
                os._exit(0)


def explore_fork(engine, thunk, on_path, deadline, state):
    """Like explore, for the outermost exploration of a contract."""
    c = Ctx(engine=engine)
    c.deadline = deadline
    c.forker = Forker(state)
    _CTX.append(c)
    try:
        try:
            out = thunk(c)
            on_path(c, out)
        except Infeasible:
            pass
        except BaseException as e:
            state.fail(e)
        c.forker.finish()
    finally:
        c.undo()
        _CTX.pop()


def summarize(thunk, bound=(), rng=None, max_paths=200):
    """Explore a side-effect-contained thunk in a nested exploration.

    Returns list of SubPath whose conditions partition the space (under rng).
    Background facts met on the way are added to the current context, closed
    universally over the bound variables.
    """
    c0 = ctx()
    res = []

    def pre(c):
        if rng is not None:
            c.solver.add(rng)

    def on_path(c, out):
        cond = z3.And(*c.decisions) if c.decisions else z3.BoolVal(True)
        res.append(SubPath(cond, out, c.guarded_facts(), list(c.writes), None))
        c0.assumed_contracts |= c.assumed_contracts
        for ob in c.obligations:
            name, f = ob
            ff = z3.Implies(z3.And(*(c.decisions[:] or [z3.BoolVal(True)])), f)
            if rng is not None:
                ff = z3.Implies(rng, ff)
            if bound:
                ff = z3.ForAll(list(bound), ff)
            c0.obligations.append((name, ff))

    explore(c0.engine, thunk, parent=c0, bound=bound, max_paths=max_paths, pre=pre,
            on_path=on_path)
    seen = set()
    for p in res:
        for f in p.facts:
            if f.get_id() in seen:
                continue
            seen.add(f.get_id())
            if rng is not None:
                f = z3.Implies(rng, f)
            if bound and occurs(f, bound):
                f = z3.ForAll(list(bound), f)
            c0.fact(f)
    return res


def occurs(f, vars_):
    ids = {v.get_id() for v in vars_}
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in ids:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


def exhaust_exit(c):
    pass
