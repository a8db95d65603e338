"""Contracts, obligations and their discharge."""
import importlib
import os
import subprocess
import sys
import tempfile
import time
import traceback
import types
import z3
from .absfp import abstracted
from .core import *
from .core import I, B, R, STR, V, _CTX, Ctx, explore
from . import core, interp, models, ops
from .ops import same, conj, neg, truth_term
from .interp import Return, Break, Continue
from .inv import LoopDone, LoopInv

REGISTRY = []        # all contracts to verify, in order
BY_FN = {}           # function object -> contract used at call sites
ABSTRACT = {}        # (base class, name) -> AbstractContract
SPECFN = {}          # function -> python meta implementation


class Skip(Exception):
    """The target does not exist in this tree (e.g. a private helper was inlined)."""


def locate(target):
    mod, _, qual = target.partition(":")
    try:
        m = importlib.import_module(mod)
    except ImportError as e:
        raise Skip(str(e))
    o, owner = m, None
    for p in qual.split("."):
        owner = o
        if isinstance(o, type):
            raw, k = interp.lookup_mro(o, p)
            if raw is None:
                raise Skip(target)
            o = raw
        else:
            if not hasattr(o, p):
                raise Skip(target)
            o = getattr(o, p)
    if isinstance(o, property):
        o = o.fget
    if isinstance(o, (staticmethod, classmethod)):
        o = o.__func__
    if not isinstance(o, types.FunctionType):
        raise Skip(target)
    return o, owner


class Contract:
    """A contract of one real function.

    args      list of (shape | callable(c) -> host value), positional
    requires  meta function (c, *args): adds assumptions via c.assume/c.fact
    spec      interpreted Python function of the same arguments: the function
              must return/raise exactly what the spec does
    ensures   meta function (c, args, outcome, old) -> list of (name, bool/z3)
    raises    exception classes that may escape (None: spec decides)
    modifies  list of (index of argument, attribute | 'content' | '*')
    use       'spec' | 'inline' | callable(c, fn, args, kw): meaning at call sites
    """

    def __init__(self, target, args, spec=None, ensures=None, requires=None, raises=(),
                 modifies=(), use="inline", name=None, props=(), old=None, timeout=60,
                 max_paths=400, variant=None, trusted=False, note="", eq=None, any_exc=False, body=None,
                 bounded=None, loops=(), recursive=False):
        self.recursive = recursive   # calls of the function inside itself use the contract
        self.loops = loops           # invariants (inv.LoopInv)
        self.bounded = bounded       # stated bound: counted apart from the proved contracts
        self.target, self.args, self.spec, self.ensures = target, args, spec, ensures
        self.requires, self.raises, self.modifies, self.use = requires, raises, modifies, use
        self.variant = variant
        self.name = (name or target.split(":")[1]) + (f"<{variant}>" if variant else "")
        self.props, self.old, self.timeout, self.max_paths = props, old, timeout, max_paths
        self.note = note
        self.eq = eq
        self.any_exc = any_exc
        self.body = body
        self.fn = None
        REGISTRY.append(self)
        self.register()

    def register(self):
        try:
            self.fn, self.owner = locate(self.target)
        except Skip:
            self.fn = None
            return
        if self.use != "inline":
            BY_FN[self.fn] = self

    # meaning at a call site
    def apply(self, c, fn, args, kw):
        c.assumed_contracts.add(self.name)
        if callable(self.use):
            return self.use(c, fn, args, kw)
        if self.use == "spec":
            w0 = len(c.writes)
            return interp.run_function(self.spec, args, kw)
        raise Unsupported("contract use")


class AbstractContract:
    """Contract of an overridable method, used for receivers of unknown class."""

    def __init__(self, base, name, use, always=False):
        self.base, self.name, self.use, self.always = base, name, use, always
        ABSTRACT[(base, name)] = self

    def apply_abstract(self, c, o, name, args, kw):
        c.assumed_contracts.add(f"{self.base.__name__}.{name} (abstract)")
        return self.use(c, o, args, kw)


class Engine:
    def __init__(self, root=None, con=None):
        self.con = con
        self._id = 0
        self.touched = set()
        self.touched_names = set()
        self.root = root         # function being verified (always inlined)
        self.loops = {}
        self.inv_stats = {}     # invariant -> paths on which it can hold, and cannot
        self.disabled = set()

    def next_id(self):
        self._id += 1
        return self._id

    def contract_for(self, fn, args):
        try:
            con = BY_FN.get(fn)
        except TypeError:
            return None
        if con is None or con in self.disabled:
            return None
        if fn is self.root and not getattr(con, "recursive", False):
            return None
        return con

    def abstract_contract(self, o, name):
        for k in o.base.__mro__:
            con = ABSTRACT.get((k, name))
            if con is not None:
                return con
        return None

    def class_contract(self, cls):
        return None

    def loop_contract(self, fr, s):
        if self.con is None or ctx().parent is not None:
            return None
        for li in self.con.loops:
            if li.matches(self.con, fr, s):
                return li
        return None


class Result:
    def __init__(self, name):
        self.name = name
        self.obls = {}           # obligation name -> status
        self.detail = {}
        self.model = {}
        self.paths = 0
        self.time = 0.0
        self.solver_time = 0.0
        self.error = None
        self.assumed = set()
        self.touched = set()
        self.backend = {}
        self.missing = False
        self.hints = []

    def add(self, ob, status, detail=None, backend="z3"):
        order = {"proved": 0, "undecided": 1, "refuted": 2}
        cur = self.obls.get(ob)
        if cur is None or order[status] > order[cur]:
            self.obls[ob] = status
        if detail and (ob not in self.detail or status == "refuted"):
            self.detail[ob] = detail
        if status == "proved":
            self.backend[backend] = self.backend.get(backend, 0) + 1


HAVOC = ("st!", "repr!", "strfmt!", "join!", "str_tuple!", "str_fn!", "tuphash!", "havoc!", "havoc_",
         "format_", "re_sub ", "str_strip", "str_lstrip", "str_rstrip", "str_upper", "str_lower", "str_title", "str_dec",
         "str_flt", "str_bytes")


def over_approximated(terms):
    """Does a failing obligation depend on a value the engine replaced by an arbitrary one?"""
    todo, seen = [t for t in terms if z3.is_expr(t)], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                x.decl().name().startswith(HAVOC):
            return x.decl().name()
        todo += x.children()
    return None


def model_hints(m):
    """Integers and strings occurring in a counter-model, as seeds for the concrete search."""
    out = []
    try:
        for d in m.decls():
            todo = [m[d]]
            if isinstance(m[d], z3.FuncInterp):
                todo = [m[d].entry(i).value() for i in range(min(m[d].num_entries(), 30))]
            while todo:
                x = todo.pop()
                if x is None or not z3.is_expr(x):
                    continue
                if z3.is_int_value(x):
                    out.append(x.as_long())
                elif z3.is_string_value(x):
                    out.append(x.as_string())
                elif z3.is_app(x):
                    todo += x.children()
                if len(out) > 60:
                    return out
    except Exception:
        pass
    return out


CVC5 = "/usr/bin/cvc5"


def find_cvc5():
    for p in ("/usr/bin/cvc5", "/usr/local/bin/cvc5", "/opt/veriftools/bin/cvc5"):
        if os.path.exists(p):
            return p
    import shutil
    return shutil.which("cvc5")


def discharge(assumptions, goal, timeout=10000):
    """Prove assumptions |= goal.  Returns (status, model_or_reason, backend)."""
    if isinstance(goal, bool):
        if goal:
            return "proved", None, "trivial"
        goal = z3.BoolVal(False)
    goal = z3.simplify(goal)
    if z3.is_true(goal):
        return "proved", None, "simplifier"
    s = z3.Solver()
    for a in assumptions:
        s.add(a)
    s.add(z3.Not(goal))
    flat = abstracted(list(s.assertions()))
    if flat is not None:
        q = z3.Solver()
        q.add(*flat)
        q.set("timeout", min(3000, timeout))
        if q.check() == z3.unsat:
            return "proved", None, "z3"
    for stage, tmo in (("z3", min(2500, timeout)), ("cvc5", timeout), ("z3", timeout)):
        if stage == "z3":
            s.set("timeout", tmo)
            r = s.check()
            if r == z3.unsat:
                return "proved", None, "z3"
            if r == z3.sat:
                return "refuted", s.model(), "z3"
            continue
        cv = find_cvc5() if os.environ.get("PYVC_NOCVC5") != "1" else None
        if cv:
            try:
                txt = "(set-logic ALL)\n" + s.to_smt2()
                with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                    f.write(txt)
                try:
                    p = subprocess.run([cv, "--strings-exp", "--tlimit=%d" % tmo, f.name],
                                       capture_output=True, text=True, timeout=tmo / 1000 + 5)
                    if p.stdout.strip().startswith("unsat"):
                        return "proved", None, "cvc5"
                finally:
                    os.unlink(f.name)
            except Exception:
                pass
    return "undecided", s.reason_unknown(), "z3"


def verify(con, timeout=None, oblig_timeout=10000):
    """Generate and discharge all obligations of one contract."""
    res = Result(con.name)
    t0 = time.time()
    if con.fn is None:
        try:
            con.fn, con.owner = locate(con.target)
        except Skip:
            res.missing = True
            return res
    eng = Engine(root=con.fn, con=con)
    deadline = time.time() + (timeout or con.timeout)
    state = {}
    pre_ok = [False]
    Ctx.stats["feas_time"] = 0.0

    def thunk(c):
        args = [a(c) if callable(a) and not hasattr(a, "wrap") else a.make("a%d" % i)
                for i, a in enumerate(con.args)]
        if con.requires:
            con.requires(c, *args)
        if not pre_ok[0]:
            r = c.check()
            pre_ok[0] = r != z3.unsat
            if r == z3.unsat:
                raise Infeasible()
        old = con.old(c, *args) if con.old else None
        spec_out = None
        w0 = len(c.writes)
        if con.spec:
            try:
                spec_out = Outcome("ret", interp.run_function(con.spec, list(args)))
            except PyExc as e:
                spec_out = Outcome("exc", e)
            del c.writes[w0:]
        try:
            if con.body:
                # relational contract: several runs of the real function
                out = Outcome("ret", con.body(c, lambda *a: interp.run_function(con.fn, list(a)), *args))
            else:
                out = Outcome("ret", interp.run_function(con.fn, list(args)))
        except PyExc as e:
            out = Outcome("exc", e)
        except LoopDone:
            out = Outcome("loop")
        return args, old, spec_out, out, w0

    def on_path(c, r):
        args, old, spec_out, out, w0 = r
        res.paths += 1
        asm = c.all_assumptions()

        def ob(name, goal):
            if isinstance(goal, bool) and goal:
                res.add(name, "proved", backend="simplifier")
                return
            t = time.time()
            asm2 = c.all_assumptions()
            st, info, be = discharge(asm2, goal, oblig_timeout)
            if st == "refuted" and name.startswith("loop invariant"):
                st = "undecided"
            res.solver_time += time.time() - t
            det = None
            if st != "proved":
                det = dict(goal=str(goal)[:2000], outcome=repr(out)[:500],
                           spec=repr(spec_out)[:500], info=str(info)[:4000],
                           path=[str(d)[:300] for d in c.decisions][:40])
                if st == "refuted":
                    ap = over_approximated([goal] + list(c.decisions))
                    if ap:
                        det["approx"] = ap
                if st == "refuted" and info is not None and not isinstance(info, str):
                    res.hints += model_hints(info)
            res.add(name, st, det, be)

        # frame
        allowed = []
        free = [m for m in con.modifies if callable(m)]        # m(args, object, what): may be written
        for (ai, what) in (m for m in con.modifies if not callable(m)):
            allowed.append((args[ai], what))        # "a.content": the container that is attribute a
        bad = []
        for (o, what) in c.writes[w0:]:
            if isinstance(o, Obj) and o.initial:
                if not any(m(args, o, what) for m in free) and not any((o is ao and aw in (what, "*")) or _owned(o, what, ao, aw) for ao, aw in allowed):
                    bad.append((o, what))
        ob("frame", not bad if not bad else False)
        if bad and "frame" in res.detail:
            res.detail["frame"]["writes"] = [f"{o!r}.{w}" for o, w in bad][:5]
        # outcome
        if out.kind == "loop":
            for nm, g in c.obligations:
                ob(nm, g)
            res.assumed |= c.assumed_contracts
            return
        if con.spec:
            if spec_out.kind != out.kind:
                ob("refines spec", False)
            elif out.kind == "exc":
                ob("raises as specified", issubclass(out.value.cls, spec_out.value.cls))
            else:
                eq = con.eq or same
                try:
                    ob("refines spec", eq(out.value, spec_out.value))
                except PyExc:
                    ob("refines spec", False)
        elif out.kind == "exc" and not con.any_exc:
            ob("no undocumented exception",
               any(issubclass(out.value.cls, k) for k in con.raises))
        if con.ensures:
            for nm, g in con.ensures(c, args, out, old):
                ob(nm, g)
        for nm, g in c.obligations:
            ob(nm, g)
        res.assumed |= c.assumed_contracts

    class State:
        def reset(self):
            n = Result(res.name)
            res.__dict__.clear()
            res.__dict__.update(n.__dict__)
            eng.touched.clear()
            eng.inv_stats.clear()
            Ctx.stats["feas_time"] = 0.0

        def dump(self):
            return dict(obls=res.obls, detail=res.detail, paths=res.paths, solver=res.solver_time, err=res.error,
                        assumed=res.assumed, backend=res.backend, hints=res.hints[:60], pre=pre_ok[0], inv=dict(eng.inv_stats),
                        feas=Ctx.stats["feas_time"],
                        touched={f"{f.__module__}:{f.__qualname__}" for f in eng.touched} | eng.touched_names)

        def merge(self, d):
            order = {"proved": 0, "undecided": 1, "refuted": 2}
            for k, st in d["obls"].items():
                cur = res.obls.get(k)
                if cur is None or order[st] > order[cur]:
                    res.obls[k] = st
                    if k in d["detail"]:
                        res.detail[k] = d["detail"][k]
            for k, v in d["backend"].items():
                res.backend[k] = res.backend.get(k, 0) + v
            res.paths += d["paths"]
            res.solver_time += d["solver"]
            res.assumed |= d["assumed"]
            res.hints += d["hints"]
            pre_ok[0] = pre_ok[0] or d["pre"]
            eng.touched_names |= d["touched"]
            for k, (a, b) in d["inv"].items():
                st = eng.inv_stats.setdefault(k, [0, 0])
                st[0] += a
                st[1] += b
            Ctx.stats["feas_time"] += d["feas"]
            res.error = res.error or d["err"]

        def fail(self, e):
            if isinstance(e, str):
                m = e
            elif isinstance(e, Unsupported):
                m = "unsupported: " + str(e)
            elif isinstance(e, z3.Z3Exception):
                m = "z3: " + str(e)[:200]
            elif isinstance(e, RecursionError):
                m = "recursion limit"
            elif isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise e
            else:
                m = "engine: " + "".join(traceback.format_exception(e))[-1500:]
            res.error = res.error or m

    explore_fork(eng, thunk, on_path, deadline, State())
    if not res.error:
        if not pre_ok[0]:
            res.error = "precondition unsatisfiable"
        if res.paths == 0 and not res.error:
            res.error = "no path explored"
        if not res.error and any(not a and b for a, b in eng.inv_stats.values()):
            res.error = "unsupported: the invariant contradicts itself"
    res.time = time.time() - t0
    res.solver_time += Ctx.stats["feas_time"]
    res.touched = {f"{f.__module__}:{f.__qualname__}" for f in eng.touched} | eng.touched_names
    if res.error and res.error.startswith(("unsupported", "engine", "z3", "recursion", "verifier")):
        res.add("all paths explored", "undecided", dict(info=res.error))
    elif not res.error:
        res.add("all paths explored", "proved", backend="explorer")
    return res


def _owned(o, what, ao, aw):
    a, _, w = aw.partition(".")
    if w != what or not isinstance(ao, Obj) or not z3.is_app(o.ref) or o.ref.num_args() != 1:
        return False
    ref = o.ref
    if ref.decl().name().startswith("tup") and z3.is_app(ref.arg(0)) and ref.arg(0).num_args() == 1:
        ref = ref.arg(0)            # a component of the tuple that is attribute a
    nm = ref.decl().name().split("/")[0]
    return nm.startswith("attr.") and nm.endswith("." + a) and ref.arg(0).eq(ao.ref)


def lemma(name, fn, props=(), timeout=10000):
    """fn() -> (assumptions, goal) : a pure logical lemma."""
    LEMMAS.append((name, fn, tuple(props), timeout))


LEMMAS = []
