"""AST interpreter over host values (one path at a time)."""
import ast
import builtins
import collections
import enum
import functools
import re
import operator
import sys
import types
import z3
from .core import *
from .core import I, B, R, STR, F64, V
from .ops import *
from .ops import _has_user
from .shapes import attr_shape, class_shape, uf

NATIVE_BIN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv,
              "//": operator.floordiv, "%": operator.mod, "**": operator.pow,
              "<<": operator.lshift, ">>": operator.rshift, "&": operator.and_,
              "|": operator.or_, "^": operator.xor}
OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
       ast.Mod: "%", ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&",
       ast.BitOr: "|", ast.BitXor: "^"}


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


# ------------------------------------------------------------ source access
_files = {}


def file_index(fname):
    if fname not in _files:
        with open(fname, encoding="utf-8") as f:
            tree = ast.parse(f.read(), fname)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                ln = min([n.lineno] + [d.lineno for d in n.decorator_list])
                idx[(n.name, ln)] = n
                idx[(n.name, n.lineno)] = n
            elif isinstance(n, ast.Lambda):
                idx.setdefault(("<lambda>", n.lineno), []).append(n)
        _files[fname] = idx
    return _files[fname]


def fn_ast(fn):
    co = fn.__code__
    idx = file_index(co.co_filename)
    n = idx.get((co.co_name, co.co_firstlineno))
    if isinstance(n, list):
        cands = [x for x in n if [a.arg for a in x.args.args] == list(co.co_varnames[:co.co_argcount])]
        if len(cands) != 1:
            raise Unsupported("ambiguous lambda")
        return cands[0]
    if n is None:
        raise Unsupported(f"no source for {fn.__qualname__}")
    return n


INTERP_ROOTS = ()          # file prefixes whose functions are interpreted


def interpretable(fn):
    return isinstance(fn, types.FunctionType) and \
        any(fn.__code__.co_filename.startswith(r) for r in INTERP_ROOTS)


def owner_of(fn):
    """Class in whose body fn is defined (for super())."""
    q = fn.__qualname__.split(".")
    if len(q) < 2 or "<locals>" in q:
        return None
    m = sys.modules.get(fn.__module__)
    o = m
    for p in q[:-1]:
        o = getattr(o, p, None)
        if o is None:
            return None
    return o if isinstance(o, type) else None


# ------------------------------------------------------------ frames
class Frame:
    __slots__ = ("env", "globs", "owner", "fn", "loops", "parent_env", "loop_ord")

    def __init__(self, env, globs, owner, fn, parent_env=None):
        self.env, self.globs, self.owner, self.fn = env, globs, owner, fn
        self.parent_env = parent_env
        self.loop_ord = 0

    def get(self, name):
        if name in self.env:
            v = self.env[name]
            if v is UNBOUND:
                raise PyExc(UnboundLocalError, (name,))
            return v
        e = self.parent_env
        while e is not None:
            if name in e.env:
                return e.env[name]
            if e.parent_env is None and name in e.globs:
                return e.globs[name]
            e = e.parent_env
        if name in self.globs:
            return self.globs[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyExc(NameError, (name,))

    def set(self, name, v):
        ctx().set_dict(self.env, name, v)


UNBOUND = object()


# ------------------------------------------------------------ calling
def bind_args(a, args, kw, defaults, kwdefaults, what):
    """ast.arguments -> env dict."""
    env = {}
    pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
    args = list(args)
    kw = dict(kw)
    if len(args) > len(pos):
        if a.vararg is None:
            raise PyExc(TypeError, (what,))
        env[a.vararg.arg] = tuple(args[len(pos):])
        args = args[:len(pos)]
    elif a.vararg is not None:
        env[a.vararg.arg] = ()
    for n, v in zip(pos, args):
        env[n] = v
    nd = len(defaults)
    for i, n in enumerate(pos):
        if n in env:
            if n in kw and n not in [x.arg for x in a.posonlyargs]:
                raise PyExc(TypeError, (what,))
            continue
        if n in kw and n not in [x.arg for x in a.posonlyargs]:
            env[n] = kw.pop(n)
        elif i >= len(pos) - nd:
            env[n] = defaults[i - (len(pos) - nd)]
        else:
            raise PyExc(TypeError, (what,))
    for x in a.kwonlyargs:
        if x.arg in kw:
            env[x.arg] = kw.pop(x.arg)
        elif x.arg in kwdefaults:
            env[x.arg] = kwdefaults[x.arg]
        else:
            raise PyExc(TypeError, (what,))
    if a.kwarg is not None:
        d = new_dict()
        for k, v in kw.items():
            d.map = d.map.write(k, v)
        env[a.kwarg.arg] = d
    elif kw:
        raise PyExc(TypeError, (what, tuple(kw)))
    return env


def new_list(elems=(), cls=list):
    o = Obj(cls)
    o.seq = elems if isinstance(elems, Seq) else Seq.of(elems)
    return o


def new_dict(cls=dict):
    o = Obj(cls)
    o.map = Map()
    return o


def new_set(elems=(), cls=set):
    o = Obj(cls)
    m = Map()
    for e in elems:
        m = m.write(e, True)
    o.map = m
    return o


def has_yield(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def run_function(fn, args, kw=None, owner=None):
    """Interpret the body of a real function."""
    kw = kw or {}
    node = fn_ast(fn)
    c = ctx()
    if c.depth > 60:
        raise Unsupported("call depth")
    defaults = list(fn.__defaults__ or ())
    kwd = dict(fn.__kwdefaults__ or {})
    defaults = [native_to_host(d) for d in defaults]
    kwd = {k: native_to_host(v) for k, v in kwd.items()}
    env = bind_args(node.args, args, kw, defaults, kwd, fn.__qualname__)
    cells = {}
    if fn.__closure__:
        for nm, cell in zip(fn.__code__.co_freevars, fn.__closure__):
            try:
                cells[nm] = cell.cell_contents
            except ValueError:
                pass
    own = owner or owner_of(fn)
    pf = Frame(cells, fn.__globals__, own, None) if cells else None
    fr = Frame(env, fn.__globals__, own, fn, pf)
    c.engine.touched.add(fn)
    return run_body(node, fr)


def run_body(node, fr):
    c = ctx()
    c.depth += 1
    try:
        if isinstance(node, ast.Lambda):
            return ev(node.body, fr)
        if has_yield_shallow(node):
            raise Unsupported("generator function")
        try:
            block(node.body, fr)
        except Return as r:
            return r.v
        return None
    finally:
        c.depth -= 1


def has_yield_shallow(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def call_closure(cl, args, kw):
    node = cl.node
    nd = [*(cl.defaults or [])]
    env = bind_args(node.args, args, kw, nd, {}, cl.name)
    fr = Frame(env, cl.env.globs, cl.env.owner, cl.env.fn, cl.env)
    return run_body(node, fr)


def native_to_host(v):
    """Real object -> host value (containers become Obj)."""
    if type(v) is list:
        return new_list([native_to_host(x) for x in v])
    if type(v) is dict:
        o = new_dict()
        for k, x in v.items():
            o.map = o.map.write(native_to_host(k), native_to_host(x))
        return o
    if type(v) is set:
        return new_set([native_to_host(x) for x in v])
    if type(v) is tuple:
        return tuple(native_to_host(x) for x in v)
    return v


def call(f, args, kw=None):
    kw = kw or {}
    from . import models
    if isinstance(f, Poison):
        raise Unsupported("untracked: " + f.why)
    if isinstance(f, AbstractMethod):
        return f.con.apply_abstract(ctx(), f.o, f.name, args, kw)
    if isinstance(f, Closure):
        return call_closure(f, args, kw)
    if isinstance(f, Bound):
        return call_fn(f.func, [f.self_] + list(args), kw, f.owner)
    if isinstance(f, BuiltinMethod):
        return models.call_method(f.recv, f.name, list(args), kw)
    if isinstance(f, UFunc):
        return f.fn(*args)
    if isinstance(f, types.MethodType):
        return call_fn(f.__func__, [f.__self__] + list(args), kw, None)
    if isinstance(f, functools.partial):
        return call(f.func, list(f.args) + list(args), {**f.keywords, **kw})
    if isinstance(f, type):
        return models.construct(f, list(args), kw)
    if isinstance(f, types.GenericAlias) or type(f).__name__ in ("_GenericAlias",):
        return call(f.__origin__, args, kw)
    if isinstance(f, (types.FunctionType, types.BuiltinFunctionType, types.BuiltinMethodType)) or callable(f):
        if isinstance(f, Obj):
            return call_method(f, "__call__", args, kw)
        return call_fn(f, list(args), kw, None)
    if isinstance(f, Obj):
        return call_method(f, "__call__", args, kw)
    raise PyExc(TypeError, ("not callable",))


def call_fn(fn, args, kw, owner):
    from . import models
    c = ctx()
    con = c.engine.contract_for(fn, args)
    if con is not None:
        return con.apply(c, fn, args, kw)
    m = models.FUNC.get(fn) if _hashable(fn) else None
    if m is not None:
        return m(*args, **kw)
    if interpretable(fn):
        return run_function(fn, args, kw, owner)
    if all(is_concrete(a) for a in args) and all(is_concrete(a) for a in kw.values()) \
            and models.pure_native(fn):
        try:
            return native_to_host(fn(*args, **kw))
        except Exception as e:
            raise PyExc(type(e), e.args)
    if isinstance(getattr(fn, "__self__", None), re.Pattern):
        return models.re_concrete(fn.__self__, fn.__name__, args)
    raise Unsupported(f"call of {getattr(fn, '__qualname__', fn)}")


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def call_method(o, name, args, kw=None):
    return call(getattr_(o, name), args, kw)


# ------------------------------------------------------------ attributes
def lookup_mro(cls, name, after=None):
    mro = cls.__mro__
    if after is not None:
        mro = mro[mro.index(after) + 1:]
    for k in mro:
        if name in k.__dict__:
            return k.__dict__[name], k
    return None, None


BUILTIN_BASES = (list, tuple, dict, set, frozenset, collections.deque, str, int)
MISSING = object()


def bind_class_attr(raw, owner, o, cls, name):
    if isinstance(raw, types.FunctionType):
        return Bound(raw, o, owner)
    if isinstance(raw, property):
        return call_fn(raw.fget, [o], {}, owner)
    if isinstance(raw, staticmethod):
        return raw.__func__
    if isinstance(raw, classmethod):
        return Bound(raw.__func__, cls, owner)
    if isinstance(raw, (types.MethodDescriptorType, types.WrapperDescriptorType)):
        return BuiltinMethod(o, name)
    if isinstance(raw, functools.cached_property):
        return call_fn(raw.func, [o], {}, owner)
    if isinstance(raw, types.MemberDescriptorType):
        return MISSING
    return native_to_host(raw) if isinstance(raw, (list, dict, set, tuple)) else raw


def narrow(o, pred):
    """Split candidate classes of o by pred; returns pred truth on this path."""
    if o.cls is not None:
        return pred(o.cls)
    yes = [k for k in o.cands if pred(k)]
    no = [k for k in o.cands if not pred(k)]
    if not yes:
        return False
    if not no:
        return True
    c = ctx()
    r = c.branch(z3.Or(*[clsid_f(o.ref) == clsid(k) for k in yes]))
    keep = yes if r else no
    c.set_field(o, "cands", keep if len(keep) > 1 else None)
    if len(keep) == 1:
        c.set_field(o, "cls", keep[0])
    return r


def force_class(o):
    while o.cls is None:
        k = o.cands[0]
        if not narrow(o, lambda x: x is k):
            continue
    return o.cls


def getattr_(o, name, default=MISSING):
    c = ctx()
    if name == "__hash__" and isinstance(o, A) and o.res is None:
        from .models import hash_term
        return UFunc(lambda: S("int", hash_term(o)))
    o = resolve(o)
    if isinstance(o, Poison):
        raise Unsupported("untracked: " + o.why)
    if isinstance(o, ExcVal):
        if name == "args":
            if not o.exc.eargs:
                raise Unsupported("arguments of a built-in exception")
            return tuple(o.exc.eargs)
        raise Unsupported("attribute of a built-in exception")
    if isinstance(o, SuperObj):
        cls = o.obj if isinstance(o.obj, type) else force_class(o.obj)
        raw, k = lookup_mro(cls, name, after=o.owner)
        if raw is None:
            raise PyExc(AttributeError, (name,))
        if isinstance(raw, (types.MethodDescriptorType, types.WrapperDescriptorType, types.BuiltinFunctionType,
                            types.ClassMethodDescriptorType)) or name == "__new__":
            return BuiltinMethod(o.obj, "super." + name) if not isinstance(o.obj, type) \
                else BuiltinMethod(o, name)
        return bind_class_attr(raw, k, o.obj, cls, name)
    if isinstance(o, Obj):
        if name in o.attrs:
            v = o.attrs[name]
            # a write through a possible alias
            return v
        if name == "__class__":
            return force_class(o)
        # class-level properties first
        if o.cls is None:
            raws = {}
            for k in o.cands:
                raw, own = lookup_mro(k, name)
                raws.setdefault(id(raw), []).append(k)
            con = None
            if len(raws) > 1:
                con = c.engine.abstract_contract(o, name)
                if con is not None:
                    return abstract_attr(con, o, name)
                groups = list(raws.values())
                for g in groups[:-1]:
                    if narrow(o, lambda x: x in g):
                        break
        if o.cls is not None or len(raws) == 1:
            con = c.engine.abstract_contract(o, name)
            if con is not None and con.always:
                return abstract_attr(con, o, name)
        raw, own = lookup_mro(o.base, name)
        if raw is not None and isinstance(raw, (property, functools.cached_property)):
            return bind_class_attr(raw, own, o, o.base, name)
        if o.initial:
            if o.cls is None and not (o.shape and name in o.shape):
                # classes whose instances have different such attributes
                gs = {}
                for k in o.cands:
                    gs.setdefault((id(class_shape(k, name)[0]), class_shape(k, name)[1]), []).append(k)
                for g in list(gs.values())[:-1]:
                    if narrow(o, lambda x: x in g):
                        break
            sh, shn = attr_shape(o, name)
            if sh is MISSING:              # declared: instances have no such attribute
                if default is not MISSING:
                    return default
                raise PyExc(AttributeError, (name,))
            if sh is not None:
                # earlier write through another initial reference?
                for (wo, what) in reversed(c.writes + _parent_writes(c)):
                    if what == name and isinstance(wo, Obj) and wo is not o and wo.initial and \
                            name in wo.attrs:
                        if c.branch(wo.ref == o.ref):
                            return wo.attrs[name]
                t = uf(f"attr.{shn}.{name}", I, sh.sort)(o.ref)
                v = sh.wrap(t)
                c.set_attr(o, name, v)
                return v
        if raw is not None or (own is not None):
            v = bind_class_attr(raw, own, o, o.base, name)
            if v is not MISSING:
                return v
        if o.initial and o.base in (list, dict, tuple, set, frozenset):
            if default is not MISSING:
                return default
            raise PyExc(AttributeError, (name,))
        if o.initial and not o.extra.get("closed"):
            if default is not MISSING and o.cls is not None and not o.shape:
                pass
            raise Unsupported(f"attribute {o.base.__name__}.{name} has no declared shape")
        if default is not MISSING:
            return default
        raise PyExc(AttributeError, (name,))
    if isinstance(o, (S,)) or (isinstance(o, (str, bytes, int, float, tuple, decimal.Decimal))
                               and not isinstance(o, enum.Enum)):
        cls = PYCLS[o.k] if isinstance(o, S) else type(o)
        if hasattr(cls, name):
            if isinstance(getattr(cls, name), (types.GetSetDescriptorType,)):
                raise Unsupported("scalar attribute " + name)
            return BuiltinMethod(o, name)
        if default is not MISSING:
            return default
        raise PyExc(AttributeError, (name,))
    if o is None:
        if hasattr(None, name):
            return BuiltinMethod(o, name)
        if default is not MISSING:
            return default
        raise PyExc(AttributeError, (name,))
    if isinstance(o, (Closure, Bound, BuiltinMethod, UFunc)):
        if default is not MISSING:
            return default
        raise Unsupported("attribute of function value: " + name)
    if isinstance(o, type):
        raw, own = lookup_mro(o, name)
        if raw is None:
            mraw, _ = lookup_mro(type(o), name)
            if mraw is not None or hasattr(o, name):
                return getattr(o, name)
            if default is not MISSING:
                return default
            raise PyExc(AttributeError, (name,))
        if isinstance(raw, types.FunctionType):
            return Bound2(raw, own)
        if isinstance(raw, classmethod):
            return Bound(raw.__func__, o, own)
        if isinstance(raw, staticmethod):
            return raw.__func__
        if isinstance(raw, (types.MethodDescriptorType, types.WrapperDescriptorType)):
            return raw
        v = getattr(o, name)
        if isinstance(v, (list, dict, set, tuple)):
            return native_to_host(v)
        return v
    # real object (module, enum member, ...)
    try:
        v = getattr(o, name)
    except AttributeError:
        if default is not MISSING:
            return default
        raise PyExc(AttributeError, (name,))
    if isinstance(v, types.MethodType) and interpretable(v.__func__):
        return Bound(v.__func__, v.__self__, None)
    return v


class AbstractMethod:
    def __init__(self, con, o, name):
        self.con, self.o, self.name = con, o, name

    def __call__(self, *args, **kw):
        raise AssertionError


def Bound2(raw, own):
    return raw


def _parent_writes(c):
    r = []
    p = c.parent
    while p is not None:
        r = p.writes + r
        p = p.parent
    return r


def abstract_attr(con, o, name):
    """The abstract meaning of a method, or of the value of a property."""
    raw, own = lookup_mro(o.base, name)
    if raw is None and o.cands:
        raw, own = lookup_mro(o.cands[0], name)
    if isinstance(raw, (property, functools.cached_property)):
        return con.apply_abstract(ctx(), o, name, [], {})
    return AbstractMethod(con, o, name)


def setattr_(o, name, v):
    c = ctx()
    o = resolve(o)
    if isinstance(o, Obj):
        raw, own = lookup_mro(o.base, name)
        if isinstance(raw, property):
            if raw.fset is None:
                raise PyExc(AttributeError, (name,))
            call_fn(raw.fset, [o, v], {}, own)
            return
        if o.initial:
            c.write(o, name)
        c.set_attr(o, name, v)
        return
    raise Unsupported(f"attribute assignment on {o!r}")


def mutate(o, **fields):
    """Change the content (seq/map) of a container object."""
    c = ctx()
    if o.initial:
        c.write(o, "content")
        if not o.extra.get("dirty"):
            c.set_dict(o.extra, "dirty", True)
    else:
        c.write(o, "content")
    for k, v in fields.items():
        c.set_field(o, k, v)


# ------------------------------------------------------------ isinstance
def isinstance_(v, cls):
    if isinstance(cls, tuple):
        return any(isinstance_(v, k) for k in cls)
    if isinstance(cls, types.UnionType):
        return any(isinstance_(v, k) for k in cls.__args__)
    if not isinstance(cls, type):
        raise Unsupported(f"isinstance with {cls!r}")
    if isinstance(v, A) and v.res is None:
        # split only as much as needed
        sh = v.shape
        yes, no = [], []
        for k in sh.kinds:
            kc = type(None) if k == "none" else PYCLS[k]
            (yes if issubclass(kc, cls) else no).append(ISV[k](v.t))
        for rc, _ in sh.refs:
            f = z3.And(V.is_ref(v.t), clsid_f(V.rv(v.t)) == clsid(rc))
            (yes if issubclass(rc, cls) else no).append(f)
        if not yes:
            return False
        if not no:
            return True
        return ctx().branch(z3.Or(*yes))
    v = resolve(v)
    if isinstance(v, S):
        return issubclass(PYCLS[v.k], cls)
    if isinstance(v, Obj):
        return narrow(v, lambda k: issubclass(k, cls))
    if isinstance(v, (Closure, Bound, UFunc, BuiltinMethod)):
        return cls in (object, collections.abc.Callable)
    return isinstance(v, cls)


# ------------------------------------------------------------ statements
def block(stmts, fr):
    for s in stmts:
        exec_stmt(s, fr)


def exec_stmt(s, fr):
    c = ctx()
    if c.deadline and time.time() > c.deadline:
        raise Unsupported("time budget of the function exhausted")
    t = type(s)
    if t is ast.Expr:
        ev(s.value, fr)
    elif t is ast.Assign:
        v = ev(s.value, fr)
        for tg in s.targets:
            assign(tg, v, fr)
    elif t is ast.AnnAssign:
        if s.value is not None:
            assign(s.target, ev(s.value, fr), fr)
    elif t is ast.AugAssign:
        aug_assign(s, fr)
    elif t is ast.Return:
        raise Return(ev(s.value, fr) if s.value is not None else None)
    elif t is ast.If:
        block(s.body if truthy(ev(s.test, fr)) else s.orelse, fr)
    elif t is ast.For:
        from .loops import exec_for
        exec_for(s, fr)
    elif t is ast.While:
        from .loops import exec_while
        exec_while(s, fr)
    elif t is ast.Break:
        raise Break()
    elif t is ast.Continue:
        raise Continue()
    elif t is ast.Pass:
        pass
    elif t is ast.Raise:
        exec_raise(s, fr)
    elif t is ast.Try:
        exec_try(s, fr)
    elif t is ast.FunctionDef:
        cl = Closure(s, fr, None, fr.owner, s.name)
        cl.defaults = [ev(d, fr) for d in s.args.defaults]
        fr.set(s.name, cl)
    elif t is ast.Delete:
        for tg in s.targets:
            delete(tg, fr)
    elif t is ast.Assert:
        if not truthy(ev(s.test, fr)):
            raise PyExc(AssertionError)
    elif t in (ast.Import, ast.ImportFrom):
        raise Unsupported("local import")
    elif t in (ast.Global, ast.Nonlocal):
        raise Unsupported("global/nonlocal")
    else:
        raise Unsupported("statement " + t.__name__)


def exec_raise(s, fr):
    if s.exc is None:
        cur = getattr(ctx(), "cur_exc", None)
        if cur is None:
            raise Unsupported("bare raise")
        raise cur
    # an exception's message is not observed; evaluate arguments for their effects
    e = ev(s.exc, fr)
    if isinstance(e, type) and issubclass(e, BaseException):
        raise PyExc(e)
    if isinstance(e, Obj) and e.cls is not None and issubclass(e.cls, BaseException):
        raise PyExc(e.cls, (), e)
    if isinstance(e, BaseException):
        raise PyExc(type(e), e.args)
    if isinstance(e, ExcVal):
        raise e.exc
    raise Unsupported("raise of a non-exception")


class ExcVal:
    def __init__(self, exc):
        self.exc = exc


def exec_try(s, fr):
    c = ctx()
    try:
        try:
            block(s.body, fr)
        except PyExc as e:
            for h in s.handlers:
                if h.type is None:
                    ok = True
                else:
                    ty = ev(h.type, fr)
                    ty = ty if isinstance(ty, tuple) else (ty,)
                    ok = any(isinstance(k, type) and issubclass(e.cls, k) for k in ty)
                if ok:
                    if h.name:
                        fr.set(h.name, e.obj if e.obj is not None else ExcVal(e))
                    old = getattr(c, "cur_exc", None)
                    c.cur_exc = e
                    try:
                        block(h.body, fr)
                    finally:
                        c.cur_exc = old
                    break
            else:
                raise
        else:
            block(s.orelse, fr)
    except (PyExc, Return, Break, Continue):
        if s.finalbody:
            block(s.finalbody, fr)
        raise
    else:
        if s.finalbody:
            block(s.finalbody, fr)


def assign(tg, v, fr):
    t = type(tg)
    if t is ast.Name:
        fr.set(tg.id, v)
    elif t is ast.Attribute:
        setattr_(ev(tg.value, fr), tg.attr, v)
    elif t is ast.Subscript:
        from .models import setitem
        setitem(ev(tg.value, fr), ev_index(tg.slice, fr), v)
    elif t in (ast.Tuple, ast.List):
        vals = unpack(v, len(tg.elts), any(isinstance(e, ast.Starred) for e in tg.elts))
        for e, x in zip(tg.elts, vals):
            assign(e, x, fr)
    else:
        raise Unsupported("assignment target")


def unpack(v, n, star=False):
    v = resolve(v)
    if star:
        raise Unsupported("starred target")
    if isinstance(v, (str, bytes)) and not isinstance(v, S):
        v = tuple(v)
    s = as_seq(v)
    if s is None:
        from .models import iter_seq
        s = iter_seq(v)
    if s.concrete:
        if s.n != n:
            raise PyExc(ValueError)
        return s.elems
    if not ctx().branch(s.nz() == n):
        raise PyExc(ValueError)
    return [s.get(i) for i in range(n)]


def aug_assign(s, fr):
    from . import models
    op = OPS[type(s.op)]
    tg = s.target
    if isinstance(tg, ast.Name):
        cur = fr.get(tg.id)
        fr.set(tg.id, models.inplace(op, cur, ev(s.value, fr)))
    elif isinstance(tg, ast.Attribute):
        o = ev(tg.value, fr)
        cur = getattr_(o, tg.attr)
        setattr_(o, tg.attr, models.inplace(op, cur, ev(s.value, fr)))
    elif isinstance(tg, ast.Subscript):
        o = ev(tg.value, fr)
        i = ev_index(tg.slice, fr)
        cur = models.getitem(o, i)
        models.setitem(o, i, models.inplace(op, cur, ev(s.value, fr)))
    else:
        raise Unsupported("augmented target")


def delete(tg, fr):
    from . import models
    if isinstance(tg, ast.Subscript):
        models.delitem(ev(tg.value, fr), ev_index(tg.slice, fr))
    elif isinstance(tg, ast.Name):
        fr.set(tg.id, UNBOUND)
    elif isinstance(tg, ast.Attribute):
        o = ev(tg.value, fr)
        if o.initial:
            ctx().write(o, tg.attr)
        o.attrs.pop(tg.attr, None)
        raise Unsupported("del attribute")
    else:
        raise Unsupported("del target")


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


def ev_index(n, fr):
    if isinstance(n, ast.Slice):
        return Slice(ev(n.lower, fr) if n.lower else None, ev(n.upper, fr) if n.upper else None,
                     ev(n.step, fr) if n.step else None)
    return ev(n, fr)


# ------------------------------------------------------------ expressions
def ev(n, fr):
    return EV[type(n)](n, fr) if type(n) in EV else _unsup(n)


def _unsup(n):
    raise Unsupported("expression " + type(n).__name__)


def e_const(n, fr):
    return n.value


def e_name(n, fr):
    v = fr.get(n.id)
    if type(v) in (list, dict, set):
        return native_to_host_cached(v)
    return v


_native_cache = {}


def native_to_host_cached(v):
    return native_to_host(v)


def e_tuple(n, fr):
    return tuple(ev_elts(n.elts, fr))


def ev_elts(elts, fr):
    out = []
    for e in elts:
        if isinstance(e, ast.Starred):
            from .models import iter_seq
            s = iter_seq(ev(e.value, fr))
            if not s.concrete:
                raise Unsupported("starred symbolic sequence")
            out += s.elems
        else:
            out.append(ev(e, fr))
    return out


def e_list(n, fr):
    from .models import iter_seq
    parts = None
    acc = Seq.of([])
    for e in n.elts:
        if isinstance(e, ast.Starred):
            acc = acc.concat(iter_seq(ev(e.value, fr)))
        else:
            acc = acc.concat(Seq.of([ev(e, fr)]))
    return new_list(acc)


def e_dict(n, fr):
    o = new_dict()
    for k, v in zip(n.keys, n.values):
        if k is None:
            from .models import dict_update
            dict_update(o, ev(v, fr))
            continue
        kk = ev(k, fr)
        o.map = o.map.write(kk, ev(v, fr))
    return o


def e_set(n, fr):
    return new_set([ev(e, fr) for e in n.elts])


def e_attr(n, fr):
    return getattr_(ev(n.value, fr), n.attr)


def e_sub(n, fr):
    from .models import getitem
    return getitem(ev(n.value, fr), ev_index(n.slice, fr))


def e_call(n, fr):
    if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
        first = (fr.fn and fn_ast(fr.fn).args.args[0].arg)
        return SuperObj(fr.owner, fr.get(first))
    f = ev(n.func, fr)
    args = ev_elts_call(n.args, fr)
    kw = {}
    for k in n.keywords:
        if k.arg is None:
            d = resolve(ev(k.value, fr))
            if isinstance(d, Obj) and d.map is not None and d.map.base is None and d.map.concrete:
                for kk, vv in d.map.writes:
                    kw[kk] = vv
            else:
                kw["**"] = d
        else:
            kw[k.arg] = ev(k.value, fr)
    if "**" in kw:
        return call_starstar(f, args, kw)
    return call(f, args, kw)


def call_starstar(f, args, kw):
    d = kw.pop("**")
    if isinstance(f, Bound) and interpretable(f.func):
        node = fn_ast(f.func)
        if node.args.kwarg is not None and not kw:
            # whole dictionary becomes the kwarg parameter (a copy)
            cp = Obj(dict)
            cp.map = d.map
            named = [x.arg for x in node.args.args]
            env = bind_args(node.args, [f.self_] + list(args), {}, list(f.func.__defaults__ or ()), {}, "**")
            env[node.args.kwarg.arg] = cp
            for nm in named[1 + len(args):]:
                found, _ = d.map.lookup(nm)
                if found:
                    raise Unsupported("keyword collision")
            fr = Frame(env, f.func.__globals__, owner_of(f.func), f.func)
            return run_body(node, fr)
    raise Unsupported("**kwargs call")


def ev_elts_call(elts, fr):
    return ev_elts(elts, fr)


def e_binop(n, fr):
    a = ev(n.left, fr)
    b = ev(n.right, fr)
    op = OPS[type(n.op)]
    if op == "**":
        from .models import py_pow
        return py_pow(a, b)
    return arith(op, a, b)


def e_unary(n, fr):
    v = ev(n.operand, fr)
    if isinstance(n.op, ast.Not):
        t = truth_term(v)
        return (not t) if isinstance(t, bool) else sbool(z3.Not(t))
    v = resolve(v)
    if is_concrete(v):
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.UAdd):
            return +v
        return ~v
    if isinstance(v, S):
        if isinstance(n.op, ast.USub):
            if v.k == "flt":
                return S("flt", z3.fpNeg(v.t))
            if v.k in ("int", "dec"):
                return wrap_scalar(v.k, -v.t)
            if v.k == "bool":
                return wrap_scalar("int", -zint(v))
        if isinstance(n.op, ast.UAdd):
            return v
    raise Unsupported("unary operator")


def e_boolop(n, fr):
    isand = isinstance(n.op, ast.And)
    v = None
    for i, x in enumerate(n.values):
        v = ev(x, fr)
        if i == len(n.values) - 1:
            return v
        t = truthy(v)
        if isand and not t:
            return v if not (isinstance(v, S) and v.k == "bool") else False
        if not isand and t:
            return v if not (isinstance(v, S) and v.k == "bool") else True
    return v


def e_compare(n, fr):
    left = ev(n.left, fr)
    for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
        right = ev(r, fr)
        res = compare(op, left, right)
        if i == len(n.ops) - 1:
            return res if isinstance(res, (bool,)) else sbool(res)
        if not (res if isinstance(res, bool) else ctx().branch(res)):
            return False
        left = right


def compare(op, a, b):
    from . import models
    t = type(op)
    if t is ast.Eq:
        return py_eq(a, b)
    if t is ast.NotEq:
        if not isinstance(a, A) and not isinstance(b, A):
            x, y = resolve(a), resolve(b)
            if any(isinstance(o, Obj) and _has_user(o, "__ne__") for o in (x, y)):
                r = rich(x, y, "__ne__", "__ne__")
                if r is not NotImplemented:
                    return truth_term(r)
        return neg(py_eq(a, b))
    if t is ast.Is or t is ast.IsNot:
        r = py_is(a, b)
        return r if t is ast.Is else neg(r)
    if t is ast.In:
        return models.contains(b, a)
    if t is ast.NotIn:
        return neg(models.contains(b, a))
    return py_lt(a, b, {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[t])


def py_is(a, b):
    if isinstance(a, A) and a.res is None and b is None:
        return V.is_none(a.t)
    if isinstance(b, A) and b.res is None and a is None:
        return V.is_none(b.t)
    a, b = resolve(a), resolve(b)
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("untracked variable")
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a is b:
            return True
        if a.initial and b.initial:
            return a.ref == b.ref
        return False
    if isinstance(a, S) and isinstance(b, bool) and a.k == "bool":
        return a.t == b
    if isinstance(b, S) and isinstance(a, bool) and b.k == "bool":
        return b.t == a
    if isinstance(a, S) or isinstance(b, S):
        if isinstance(a, S) and isinstance(b, S):
            if a is b:
                return True
            if a.k == b.k == "bool":
                return a.t == b.t
            raise Unsupported("identity of scalars")
        o = b if isinstance(a, S) else a
        s = a if isinstance(a, S) else b
        if o is None or isinstance(o, (bool, Obj, type)) or isinstance(o, enum.Enum):
            return False
        raise Unsupported("identity of scalars")
    if isinstance(a, Obj) or isinstance(b, Obj):
        return False
    return a is b


def e_ifexp(n, fr):
    return ev(n.body if truthy(ev(n.test, fr)) else n.orelse, fr)


def e_lambda(n, fr):
    cl = Closure(n, fr, None, fr.owner)
    cl.defaults = [ev(d, fr) for d in n.args.defaults]
    return cl


def e_joined(n, fr):
    parts = []
    for v in n.values:
        if isinstance(v, ast.Constant):
            parts.append(v.value)
        else:
            parts.append(ev(v, fr))
    out = ""
    for p in parts:
        out = arith("+", out, p)
    return out


def e_fmt(n, fr):
    v = ev(n.value, fr)
    if n.format_spec is not None:
        spec = ev(n.format_spec, fr)
        v = resolve(v)
        if is_concrete(v) and is_concrete(spec):
            return format(v, spec)
        from .models import py_format
        return py_format(v, spec)
    if n.conversion == ord("r"):
        return S("str", ctx().fresh("repr", STR)) if not is_concrete(v) else repr(v)
    return py_str(v)


def e_listcomp(n, fr):
    from .loops import comp_seq
    return new_list(comp_seq(n.generators, n.elt, fr))


def e_setcomp(n, fr):
    from .loops import comp_seq
    from .models import construct
    return construct(set, [new_list(comp_seq(n.generators, n.elt, fr))], {})


def e_genexp(n, fr):
    from .loops import GenExp
    g = GenExp(n, fr)
    return g


def e_dictcomp(n, fr):
    from .loops import dict_comp
    return dict_comp(n, fr)


def e_starred(n, fr):
    raise Unsupported("starred")


def e_named(n, fr):
    v = ev(n.value, fr)
    assign(n.target, v, fr)
    return v


EV = {ast.Constant: e_const, ast.Name: e_name, ast.Tuple: e_tuple, ast.List: e_list,
      ast.Dict: e_dict, ast.Set: e_set, ast.Attribute: e_attr, ast.Subscript: e_sub,
      ast.Call: e_call, ast.BinOp: e_binop, ast.UnaryOp: e_unary, ast.BoolOp: e_boolop,
      ast.Compare: e_compare, ast.IfExp: e_ifexp, ast.Lambda: e_lambda,
      ast.JoinedStr: e_joined, ast.FormattedValue: e_fmt, ast.ListComp: e_listcomp,
      ast.SetComp: e_setcomp, ast.GeneratorExp: e_genexp, ast.DictComp: e_dictcomp,
      ast.NamedExpr: e_named}
