"""An independent evaluator of XPath 1.0 on a small instance tree, shared by the probes of C14 and C15.

Expressions are JSON: ["n", "1.5"], ["s", "text", quote], ["op", o, a, b], ["neg", a], ["f", name, args...],
["p", absolute, steps], ["flt", expr, predicates], ["pe", expr, steps]; a step is [axis, test, predicates], a test
null for node(), false for *, or [prefix, name]."""
import decimal
import math
from pyvc.probes import outcome
from yangson.enumerations import ContentType
from yangson.exceptions import XPathTypeError
from yangson.nodeset import NodeSet
from yangson.schemadata import SchemaContext
from yangson.xpathparser import XPathParser
from .util import model

M = """module m { yang-version 1.1; namespace "urn:m"; prefix m;
 container top { leaf s { type string; } leaf d { type decimal64 { fraction-digits 2; } } leaf i { type int32; } leaf b { type boolean; }
  leaf e { type empty; } leaf-list ll { type string; } leaf-list nn { type int32; } leaf-list bb { type boolean; }
  list li { key k; leaf k { type string; } leaf s { type string; } leaf i { type int32; } leaf b { type boolean; } leaf-list ll { type string; }
    container sub { leaf s { type string; } list li { key k; leaf k { type string; } leaf i { type int32; } } } }
  container sub { leaf s { type string; } leaf i { type int32; } list li { key k; leaf k { type string; } leaf s { type string; } } } } }"""
A = """module a { yang-version 1.1; namespace "urn:a"; prefix a; import m { prefix m; }
 augment /m:top { leaf s { type string; } leaf-list ll { type string; } container sub { leaf s { type string; } leaf w { type string; } } } }"""
STRS = ["", "a", "b", "ab", "1", "01", "1.0", "-1", " 2 ", "true", "false", "NaN", "Infinity", "1e3", "+1", "\u00e9", "x y", ".5", "5.", "0x1", "\t3\n"]
INTS = [0, 1, -1, 2, 3, 10, 2147483647]
DECS = ["0.0", "1.0", "1.5", "-0.25", "2.0", "10.1"]


def dm():
    return model({"m": M, "a": A}, [{"name": "m"}, {"name": "a"}])


class N:
    virtual = False
    """A node: qualified name, parent, children in order, and the value of a leaf."""

    def __init__(self, name, ns, parent, ptr, value=None, leaf=False):
        self.name, self.ns, self.parent, self.ptr, self.value, self.leaf, self.kids, self.sibs = name, ns, parent, ptr, value, leaf, [], None

    def all(self):
        yield self
        for k in self.kids:
            yield from k.all()


def build(raw):
    root = N(None, None, None, "/")
    fill(root, raw, None)
    complete(root)
    return root


def fill(n, raw, ns):
    base = "" if n.parent is None else n.ptr
    for nm, v in raw.items():
        p, s, loc = nm.partition(":")
        ns2, loc = (p, loc) if s else (ns, nm)
        ptr = f"{base}/{nm}"
        if isinstance(v, list) and v != [None]:
            es = []
            for i, x in enumerate(v):
                e = N(loc, ns2, n, f"{ptr}/{i}", x, not isinstance(x, dict))
                e.sibs = (es, i)
                es.append(e)
                if isinstance(x, dict):
                    fill(e, x, ns2)
            n.kids += es
        else:
            e = N(loc, ns2, n, ptr, v, not isinstance(v, dict))
            n.kids.append(e)
            if isinstance(v, dict):
                fill(e, v, ns2)


CONTAINERS = {None: [("m", "top")], "top": [("m", "sub"), ("a", "sub")], "li": [("m", "sub")]}


def complete(n):
    """Containers without presence are there even if the data do not have them."""
    if n.leaf or n.name == "li" and n.parent.name == "sub":
        return
    for ns, nm in CONTAINERS.get(n.name, ()):
        if not any((k.ns, k.name) == (ns, nm) for k in n.kids):
            k = N(nm, ns, n, ("" if n.parent is None else n.ptr) + "/" + (nm if ns == n.ns else f"{ns}:{nm}"))
            k.virtual = True
            n.kids.append(k)
    for k in n.kids:
        complete(k)


def text(n):
    """The canonical text of a leaf or an entry of a leaf-list."""
    if not n.leaf:
        raise Unspec()
    v = n.value
    if v == [None]:
        return ""
    if isinstance(v, bool):
        return "true" if v else "false"
    return str(v)


class Unspec(Exception):
    """The outcome is left open."""


class TypeErr(Exception):
    pass


class Set(list):
    """A node-set; open: the order is not determined."""
    open = False


def mk(nodes, open_=False):
    r = Set()
    for n in nodes:
        if not any(n is x for x in r):
            r.append(n)
    r.open = open_ and len(r) > 1
    return r


def first(ns):
    if ns.open:
        raise Unspec()
    return ns[0]


def num_of_text(s):
    t = s.strip(" \t\r\n")
    b = t[1:] if t[:1] == "-" else t
    i, dot, f = b.partition(".")
    if (i or f) and all(ch in "0123456789" for ch in i + f):
        return float(t)
    return math.nan


def node_num(n):
    if n.leaf and isinstance(n.value, bool):
        return 1.0 if n.value else 0.0
    return num_of_text(text(n))


def number(v):
    if isinstance(v, Set):
        return node_num(first(v)) if v else math.nan
    if isinstance(v, bool):
        return 1.0 if v else 0.0
    return v if isinstance(v, float) else num_of_text(v)


def string(v):
    if isinstance(v, Set):
        return text(first(v)) if v else ""
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return v
    if v != v:
        return "NaN"
    if math.isinf(v):
        return "Infinity" if v > 0 else "-Infinity"
    if v == int(v):
        return str(int(v))
    return format(decimal.Decimal(repr(v)), "f")


def boolean(v):
    if isinstance(v, (Set, str)):
        return len(v) > 0
    if isinstance(v, bool):
        return v
    return v == v and v != 0


def rounded(v):
    if v != v or math.isinf(v):
        return v
    f = decimal.Decimal(v)
    lo = math.floor(f)
    r = lo + 1 if f - lo >= decimal.Decimal("0.5") else lo
    return math.copysign(float(r), v) if r == 0 else float(r)


def fdiv(a, b):
    if b == 0:
        return math.nan if a != a or a == 0 else math.copysign(1, a) * math.copysign(1, b) * math.inf
    return a / b


def fmod(a, b):
    if a != a or b != b or math.isinf(a) or b == 0:
        return math.nan
    return math.fmod(a, b)


def mul(a, b):
    return a * b


class C:
    def __init__(self, node, origin, pos=1, size=1, open_=False):
        self.node, self.origin, self.pos, self.size, self.open = node, origin, pos, size, open_

    def at(self, n):
        """Only the context node is another one: position and size as the implementation leaves them are not used below."""
        return C(n, self.origin, self.pos, self.size, self.open)


def arith(o, a, b):
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: mul(a, b), "div": lambda: fdiv(a, b), "mod": lambda: fmod(a, b)}[o]()


def rel(o, x, y):
    return {"=": x == y, "!=": x != y, "<": None, ">": None}.get(o) if o in ("=", "!=") else \
        {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[o]


def compare(o, a, b):
    eq = o in ("=", "!=")
    if isinstance(a, Set) or isinstance(b, Set):
        if isinstance(a, bool) or isinstance(b, bool):
            x, y = boolean(a), boolean(b)
            return rel(o, x, y) if eq else rel(o, float(x), float(y))
        la = [n for n in a if n.leaf] if isinstance(a, Set) else None
        lb = [n for n in b if n.leaf] if isinstance(b, Set) else None
        if la is not None and lb is not None:
            if eq:
                return any(rel(o, text(x), text(y)) for x in la for y in lb)
            if any(isinstance(x.value, bool) for x in la + lb):
                raise Unspec()
            return any(rel(o, num_of_text(text(x)), num_of_text(text(y))) for x in la for y in lb)
        ls, other, left = (la, b, True) if la is not None else (lb, a, False)
        for n in ls:
            if eq and isinstance(other, str):
                x, y = text(n), other
            else:
                x, y = node_num(n), number(other)
            if rel(o, x, y) if left else rel(o, y, x):
                return True
        return False
    if eq:
        if isinstance(a, bool) or isinstance(b, bool):
            return rel(o, boolean(a), boolean(b))
        if isinstance(a, float) or isinstance(b, float):
            return rel(o, number(a), number(b))
        return rel(o, a, b)
    return rel(o, number(a), number(b))


def axis(n, ax):
    """Nodes on the axis, nearest first; is their order determined?"""
    if ax == "self":
        return [n]
    if ax == "child":
        return list(n.kids)
    if ax == "parent":
        return [n.parent] if n.parent else []
    if ax == "descendant":
        return [x for x in n.all() if x is not n]
    if ax == "descendant-or-self":
        return list(n.all())
    if ax in ("ancestor", "ancestor-or-self"):
        r = [n] if ax == "ancestor-or-self" else []
        while n.parent is not None:
            n = n.parent
            r.append(n)
        return r
    es, i = n.sibs or ([], 0)
    return es[i + 1:] if ax == "following-sibling" else es[:i][::-1]


REVERSE = ("ancestor", "ancestor-or-self", "preceding-sibling", "parent")


def step(st, x):
    ax, test, preds = st
    ns = axis(x.node, ax)
    if test is False:
        if any(n.parent is None for n in ns):
            raise Unspec()
    elif test is not None:
        ns = [n for n in ns if [n.ns, n.name] == test]
    open_ = ax in ("child", "descendant", "descendant-or-self") and (test in (None, False) or ax != "child")
    r = predicates(mk(ns, open_), preds, x)
    if ax in REVERSE:
        r = mk(r[::-1], r.open)
    return r


def predicates(ns, preds, x):
    if preds and not isinstance(ns, Set):
        raise TypeErr()
    for p in preds:
        keep = []
        for i, n in enumerate(ns):
            v = ev(p, C(n, x.origin, i + 1, len(ns), ns.open))
            if isinstance(v, float):
                if ns.open:
                    raise Unspec()
                if v == i + 1:
                    keep.append(n)
            elif boolean(v):
                keep.append(n)
        ns = mk(keep, ns.open)
    return ns


def steps(cur, sts, x):
    for st in sts:
        parts = [step(st, C(n, x.origin, 1, 1)) for n in cur]
        out = [n for p in parts for n in p]
        simple = st[0] in ("self",) or st[0] == "child" and not cur.open
        cur = mk(out, any(p.open for p in parts) or (len(parts) > 1 and not simple))
    return cur


def ev(e, x):
    k = e[0]
    if k == "n":
        return float(e[1])
    if k == "s":
        return e[1]
    if k == "neg":
        return -number(ev(e[1], x))
    if k == "p":
        root = x.node
        while e[1] and root.parent is not None:
            root = root.parent
        return steps(mk([root]), e[2], x)
    if k == "flt":
        return predicates(ev(e[1], x), e[2], x)
    if k == "pe":
        v = ev(e[1], x)
        if not isinstance(v, Set):
            raise TypeErr()
        return steps(v, e[2], x)
    if k == "op":
        o = e[1]
        if o == "or":
            return boolean(ev(e[2], x)) or boolean(ev(e[3], x))
        if o == "and":
            return boolean(ev(e[2], x)) and boolean(ev(e[3], x))
        a, b = ev(e[2], x), ev(e[3], x)
        if o == "|":
            if not isinstance(a, Set) or not isinstance(b, Set):
                raise TypeErr()
            return mk(list(a) + list(b), True)
        if o in ("=", "!=", "<", "<=", ">", ">="):
            return compare(o, a, b)
        return arith(o, number(a), number(b))
    return call(e[1], e[2:], x)


def nodeset(v):
    if not isinstance(v, Set):
        raise TypeErr()
    return v


def call(f, args, x):
    if f == "position" and x.open:
        raise Unspec()
    if f in ("true", "false", "position", "last", "current"):
        return {"true": lambda: True, "false": lambda: False, "position": lambda: float(x.pos), "last": lambda: float(x.size),
                "current": lambda: mk([x.origin])}[f]()
    if f == "count":
        return float(len(nodeset(ev(args[0], x))))
    if f == "sum":
        ns = nodeset(ev(args[0], x))
        t = [node_num(n) for n in ns]
        if any(abs(v) > 2 ** 40 or v * 4 != int(v * 4) for v in t if v == v):
            raise Unspec()          # how a sum rounds is left open
        return math.fsum(t) if t else 0.0
    if f == "local-name":
        if args:
            ns = nodeset(ev(args[0], x))
            if not ns:
                return ""
            n = first(ns)
        else:
            n = x.node
        return n.name or ""
    vs = [ev(a, x) for a in args]
    if f == "boolean":
        return boolean(vs[0])
    if f == "not":
        return not boolean(vs[0])
    if f == "number":
        return number(vs[0]) if vs else node_num(x.node)
    if f in ("floor", "ceiling", "round"):
        v = number(vs[0])
        if f == "round":
            return rounded(v)
        if v != v or math.isinf(v):
            return v
        r = math.floor(v) if f == "floor" else math.ceil(v)
        return math.copysign(0.0, v) if r == 0 else float(r)
    s = [string(v) for v in vs] if f != "substring" else [string(vs[0])]
    if not s and f in ("string", "string-length", "normalize-space"):
        s = [text(x.node)]
    if f == "string":
        return s[0]
    if f == "string-length":
        return float(len(s[0]))
    if f == "normalize-space":
        t, pend = "", ""
        for ch in s[0]:
            if ch in " \t\r\n":
                pend = " "
            else:
                t += (pend if t else "") + ch
                pend = ""
        return t
    if f == "concat":
        return "".join(s)
    if f == "contains":
        return s[1] in s[0]
    if f == "starts-with":
        return s[0][:len(s[1])] == s[1]
    if f in ("substring-before", "substring-after"):
        for i in range(len(s[0]) + 1):
            if s[0][i:i + len(s[1])] == s[1]:
                return s[0][:i] if f == "substring-before" else s[0][i + len(s[1]):]
        return ""
    if f == "translate":
        return "".join(ch if ch not in s[1] else s[2][s[1].index(ch):s[1].index(ch) + 1] for ch in s[0])
    if f == "substring":
        a = rounded(number(vs[1]))
        b = a + rounded(number(vs[2])) if len(vs) > 2 else math.inf
        return "".join(ch for p, ch in enumerate(s[0], 1) if p >= a and (len(vs) < 3 or p < b))
    raise Unspec()


PREC = {"or": 0, "and": 1, "=": 2, "!=": 2, "<": 3, "<=": 3, ">": 3, ">=": 3, "+": 4, "-": 4, "*": 5, "div": 5, "mod": 5}


def show(e, lvl=0):
    """XPath text; parentheses only where precedence asks for them."""
    k = e[0]
    if k == "n":
        return e[1]
    if k == "s":
        return e[2] + e[1] + e[2]
    if k == "neg":
        t = "- " + show(e[1], 7)
        return "(" + t + ")" if lvl > 6 else t
    if k == "p":
        return ("/" if e[1] else "") + "/".join(show_step(s) for s in e[2]) if e[2] or e[1] else "."
    if k == "flt":
        return "(" + show(e[1]) + ")" + "".join("[" + show(p) + "]" for p in e[2])
    if k == "pe":
        return "(" + show(e[1]) + ")/" + "/".join(show_step(s) for s in e[2])
    if k == "op":
        o = e[1]
        if o == "|":
            t, p = show(e[2], 9) + " | " + show(e[3], 9), 8
        else:
            p = PREC[o]
            t = show(e[2], p) + " " + o + " " + show(e[3], p + 1)
        return "(" + t + ")" if lvl > p else t
    return e[1] + "(" + ", ".join(show(a) for a in e[2:]) + ")"


def show_step(s):
    ax, test, preds = s
    pr = "".join("[" + show(p) + "]" for p in preds)
    t = "node()" if test is None else "*" if test is False else (test[1] if test[0] == "m" else ":".join(test))
    if not pr and test is None and ax in ("self", "parent"):
        return "." if ax == "self" else ".."
    return ("" if ax == "child" else ax + "::") + t + pr


# ---------------------------------------------------------------- trees and expressions
def tree(r):
    def some(d):
        ks = [k for k in d if r.random() < .7]
        r.shuffle(ks)
        return {k: d[k]() for k in ks}

    def s():
        return r.choice(STRS)

    def keyed(mkone, n):
        ks = r.sample(["a", "b", "1", "2", "x y", "3"], r.randrange(n + 1))
        return [{"k": k, **mkone()} for k in ks]
    some_s = lambda: r.sample(STRS, r.randrange(1, 4))
    inner = lambda: some({"s": s, "li": lambda: keyed(lambda: some({"i": lambda: r.choice(INTS)}), 3)})
    entry = lambda: some({"s": s, "i": lambda: r.choice(INTS), "b": lambda: r.random() < .5, "ll": some_s, "sub": inner})
    top = some({"s": s, "d": lambda: r.choice(DECS), "i": lambda: r.choice(INTS), "b": lambda: r.random() < .5, "e": lambda: [None],
                "ll": some_s, "nn": lambda: r.sample(INTS, r.randrange(1, 4)), "bb": lambda: r.sample([True, False], r.randrange(1, 3)),
                "li": lambda: keyed(entry, 4),
                "sub": lambda: some({"s": s, "i": lambda: r.choice(INTS), "li": lambda: keyed(lambda: some({"s": s}), 3)}),
                "a:s": s, "a:ll": some_s, "a:sub": lambda: some({"s": s, "w": s})})
    return {"m:top": top}


NUMS = ["0", "1", "2", "3", "0.5", "1.5", "2.5", "10", "100000000000000000000", "0.1", "4503599627370497.5", ".25", "7.", "0.49999999999999994"]


def num(r, d, paths):
    k = r.random()
    if d <= 0 or k < .3:
        return ["n", r.choice(NUMS)]
    if k < .4:
        return ["op", "div", ["n", r.choice("01")], ["n", "0"]]
    if k < .5:
        return ["neg", any_(r, d - 1, paths)]
    if k < .75:
        return ["op", r.choice(["+", "-", "*", "div", "mod"]), any_(r, d - 1, paths), any_(r, d - 1, paths)]
    if k < .9:
        return ["f", r.choice(["floor", "ceiling", "round", "round", "number", "string-length"]), any_(r, d - 1, paths)]
    return ["f", r.choice(["count", "sum"]), set_(r, d - 1, paths) if r.random() < .9 else any_(r, d - 1, paths)] if paths else ["f", "number", any_(r, d - 1, paths)]


def lit(r):
    t = r.choice(STRS + ["abcab", "aabb", "12345", "  a  b ", "-", "'q", 'd"', "translate"])
    return ["s", t, '"' if "'" in t else "'" if '"' in t else r.choice("'\"")]


def str_(r, d, paths):
    k = r.random()
    if d <= 0 or k < .3:
        return lit(r)
    a = lambda: any_(r, d - 1, paths)
    if k < .4:
        return ["f", "concat", a(), a()] + [a() for _ in range(r.randrange(2))]
    if k < .6:
        return ["f", "substring", lit(r) if r.random() < .5 else a(), num(r, d - 1, paths)] + ([num(r, d - 1, paths)] if r.random() < .6 else [])
    if k < .7:
        return ["f", "translate", lit(r), lit(r), lit(r)] if r.random() < .5 else ["f", "translate", a(), a(), a()]
    if k < .8:
        return ["f", r.choice(["substring-before", "substring-after"]), a(), a()]
    return ["f", r.choice(["string", "normalize-space"]), a()]


def bool_(r, d, paths):
    k = r.random()
    if d <= 0 or k < .2:
        return ["f", r.choice(["true", "false"])]
    a = lambda: any_(r, d - 1, paths)
    if k < .35:
        return ["f", r.choice(["boolean", "not"]), a()]
    if k < .5:
        return ["f", r.choice(["contains", "starts-with"]), a(), a()]
    if k < .65:
        return ["op", r.choice(["and", "or"]), a(), a()]
    return ["op", r.choice(["=", "!=", "<", "<=", ">", ">="]), a(), a()]


AXES = ["child"] * 8 + ["self", "parent", "descendant", "descendant-or-self", "ancestor", "ancestor-or-self", "preceding-sibling", "following-sibling"]
NAMES = [["m", n] for n in ("s", "d", "i", "b", "e", "ll", "nn", "bb", "li", "li", "sub", "k", "top")] + [["a", "s"], ["a", "ll"], ["a", "sub"], ["a", "w"], ["m", "w"]]


def step_(r, d):
    ax = r.choice(AXES)
    test = r.choice(NAMES) if r.random() < .75 else r.choice([None, None, False])
    if ax in ("self", "parent") and r.random() < .7:
        test = None
    if ax.startswith(("prec", "foll")) and r.random() < .8:
        test = r.choice([None, False, ["m", "li"], ["m", "ll"]])
    return [ax, test, [pred(r, d - 1) for _ in range(r.choice([0, 0, 0, 1, 1, 2]))] if d > 0 else []]


def walk(r, n, k, d, sts=()):
    """Steps that mostly lead somewhere from the node."""
    sts, here = list(sts), n
    for _ in range(k):
        for _ in range(4):
            ax = r.choice(AXES)
            ns = axis(here, ax)
            if ns:
                break
        if not ns or r.random() < .07:
            sts.append(step_(r, d))
            continue
        here = r.choice(ns)
        test = r.choice([None, None, False]) if here.parent is None or r.random() < .25 else [here.ns, here.name]
        if here.parent is None:
            test = None
        was, r.node = r.node, here
        sts.append([ax, test, [pred(r, d - 1) for _ in range(r.choice([0, 0, 0, 1, 1, 2]))] if d > 0 else []])
        r.node = was
    return sts


def pred(r, d):
    k = r.random()
    if k < .35:
        return ["n", r.choice("0123")] if r.random() < .7 else r.choice([["f", "last"], ["f", "position"], ["n", "1.5"], ["op", "-", ["f", "last"], ["n", "1"]]])
    if k < .45:
        return ["op", r.choice(["=", "<", ">"]), ["f", "position"], r.choice([["n", "1"], ["n", "2"], ["f", "last"]])]
    if k < .75:
        return ["op", r.choice(["=", "!=", "<"]), ["p", 0, [["child", r.choice(NAMES), []]]], any_(r, d, True) if r.random() < .3 else r.choice([lit(r), ["n", r.choice(NUMS)]])]
    return any_(r, d, True)


def set_(r, d, paths=True):
    k = r.random()
    if k < .7 or d <= 0:
        n = getattr(r, "node", None)
        if n is not None and r.random() < .85:
            if r.random() < .3:
                while n.parent is not None:
                    n = n.parent
                n = n.kids[0]
                return ["p", 1, walk(r, n, r.choice([1, 1, 2, 3]), d, [["child", ["m", "top"], []]])]
            return ["p", 0, walk(r, n, r.choice([1, 1, 2, 3]), d)]
        if r.random() < .4:
            sts = [["child", ["m", "top"], []]] + [step_(r, d) for _ in range(r.choice([1, 1, 2, 2, 3]))]
            return ["p", 1, sts]
        return ["p", 0, [step_(r, d) for _ in range(r.choice([1, 1, 2, 3]))]]
    if k < .8:
        return ["op", "|", set_(r, d - 1), set_(r, d - 1)]
    if k < .87:
        return ["flt", set_(r, d - 1), [pred(r, d - 1) for _ in range(r.choice([1, 1, 2]))]]
    if k < .94:
        return ["pe", r.choice([["f", "current"], set_(r, d - 1)]), [step_(r, d - 1)]]
    return ["f", "current"]


def any_(r, d, paths):
    k = r.random()
    if paths and k < .35:
        return set_(r, d - 1)
    return r.choice([num, num, str_, bool_])(r, d, paths)


# ---------------------------------------------------------------- comparison
_memo = {}


def instance(raw):
    import json
    key = json.dumps(raw)
    if key not in _memo:
        if len(_memo) > 50:
            _memo.clear()
        _memo[key] = (dm().from_raw(raw), build(raw))
    return _memo[key]


def goto(inst, ptr):
    n = inst
    for p in [q for q in ptr.split("/") if q]:
        n = n[int(p)] if p.isdigit() else n[p]
    return n


def result(v):
    if isinstance(v, NodeSet):
        return ["set", [n.json_pointer() for n in v]]
    return [type(v).__name__, v]


def same(got, want):
    if isinstance(want, Set):
        return got[0] == "set" and sorted(got[1]) == sorted(n.ptr for n in want) and len(set(got[1])) == len(got[1])
    if got[0] != type(want).__name__:
        return False
    if isinstance(want, float):
        return repr(got[1]) == repr(want)
    return got[1] == want


def check(case):
    raw, ptr, e = case
    inst, root = instance(raw)
    node = next((n for n in root.all() if n.ptr == ptr and not n.virtual), None)
    if node is None:
        return None
    txt = show(e)
    try:
        want = ev(e, C(node, node))
    except Unspec:
        return None
    except TypeErr:
        want = TypeErr
    sd = dm().schema_data
    k, v = outcome(lambda: result(XPathParser(txt, SchemaContext(sd, "m", ("a", ""))).parse().evaluate(goto(inst, ptr))))
    if want is TypeErr:
        if k == "exc" and isinstance(v, XPathTypeError):
            return None
        return f"{txt} at {ptr} gives {v!r} instead of a type error"
    w = ["set", sorted(n.ptr for n in want)] if isinstance(want, Set) else want
    if k == "exc":
        return f"{txt} at {ptr} raises {v!r} instead of giving {w!r}"
    return None if same(v, want) else f"{txt} at {ptr} gives {v!r} instead of {w!r}"


# ---------------------------------------------------------------- well-formed cases
ARITY = {"true": (0,), "false": (0,), "position": (0,), "last": (0,), "current": (0,), "count": (1,), "sum": (1,), "local-name": (0, 1),
         "boolean": (1,), "not": (1,), "number": (0, 1), "floor": (1,), "ceiling": (1,), "round": (1,), "string": (0, 1), "string-length": (0, 1),
         "normalize-space": (0, 1), "concat": (2, 3, 4), "contains": (2,), "starts-with": (2,), "substring-before": (2,), "substring-after": (2,),
         "translate": (3,), "substring": (2, 3)}
OPS = ("or", "and", "=", "!=", "<", "<=", ">", ">=", "+", "-", "*", "div", "mod", "|")


def wf(e):
    k = e[0]
    if k == "n":
        return len(e) == 2 and e[1] in NUMS
    if k == "s":
        return len(e) == 3 and e[2] in ("'", '"') and isinstance(e[1], str) and e[2] not in e[1]
    if k == "neg":
        return len(e) == 2 and wf(e[1])
    if k == "p":
        return len(e) == 3 and e[1] in (0, 1) and all(map(wf_step, e[2])) and (len(e[2]) > 0)
    if k == "flt":
        return len(e) == 3 and wf(e[1]) and all(map(wf, e[2]))
    if k == "pe":
        return len(e) == 3 and wf(e[1]) and len(e[2]) > 0 and all(map(wf_step, e[2]))
    if k == "op":
        return len(e) == 4 and e[1] in OPS and wf(e[2]) and wf(e[3])
    return k == "f" and len(e) - 2 in ARITY.get(e[1], ()) and all(map(wf, e[2:]))


def wf_step(s):
    return len(s) == 3 and s[0] in AXES and (s[1] is None or s[1] is False or s[1] in NAMES) and all(map(wf, s[2]))


def wf_raw(v):
    """Only members the module defines, keys unique."""
    try:
        dm().from_raw(v).validate(ctype=ContentType.all)
        return True
    except Exception:
        return False


def checked(case):
    try:
        raw, ptr, e = case
        ok = isinstance(ptr, str) and wf(e)
    except Exception:
        return None
    return check(case) if ok and (raw == {"m:top": {}} or wf_raw(raw)) else None
