"""C13: if-feature expressions evaluate by the grammar of RFC 7950, section 9 (if-feature-expr).

The grammar's value and extent are functions of the text and a position: for each nonterminal X there are
err_X, val_X and end_X.  Every method is proved to compute them from those of the nonterminals it uses."""
from .yang import *
from .inst import get, run, zb, ex, all_of
import re
from pyvc import regex
from yangson.schemadata import FeatureExprParser, ModuleData
from yangson.parser import Parser
from yangson.exceptions import *

P = ("C13",)
F = "yangson.schemadata:FeatureExprParser."
MDATA = ObjS(ModuleData)
MIDP = PairS()
attrs(ModuleData, main_module=MIDP, yang_id=MIDP, features=SetS(Str), prefix_map=DictS(Str, MIDP))
attrs(SchemaData, modules=DictS(MIDP, MDATA))
attrs(Parser, input=Str, offset=Nat)
FP = ObjS(FeatureExprParser)
attrs(FeatureExprParser, mid=MIDP, schema_data=SD)
DOC = (ParserException, UnknownPrefix, ModuleNotRegistered)
OFF = [(0, "offset")]
WS = z3.Union(*[z3.Re(x) for x in " \n\t\r"])


def text(p):
    return ops.raw_term(get(p, "input"))


def off(p):
    return ops.raw_term(get(p, "offset"))


def inside(c, self, *a):
    c.fact(off(self) <= z3.Length(text(self)))


def val(x):
    return uf("val_" + x, STR, I, B)


def end(x):
    return uf("end_" + x, STR, I, I)


def err(x):
    return uf("err_" + x, STR, I, B)


def nonterminal(x):
    def use_(c, fn, a, kw):
        p = a[0]
        t, o = text(p), off(p)
        if c.branch(err(x)(t, o)):
            raise PyExc(ParserException)
        e = end(x)(t, o)
        c.fact(z3.And(e > o, e <= z3.Length(t)))
        interp.setattr_(p, "offset", S("int", e))
        return S("bool", val(x)(t, o))
    return use_


def operator_use(c, fn, a, kw):
    p, k = a
    t, o = text(p), off(p)
    c.fact(o > 0)
    if c.branch(err("op_" + k)(t, o)):
        raise PyExc(InvalidFeatureExpression)
    if not c.branch(val("op_" + k)(t, o)):
        return False
    e = end("op_" + k)(t, o)
    c.fact(z3.And(e > o, e <= z3.Length(t)))
    interp.setattr_(p, "offset", S("int", e))
    return True


def start(c, self, *a):
    return text(self), off(self)


def binary(sub, op, join):
    """x [op rest]: the value of both sides joined, all of it consumed."""
    me = {"or": "disj", "and": "conj"}[op]

    def ens(c, args, out, old):
        t, o = old
        e1 = end(sub)(t, o)
        if c.branch(err(sub)(t, o)):
            return [("the left side is not a term", out.kind == "exc")]
        if c.branch(err("op_" + op)(t, e1)):
            return [("a broken operator is refused", out.kind == "exc")]
        if not c.branch(val("op_" + op)(t, e1)):
            return [("a single operand", out.kind == "ret")] + ([
                ("its value", ops.truth_term(out.value) == val(sub)(t, o)), ("its end", off(args[0]) == e1)]
                if out.kind == "ret" else [])
        e2 = end("op_" + op)(t, e1)
        if c.branch(err(me)(t, e2)):
            return [("the right side is not an expression", out.kind == "exc")]
        if out.kind != "ret":
            return [("accepted", False)]
        return [("both operands joined", ops.truth_term(out.value) == join(val(sub)(t, o), val(me)(t, e2))),
                ("all is read", off(args[0]) == end(me)(t, e2))]
    return ens


Contract(F + "_feature_disj", [FP], requires=inside, ensures=binary("conj", "or", z3.Or), old=start, raises=DOC, modifies=OFF,
         use=nonterminal("disj"), recursive=True, props=P)
Contract(F + "_feature_conj", [FP], requires=inside, ensures=binary("term", "and", z3.And), old=start, raises=DOC, modifies=OFF,
         use=nonterminal("conj"), recursive=True, props=P)


def sub(t, a, n):
    return z3.SubString(t, a, n)


def ws_at(t, o):
    return z3.InRe(sub(t, o, 1), WS)


BLANK = regex.simple(re.compile(r"[ \n\t\r]*"))[2]
IDENT = regex.simple(re.compile("[a-zA-Z0-9_.-]*"))[2]
FIRST = z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), z3.Re("_"))


def skip(t, o):
    """Where the blanks at o end."""
    return regex.run_end(BLANK, t, o)


def op_ens(word):
    def ens(c, args, out, old):
        self, _ = args
        t, o = old
        here = sub(t, o, len(word)) == z3.StringVal(word)
        spaced = z3.And(ws_at(t, o - 1), ws_at(t, o + len(word)))
        if not c.branch(here):
            return [("another word is left alone", out.kind == "ret" and z3.And(z3.Not(zb(ops.truth_term(out.value))), off(self) == o))]
        if not c.branch(spaced):
            return [("an operator stands between blanks", out.kind == "exc")]
        return [("an operator", out.kind == "ret" and zb(ops.truth_term(out.value)))] + (
            [("blanks after it are skipped", off(self) == skip(t, o + len(word)))] if out.kind == "ret" else [])
    return ens


def not_first(c, self, *a):
    inside(c, self)
    c.fact(off(self) > 0)


for w in ("or", "and"):
    Contract(F + "_operator", [FP, Const(w)], requires=not_first, ensures=op_ens(w), old=start, raises=DOC, modifies=OFF,
             use=operator_use, props=P, variant=w)


def term_ens(c, args, out, old):
    t, o = old
    self, = args
    neg = z3.And(sub(t, o, 3) == z3.StringVal("not"), ws_at(t, o + 3))
    if not c.branch(neg):
        bad = err("atom")(t, o)
        if out.kind == "exc":
            return [("refused only if it is no atom", bad)]
        return [("accepted only if it is an atom", z3.Not(bad)), ("value of the atom", ops.truth_term(out.value) == val("atom")(t, o)),
                ("end of the atom", off(self) == end("atom")(t, o))]
    e = skip(t, o + 3)
    bad = err("term")(t, e)
    if out.kind == "exc":
        return [("refused only if no term follows", bad)]
    return [("accepted only if a term follows", z3.Not(bad)), ("negation", ops.truth_term(out.value) == z3.Not(val("term")(t, e))),
            ("end of the term", off(self) == end("term")(t, e))]


Contract(F + "_feature_term", [FP], requires=inside, ensures=term_ens, old=start, raises=DOC, modifies=OFF, use=nonterminal("term"),
         recursive=True, props=P)


def registered(c, self, *a):
    """Main modules and imported modules are registered, once modules are loaded."""
    inside(c, self)
    m, x = z3.Const("rm!%d" % c.engine.next_id(), PAIR), z3.Const("rx!%d" % c.engine.next_id(), STR)
    mods = get(get(self, "schema_data"), "modules")
    has, val = uf("has", I, PAIR, B), uf("dget", I, PAIR, I)
    d = val(mods.ref, m)
    pm = uf("attr.ModuleData.prefix_map", I, I)(d)
    c.fact(z3.ForAll([m], z3.Implies(has(mods.ref, m), has(mods.ref, uf("attr.ModuleData.main_module", I, PAIR)(d)))))
    c.fact(z3.ForAll([m, x], z3.Implies(z3.And(has(mods.ref, m), uf("has", I, STR, B)(pm, x)),
                                        has(mods.ref, uf("dget", I, STR, PAIR)(pm, x)))))


def identifier(t, o):
    """(is one, where it ends)"""
    return z3.InRe(sub(t, o, 1), FIRST), regex.run_end(IDENT, t, o + 1)


def feature(c, self, name, prefix):
    """The feature is supported by the module its prefix denotes; None if that is not defined."""
    sd, mid = get(self, "schema_data"), get(self, "mid")
    mods = get(sd, "modules").map
    f, md = mods.lookup(mid)
    if not f:
        return None
    md = ops.resolve(md)
    if prefix is None:
        fid = get(md, "main_module")
    else:
        f, fid = get(md, "prefix_map").map.lookup(S("str", prefix))
        if not f:
            return None
    f, fd = mods.lookup(fid)
    return zb(ops.map_has_term(get(ops.resolve(fd), "features").map, name, STR)) if f else None


def atom_ens(c, args, out, old):
    t, o = old
    self, = args
    refused = [("what is no atom is refused", out.kind == "exc")]
    accepted = [("an atom is accepted", out.kind == "ret")]
    if c.branch(sub(t, o, 1) == z3.StringVal("(")):
        w = skip(t, o + 1)
        if c.branch(err("disj")(t, w)):
            return refused
        e = end("disj")(t, w)
        if not c.branch(sub(t, e, 1) == z3.StringVal(")")):
            return refused
        return accepted if out.kind == "exc" else [
            ("value in parentheses", ops.truth_term(out.value) == val("disj")(t, w)), ("blanks after it", off(self) == skip(t, e + 1))]
    ok, e = identifier(t, o)
    if not c.branch(ok):
        return refused
    name, prefix = sub(t, o, e - o), None
    if c.branch(sub(t, e, 1) == z3.StringVal(":")):
        ok, e2 = identifier(t, e + 1)
        if not c.branch(ok):
            return refused
        name, prefix, e = sub(t, e + 1, e2 - e - 1), name, e2
    v = feature(c, self, name, prefix)
    if v is None:
        return refused
    return accepted if out.kind == "exc" else [("whether the feature is supported", ops.truth_term(out.value) == v),
                                               ("blanks after the name", off(self) == skip(t, e))]


Contract(F + "_feature_atom", [FP], requires=registered, ensures=atom_ens, old=start, raises=DOC, modifies=OFF,
         use=nonterminal("atom"), recursive=True, props=P)


def parse_ens(c, args, out, old):
    t, o = old
    self, = args
    w = skip(t, z3.IntVal(0))
    bad = c.branch(err("disj")(t, w)) or not c.branch(skip(t, end("disj")(t, w)) == z3.Length(t))
    if bad or out.kind == "exc":
        return [("refused exactly if the text is not one expression between blanks", bad and out.kind == "exc")]
    return [("its value", ops.truth_term(out.value) == val("disj")(t, w))]


def at_start(c, self):
    c.assume(off(self) == 0)


def expr_use(c, fn, a, kw):
    p = a[0]
    key = (text(p), ref(get(p, "schema_data")), ops.pair_term(get(p, "mid")))
    if c.branch(uf("expr_err", STR, I, PAIR, B)(*key)):
        raise PyExc(ParserException)
    return S("bool", uf("expr_val", STR, I, PAIR, B)(*key))


Contract(F + "parse", [FP], requires=at_start, ensures=parse_ens, old=start, raises=DOC, modifies=OFF, use=expr_use, props=P)
use("yangson.statement:Statement.find_all", find_all_use)


def all_true(c, args, out, old):
    self, stmt, mid = args
    iffs = find_all_use(c, None, [stmt, "if-feature"], {})
    key = lambda j: (ops.raw_term(get(iffs.seq.get(j), "argument")), ref(self), ops.pair_term(mid))
    e, v = (lambda j, f=f: uf(f, STR, I, PAIR, B)(*key(j)) for f in ("expr_err", "expr_val"))
    n = iffs.seq.nz()
    if out.kind == "exc":
        return [("refused only for a broken expression", ex(iffs, lambda s: uf("expr_err", STR, I, PAIR, B)(
            ops.raw_term(get(s, "argument")), ref(self), ops.pair_term(mid))))]
    if c.branch(ops.truth_term(out.value)):
        return [("in effect only if all expressions are true", all_of(n, lambda j: z3.And(z3.Not(e(j)), v(j))))]
    return [("not in effect only if one is false", ex(iffs, lambda s: z3.Not(uf("expr_val", STR, I, PAIR, B)(
        ops.raw_term(get(s, "argument")), ref(self), ops.pair_term(mid)))))]


Contract("yangson.schemadata:SchemaData.if_features", [SD, STMT, MIDP], ensures=all_true, raises=DOC, props=P)
