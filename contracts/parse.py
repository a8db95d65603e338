"""Contracts of the parser primitives, exact in text and position (used by C09 and C17)."""
from .yang import *
from .inst import get, run, zb, ex, all_of, same_obj
import re
from pyvc import regex, models
from yangson.parser import Parser
from yangson.exceptions import EndOfInput, UnexpectedInput, ParserException

PP = ("C09", "C17")
PR = "yangson.parser:Parser."
attrs(Parser, input=Str, offset=Nat)
PAR = ObjS(Parser)
OFF = [(0, "offset")]
BLANK = regex.simple(re.compile(r"[ \n\t\r]*"))[2]
IDENT = regex.simple(re.compile("[a-zA-Z0-9_.-]*"))[2]
DIGITS = regex.simple(re.compile("[0-9]*"))[2]
FIRST = z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), z3.Re("_"))
DIGIT = z3.Range("0", "9")
BOTH = (EndOfInput, UnexpectedInput)


def text(p):
    return ops.raw_term(get(p, "input"))


def off(p):
    return ops.raw_term(get(p, "offset"))


def inside(c, self, *a):
    c.fact(off(self) <= z3.Length(text(self)))


def start(c, self, *a):
    return text(self), off(self)


def ch(t, o):
    return z3.SubString(t, o, 1)


def at_end(t, o):
    return o >= z3.Length(t)


def skip(t, o):
    """Where the blanks at o end."""
    return regex.run_end(BLANK, t, o)


def str_is(v, term):
    return zb(same_obj(v, S("str", term)))


def exact(spec, value=True):
    """spec(c, t, o, *args) -> (error class or None, value term, end): the outcome and the new position."""
    def ens(c, args, out, old):
        t, o = old
        e, v, end = spec(c, t, o, *args[1:])
        self = args[0]
        if e is not None:
            return [("refused", out.kind == "exc" and issubclass(out.value.cls, e))]
        if out.kind == "exc":
            return [("accepted", False)]
        return ([("what is read", zb(same_obj(out.value, v)))] if value else []) + [("where reading ends", off(self) == end)]
    return dict(ensures=ens, old=start, requires=inside, modifies=OFF)


def ss(x):
    return S("str", x)


def p_peek(c, t, o):
    return (EndOfInput, None, None) if c.branch(at_end(t, o)) else (None, ss(ch(t, o)), o)


def p_char(c, t, o, x):
    if c.branch(at_end(t, o)):
        return EndOfInput, None, None
    return (None, None, o + 1) if c.branch(ch(t, o) == ops.raw_term(x)) else (UnexpectedInput, None, None)


def p_one_of(c, t, o, x):
    if c.branch(at_end(t, o)):
        return EndOfInput, None, None
    return (None, ss(ch(t, o)), o + 1) if c.branch(z3.Contains(ops.raw_term(x), ch(t, o))) else (UnexpectedInput, None, None)


def p_test(c, t, o, x):
    x = ops.raw_term(x)
    if c.branch(z3.SubString(t, o, z3.Length(x)) == x):
        return None, True, o + z3.Length(x)
    return None, False, o


def p_remaining(c, t, o):
    return None, ss(z3.SubString(t, o, z3.Length(t) - o)), z3.Length(t)


def p_up_to(c, t, o, x):
    x = ops.raw_term(x)
    e = z3.IndexOf(t, x, o)
    if c.branch(e < 0):
        return EndOfInput, None, None
    return None, ss(z3.SubString(t, o, e - o)), e + 1


def p_skip(c, t, o):
    e = skip(t, o)
    return None, S("bool", e > o), e


def p_adv(c, t, o):
    e = skip(t, o + 1)
    return None, S("bool", e > o + 1), e


def p_ident(c, t, o):
    if not c.branch(z3.InRe(ch(t, o), FIRST)):
        return UnexpectedInput, None, None
    e = regex.run_end(IDENT, t, o + 1)
    return None, ss(z3.SubString(t, o, e - o)), e


def p_pname(c, t, o):
    x, v, e = p_ident(c, t, o)
    if x is not None:
        return x, None, None
    if not c.branch(ch(t, e) == z3.StringVal(":")):
        return None, (v, None), e
    x, w, e = p_ident(c, t, e + 1)
    return (x, None, None) if x is not None else (None, (w, v), e)


def p_uint(c, t, o):
    """Digits, and what they denote (no number for more digits than the interpreter converts)."""
    if not c.branch(z3.InRe(ch(t, o), DIGIT)):
        return UnexpectedInput, None, None
    e = regex.run_end(DIGITS, t, o + 1)
    try:
        return None, run(spec_int, ss(z3.SubString(t, o, e - o))), e
    except PyExc as x:
        return UnexpectedInput, None, None


def spec_int(s):
    return int(s)


class OneChar(type(Str)):
    pass


def one_char(c, self, x, *a):
    inside(c, self)
    c.fact(z3.Length(ops.raw_term(x)) == 1)


def not_at_end(c, self):
    inside(c, self)
    c.fact(off(self) < z3.Length(text(self)))


def contract(name, args, spec, value=True, requires=inside, raises=(), **kw):
    d = exact(spec, value)
    d["requires"] = requires
    Contract(PR + name, [PAR] + args, raises=raises, props=PP, **d, **kw)


contract("peek", [], p_peek, raises=(EndOfInput,))
contract("char", [Str], p_char, value=False, requires=one_char, raises=BOTH)
contract("one_of", [Str], p_one_of, raises=BOTH)
contract("test_string", [Str], p_test)
contract("remaining", [], p_remaining)
contract("up_to", [Str], p_up_to, requires=one_char, raises=(EndOfInput,))
contract("skip_ws", [], p_skip)
contract("adv_skip_ws", [], p_adv, requires=not_at_end)
contract("yang_identifier", [], p_ident, raises=(UnexpectedInput,))
contract("prefixed_name", [], p_pname, raises=BOTH)
contract("unsigned_integer", [], p_uint, raises=(UnexpectedInput,))
Contract(PR + "at_end", [PAR], requires=inside, old=start, props=PP, ensures=lambda c, args, out, old: [
    ("nothing is left", out.kind == "ret" and zb(ops.truth_term(out.value)) == (old[1] == z3.Length(old[0])))])
