"""C17: the YANG parser reads statements exactly as the grammar of RFC 7950 section 6 says.

The grammar is given by functions of text and position with defining axioms (positions only grow, so the
definitions are well founded): separators, comments, quoted and unquoted strings, statements."""
from .parse import *
from .common import use, new, ref
from .inst import is_new
from pyvc.inv import LoopInv
from yangson.statement import ModuleParser, Statement
from yangson.exceptions import InvalidArgument, ModuleNameMismatch, ModuleRevisionMismatch

P = ("C17",)
eq = ops.py_eq
SM = "yangson.statement:ModuleParser."
DFA = PR + "dfa"
attrs(ModuleParser, _arg=Str, _escape=Bool, name=Opt(Str), rev=Str)
MP = ObjS(ModuleParser)
SYN = (EndOfInput, UnexpectedInput)
S_ = z3.StringVal
CR, LF, SP, TAB = (S_(x) for x in "\r\n \t")
sym = lambda c: "%d" % c.engine.next_id()


def rec(name):
    """A recursive notion: (fails there, ends there)."""
    return uf(name + "_err", STR, I, B), uf(name + "_end", STR, I, I)


SEP, LINE, BLK, UNQ, DQ = (rec(x) for x in ("sep", "line", "block", "unq", "dq"))
QESC = uf("dq_escaped", STR, I, B)


def same_as(r, t, o, q):
    return z3.And(r[0](t, o) == r[0](t, q), z3.Implies(z3.Not(r[0](t, q)), r[1](t, o) == r[1](t, q)))


def then(r, t, o, s, p):
    """r at o is s at p and then r where s ends."""
    e = s[1](t, p)
    return z3.And(r[0](t, o) == z3.Or(s[0](t, p), r[0](t, e)),
                  z3.Implies(z3.Not(s[0](t, p)), z3.Implies(z3.Not(r[0](t, e)), r[1](t, o) == r[1](t, e))))


def ends(r, t, o, e):
    return z3.And(z3.Not(r[0](t, o)), r[1](t, o) == e)


def cases(*cs):
    """if c1 then f1, else if c2 then f2 ..."""
    out, left = [], []
    for cond, f in cs:
        out.append(z3.Implies(z3.And(*left, cond), f))
        left.append(z3.Not(cond))
    return z3.And(*out)


def one_in(x, chars):
    return z3.Or(*[x == S_(k) for k in chars])


def define(c, t, o):
    """Defining axioms at o of separators and comments."""
    x, y, n = ch(t, o), ch(t, o + 1), z3.Length(t)
    end, end1, true = o >= n, o + 1 >= n, z3.BoolVal(True)
    c.fact(cases(
        (end, SEP[0](t, o)),                                   # the end of the text is no place for a separator
        (one_in(x, " \t\n"), same_as(SEP, t, o, o + 1)),
        (z3.And(one_in(x, "\r/"), end1), SEP[0](t, o)),
        (z3.And(x == CR, y == LF), same_as(SEP, t, o, o + 2)),
        (z3.And(x == S_("/"), y == S_("/")), then(SEP, t, o, LINE, o + 2)),
        (z3.And(x == S_("/"), y == S_("*")), then(SEP, t, o, BLK, o + 2)),
        (true, ends(SEP, t, o, o))))
    c.fact(cases((end, LINE[0](t, o)), (x == LF, ends(LINE, t, o, o + 1)), (true, same_as(LINE, t, o, o + 1))))
    c.fact(cases((end, BLK[0](t, o)), (z3.And(x == S_("*"), y == S_("/")), ends(BLK, t, o, o + 2)), (true, same_as(BLK, t, o, o + 1))))


def define_unq(c, t, o):
    """An unquoted string ends before a delimiter, a blank or a comment."""
    x, y, n = ch(t, o), ch(t, o + 1), z3.Length(t)
    slash = x == S_("/")
    c.fact(cases((o >= n, UNQ[0](t, o)), (one_in(x, "; \t\r\n{}"), ends(UNQ, t, o, o)), (z3.And(slash, o + 1 >= n), UNQ[0](t, o)),
                 (z3.And(slash, one_in(y, "/*")), ends(UNQ, t, o, o)), (z3.BoolVal(True), same_as(UNQ, t, o, o + 1))))


def define_dq(c, t, o):
    """A double-quoted string ends at the first quote that is not escaped."""
    x, n = ch(t, o), z3.Length(t)
    bs = x == S_("\\")
    c.fact(cases((o >= n, DQ[0](t, o)), (x == S_('"'), z3.And(ends(DQ, t, o, o), z3.Not(QESC(t, o)))), (z3.And(bs, o + 1 >= n), DQ[0](t, o)),
                 (bs, z3.And(same_as(DQ, t, o, o + 2), QESC(t, o))),
                 (z3.BoolVal(True), z3.And(same_as(DQ, t, o, o + 1), QESC(t, o) == QESC(t, o + 1)))))


def begin(c, self, *a):
    inside(c, self)
    c.memo["from"] = off(self)


def some_state(k):
    def mk(c, v):
        for i in range(k - 1):
            if c.branch(z3.Bool("state_%d!%d" % (i, c.engine.next_id()))):
                return i
        return k - 1
    return mk


def somewhere(c, v):
    """The parser, somewhere in the text."""
    p = v.pre["self"]
    interp.setattr_(p, "offset", S("int", c.fresh("offset", I)))
    return p


def state_of(v):
    k = ops.resolve(v.state)
    if not isinstance(k, int):
        raise AttributeError("state")
    return k


def place(v, c):
    t, o, o0 = text(v.self), off(v.self), c.memo["from"]
    return t, o, o0, [("inside the text", z3.And(o0 <= o, o <= z3.Length(t)))]


def sep_inv(c, v, i, seq):
    t, o, o0, g = place(v, c)
    k = state_of(v)
    for q in (o0, o, o - 1):
        define(c, t, q)
    before = lambda x: [("in mid-token", z3.And(ch(t, o - 1) == S_(x), o - 1 >= o0))]
    if k == 0:
        return g + [("between tokens", same_as(SEP, t, o0, o))]
    if k in (1, 2):
        return g + before("\r/"[k - 1]) + [("token begun", same_as(SEP, t, o0, o - 1))]
    if k == 3:
        return g + [("in a line comment", then(SEP, t, o0, LINE, o))]
    if k == 4:
        return g + [("in a comment", then(SEP, t, o0, BLK, o))]
    return g + before("*") + [("in a comment after a star", then(SEP, t, o0, BLK, o - 1))]


def dfa_loop(inv, k, **more):
    return [LoopInv(dict({"self": somewhere, "state": some_state(k)}, **more), inv, target=DFA)]


def p_sep(c, t, o):
    define(c, t, o)
    if c.branch(SEP[0](t, o)):
        return EndOfInput, None, None
    e = SEP[1](t, o)
    return None, S("bool", e > o), e


def inside_too(d):
    """Besides: errors and ends are inside the text."""
    f = d["ensures"]

    def ens(c, args, out, old):
        o = off(args[0])
        return f(c, args, out, old) + [("the position stays in the text", z3.And(0 <= o, o <= z3.Length(old[0]), z3.Implies(z3.BoolVal(out.kind == "ret"), o >= old[1])))]
    return dict(d, ensures=ens)


def reader(name, spec, args=(), value=True, requires=begin, raises=SYN, **kw):
    d = inside_too(exact(spec, value))
    d.update(requires=requires)
    d.update(kw)
    Contract(SM + name, [MP] + list(args), raises=raises, props=P, **d)


def reads(spec):
    """Meaning at call sites of a function proved exact."""
    def apply(c, fn, a, kw):
        p = a[0]
        t, o = text(p), off(p)
        e, v, end = spec(c, t, o, *a[1:])
        if e is not None:
            q = c.fresh("at", I)
            c.fact(z3.And(0 <= q, q <= z3.Length(t)))
            interp.setattr_(p, "offset", S("int", q))
            raise PyExc(e)
        c.fact(z3.And(end >= o, end <= z3.Length(t)))
        interp.setattr_(p, "offset", S("int", end))
        return v
    return apply


reader("opt_separator", p_sep, raises=(EndOfInput,), loops=dfa_loop(sep_inv, 6))
use(SM + "opt_separator", reads(p_sep))


def p_separator(c, t, o):
    x, v, e = p_sep(c, t, o)
    if x is not None:
        return x, None, None
    return (None, None, e) if c.branch(e > o) else (UnexpectedInput, None, None)


def p_keyword(c, t, o):
    """[prefix ":"] keyword; something must follow."""
    x, v, e = p_ident(c, t, o)
    if x is not None:
        return x, None, None
    if c.branch(at_end(t, e)):
        return EndOfInput, None, None
    if not c.branch(ch(t, e) == S_(":")):
        return None, (None, v), e
    x, w, e = p_ident(c, t, e + 1)
    return (x, None, None) if x is not None else (None, (v, w), e)


reader("separator", p_separator, value=False)
reader("keyword", p_keyword)


# ---------------------------------------------------------------- arguments
TRIMMED, UNESC, ESCOK = uf("trimmed", STR, I, STR, STR), uf("unescaped", STR, STR), uf("escapes_known", STR, B)


def use_trim(c, fn, a, kw):
    return ss(TRIMMED(text(a[0]), ops.raw_term(a[2]), ops.raw_term(a[1])))


def use_unescape(c, fn, a, kw):
    s = ops.raw_term(a[-1])
    if not c.branch(ESCOK(s)):
        raise PyExc(InvalidArgument)
    return ss(UNESC(s))


use(SM + "_trim", use_trim)
use(SM + "unescape", use_unescape)


def p_unq(c, t, o):
    define_unq(c, t, o)
    if c.branch(UNQ[0](t, o)):
        return EndOfInput, None, None
    e = UNQ[1](t, o)
    return None, z3.SubString(t, o, e - o), e


def p_sq(c, t, o):
    e = z3.IndexOf(t, S_("'"), o + 1)
    if c.branch(e < 0):
        return EndOfInput, None, None
    return None, z3.SubString(t, o + 1, e - o - 1), e + 1


def p_dq(c, t, o):
    """The text up to the closing quote, trimmed and with escapes replaced."""
    define_dq(c, t, o + 1)
    if c.branch(DQ[0](t, o + 1)):
        return EndOfInput, None, None
    e = DQ[1](t, o + 1)
    s = TRIMMED(t, o + 1, z3.SubString(t, o + 1, e - o - 1))
    c.fact(z3.Implies(z3.Not(QESC(t, o + 1)), z3.And(ESCOK(s), UNESC(s) == s)))     # nothing to replace
    if not c.branch(ESCOK(s)):
        return InvalidArgument, None, None
    return None, UNESC(s), e + 1


def unq_inv(c, v, i, seq):
    t, o, o0, g = place(v, c)
    k = state_of(v)
    for q in (o0, o, o - 1):
        define_unq(c, t, q)
    if k == 0:
        return g + [("in the string", same_as(UNQ, t, o0, o))]
    return g + [("after a slash", z3.And(ch(t, o - 1) == S_("/"), o - 1 >= o0, same_as(UNQ, t, o0, o - 1)))]


def anywhere(c, v):
    p = somewhere(c, v)
    interp.setattr_(p, "_escape", S("bool", c.fresh("escape", B)))
    return p


def dq_inv(c, v, i, seq):
    t, o, o0, g = place(v, c)
    k = state_of(v)
    o0 = o0 + 1
    for q in (o0, o, o - 1):
        define_dq(c, t, q)
    seen = ops.truth_term(get(v.self, "_escape"))
    esc = lambda q: z3.Implies(z3.Not(DQ[0](t, o0)), QESC(t, o0) == z3.Or(seen, QESC(t, q)))
    g = [("inside the string", z3.And(o0 <= o, o <= z3.Length(t)))]
    if k == 0:
        return g + [("in the string", same_as(DQ, t, o0, o)), ("whether a backslash was met", esc(o))]
    return g + [("after a backslash", z3.And(ch(t, o - 1) == S_("\\"), o - 1 >= o0, same_as(DQ, t, o0, o - 1))),
                ("the backslash is noted", z3.And(seen, esc(o - 1)))]


def begun(c, self, *a):
    begin(c, self)
    c.memo["arg"] = ops.raw_term(get(self, "_arg"))
    c.fact(off(self) < z3.Length(text(self)))


def before(c, self, *a):
    return text(self), off(self), ops.raw_term(get(self, "_arg"))


def piece(spec, whole=False):
    """The piece is added to the argument (or is the argument)."""
    def ens(c, args, out, old):
        t, o, arg = old
        e, v, end = spec(c, t, o)
        self = args[0]
        q = off(self)
        g = [("the position stays in the text", z3.And(0 <= q, q <= z3.Length(t)))]
        if e is not None:
            return g + [("refused", out.kind == "exc" and issubclass(out.value.cls, e))]
        if out.kind == "exc":
            return [("accepted", False)]
        return g + [("where reading ends", q == end),
                    ("the argument", str_is(get(self, "_arg"), v if whole else z3.Concat(arg, v)))]
    return ens


ARGS = [(0, "offset"), (0, "_arg"), (0, "_escape")]


def at_quote(q):
    def req(c, self, *a):
        begun(c, self)
        c.fact(ch(text(self), off(self)) == S_(q))
    return req


Contract(SM + "unq_argument", [MP], requires=begun, old=before, modifies=ARGS, raises=SYN, props=P, ensures=piece(p_unq, True),
         loops=dfa_loop(unq_inv, 2))
Contract(SM + "sq_argument", [MP], requires=at_quote("'"), old=before, modifies=ARGS, raises=SYN, props=P, ensures=piece(p_sq))
Contract(SM + "dq_argument", [MP], requires=at_quote('"'), old=before, modifies=ARGS, raises=SYN + (InvalidArgument,), props=P,
         ensures=piece(p_dq), loops=[LoopInv({"self": anywhere, "state": some_state(2)}, dq_inv, target=DFA)])


def use_piece(spec, whole=False):
    def apply(c, fn, a, kw):
        p = a[0]
        t, o, arg = before(c, p)
        e, v, end = spec(c, t, o)
        if e is not None:
            q = c.fresh("at", I)
            c.fact(z3.And(0 <= q, q <= z3.Length(t)))
            interp.setattr_(p, "offset", S("int", q))
            raise PyExc(e)
        c.fact(z3.And(end >= o, end <= z3.Length(t)))
        interp.setattr_(p, "offset", S("int", end))
        interp.setattr_(p, "_arg", ss(v if whole else z3.Concat(arg, v)))
    return apply


use(SM + "unq_argument", use_piece(p_unq, True))
use(SM + "sq_argument", use_piece(p_sq))
use(SM + "dq_argument", use_piece(p_dq))
AERR, AKIND, AEND, ATEXT, ASUB = (uf("arg_" + x, STR, I, B, y) for x, y in (("err", B), ("error", I), ("end", I), ("text", STR), ("block", B)))
KINDS_ = (ParserException, InvalidArgument)


def p_arg(c, t, o, first, depth=0):
    """quoted *("+" quoted) or unquoted, then the ";" or "{" where reading ends: (error, (text, block follows), end)."""
    if depth:
        if c.branch(AERR(t, o, first)):
            return KINDS_[0 if c.branch(AKIND(t, o, first) == 0) else 1], None, None
        return None, (ATEXT(t, o, first), ASUB(t, o, first)), AEND(t, o, first)
    if c.branch(at_end(t, o)):
        return EndOfInput, None, None
    q = True
    if c.branch(ch(t, o) == S_("'")):
        x, v, e = p_sq(c, t, o)
    elif c.branch(ch(t, o) == S_('"')):
        x, v, e = p_dq(c, t, o)
    elif c.branch(first):
        q = False
        x, v, e = p_unq(c, t, o)
    else:
        return UnexpectedInput, None, None
    if x is not None:
        return x, None, None
    x, _, e = p_sep(c, t, e)
    if x is not None or c.branch(at_end(t, e)):
        return EndOfInput, None, None
    if c.branch(ch(t, e) == S_(";")):
        return None, (v, z3.BoolVal(False)), e
    if c.branch(ch(t, e) == S_("{")):
        return None, (v, z3.BoolVal(True)), e
    if not q or not c.branch(ch(t, e) == S_("+")):
        return UnexpectedInput, None, None
    x, _, e = p_sep(c, t, e + 1)
    if x is not None:
        return EndOfInput, None, None
    x, w, e = p_arg(c, t, e, z3.BoolVal(False), 1)
    return (x, None, None) if x is not None else (None, (z3.Concat(v, w[0]), w[1]), e)


def flag(a):
    return zb(ops.truth_term(a[1])) if len(a) > 1 else z3.BoolVal(True)


def use_arg(depth):
    def apply(c, fn, a, kw):
        p = a[0]
        t, o, arg = before(c, p)
        first = flag(list(a) + list(kw.values()))
        e, v, end = p_arg(c, t, o, first, 1)
        if e is not None:
            q = c.fresh("at", I)
            c.fact(z3.And(0 <= q, q <= z3.Length(t)))
            interp.setattr_(p, "offset", S("int", q))
            raise PyExc(UnexpectedInput if e is ParserException else e)
        c.fact(z3.And(end > o, end < z3.Length(t)))
        interp.setattr_(p, "offset", S("int", end))
        interp.setattr_(p, "_arg", ss(z3.Concat(arg, v[0])))
        return S("bool", v[1])
    return apply


def arg_req(c, self, first):
    begin(c, self)
    c.fact(z3.Implies(flag([self, first]), ops.raw_term(get(self, "_arg")) == S_("")))


def arg_ens(c, args, out, old):
    t, o, arg = old
    self = args[0]
    e, v, end = p_arg(c, t, o, flag(args))
    q = off(self)
    g = [("the position stays in the text", z3.And(0 <= q, q <= z3.Length(t)))]
    if e is not None:
        return g + [("refused", out.kind == "exc" and issubclass(out.value.cls, e))]
    if out.kind == "exc":
        return [("accepted", False)]
    return g + [("where reading ends", z3.And(q == end, q >= o, q < z3.Length(t))), ("the argument", str_is(get(self, "_arg"), z3.Concat(arg, v[0]))),
                ("whether a block follows", zb(ops.truth_term(out.value)) == v[1])]


Contract(SM + "argument", [MP, Bool], requires=arg_req, old=before, modifies=ARGS, raises=SYN + (InvalidArgument,), props=P, ensures=arg_ens,
         use=use_arg(1), recursive=True)


# ---------------------------------------------------------------- statements
ATOM = ObjS(Statement)
attrs(Statement, prefix=Opt(Str), keyword=Str, argument=Opt(Str), superstmt=Opt(ATOM), substatements=ListS(ATOM))
STERR, STKIND, STEND, STOBJ = (uf("stmt_" + x, STR, I, y) for x, y in (("err", B), ("error", I), ("end", I), ("obj", I)))
BLERR, BLKIND, BLEND, BLOBJ = (uf("blk_" + x, STR, I, y) for x, y in (("err", B), ("error", I), ("end", I), ("list", I)))


def failure(c, kind):
    return KINDS_[0 if c.branch(kind == 0) else 1]


def p_block(c, t, o):
    """The statements after "{" and the place after "}"."""
    if c.branch(BLERR(t, o)):
        return failure(c, BLKIND(t, o)), None, None
    return None, BLOBJ(t, o), BLEND(t, o)


def p_stmt(c, t, o):
    if c.branch(STERR(t, o)):
        return failure(c, STKIND(t, o)), None, None
    return None, STOBJ(t, o), STEND(t, o)


def at_call(spec, val):
    def apply(c, fn, a, kw):
        p = a[0]
        t, o = text(p), off(p)
        e, v, end = spec(c, t, o)
        if e is not None:
            q = c.fresh("at", I)
            c.fact(z3.And(0 <= q, q <= z3.Length(t)))
            interp.setattr_(p, "offset", S("int", q))
            raise PyExc(UnexpectedInput if e is ParserException else e)
        c.fact(z3.And(end > o, end <= z3.Length(t)))
        interp.setattr_(p, "offset", S("int", end))
        return val(v)
    return apply


use(SM + "statement", at_call(p_stmt, ATOM.wrap))
ALL = SYN + (InvalidArgument,)


def grown(c, before, after, ref_):
    n = before.nz()
    return [("one more statement", after.nz() == n + 1), ("statements read before remain", all_of(n, lambda i: ref(after.get(i)) == ref(before.get(i)))),
            ("the statement read", ref(after.get(n)) == ref_)]


def kw_new(c, e, sub):
    return e


def subs_inv(c, v, i, seq):
    p, res, m = v.self, v.res, c.memo
    t, o = text(p), off(p)
    ph = m["phase"] = m.get("phase", 0) + 1
    g = [("inside the text", z3.And(m["from"] <= o, o <= z3.Length(t)))]
    if ph == 1:
        x, _, e = p_sep(c, t, m["from"])
        return g + [("after the first separator", z3.BoolVal(x is None) if x is not None else o == e), ("nothing is read yet", res.seq.nz() == 0)]
    if ph == 2:
        m["o"], m["res"] = o, res.seq
        return g
    x, ob, e = p_stmt(c, t, m["o"])
    if x is not None:
        return [("goes on only after a statement", False)]
    x, _, e = p_sep(c, t, e)
    if x is not None:
        return [("goes on only after a separator", False)]
    return g + [("after the separator", o == e), ("not the closing brace", z3.Not(ch(t, m["o"]) == S_("}")))] + grown(c, m["res"], res.seq, ob)


def subs_ens(c, args, out, old):
    p, m = args[0], c.memo
    t, o0 = old
    q = off(p)
    g = [("the position stays in the text", z3.And(0 <= q, q <= z3.Length(t)))]
    x, _, e = p_sep(c, t, o0)
    if x is not None:
        return g + [("refused", out.kind == "exc" and issubclass(out.value.cls, x))]
    if "o" not in m:
        return g + [("fails only in the separator or in a statement", False)]
    o = m["o"]
    if c.branch(at_end(t, o)):
        return g + [("unfinished", out.kind == "exc" and issubclass(out.value.cls, EndOfInput))]
    if c.branch(ch(t, o) == S_("}")):
        if out.kind == "exc":
            return [("accepted", False)]
        s = out.value.seq
        return g + [("after the brace", q == o + 1), ("as many statements", s.nz() == m["res"].nz()),
                    ("the statements", all_of(s.nz(), lambda i: ref(s.get(i)) == ref(m["res"].get(i))))]
    x, ob, e = p_stmt(c, t, o)
    if x is None:
        x, _, e = p_sep(c, t, e)
    if x is None:
        return [("goes on", False)]
    return g + [("refused", out.kind == "exc" and issubclass(out.value.cls, x))]


def fresh_stmts(c, v):
    return interp.call(interp.getattr_(ListS(ATOM).make("res_" + sym(c)), "copy"), [], {})


Contract(SM + "substatements", [MP], requires=begin, old=start, modifies=ARGS, raises=ALL, props=P, ensures=subs_ens,
         loops=[LoopInv({"self": somewhere, "res": fresh_stmts}, subs_inv)])
use(SM + "substatements", at_call(p_block, lambda r: ListS(ATOM).wrap(r)))


def parent_inv(c, v, i, seq):
    """Every statement of the block gets the new one as its parent."""
    m = c.memo
    ph = m["phase"] = m.get("phase", 0) + 1
    if ph == 1 or ph == 2:
        return []
    return [("its parent", zb(same_obj(get(seq.get(i - 1), "superstmt"), v.res)))]


def stmt_spec(c, t, o):
    """(error, (prefix, keyword, argument or None, has a block, position of the block), end)."""
    x, kw, e = p_keyword(c, t, o)
    if x is not None:
        return x, None, None
    x, pres, s = p_sep(c, t, e)
    if x is not None or c.branch(at_end(t, s)):
        return EndOfInput, None, None
    arg = None
    if c.branch(ch(t, s) == S_(";")):
        blk = False
    elif c.branch(ch(t, s) == S_("{")):
        blk = True
    elif not c.branch(s > e):
        return UnexpectedInput, None, None
    else:
        x, v, s = p_arg(c, t, s, z3.BoolVal(True), 1)
        if x is not None:
            return x, None, None
        arg, blk = v[0], c.branch(v[1])
    if not blk:
        return None, (kw, arg, None), s + 1
    x, subs, e = p_block(c, t, s + 1)
    return (x, None, None) if x is not None else (None, (kw, arg, subs), e)


def stmt_ens(c, args, out, old):
    t, o = old
    p = args[0]
    q = off(p)
    g = [("the position stays in the text", z3.And(0 <= q, q <= z3.Length(t)))]
    x, v, e = stmt_spec(c, t, o)
    if x is not None:
        return g + [("refused", out.kind == "exc" and issubclass(out.value.cls, x))]
    if out.kind == "exc" or not is_new(out.value, Statement):
        return [("accepted", False)]
    kw, arg, subs = v
    st = out.value
    pre, kword = ops.resolve(get(st, "prefix")), get(st, "keyword")
    a = ops.resolve(get(st, "argument"))
    ss_ = ops.resolve(get(st, "substatements"))
    return g + [("where reading ends", q == e), ("prefix", zb(same_obj(pre, kw[0]))), ("keyword", zb(same_obj(kword, kw[1]))),
                ("argument", (a is None) if arg is None else (a is not None and str_is(a, arg))),
                ("substatements", ops.raw_term(interp.call(len, [ss_], {})) == 0 if subs is None else ref(ss_) == subs),
                ("no parent yet", get(st, "superstmt") is None)]


def parented(args, o, what):
    """The statements just read get their parent."""
    return isinstance(o, Obj) and o.base is Statement and what == "superstmt"


Contract(SM + "statement", [MP], requires=begin, old=start, modifies=ARGS + [parented], raises=ALL, props=P, ensures=stmt_ens,
         loops=[LoopInv({}, parent_inv)])


# ---------------------------------------------------------------- whole modules
COMMENT = re.compile(r"//[^\n]*|/\*.*?\*/", re.DOTALL)
use(ST + "find1", find1_use)


def rest_is_blank(p, s):
    """Nothing but complete comments and blanks."""
    return not COMMENT.sub("", s).strip()


def parse_ens(c, args, out, old):
    p = args[0]
    t = old[0]
    q = off(p)
    g = [("the position stays in the text", z3.And(0 <= q, q <= z3.Length(t)))]
    refused = lambda k: g + [("refused as documented", out.kind == "exc" and issubclass(out.value.cls, k))]
    x, _, o = p_sep(c, t, z3.IntVal(0))
    if x is not None:
        return refused(x)
    x, ob, e = p_stmt(c, t, o)
    if x is not None:
        return refused(x)
    st = ATOM.wrap(ob)
    kw = ops.raw_term(get(st, "keyword"))
    if ops.resolve(get(st, "prefix")) is not None or not c.branch(z3.Or(kw == S_("module"), kw == S_("submodule"))):
        return refused(UnexpectedInput)
    nm = ops.resolve(get(p, "name"))
    if nm is not None and not c.branch(zb(eq(get(st, "argument"), nm))):
        return refused(ModuleNameMismatch)
    rv = find1_use(c, None, [st, "revision"], {})
    if not c.branch(zb(eq("" if rv is None else get(rv, "argument"), get(p, "rev")))):
        return refused(ModuleRevisionMismatch)
    x, _, r = p_sep(c, t, e)
    if x is None:
        return refused(UnexpectedInput)
    if not c.branch(zb(ops.truth_term(run(rest_is_blank, p, ss(z3.SubString(t, e, z3.Length(t) - e)))))):
        return refused(EndOfInput)
    return [("the statement", out.kind == "ret" and ref(out.value) == ob)]


def at_start(c, self):
    begin(c, self)
    c.assume(off(self) == 0)


Contract(SM + "parse", [MP], requires=at_start, old=start, modifies=ARGS, raises=ALL + (ModuleNameMismatch, ModuleRevisionMismatch), props=P,
         ensures=parse_ens)


def find1_ens(c, args, out, old):
    self, kw, arg, pref, req = args
    subs = get(self, "substatements").seq
    hit = lambda s: z3.And(zb(eq(get(s, "keyword"), kw)), zb(eq(get(s, "prefix"), pref)), zb(eq(arg, None)) if ops.resolve(arg) is None else zb(eq(get(s, "argument"), arg)))
    none = all_of(subs.nz(), lambda i: z3.Not(hit(subs.get(i))))
    if out.kind == "exc":
        return [("nothing found", z3.And(none, zb(ops.truth_term(req))))]
    if out.value is None:
        return [("nothing found", z3.And(none, z3.Not(zb(ops.truth_term(req)))))]
    j = z3.Int("j!%d" % c.engine.next_id())
    r = out.value
    return [("it fits", hit(r)), ("it is a substatement and the first that fits",
            z3.Exists([j], z3.And(0 <= j, j < subs.nz(), ref(subs.get(j)) == ref(r), all_of(j, lambda i: z3.Not(hit(subs.get(i)))))))]


Contract(ST + "find1", [ATOM, Str, Opt(Str), Opt(Str), Bool], ensures=find1_ens, raises=(StatementNotFound,), props=P)
Contract(ST + "find_all", [ATOM, Str, Opt(Str)], spec=spec_find_all, props=P)
AbstractContract(Statement, "__str__", lambda c, o, a, kw: S("str", uf("stmt_text", I, STR)(o.ref)), always=True)
