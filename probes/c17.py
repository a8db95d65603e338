"""C17: texts rendered from statement trees, and mangled texts against an independent reading of RFC 7950 section 6."""
import random
import re
from pyvc.probes import probe, Skip, outcome
from yangson.exceptions import (EndOfInput, InvalidArgument, ModuleNameMismatch, ModuleRevisionMismatch, ParserException,
                                UnexpectedInput)
from yangson.statement import ModuleParser, Statement

def every(one):
    def gen(r):
        while True:
            yield one(r)
    return gen


# ------------------------------------------------------------ reference reader (RFC 7950, section 6)
class Bad(Exception):
    pass


class BadEscape(Exception):
    pass


ID = re.compile(r"[A-Za-z_][A-Za-z0-9_.\-]*")
SEP = re.compile(r"(?:[ \t\n]|\r\n|//[^\n]*\n|/\*(?:[^*]|\*(?!/))*\*/)*")
TAIL = re.compile(r"(?:[ \t\n]|\r\n|/\*(?:[^*]|\*(?!/))*\*/|//[^\n]*(?:\n|\Z))*\r?\Z")      # a lone CR at the end is tolerated
SQ = re.compile(r"'([^']*)'")
DQ = re.compile(r'"((?:[^"\\]|\\[\s\S])*)"')
UNQ = re.compile(r"(?:(?!/[/*])[^ \t\r\n;{}])+")
ESC = {"n": "\n", "t": "\t", '"': '"', "\\": "\\"}


def column(text, i):
    line = text[text.rfind("\n", 0, i) + 1:i]
    return len(line.expandtabs(8))


def trimmed(s, indent):
    lines = s.split("\n")
    out = []
    for j, ln in enumerate(lines):
        if j:
            w, k = 0, 0
            while k < len(ln) and w < indent and ln[k] in " \t":
                w += 8 if ln[k] == "\t" else 1
                k += 1
            ln = " " * max(0, w - indent) + ln[k:]
        if j + 1 < len(lines):
            ln = ln.rstrip(" \t\r")
        out.append(ln)
    return "\n".join(out)


def unescaped(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\":
            if i + 1 == len(s) or s[i + 1] not in ESC:
                raise BadEscape(s)
            out.append(ESC[s[i + 1]])
            i += 2
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def r_sep(t, i):
    return SEP.match(t, i).end()


def r_part(t, i):
    m = SQ.match(t, i)
    if m:
        return m[1], m.end()
    m = DQ.match(t, i)
    if m:
        return unescaped(trimmed(m[1], column(t, i) + 1)), m.end()
    raise Bad()


def r_stmt(t, i):
    m = ID.match(t, i)
    if not m:
        raise Bad()
    pref, kw, i = None, m[0], m.end()
    if t[i:i + 1] == ":":
        m = ID.match(t, i + 1)
        if not m:
            raise Bad()
        pref, kw, i = kw, m[0], m.end()
    j = r_sep(t, i)
    arg = None
    if t[j:j + 1] not in (";", "{"):
        if i == j:
            raise Bad()
        if t[j:j + 1] in ("'", '"') and t[j:j + 1]:
            arg, j = r_part(t, j)
            while True:
                j = r_sep(t, j)
                if t[j:j + 1] != "+":
                    break
                more, j = r_part(t, r_sep(t, j + 1))
                arg += more
        else:
            m = UNQ.match(t, j)
            if not m:
                raise Bad()
            arg, j = m[0], r_sep(t, m.end())
    subs = []
    if t[j:j + 1] == "{":
        j = r_sep(t, j + 1)
        while t[j:j + 1] != "}":
            s, j = r_stmt(t, j)
            subs.append(s)
            j = r_sep(t, j)
    elif t[j:j + 1] != ";":
        raise Bad()
    return [pref, kw, arg, subs], j + 1


def reference(t):
    tree, i = r_stmt(t, r_sep(t, 0))
    if tree[0] is not None or tree[1] not in ("module", "submodule") or not TAIL.match(t, i):
        raise Bad()
    return tree


# ------------------------------------------------------------ the code's reading
def as_tree(s, sup=None):
    assert isinstance(s, Statement)
    if s.superstmt is not sup:
        return ["wrong parent"]
    return [s.prefix, s.keyword, s.argument, [as_tree(x, s) for x in s.substatements]]


def revision(tree):
    for p, k, a, _ in tree[3]:
        if k == "revision" and p is None:
            return a
    return ""


def read(t, name, rev):
    p = ModuleParser(t, name, rev)
    return p, outcome(p.parse)


def judge(t, want):
    """Compare the code's reading with the wanted tree (None: refused, "esc": unknown escape)."""
    ok = isinstance(want, list)
    if ok and not isinstance(revision(want), str):
        raise Skip("revision without a date")
    p, (k, v) = read(t, None, revision(want) if ok else "")
    if k == "exc":
        if isinstance(v, (ModuleNameMismatch, ModuleRevisionMismatch)):
            if not ok:
                return f"{t!r} is read as a module"
            return f"{t!r}: {v!r}"
        if isinstance(v, RecursionError):
            raise Skip("too deep")
        if not isinstance(v, (ParserException, InvalidArgument)):
            return f"{t!r}: undocumented {v!r}"
        if isinstance(v, ParserException):
            o = v.parser.offset
            if not 0 <= o <= len(t):
                return f"{t!r}: the error points to {o}, outside the text"
            ln, col = v.parser.line_column()
            if not (1 <= ln <= t.count("\n") + 1 and 0 <= col <= len(t.split("\n")[ln - 1])) or \
                    sum(len(x) + 1 for x in t.split("\n")[:ln - 1]) + col != o:
                return f"{t!r}: line {ln} column {col} is not offset {o}"
            str(v)
        if ok:
            return f"{t!r} is refused: {v!r}"
        if want == "esc" and not isinstance(v, (InvalidArgument, ParserException)):
            return f"{t!r}: {v!r} for an unknown escape"
        return None
    if not ok:
        return f"{t!r} is accepted, not {'an unknown escape' if want == 'esc' else 'refused'}"
    got = as_tree(v)
    if got != want:
        return f"{t!r} is read as {got!r}, not {want!r}"
    return None


# ------------------------------------------------------------ rendering of trees
KWS = ["leaf", "description", "container", "type", "a", "_x", "b-c.d", "module", "must"]
CHARS = ["a", "b", "1", "/", "*", "+", ";", "{", "}", "'", '"', "\\", " ", "\t", "\n", ":", "é", "\u2028", "\U0001F600", "n", "t", "\\n", "//", "/*", "*/"]


def gen_arg(r):
    k = r.random()
    if k < .15:
        return None
    if k < .5:
        return "".join(r.choice("ab1:/-+.") for _ in range(r.randrange(1, 5)))
    return "".join(r.choice(CHARS) for _ in range(r.randrange(0, 7)))


def gen_tree(r, depth):
    return [r.choice([None, None, "p", "q.r"]), r.choice(KWS), gen_arg(r),
            [gen_tree(r, depth - 1) for _ in range(r.choice([0, 0, 1, 2, 3]) if depth else 0)]]


def gen_module(r):
    t = gen_tree(r, 3)
    t[0], t[1], t[2] = None, r.choice(["module", "submodule"]), "m"
    return t


COMMENTS = ["// c\n", "//\n", "/**/", "/* c */", "/***/", "/* ; { } ' \" // */", "/* a\n * b\n **/", "// /* \n", "//*/\n", "/*/ */"]


def sp(r, must=False):
    s = "".join(r.choice([" ", " ", "\n", "\t", "\r\n"] + ([r.choice(COMMENTS)] if r.random() < .4 else []))
                for _ in range(r.choice([0, 0, 1, 1, 2, 3])))
    return s if s or not must else r.choice([" ", "\n", "/**/", "//\n"])


def esc(r, s):
    out = ""
    for i, ch in enumerate(s):
        if ch in '"\\':
            out += "\\" + ch
        elif ch == "\n":
            out += "\\n"
        elif ch == "\t" and r.random() < .5:
            out += "\\t"
        else:
            out += ch
    return out


def quoted(r, s):
    """s as parts joined by +."""
    cuts = sorted(r.randrange(len(s) + 1) for _ in range(r.choice([0, 0, 0, 1, 2])))
    parts = [s[a:b] for a, b in zip([0] + cuts, cuts + [len(s)])]
    return [("'" + p + "'") if "'" not in p and r.random() < .4 else ('"' + esc(r, p) + '"') for p in parts]


def bare(s):
    m = UNQ.fullmatch(s)
    return bool(m) and s[0] not in "'\"" and s[-1:] != "/"


def render(r, t):
    p, k, a, subs = t
    s = (p + ":" if p else "") + k
    if a is not None:
        s += sp(r, True)
        if bare(a) and r.random() < .6:
            s += a
            gap = sp(r)
            s += (" " + gap) if gap[:1] == "/" else gap
        else:
            ps = quoted(r, a)
            s += ps[0]
            for q in ps[1:]:
                s += sp(r) + "+" + sp(r) + q
            s += sp(r)
    else:
        s += sp(r)
    if subs or r.random() < .2:
        return s + "{" + sp(r) + "".join(render(r, x) + sp(r) for x in subs) + "}"
    return s + ";"


def g_rendered(r):
    return [gen_module(r), r.randrange(10 ** 6)]


def well_formed(t, top=True):
    return (isinstance(t, list) and len(t) == 4 and (t[0] is None or isinstance(t[0], str) and ID.fullmatch(t[0])) and isinstance(t[1], str)
            and ID.fullmatch(t[1]) and (t[2] is None or isinstance(t[2], str)) and isinstance(t[3], list)
            and all(well_formed(x, False) for x in t[3]) and not (top and (t[1] not in ("module", "submodule") or t[0])))


@probe(every(g_rendered), "rendered")
def rendered(case):
    t, seed = case
    if not well_formed(t) or not isinstance(seed, int) or any(k == "revision" and p is None and a is None for p, k, a, _ in t[3]):
        return None
    r = random.Random(seed)
    text = sp(r) + render(r, t) + sp(r)
    if r.random() < .1:
        text += r.choice(["// end", "\n//", "/**/"])
    return judge(text, t)


FRAGS = ["module", "m", " ", "\n", "{", "}", ";", "leaf", "a", ":", "p:", '"', "'", "+", " + ", "\\", "\\n", "\\x", "//", "/*", "*/", "/",
         "*", "\r\n", "\r", "\t", "é", "\x0b", "\xa0", '"x"', "'y'", '"a\n    b"', "submodule", " a;", " {", "}", "-", ".", "1", "_", "\x00"]


def g_mangled(r):
    k = r.random()
    if k < .3:
        return ["module m {" + "".join(r.choice(FRAGS) for _ in range(r.randrange(8))) + r.choice(["}", "", ";", "} "])]
    if k < .4:
        return ["".join(r.choice(FRAGS) for _ in range(r.randrange(9)))]
    if k < .55:
        return [render(r, gen_module(r)) + "".join(r.choice(FRAGS) for _ in range(r.randrange(5)))]
    t = render(r, gen_module(r))
    for _ in range(r.choice([1, 1, 2])):
        i = r.randrange(len(t) + 1)
        j = min(len(t), i + r.choice([0, 1, 1, 2, 5]))
        t = t[:i] + r.choice(FRAGS + ["", "", ""]) + t[j:]
    return [t]


@probe(every(g_mangled), "mangled")
def mangled(case):
    t = case[0]
    if not isinstance(t, str):
        return None
    try:
        want = reference(t)
    except Bad:
        want = None
    except BadEscape:
        want = "esc"
    except RecursionError:
        return None
    if isinstance(want, list) and cr_inside(want):
        return None
    return judge(t, want)


def cr_inside(t):
    return t[2] is not None and "\r" in t[2] or any(cr_inside(x) for x in t[3])


def g_layout(r):
    ind = r.choice(["", " ", "  ", "\t", "    ", "\t  ", "\t\t"])
    kw = r.choice(["a", "description", "p:x"])
    gap = r.choice([" ", "  ", "\n" + ind, "\n", " /* c */ "])
    lines = []
    for _ in range(r.randrange(1, 5)):
        lines.append("".join(r.choice([" ", " ", "\t", "  ", "        "]) for _ in range(r.randrange(5)))
                     + r.choice(["", "x", "y z", "\\n", "\\t", '\\"', "\\\\", "a\tb"]) + r.choice(["", "", " ", "\t", " \t", "\\t"]))
    return [ind, kw, gap, lines, r.choice(["", "", ' + "q"', " + 's\n   s'"])]


@probe(every(g_layout), "layout")
def layout(case):
    ind, kw, gap, lines, more = case
    if not all(isinstance(x, str) for x in [ind, kw, gap, more] + lines) or not ID.fullmatch(kw.replace(":", "")) or not gap:
        return None
    t = "module m {\n" + ind + kw + gap + '"' + "\n".join(lines) + '"' + more + ";}"
    try:
        want = reference(t)
    except (Bad, BadEscape):
        return None
    return judge(t, want)


def g_heads(r):
    return [r.choice(["m", "n", "a b"]), r.choice([None, "m", "n"]), r.choice([[], ["2020-01-01"], ["2020-01-01", "2019-01-01"], ["2019-01-01"]]),
            r.choice(["", "2020-01-01", "2019-01-01"]), r.choice([None, "x"])]


@probe(every(g_heads), "heads", .2)
def heads(case):
    """A module with another name or revision than expected is refused as such."""
    name, wname, revs, wrev, pref = case
    if not isinstance(name, str) or '"' in name or "\\" in name or "\n" in name:
        return None
    t = f'module "{name}" {{' + "".join(f"revision {x};" for x in revs) + (f"{pref}:revision 1999-01-01;" if pref else "") + "}"
    _, (k, v) = read(t, wname, wrev)
    if wname is not None and wname != name:
        return None if k == "exc" and isinstance(v, ModuleNameMismatch) else f"{t} with name {wname}: {v!r}"
    if (revs or [""])[0] != wrev:
        return None if k == "exc" and isinstance(v, ModuleRevisionMismatch) else f"{t} with revision {wrev!r}: {v!r}"
    return None if k == "ret" and v.argument == name else f"{t}: {v!r}"


def g_long(r):
    return [r.choice(["esc", "lines", "comments", "subs", "blanks"]), r.randrange(1500, 4000)]


@probe(every(g_long), "long", .02)
def long_(case):
    """Length alone is no obstacle."""
    kind, n = case
    if not isinstance(n, int) or n < 1:
        return None
    if kind == "esc":
        t, w = 'module m { d "' + "\\n" * n + '"; }', [None, "module", "m", [[None, "d", "\n" * n, []]]]
    elif kind == "lines":
        t, w = 'module m {\nd "' + "x \n   y" * n + '"; }', [None, "module", "m", [[None, "d", "x\ny" * n, []]]]
    elif kind == "comments":
        t, w = "module m {" + "/* * */ // x\n" * n + "}", [None, "module", "m", []]
    elif kind == "subs":
        t, w = "module m {" + "a;" * n + "}", [None, "module", "m", [[None, "a", None, []]] * n]
    else:
        t, w = "module" + " " * n + "m;" + "\n" * n, [None, "module", "m", []]
    return judge(t, w)
