"""C13: if-feature expressions against an independent evaluator of the RFC 7950 grammar."""
import re
from pyvc.probes import probe, Skip, outcome
from yangson.exceptions import ParserException, UnknownPrefix
from yangson.schemadata import FeatureExprParser
from .util import model

NAMES = ["a", "b", "not-a", "nota", "oracle", "android", "x.y", "_z", "o", "n", "a-or-b", "A9"]
PFX = [None, None, None, "m", "p", "q"]
TEXT = {"m": "module m { yang-version 1.1; namespace 'urn:m'; prefix m; import n { prefix p; } include s;\n"
             + "".join(f"feature {n};" for n in NAMES) + "%s }",
        "n": "module n { yang-version 1.1; namespace 'urn:n'; prefix n;" + "".join(f"feature {n};" for n in NAMES) + "}",
        "s": "submodule s { yang-version 1.1; belongs-to m { prefix q; } import n { prefix m; } %s }"}


def expr(r, d):
    k = r.random()
    if d <= 0 or k < .3:
        p = r.choice(PFX)
        return (p + ":" if p else "") + r.choice(NAMES)
    if k < .45:
        return "not" + ws(r, 1) + factor(r, d - 1)
    if k < .6:
        return "(" + ws(r) + expr(r, d - 1) + ws(r) + ")"
    return factor(r, d - 1) + ws(r, 1) + r.choice(["and", "or"]) + ws(r, 1) + expr(r, d - 1)


def factor(r, d):
    e = expr(r, d)
    return e if re.fullmatch(r"[\w.:-]+", e) or r.random() < .5 else "(" + e + ")"


def ws(r, least=0):
    return "".join(r.choice(" \n\t\r") for _ in range(r.choice([least, least, least, least + 1, least + 2])))


def gen(r):
    while True:
        t = ws(r) + expr(r, r.choice([0, 1, 2, 3, 4])) + ws(r)
        if r.random() < .35 and t:
            for _ in range(r.choice([1, 1, 2])):
                i = r.randrange(len(t) + 1)
                t = r.choice([t[:i] + t[i + 1:], t[:i] + r.choice(" ()anotr:1-\u00a0\v;") + t[i:], t[:i],
                              t[:i] + r.choice(["or", "and", "not", " or ", " and ", " not "]) + t[i:]])
        on = [[n for n in NAMES if r.random() < .5] for _ in "mn"]
        yield [t, on, r.random() < .3]


class Bad(Exception):
    pass


ID = r"[A-Za-z_][A-Za-z0-9_.-]*"
TOK = re.compile(rf"[ \t\r\n]+|[()]|{ID}:{ID}|{ID}")


def value(t, on, sub):
    """RFC 7950, section 14: if-feature-expr."""
    toks, i = [], 0
    while i < len(t):
        m = TOK.match(t, i)
        if not m:
            raise Bad(t[i:])
        toks.append(m.group())
        i = m.end()
    toks.append("")
    pos = [0]

    def blank():
        return toks[pos[0]][:1] in " \t\r\n" and toks[pos[0]] != ""

    def optsep():
        if blank():
            pos[0] += 1

    def binary(word, sub_, join):
        v = sub_()
        p = pos[0]
        if blank() and toks[p + 1] == word and toks[p + 2][:1] in " \t\r\n" and toks[p + 2]:
            pos[0] = p + 3
            return join(v, binary(word, sub_, join))
        return v

    def disj():
        return binary("or", conj, lambda a, b: a or b)

    def conj():
        return binary("and", fact, lambda a, b: a and b)

    def fact():
        k = toks[pos[0]]
        if k == "not" and toks[pos[0] + 1][:1] in " \t\r\n" and toks[pos[0] + 1]:
            pos[0] += 2
            return not fact()
        if k == "(":
            pos[0] += 1
            optsep()
            v = disj()
            optsep()
            if toks[pos[0]] != ")":
                raise Bad()
            pos[0] += 1
            return v
        if not k or blank() or k == ")":
            raise Bad()
        pos[0] += 1
        p, _, n = k.rpartition(":")
        pfx = {"q": 0, "": 0, "m": 1} if sub else {"m": 0, "": 0, "p": 1}
        if p not in pfx:
            raise Bad()
        return n in on[pfx[p]]
    optsep()
    v = disj()
    optsep()
    if toks[pos[0]] != "":
        raise Bad()
    return v


def build(on, body="", subbody=""):
    t = dict(TEXT, m=TEXT["m"] % body, s=TEXT["s"] % subbody)
    return model(t, [{"name": "m", "feat": on[0], "subs": ["s"]}, {"name": "n", "feat": on[1]}])


def reserved(t):
    """The operator word not as a feature name: excluded by the property."""
    return re.search(r"(^|[ (\t\r\n:])not([ \t\r\n]+(and|or)(?![\w.:-])|[ \t\r\n]*($|\)))", t) is not None


@probe(gen, weight=4)
def evaluation(case):
    """Texts of the grammar have the grammar's value, other texts are refused."""
    t, on, sub = case
    if reserved(t):
        return None
    sd = build(on).schema_data
    mid = ("s", "") if sub else ("m", "")
    try:
        want = value(t, on, sub)
    except Bad:
        want = None
    try:
        got = FeatureExprParser(t, sd, mid).parse()
    except (ParserException, UnknownPrefix):
        got = None
    if got is not want:
        return f"{t!r} with features {on} in {mid[0]}: {got}, the grammar says {want}"


def gen_stmt(r):
    g = gen(r)
    while True:
        es, on = [], [[n for n in NAMES if r.random() < .6] for _ in "mn"]
        while len(es) < r.choice([1, 2, 2, 3]):
            t = next(g)[0]
            es.append(t)
        yield [es, on, r.random() < .3]


@probe(gen_stmt)
def statements(case):
    """A node is in the schema exactly if all its if-feature expressions are true."""
    es, on, sub = case
    if any(reserved(t) or '"' in t or "\\" in t or "\r" in t for t in es):
        return None
    try:
        want = all([value(t, on, sub) for t in es])
    except Bad:
        return None
    body = "leaf x { type string; " + "".join(f'if-feature "{t}";' for t in es) + "}"
    if any("\n" in t for t in es):
        body = body.replace("\n", " ")
    dm = build(on, "" if sub else body, body if sub else "")
    got = dm.get_schema_node("/m:x") is not None
    if got is not want:
        return f"leaf with if-feature {es}, features {on}: {'present' if got else 'absent'}"
