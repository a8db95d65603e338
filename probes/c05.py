"""C05: schema patterns against the languages they denote."""
import itertools
import random
from pyvc.probes import probe, Skip, outcome
from yangson import schpattern as SP
from yangson.enumerations import ContentType, ValidationScope
from yangson.exceptions import SchemaError
from .schema import *

NAMES = "abcde"


class When:
    def __init__(self, v):
        self.v = v

    def evaluate(self, cnode, *a):
        return self.v


class Node:
    def put_member(self, *a, **k):
        return self


def gen_pat(r, names, depth=0):
    k = r.random()
    if depth > 3 or k < .3 or not names:
        if not names or k < .04:
            return ["empty"]
        n = names.pop() if r.random() < .95 else r.choice(NAMES)
        return ["mem", n, r.choice(["all", "all", "config", "nonconfig"]), r.choice([None, None, None, True, False])]
    if k < .45:
        return ["opt", gen_pat(r, names, depth + 1)]
    if k < .52:
        return ["optc", gen_pat(r, names, depth + 1)]
    if k < .6:
        return ["cond", gen_pat(r, names, depth + 1), r.random() < .6]
    if k < .8:
        return ["pair", gen_pat(r, names, depth + 1), gen_pat(r, names, depth + 1)]
    if k < .86:
        return ["alt", gen_pat(r, names, depth + 1), gen_pat(r, names, depth + 1)]
    return ["ch", gen_pat(r, names, depth + 1), gen_pat(r, names, depth + 1), r.choice(["all", "all", "config", "nonconfig"])]


def gen(r):
    while True:
        names = list(NAMES)
        r.shuffle(names)
        p = gen_pat(r, names)
        seq = [r.choice(NAMES + "z") if r.random() < .2 else x for x in r.sample(NAMES, r.randint(0, 5))]
        yield [p, r.choice(["all", "all", "config", "nonconfig"]), seq, r.randrange(10**6)]


def make(p):
    k = p[0]
    if k == "empty":
        return SP.Empty()
    if k == "mem":
        return SP.Member(p[1], ContentType[p[2]], None if p[3] is None else When(p[3]))
    if k == "opt":
        return SP.SchemaPattern.optional(make(p[1]))
    if k == "optc":
        return SP.SchemaPattern.optional_config(make(p[1]))
    if k == "cond":
        return SP.ConditionalPattern(make(p[1]), When(p[2]))
    if k == "pair":
        return SP.Pair(make(p[1]), make(p[2]))
    if k == "alt":
        return SP.Alternative(make(p[1]), make(p[2]))
    x = SP.ChoicePattern(make(p[1]), make(p[2]), "c")
    x.ctype = ContentType[p[3]]
    return x


def bag(*xs):
    return tuple(sorted(itertools.chain(*xs)))


def lang(p, ct):
    k = p[0]
    if k == "empty":
        return {()}
    if k == "mem":
        return {(p[1],)} if p[3] is not False and (p[2] == "all" or ct == "all" or p[2] == ct) else {()}
    if k == "opt":
        return lang(p[1], ct) | {()}
    if k == "optc":
        return lang(p[1], ct) | ({()} if ct == "config" else set())
    if k == "cond":
        return lang(p[1], ct) if p[2] else {()}
    a, b = lang(p[1], ct), lang(p[2], ct)
    if k == "pair":
        return {bag(x, y) for x in a for y in b}
    if k == "alt":
        return a | b
    if p[3] != "all" and ct != "all" and p[3] != ct:
        return {()}
    return (a | b) - {()}


def plain(p):
    """No part that can be switched off."""
    if p[0] == "mem":
        return p[3] is not False
    return p[0] not in ("cond", "empty") and all(plain(x) for x in p[1:3] if isinstance(x, list))


@probe(gen, weight=3)
def language(case):
    """Consuming members one by one accepts the denoted sets and no other."""
    p, ct, seq, seed = case
    if not p:
        return
    L = lang(p, ct)
    r = random.Random(seed)
    C = ContentType[ct]
    tries = [seq] + [r.sample(s, len(s)) for s in r.sample(sorted(L), min(3, len(L)))]
    tries += [t[:-1] for t in tries[1:] if t]
    for s in tries:
        q = make(p)
        q._eval_when(Node())
        done, refused = [], False
        for m in s:
            q = q.deriv(m, C)
            done.append(m)
            ext = any(all(done.count(x) <= w.count(x) for x in done) for w in L)
            if isinstance(q, SP.NotAllowed):
                if ext:
                    return f"{p} {ct}: {m!r} refused after {done[:-1]}, but an allowed set extends them"
                refused = True
                break
            if not ext and ct == "all" and plain(p):
                return f"{p} {ct}: {m!r} not refused after {done[:-1]}, though no allowed set extends them"
        ok = not refused and q.nullable(C)
        if ok != (bag(s) in L):
            return f"{p} {ct}: members {s} {'accepted' if ok else 'refused'}, allowed sets are {sorted(L)}"
        if not refused and not ok:
            k, mm = outcome(q._mandatory_members, C)
            if k == "ret" and mm is not None:
                rest = [w for w in L if all(done.count(x) <= w.count(x) for x in done)]
                for w in rest:
                    if not any(w.count(x) > done.count(x) for x in mm):
                        return f"{p} {ct}: after {done} the missing members are said to be {mm}; {w} is allowed without them"


def gen_sch(r):
    while True:
        s = gen_schema(r, Opts(must=0))
        for _ in range(6):
            yield (s, gen_doc(r, s, good=.97), r.randrange(10**6), r.choice(["all", "config"]))


def shuffled(r, doc):
    if isinstance(doc, list) and len(doc) == 2 and doc[0] == "obj":
        ms = [[m, shuffled(r, v)] for m, v in doc[1]]
        r.shuffle(ms)
        return ["obj", ms]
    if isinstance(doc, list):
        return [shuffled(r, x) for x in doc]
    return doc


def reshuffle(r, raw):
    if isinstance(raw, dict):
        ks = list(raw)
        r.shuffle(ks)
        return {k: reshuffle(r, raw[k]) for k in ks}
    if isinstance(raw, list):
        return [reshuffle(r, x) for x in raw]
    return raw


def verdict(m, raw, ct):
    k, v = outcome(m.from_raw, raw)
    if k == "exc":
        return None
    k, e = outcome(v.validate, ValidationScope.syntax, ContentType[ct])
    if k == "ret":
        return "ok"
    if isinstance(e, SchemaError):
        return ("schema", e)
    return ("other", e)


KINDS = {"not-allowed", "missing", "two-cases"}


@probe(gen_sch, weight=3)
def members(case):
    """The members of an object are judged independently of their order."""
    s, doc, seed, ct = case
    r = random.Random(seed)
    m = build(s)
    raw = to_raw(s, doc)
    errs = check(s, doc, None, ct)
    kinds = {k for k, _ in errs}
    got = []
    for i in range(3):
        v = verdict(m, raw, ct)
        if v is None:
            return
        got.append((raw, v))
        raw = reshuffle(r, raw)
    bad = bool(kinds & (KINDS | {"key-missing"}))
    for raw, v in got:
        if isinstance(v, tuple) and v[0] == "other":
            if not kinds - KINDS:
                return f"{raw}: {v[1]!r}, expected {errs}"
        elif bad != (v != "ok") and not kinds - KINDS:
            return f"validation ({ct}) of {raw} gives {v}, expected {sorted(errs) or 'no error'}"
        if isinstance(v, tuple) and v[0] == "schema":
            tag = v[1].tag
            if "member-not-allowed" in tag:
                if not kinds & {"not-allowed", "two-cases"}:
                    return f"{raw}: {v[1]}, expected {sorted(errs)}"
            elif tag == "missing-data":
                if not kinds & {"missing", "key-missing"}:
                    return f"{raw}: {v[1]}, expected {sorted(errs)}"
                for n in (v[1].message or "").replace("expected one of ", "").replace("expected ", "").split(", "):
                    if n.strip("'") in v[1].instance.value:
                        return f"{raw}: member {n} reported missing, but it is there"
