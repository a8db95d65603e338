"""Python regular expressions (concrete patterns) as z3 regular languages."""
import re
import re._parser as sre
import re._constants as K
import z3

_cache = {}
MAXC = 0x2FFFF
ANYCH = z3.AllChar(z3.ReSort(z3.StringSort()))


class NoTranslation(Exception):
    pass


def ch(n):
    return z3.StringVal("\\u{%x}" % n)


def rng(a, b):
    return z3.Range(ch(a), ch(min(b, MAXC))) if a <= MAXC else None


def union(xs):
    xs = [x for x in xs if x is not None]
    if not xs:
        return z3.Empty(z3.ReSort(z3.StringSort()))
    return xs[0] if len(xs) == 1 else z3.Union(*xs)


def compl_class(x):
    return z3.Intersect(ANYCH, z3.Complement(x))


def category(c):
    if c is K.CATEGORY_SPACE:
        return union([z3.Re(ch(ord(x))) for x in " \t\n\r\f\v\x1c\x1d\x1e\x1f\x85\xa0"] +
                     [rng(0x2000, 0x200a)] + [z3.Re(ch(n)) for n in (0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000)])
    raise NoTranslation(str(c))


def klass(items):
    neg = False
    alts = []
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            alts.append(z3.Re(ch(av)))
        elif op is K.RANGE:
            alts.append(rng(*av))
        elif op is K.CATEGORY:
            alts.append(category(av))
        else:
            raise NoTranslation(str(op))
    u = union(alts)
    return compl_class(u) if neg else u


def seq(xs):
    xs = list(xs)
    if not xs:
        return z3.Re("")
    return xs[0] if len(xs) == 1 else z3.Concat(*xs)


def tr(p):
    out = []
    for op, av in p:
        if op is K.LITERAL:
            out.append(z3.Re(ch(av)))
        elif op is K.NOT_LITERAL:
            out.append(compl_class(z3.Re(ch(av))))
        elif op is K.ANY:
            out.append(compl_class(z3.Re("\n")))
        elif op is K.IN:
            out.append(klass(av))
        elif op is K.BRANCH:
            out.append(union([tr(x) for x in av[1]]))
        elif op is K.SUBPATTERN:
            out.append(tr(av[3]))
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            r = tr(sub)
            if hi is K.MAXREPEAT:
                out.append(z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else
                           z3.Concat(*([r] * lo), z3.Star(r)))
            elif (lo, hi) == (0, 1):
                out.append(z3.Option(r))
            else:
                out.append(z3.Loop(r, lo, hi))
        else:
            raise NoTranslation(str(op))
    return seq(out)


def language(pat):
    """z3 regular expression of a compiled pattern (without anchors), or NoTranslation."""
    key = (pat.pattern, pat.flags)
    if key not in _cache:
        if pat.flags & ~(re.UNICODE | re.VERBOSE):
            raise NoTranslation("flags")
        try:
            _cache[key] = tr(sre.parse(pat.pattern, pat.flags))
        except NoTranslation as e:
            _cache[key] = e
    r = _cache[key]
    if isinstance(r, Exception):
        raise r
    return r


def group_language(pat, g):
    """Language of what group g may capture (over-approximation by its own sub-pattern)."""
    def find(p):
        for op, av in p:
            if op is K.SUBPATTERN:
                if av[0] == g:
                    return av[3]
                r = find(av[3])
                if r is not None:
                    return r
            elif op is K.BRANCH:
                for x in av[1]:
                    r = find(x)
                    if r is not None:
                        return r
            elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
                r = find(av[2])
                if r is not None:
                    return r
        return None
    p = find(sre.parse(pat.pattern, pat.flags))
    return tr(p) if p is not None else None


def ranges(op, av):
    """Canonical description of a single-character item."""
    neg, rs = False, []
    if op is K.ANY:
        neg, rs = True, [(10, 10)]
    elif op in (K.LITERAL, K.NOT_LITERAL):
        neg, rs = op is K.NOT_LITERAL, [(av, av)]
    else:
        for o, a in av:
            if o is K.NEGATE:
                neg = True
            elif o is K.LITERAL:
                rs.append((a, a))
            elif o is K.RANGE:
                rs.append(tuple(a))
            else:
                rs.append((str(a), 0))
    if all(isinstance(a, int) for a, _ in rs):
        rs.sort()
        out = []
        for a, b in rs:
            if out and a <= out[-1][1] + 1:
                out[-1] = (out[-1][0], max(b, out[-1][1]))
            else:
                out.append((a, b))
        rs = out
    return ("^" if neg else "") + ",".join("%s-%s" % r for r in rs)


def simple(pat):
    """(k, language of the first k characters, (name, class) of the greedy rest or None) if the pattern is
    k single-character items followed at most by one greedy run of a single class; else None."""
    items, tail = [], None
    for op, av in sre.parse(pat.pattern, pat.flags):
        if tail is not None:
            return None
        if op in (K.LITERAL, K.NOT_LITERAL, K.IN, K.ANY):
            items.append(tr([(op, av)]))
        elif op is K.MAX_REPEAT and av[1] is K.MAXREPEAT and len(av[2]) == 1 and av[2][0][0] in (
                K.LITERAL, K.NOT_LITERAL, K.IN, K.ANY):
            one = tr(av[2])
            items += [one] * av[0]
            tail = (ranges(*av[2][0]), one)
        else:
            return None
    return len(items), seq(items), tail


def run_end(tail, t, q):
    """Where the longest run of characters of the class that starts at q ends, with its defining facts at q."""
    from .core import ctx
    name, cls = tail
    f = z3.Function("run_end[" + name + "]", z3.StringSort(), z3.IntSort(), z3.IntSort())
    e, n = f(t, q), z3.Length(t)
    here = z3.InRe(z3.SubString(t, q, 1), cls)
    ctx().fact(z3.Implies(z3.And(q >= 0, q <= n), z3.And(
        e >= q, e <= n, z3.Not(z3.InRe(z3.SubString(t, e, 1), cls)),
        z3.If(here, z3.And(e > q, e == f(t, q + 1)), e == q))))
    return e
