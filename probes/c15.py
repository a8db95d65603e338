"""C15: comparisons, predicates, axes and node-sets against an independent evaluator."""
from pyvc.probes import probe
from . import xpref as X


def cases(one):
    def gen(r):
        while True:
            raw = X.tree(r)
            ns = [n for n in X.build(raw).all() if not n.virtual]
            for _ in range(15):
                r.node = r.choice(ns)
                yield [raw, r.node.ptr, one(r)]
    return gen


def comparison(r):
    side = lambda: r.choice([X.set_, X.set_, X.num, X.str_, X.bool_])(r, r.choice([0, 1, 2]), True)
    return ["op", r.choice(["=", "!=", "<", "<=", ">", ">="]), side(), side()]


def leaves(r):
    """Comparisons in which leaf-lists and leaves take part."""
    names = [["m", n] for n in ("s", "d", "i", "b", "e", "ll", "nn", "bb")] + [["a", "s"], ["a", "ll"]]
    ns = lambda: ["p", 1, [["child", ["m", "top"], []], ["child", r.choice(names), []]]]
    a, b = ns(), r.choice([ns, ns, lambda: X.lit(r), lambda: ["n", r.choice(X.NUMS)], lambda: X.num(r, 1, False), lambda: ["f", r.choice(["true", "false"])]])()
    if r.random() < .5:
        a, b = b, a
    return ["op", r.choice(["=", "!=", "<", "<=", ">", ">="]), a, b]


def paths(r):
    return X.set_(r, r.choice([0, 1, 2, 3]))


def steps(r):
    """A single step or a few without predicates from anywhere."""
    return ["p", 0, X.walk(r, r.node, r.choice([1, 1, 2]), 0)]


for nm, one, w in (("comparison", comparison, 2), ("leaves", leaves, 2), ("paths", paths, 3), ("steps", steps, 1)):
    probe(cases(one), nm, w)(X.checked)
