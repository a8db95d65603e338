"""C14: numbers, strings and booleans against an independent evaluator."""
from pyvc.probes import probe
from . import xpref as X

EMPTY = {"m:top": {}}


def values(r):
    while True:
        e = r.choice([X.num, X.num, X.str_, X.str_, X.bool_])(r, r.choice([1, 2, 2, 3]), False)
        yield [EMPTY, "/m:top", e]


def leaves(r):
    while True:
        raw = X.tree(r)
        ns = [n for n in X.build(raw).all() if not n.virtual]
        for _ in range(15):
            r.node = r.choice(ns)
            e = r.choice([X.num, X.str_, X.bool_])(r, r.choice([2, 3]), True)
            if r.random() < .15:
                e = ["f", r.choice(["string", "number", "string-length", "normalize-space", "local-name"])]
            yield [raw, r.node.ptr, e]


probe(values, "values", 2)(X.checked)
probe(leaves, "leaves", 1)(X.checked)
