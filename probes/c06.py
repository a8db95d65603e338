"""C06: the member sets a schema allows, by validation of real documents."""
import random
from pyvc.probes import probe, Skip, outcome
from yangson.enumerations import ContentType, ValidationScope
from yangson.exceptions import SchemaError, ValidationError
from .schema import *

KINDS = {"not-allowed", "missing", "two-cases", "key-missing"}


def gen(r):
    while True:
        s = gen_schema(r, Opts(must=0))
        for _ in range(8):
            yield (s, gen_doc(r, s, good=r.choice([.9, .97, 1])), r.choice(["all", "all", "config"]))


def judge(case):
    s, doc, ct = case
    m = build(s)
    raw = to_raw(s, doc)
    errs = check(s, doc, None, ct)
    k, root = outcome(m.from_raw, raw)
    if k == "exc":
        return
    k, e = outcome(root.validate, ValidationScope.syntax, ContentType[ct])
    kinds = {x for x, _ in errs}
    if kinds - KINDS - {"too-few", "too-many", "dup", "dup-key", "unique", "must"}:
        return
    bad = bool(kinds & KINDS)
    if k == "exc" and not isinstance(e, ValidationError):
        raise e
    if bad != (k == "exc"):
        return f"validation ({ct}) of {raw} gives {e!r} {e if k == 'exc' else ''}, the schema implies {sorted(errs) or 'no error'}"


probe(gen, name="allowed", weight=3)(judge)


def gen_near(r):
    """Documents that differ from a valid one in a single member."""
    while True:
        s = gen_schema(r, Opts(must=0))
        doc = gen_doc(r, s, good=1)
        for _ in range(6):
            d = json.loads(json.dumps(doc))
            spots = []

            def walk(x):
                if isinstance(x, list) and x and x[0] == "o":
                    spots.append(x)
                    for _, v in x[1]:
                        walk(v)
                elif isinstance(x, list) and x and x[0] == "l":
                    for v in x[1]:
                        walk(v)
            walk(d)
            x = r.choice(spots)
            if x[1]:
                del x[1][r.randrange(len(x[1]))]
            yield (s, d, r.choice(["all", "config"]))


probe(gen_near, name="one_missing", weight=2)(judge)
