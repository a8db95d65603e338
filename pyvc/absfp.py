"""Floating-point arithmetic left uninterpreted: what is valid without knowing it is valid."""
import z3

ENABLED = False         # set by contracts that use floating point

FPU = z3.DeclareSort("FloatU")


class Abstraction:
    def __init__(self):
        self.memo, self.decls, self.seen, self.quantified, self.keep = {}, {}, False, False, []

    def sort(self, s):
        if s.kind() == z3.Z3_FLOATING_POINT_SORT:
            return FPU
        if s.kind() == z3.Z3_ROUNDING_MODE_SORT:
            return z3.IntSort()
        return s

    def decl(self, name, dom, rng):
        k = (name, tuple(str(d) for d in dom), str(rng))
        if k not in self.decls:
            self.decls[k] = z3.Function("absfp:" + name, *dom, rng) if dom else z3.Const("absfp:" + name, rng)
        return self.decls[k]

    def go(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k]
        self.keep.append(e)
        r = self.build(e)
        self.memo[k] = r
        return r

    def build(self, e):
        if z3.is_quantifier(e):
            self.quantified = True
            if e.is_lambda():
                raise ValueError("lambda")
            vs = [z3.Const(f"aq!{e.get_id()}!{i}", e.var_sort(i)) for i in range(e.num_vars())]
            if any(self.sort(v.sort()) is FPU for v in vs):
                raise ValueError("float variable")
            rev = list(reversed(vs))
            body = self.go(z3.substitute_vars(e.body(), *rev))
            pats = []
            for i in range(e.num_patterns()):
                p = e.pattern(i)
                pats.append(z3.MultiPattern(*[self.go(z3.substitute_vars(c, *rev)) for c in p.children()]))
            return (z3.ForAll if e.is_forall() else z3.Exists)(vs, body, patterns=pats)
        if not z3.is_app(e):
            raise ValueError("term")
        kids = [self.go(c) for c in e.children()]
        d = e.decl()
        touches = self.sort(e.sort()) is not e.sort() and e.sort().kind() in (z3.Z3_FLOATING_POINT_SORT, z3.Z3_ROUNDING_MODE_SORT) or any(
            c.sort().kind() in (z3.Z3_FLOATING_POINT_SORT, z3.Z3_ROUNDING_MODE_SORT) for c in e.children())
        if not touches:
            if not kids:
                return e
            return d(*kids) if any(not a.eq(b) for a, b in zip(kids, e.children())) else e
        self.seen = True
        if d.kind() == z3.Z3_OP_EQ:
            return kids[0] == kids[1]
        if d.kind() == z3.Z3_OP_ITE:
            return z3.If(*kids)
        if d.kind() == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*kids)
        nm = d.name() + (str(e) if not kids else "") + str(d.params() if not kids else "")
        f = self.decl(nm, [x.sort() for x in kids], self.sort(e.sort()))
        return f(*kids) if kids else f


def abstracted(terms):
    """The terms without floating point, or None if that changes nothing or cannot be done."""
    if not ENABLED:
        return None
    a = Abstraction()
    try:
        out = [a.go(t) for t in terms]
    except (ValueError, z3.Z3Exception):
        return None
    return out if a.seen and a.quantified else None
