"""C06: the pattern built for a schema node denotes the member sets its statements imply.

whenval(e) is the truth value of condition e when the pattern is evaluated; that _eval_when
puts exactly this value into every conditional part is a contract of its own below."""
from .pat import *
from .sn import *
from pyvc.inv import LoopInv

run = lambda fn, *a: interp.run_function(fn, list(a))

P = ("C06",)
whenval = z3.Function("whenval", I, B)
register()
abstract_nodes()


def evaluated(o):
    """Truth of the condition of node or pattern o."""
    w = attr(o, "when")
    return z3.BoolVal(True) if w is None else whenval(w.ref)


from . import pat as _pat
_pat.active_cond = evaluated


def bag0():
    return z3.Const("B!", BAG)


def pre(c, self, *a):
    pass


def one_name(self):
    return ops.raw_term(interp.call_method(self, "iname", []))


def member_lang(self, ct, b, optional):
    """Language of one data node: its name when in effect, nothing otherwise."""
    nt = interp.call_method(self, "content_type", [])
    nt = ops.resolve(nt)
    if nt.value & ct.value == 0:
        return b == emp
    here = b == add(emp, one_name(self))
    return z3.If(evaluated(self), z3.Or(here, z3.And(optional, b == emp)), b == emp)


def truth(x):
    return zb(ops.truth_term(x))


def deprecated(self):
    st = attr(self, "_status")
    return z3.BoolVal(st is NS.deprecated)


def opt_leaf(self, ct):
    return z3.Or(z3.Not(truth(attr(self, "_mandatory"))), deprecated(self))


def opt_seq(self, ct):
    return z3.Or(ops.raw_term(attr(self, "min_elements")) <= 0, deprecated(self))


def some(s):
    """A set shape is not empty."""
    k = z3.Int("ms!%d" % ctx().engine.next_id())
    return truth(s)


def opt_cont(self, ct):
    mc = attr(self, "_mandatory_children")
    non, conf = some(mc[0]), some(mc[1])
    pres = truth(attr(self, "presence"))
    mand = z3.And(z3.Not(pres), z3.Or(non, conf))
    if ct == ContentType.config:
        mand = z3.And(mand, conf)
    return z3.Or(z3.Not(mand), deprecated(self))


def entry_ens(opt):
    def ens(c, args, out, old):
        self, = args
        if out.kind != "ret":
            return []
        b = bag0()
        gs = [(f"allowed sets, {ct.name}", L(out.value, ct, b) == member_lang(self, ct, b, opt(self, ct)))
              for ct in ContentType] + [whole(out)]
        prelude(c)
        return gs
    return ens


for shape, opt in ((LEAF, opt_leaf), (ANYD, opt_leaf), (LLIST, opt_seq), (LIST, opt_seq), (CONT, opt_cont)):
    k = shape.classes[0] if hasattr(shape, "classes") else shape.cls
    Contract(f"yangson.schemanode:{k.__name__}._pattern_entry", [shape], requires=pre, ensures=entry_ens(opt), props=P,
             variant=k.__name__)


# ---------------------------------------------------------------- groups of children
def pattern(c, t):
    """A pattern built for a schema node: NotAllowed only as a branch of a choice."""
    c.fact(z3.And(Wf(t), z3.Not(NA(t))))
    return PAT.wrap(t)


def whole(out):
    return ("NotAllowed only as a branch of a choice", W(out.value))


def a_entry(c, o, a, kw):
    return pattern(c, uf("pattern_of", I, I)(o.ref))


def a_group(c, o, a, kw):
    return pattern(c, uf("inner_pattern_of", I, I)(o.ref))


AbstractContract(SNM.SchemaNode, "_pattern_entry", a_entry)
AbstractContract(SNM.CaseNode, "_schema_pattern", a_group, always=True)


def in_pattern(n):
    """Children that take no part: operations, notifications, obsolete nodes."""
    c = ctx()
    out = z3.Or(*[clsid_f(n.ref) == clsid(x) for x in (SNM.RpcActionNode, SNM.NotificationNode)])
    return z3.And(z3.Not(out), z3.BoolVal(attr(n, "_status") is not NS.obsolete))


def group_lang(self, ct, b, k):
    ch = attr(self, "children")
    t = [ops.resolve(ch.seq.get(i)) for i in range(k)]
    splits = z3.Consts(" ".join("gs%d!" % i for i in range(k)), BAG) if k else []
    tot = emp
    conds = []
    for i, n in enumerate(t):
        conds.append(z3.If(in_pattern(n), Lf(uf("pattern_of", I, I)(n.ref), ctv(ct), splits[i]), splits[i] == emp))
        tot = sum_(splits[i], tot) if i else splits[i]
    all_ = z3.Exists(splits, z3.And(tot == b, *conds)) if k else b == emp
    return z3.If(evaluated(self), all_, b == emp)


def group_ens(k):
    def ens(c, args, out, old):
        self, = args
        if out.kind != "ret":
            return []
        b = bag0()
        gs = [(f"allowed sets, {ct.name}", L(out.value, ct, b) == group_lang(self, ct, b, k)) for ct in ContentType] + [whole(out)]
        prelude(c)
        return gs
    return ens


for k in (0, 1, 2):
    for cl in (SNM.ContainerNode,):
        sh, cls = ObjS(cl, attrs={"children": ListS(NODE, fixed=k)}), cl.__name__
        Contract(f"yangson.schemanode:{cls}._schema_pattern", [sh], ensures=group_ens(k), props=P,
                 variant=f"{cls}, {k} children", bounded=f"{k} children")


# any number of children
SUMS = z3.Function("sums", I, I, I, BAG, B)     # node, number of children, content type, bag


def kids_of(self):
    return run(lambda n: [c for c in n.children if not (isinstance(c, (SNM.RpcActionNode, SNM.NotificationNode)) or
                                                        c._status == NS.obsolete)], self)


def kid(lst, i):
    return uf("pattern_of", I, I)(ops.resolve(lst.seq.get(i)).ref)


def sums_def(c, self, lst, i):
    """The sets of the first i + 1 children taken together."""
    b = z3.Const("sb!", BAG)
    for ct in ContentType:
        c.fact(z3.ForAll([b], SUMS(self.ref, 1, ctv(ct), b) == Lf(kid(lst, z3.IntVal(0)), ctv(ct), b), patterns=[SUMS(self.ref, 1, ctv(ct), b)]))
        if i is not None:
            p, q = z3.Consts("sp!%d sq!%d" % ((c.engine.next_id(),) * 2), BAG)
            c.fact(z3.ForAll([b], SUMS(self.ref, i + 1, ctv(ct), b) == z3.Exists([p, q], z3.And(
                sum_(p, q) == b, Lf(kid(lst, i), ctv(ct), p), SUMS(self.ref, i, ctv(ct), q))), patterns=[SUMS(self.ref, i + 1, ctv(ct), b)]))


def group_inv(c, v, i, seq):
    self, p = v.self, ops.resolve(v.prev)
    if not p.initial:
        prelude(c)
        sums_def(c, self, v.todo, i)
    elif isinstance(i, int) or z3.is_int_value(i):
        sums_def(c, self, v.todo, None)
    b = z3.Const("gb!", BAG)
    return [(f"allowed sets so far, {ct.name}", z3.ForAll([b], L(p, ct, b) == SUMS(self.ref, i + 1, ctv(ct), b),
                                                          patterns=[SUMS(self.ref, i + 1, ctv(ct), b)] if p.initial else []))
            for ct in ContentType] + [("NotAllowed only as a branch of a choice", W(p))]


def group_any_ens(c, args, out, old):
    self, = args
    if out.kind != "ret":
        return []
    kids = kids_of(self)
    n = kids.seq.nz()
    b = bag0()
    gs = [(f"allowed sets, {ct.name}", L(out.value, ct, b) == z3.If(
        z3.And(n > 0, evaluated(self)), SUMS(self.ref, n, ctv(ct), b), b == emp)) for ct in ContentType] + [whole(out)]
    prelude(c)
    return gs


def group_any_pre(c, self):
    c.memo["share filters"] = True


for cl in (SNM.ContainerNode, SNM.GroupNode):
    Contract(f"yangson.schemanode:{cl.__name__}._schema_pattern", [ObjS(cl, attrs={"children": ListS(NODE)})],
             requires=group_any_pre, ensures=group_any_ens, props=P, variant=f"{cl.__name__}, any number of children",
             loops=[LoopInv({"prev": PAT}, group_inv)])


# A choice: one of its cases, each present one not empty.
def choice_kids(shape):
    """Cases of the choice, some inside a group of an augment."""
    def pre_(c, self):
        ch = attr(self, "children")
        for i, k in enumerate(shape):
            n = ops.resolve(ch.seq.get(i))
            c.assume(clsid_f(n.ref) == clsid(SNM.CaseNode if k == 0 else SNM.GroupNode))
            parent_is(c, n, self)
            if k:
                o = Obj(SNM.GroupNode, ref=n.ref, initial=True, shape={"children": ListS(CASES, fixed=k)})
                g = attr(o, "children")
                n.attrs["children"] = g
                for j in range(k):
                    parent_is(c, ops.resolve(g.seq.get(j)), n)
    return pre_


def parent_is(c, n, p):
    q = attr(n, "parent")
    if q is None:
        raise Infeasible()
    c.assume(q.ref == p.ref)


def choice_ens(shape):
    def ens(c, args, out, old):
        self, = args
        if out.kind != "ret":
            return []
        prelude(c)
        b = bag0()
        ch = attr(self, "children")
        cases = []
        for i, k in enumerate(shape):
            n = ops.resolve(ch.seq.get(i))
            if not k:
                cases.append((z3.BoolVal(True), n))
            else:
                g = attr(n, "children")
                cases += [(evaluated(n), ops.resolve(g.seq.get(j))) for j in range(k)]
        nt = ops.resolve(a_ctype(c, self, [], {}))
        gs = []
        for ct in ContentType:
            one = [z3.And(w, b != emp, Lf(uf("inner_pattern_of", I, I)(n.ref), ctv(ct), b)) for w, n in cases]
            if not cases or nt.value & ct.value == 0:
                want = b == emp
            else:
                want = z3.If(evaluated(self), z3.Or(z3.And(z3.Not(truth(attr(self, "_mandatory"))), b == emp), *one), b == emp)
            gs.append((f"exactly one case, {ct.name}", L(out.value, ct, b) == want))
        return gs + [whole(out)]
    return ens


for shape in ((), (0,), (0, 0), (0, 0, 0), (1,), (0, 1), (2,), (1, 1), (2, 0)):
    Contract("yangson.schemanode:ChoiceNode._pattern_entry", [ObjS(SNM.ChoiceNode, attrs={
        "children": ListS(ObjS(SNM.CaseNode, SNM.GroupNode), fixed=len(shape))})], requires=choice_kids(shape),
        ensures=choice_ens(shape), props=P, variant="cases " + "+".join("plain" if k == 0 else f"group of {k}" for k in shape),
        bounded="up to 3 cases")


# any number of cases
GROUPED = ObjS(SNM.CaseNode, attrs={"parent": ObjS(SNM.ChoiceNode, SNM.GroupNode)})


def cases_of(self):
    return ListS(GROUPED).wrap(uf("cases_of", I, I)(self.ref))


def in_case(self, n, ct, b):
    """b is a set of members of case n, reached through a group whose condition holds."""
    par = ops.resolve(attr(n, "parent"))
    return z3.And(b != emp, Lf(uf("inner_pattern_of", I, I)(n.ref), ctv(ct), b),
                  z3.Or(par.ref == self.ref, evaluated(par)))


def upto(self, lst, hi, ct, b):
    k = z3.Int("uk!%d" % ctx().engine.next_id())
    ps = summarize(lambda cc: in_case(self, ops.resolve(lst.seq.get(k)), ct, b), bound=[k], rng=z3.And(k >= 0, k < hi))
    return z3.Exists([k], z3.And(k >= 0, k < hi, ops.formula_of(ps)))


def choice_state(c, v):
    """The pattern of the first case, from the first round on a choice."""
    if c.branch(c.fresh("first", B)):
        return PAT.make("first_case")
    o = interp.call(SP.ChoicePattern, [PAT.make("upper"), PAT.make("lower"), "name"], {})
    return o


def choice_inv(c, v, i, seq):
    self, p = v.self, ops.resolve(v.prev)
    lst = cases_of(self)
    b = z3.Const("cb!", BAG)
    new = isinstance(p, Obj) and not p.initial and p.cls is SP.ChoicePattern
    return [(f"sets of the cases so far, {ct.name}", z3.ForAll([b], z3.Implies(b != emp, L(p, ct, b) == upto(self, lst, i + 1, ct, b))))
            for ct in ContentType] + [
        ("NotAllowed only as a branch of a choice", W(p)),
        ("a choice from the first round on", z3.Or(zb(i == 0), z3.BoolVal(new))),
        ("in effect for every content type", z3.BoolVal(not new or attr(p, "ctype") is ContentType.all))]


def choice_any_ens(c, args, out, old):
    self, = args
    if out.kind != "ret":
        return []
    b = bag0()
    nt = ops.resolve(a_ctype(c, self, [], {}))
    lst = cases_of(self)
    gs = []
    for ct in ContentType:
        if nt.value & ct.value == 0:
            want = b == emp
        else:
            want = z3.Or(z3.And(z3.Not(truth(attr(self, "_mandatory"))), b == emp), upto(self, lst, lst.seq.nz(), ct, b))
        gs.append((f"exactly one case, {ct.name}", L(out.value, ct, b) == z3.If(z3.And(lst.seq.nz() > 0, evaluated(self)), want, b == emp)))
    gs.append(whole(out))
    prelude(c)
    return gs


def any_cases(c, self):
    c.memo["any cases"] = True


AbstractContract(SNM.ChoiceNode, "_cases", lambda c, o, a, kw: cases_of(o) if c.memo.get("any cases") else run(SNM.ChoiceNode._cases, o), always=True)
Contract("yangson.schemanode:ChoiceNode._pattern_entry", [ObjS(SNM.ChoiceNode)], requires=any_cases,
         ensures=choice_any_ens, props=P, variant="any number of cases", loops=[LoopInv({"prev": choice_state}, choice_inv, 1)])


# ---------------------------------------------------------------- content type, mandatory
def run_prop(name):
    def body(c, run, self):
        return interp.getattr_(self, name)
    return body


def run_it(c, run, self):
    return run(self)


def ctype_terminal(c, args, out, old):
    """Own config statement, else that of the parent; a leaf is never both."""
    self, = args
    if out.kind != "ret":
        return []
    own = attr(self, "_ctype")
    v = ops.resolve(out.value)
    if own is not None:
        return [("own config statement", v is own)]
    par = attr(self, "parent")
    pt = ops.resolve(a_ctype(c, par, [], {}))
    want = ContentType.config if pt in (ContentType.config, ContentType.all) else ContentType.nonconfig
    return [("inherited", v is want)]


def ctype_inner(c, args, out, old):
    self, = args
    if out.kind != "ret":
        return []
    own = attr(self, "_ctype")
    v = ops.resolve(out.value)
    if own is not None:
        return [("own config statement", v is own)]
    pt = ops.resolve(a_ctype(c, attr(self, "parent"), [], {}))
    return [("inherited", v is pt)]


def has_parent(c, self):
    c.assume(uf("parent.isnone", I, B)(self.ref) == uf("parent.isnone", I, B)(self.ref))
    if attr(self, "parent") is None:
        raise Infeasible()


ANYPARENT = dict(parent=Opt(ObjS(SNM.InternalNode)))
for sh in (LEAF, LLIST, ANYD):
    k = sh.classes[0].__name__
    sh = ObjS(sh.classes[0], attrs=ANYPARENT)
    Contract(f"yangson.schemanode:{k}.content_type", [sh], requires=has_parent, ensures=ctype_terminal, props=P, variant=k)
for sh in (CONT, LIST, CHOICE, CASE):
    k = sh.classes[0].__name__
    sh = ObjS(sh.classes[0], attrs=ANYPARENT)
    Contract(f"yangson.schemanode:{k}.content_type", [sh], requires=has_parent, ensures=ctype_inner, props=P, variant=k)


def mand_ens(opt, ct):
    def ens(c, args, out, old):
        self, = args
        if out.kind != "ret":
            return []
        return [("mandatory exactly when the statements say so", truth(out.value) == opt(self))]
    return ens


def m_leaf(self):
    return truth(attr(self, "_mandatory"))


def m_seq(self):
    return ops.raw_term(attr(self, "min_elements")) > 0


def m_cont(self):
    mc = attr(self, "_mandatory_children")
    return z3.And(z3.Not(truth(attr(self, "presence"))), z3.Or(some(mc[0]), some(mc[1])))


for sh, f in ((LEAF, m_leaf), (ANYD, m_leaf), (CHOICE, m_leaf), (LIST, m_seq), (LLIST, m_seq), (CONT, m_cont)):
    k = sh.classes[0].__name__
    Contract(f"yangson.schemanode:{k}.mandatory", [sh], ensures=mand_ens(f, None), props=P, variant=k)


# ---------------------------------------------------------------- evaluation of conditions
from yangson.instance import InstanceNode, ObjectMember, RootNode
CN = ObjS(InstanceNode)


def a_evaluate(c, o, a, kw):
    return AnyV(("none", "bool", "int", "str", "flt")).wrap(uf("evaluate", I, I, V)(o.ref, a[0].ref))


AbstractContract(Expr, "evaluate", a_evaluate, always=True)


def a_put(c, o, a, kw):
    return CN.wrap(uf("with_member", I, STR, I)(o.ref, ops.raw_term(ops.resolve(a[0]))))


AbstractContract(InstanceNode, "put_member", a_put, always=True)
seen_f = uf("evaluated_at", I, I, B)


def a_eval_when(c, o, a, kw):
    """Parts are evaluated against the same node (recorded)."""
    c.memo.setdefault("evals", []).append((o, a[0]))
    return None


AbstractContract(SP.SchemaPattern, "_eval_when", a_eval_when)


def evals_ens(c, args, out, old):
    self, cn = args
    if out.kind != "ret":
        return []
    done = c.memo.get("evals", [])
    gs = []
    for part in ("pattern", "left", "right"):
        if self.cls is SP.ConditionalPattern and part == "pattern" or \
                self.cls in (SP.Alternative, SP.ChoicePattern, SP.Pair) and part != "pattern":
            p = attr(self, part)
            gs.append((f"conditions inside {part} are evaluated in the same node",
                       z3.Or(*[z3.And(o.ref == p.ref, n.ref == cn.ref) for o, n in done]) if done else False))
    if self.cls in (SP.ConditionalPattern, SP.Member):
        w = attr(self, "when")
        if w is not None:
            at = cn if self.cls is SP.ConditionalPattern else a_put(c, cn, [attr(self, "name")], {})
            gs.append(("the condition is evaluated in the right node",
                       truth(attr(self, "_val_when")) == truth(a_evaluate(c, w, [at], {}))))
    return gs


def when_there(c, self, cn):
    if self.cls is SP.ConditionalPattern and attr(self, "when") is None:
        raise Infeasible()


for k in PATS:
    Contract(SPM + k.__name__ + "._eval_when" if False else "yangson.schpattern:" + k.__name__ + "._eval_when", [ObjS(k), CN], requires=when_there,
             ensures=evals_ens, props=P, variant=k.__name__,
             modifies=[(0, "_val_when")] if issubclass(k, SP.Conditional) else [])


# ---------------------------------------------------------------- who counts as mandatory
NODE1 = LEAF
AMC = dict(parent=Opt(ObjS(SNM.ContainerNode, SNM.CaseNode)), _mandatory_children=TupS(SetS(NODE1), SetS(NODE1)))


def a_addm(c, o, a, kw):
    c.memo.setdefault("added", []).append((o, a[0]))
    return None


AbstractContract(SNM.InternalNode, "_add_mandatory_child", a_addm)


def old_sets(c, self, node):
    mc = attr(self, "_mandatory_children")
    return [(some(s), s.map) for s in mc] + [truth(attr(node, "mandatory_config"))]


def addm_ens(c, args, out, old):
    self, node = args
    if out.kind != "ret":
        return []
    k = z3.Int("mk!")
    conf = old[2]
    mc = attr(self, "_mandatory_children")
    gs = []
    for j in (0, 1):
        want = z3.Or(ops.map_has_term(old[j][1], k, I), z3.And(k == node.ref, conf if j else z3.Not(conf)))
        gs.append((f"set {j}: the node is added where it belongs", ops.map_has_term(mc[j].map, k, I) == want))
    told = c.memo.get("added", [])
    if self.cls is SNM.ContainerNode:
        before = [o[0] for o in old[:2]]
        after = [some(s) for s in mc]
        pres = truth(attr(self, "presence"))
        grown = z3.And(z3.Not(pres), z3.Or(z3.And(after[0] if False else z3.Or(*after), z3.Not(z3.Or(*before))),
                                           z3.And(after[1], z3.Not(before[1]))))
        par = attr(self, "parent")
        hit = z3.BoolVal(any(o is par and n is self for o, n in told))
        gs.append(("the parent learns when the container becomes mandatory", z3.Implies(grown, hit)))
    return gs


MCONT = ObjS(SNM.ContainerNode, attrs=AMC)
MCASE = ObjS(SNM.CaseNode, attrs=AMC)
for sh in (MCONT, MCASE):
    Contract(f"yangson.schemanode:{sh.classes[0].__name__}._add_mandatory_child", [sh, NODE1], old=old_sets, ensures=addm_ens,
             requires=lambda c, self, n: has_parent(c, self), props=P, variant=sh.classes[0].__name__,
             modifies=[(0, "_mandatory_children.content")])
