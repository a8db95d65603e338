"""C08: sequences of moves and edits against nested dicts and lists with a focus."""
import random
from pyvc.probes import probe, Fail, outcome
from .tree import *

EXPECT = {"NI": NonexistentInstance, "IV": InstanceValueError, "NS": NonexistentSchemaNode}


def gen(r):
    for s, d in gen_tree(r):
        for _ in range(6):
            yield (s, d, r.randrange(10**9), r.randint(3, 14))


class State:
    def __init__(self, node, tree, path):
        self.node, self.tree, self.path = node, tree, path


def step(r, s, st):
    """One random operation: (description, thunk on the real node, expected State parts or error)."""
    node, tree, path = st.node, st.tree, st.path
    v = at(tree, path)
    sn = node.schema_node
    ops = ["up", "top", "update", "down", "down", "down", "bad"]
    if path and isinstance(path[-1], int):
        ops += ["next", "next", "previous", "insert_before", "insert_after", "insert_raw"]
    if path and isinstance(path[-1], str):
        ops += ["sibling", "sibling"]
    if is_obj(v):
        ops += ["put", "put_raw", "delete"]
    if is_arr(v):
        ops += ["delete", "iter"]
        if snode(s, path) is not None and snode(s, path)["k"] == "list":
            ops += ["look_up"]
    op = r.choice(ops)
    k = path[-1] if path else None
    par = at(tree, path[:-1]) if path else None
    if op == "up":
        return "up()", node.up, ("NI" if not path else (tree, path[:-1]))
    if op == "top":
        return "top()", node.top, (tree, ())
    if op == "update":
        n = snode(s, path)
        if n is None or n["k"] == "anydata":
            return "up()", node.up, ("NI" if not path else (tree, path[:-1]))
        entry = isinstance(k, int)
        raw = raw_entry(r, n) if entry else fresh(r, n, None)
        c = cooked(sn, raw, entry)
        if r.random() < .5:
            return f"update({raw!r}, raw=True)", lambda: node.update(raw, True), (put(tree, path, plain(c)), path)
        return f"update({c!r})", lambda: node.update(c), (put(tree, path, plain(c)), path)
    if op == "down":
        if is_obj(v) and v["o"]:
            m = r.choice([x for x in v["o"]])
            return f"[{m!r}]", lambda: node[m], (tree, path + (m,))
        if is_arr(v) and len(v) > 1:
            i = r.randint(-(len(v) - 1), len(v) - 2)
            return f"[{i}]", lambda: node[i], (tree, path + (i % (len(v) - 1),))
        return "top()", node.top, (tree, ())
    if op == "bad":
        if is_obj(v):
            ms = [m for m, _ in members(s, path) if m not in v["o"]]
            x = r.choice(ms + ["nosuch", 0, "m:nosuch"])
            if r.random() < .5:
                return f"[{x!r}]", lambda: node[x], "NI" if x not in ("nosuch", "m:nosuch") else ("NI", "NS")
            return f"delete_item({x!r})", lambda: node.delete_item(x), "NI"
        if is_arr(v):
            x = r.choice([len(v) - 1, len(v) + 3, -len(v), "x"])
            if r.random() < .5:
                return f"[{x!r}]", lambda: node[x], "NI"
            return f"delete_item({x!r})", lambda: node.delete_item(x), "NI"
        x = r.choice(["x", 0])
        return f"[{x!r}]", lambda: node[x], "IV"
    if op in ("next", "previous"):
        j = k + (1 if op == "next" else -1)
        return op + "()", getattr(node, op), ((tree, path[:-1] + (j,)) if 0 <= j < len(par) - 1 else "NI")
    if op.startswith("insert"):
        n = snode(s, path)
        raw = raw_entry(r, n)
        after = op == "insert_after" or op == "insert_raw" and r.random() < .5
        f = node.insert_after if after else node.insert_before
        c = cooked(sn, raw, True)
        new = list(par)
        new.insert(k + 1 + (1 if after else 0), plain(c))
        res = (put(tree, path[:-1], new), path[:-1] + (k + (1 if after else 0),))
        if op == "insert_raw":
            return f"{f.__name__}({raw!r}, raw=True)", lambda: f(raw, True), res
        return f"{f.__name__}({c!r})", lambda: f(c), res
    if op == "sibling":
        ms = members(s, path[:-1])
        m, _ = r.choice(ms)
        ok = m in par["o"] and m != k
        if r.random() < .1:
            return "sibling('nosuch')", lambda: node.sibling("nosuch"), "NS"
        return f"sibling({m!r})", lambda: node.sibling(m), ((tree, path[:-1] + (m,)) if ok else "NI")
    if op in ("put", "put_raw"):
        ms = [x for x in members(s, path) if x[1]["k"] != "anydata"]
        if not ms or r.random() < .1:
            return "put_member('nosuch', 1)", lambda: node.put_member("nosuch", 1), "NS"
        m, n = r.choice(ms)
        raw = fresh(r, n, None)
        csn = sn.get_data_child(n["n"], n["ns"])
        c = cooked(csn, raw)
        new = {"o": dict(v["o"])}
        new["o"][m] = plain(c)
        name = r.choice([m, f"{n['ns']}:{n['n']}"])
        res = (put(tree, path, new), path + (m,))
        if op == "put_raw":
            return f"put_member({name!r}, {raw!r}, raw=True)", lambda: node.put_member(name, raw, True), res
        return f"put_member({name!r}, {c!r})", lambda: node.put_member(name, c), res
    if op == "delete":
        if is_obj(v):
            if not v["o"]:
                return "delete_item('x')", lambda: node.delete_item("x"), "NI"
            m = r.choice(list(v["o"]))
            new = {"o": {x: y for x, y in v["o"].items() if x != m}}
            return f"delete_item({m!r})", lambda: node.delete_item(m), (put(tree, path, new), path)
        if len(v) == 1:
            return "delete_item(0)", lambda: node.delete_item(0), "NI"
        i = r.randint(-(len(v) - 1), len(v) - 2)
        new = list(v)
        del new[1 + i % (len(v) - 1)]
        return f"delete_item({i})", lambda: node.delete_item(i), (put(tree, path, new), path)
    if op == "iter":
        def go():
            es = list(node)
            if [e.index for e in es] != list(range(len(v) - 1)):
                raise Fail(f"iteration over {v} gives the indices {[e.index for e in es]}")
            if [plain(e.value) for e in es] != v[1:]:
                raise Fail(f"iteration over {v} gives {[plain(e.value) for e in es]}")
            return es[-1].up() if es else node
        return "iteration", go, (tree, path)
    if op == "look_up":
        n = snode(s, path)
        val = node.value
        if len(val) and isinstance(val[0], ObjectValue):
            e = r.choice(list(val))
            ks = [x for x in e if not isinstance(e[x], (ArrayValue, ObjectValue)) and x.isidentifier()]
            ks = r.sample(ks, min(len(ks), r.randint(1, 2)))
            kw = {x: (e[x] if r.random() < .9 else "zz") for x in ks}
            hit = [i for i, x in enumerate(val) if all(y in x and x[y] == kw[y] for y in kw)]
            return f"look_up({kw!r})", lambda: node.look_up(**kw), ((tree, path + (hit[0],)) if hit else "NI")
        return "look_up(nosuch=1)", lambda: node.look_up(nosuch=1), "NI"
    raise AssertionError(op)


@probe(gen, weight=4)
def moves_and_edits(case):
    s, doc, seed, n = case
    m, root = root_of(s, doc)
    if root is None:
        return
    r = random.Random(seed)
    st = State(root, plain(root.value), ())
    log = []
    back = [st]
    for _ in range(n):
        if r.random() < .1:
            st = r.choice(back)
        what, f, want = step(r, s, st)
        log.append(f"{st.node.json_pointer()}.{what}" if st.path else what)
        k, x = outcome(f)
        if isinstance(want, str) or isinstance(want[0], str):
            kinds = tuple(EXPECT[y] for y in ((want,) if isinstance(want, str) else want))
            if k != "exc" or not isinstance(x, kinds):
                return f"{raw_text(s, doc)}: {'; '.join(log)} gives {x!r}, expected {[y.__name__ for y in kinds]}"
            continue
        if k == "exc":
            return f"{raw_text(s, doc)}: {'; '.join(log)} raises {x!r} {x}"
        tree, path = want
        bad = differs(s, x, tree, path)
        if bad:
            return f"{raw_text(s, doc)}: {'; '.join(log)}: {bad}"
        st = State(x, tree, path)
        back.append(st)


def raw_text(s, doc):
    return str(to_raw(s, doc))


def differs(s, x, tree, path):
    if x.path != path:
        return f"path is {x.path}, expected {path}"
    if plain(x.value) != at(tree, path):
        return f"value is {plain(x.value)}, expected {at(tree, path)}"
    if x.json_pointer() != "/" + "/".join(map(str, path)):
        return f"JSON pointer is {x.json_pointer()}"
    want = next((k for k in reversed(path) if isinstance(k, str)), "/")
    if x.name != want:
        return f"name is {x.name!r}, expected {want!r}"
    if path and isinstance(path[-1], int) and x.index != path[-1]:
        return f"index is {x.index}, expected {path[-1]}"
    n = snode(s, path)
    if n is not None and (x.schema_node.name, x.schema_node.ns) != (n["n"], n["ns"]):
        return f"schema node is {x.schema_node.qual_name}"
    top = x.top()
    if top.path != () or plain(top.value) != tree:
        return f"seen from the top the tree is {plain(top.value)}, expected {tree}"
