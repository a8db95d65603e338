"""C20: XML encoding and decoding."""
import json
import re
import xml.etree.ElementTree as ET
from decimal import Decimal
from pyvc.probes import probe, Skip, outcome
from yangson.exceptions import *
from yangson.xmlparser import XMLParser
from .types import *
from . import schema as sc
from .schema import same
from .util import model, module

URN = "urn:ietf:params:xml:ns:yang:ietf-yang-instance-data"


def xml_ok(s):
    """Characters that survive XML serialisation (the carriage return is normalised away by parsers)."""
    return all(c in "\t\n" or " " <= c <= "\ud7ff" or "\ue000" <= c <= "\ufffd" or c > "\uffff" for c in s)


def xml_read(d, text):
    """What a text denotes: [base, canonical text] of the first member type that accepts it (reference)."""
    b = d["b"]
    if b == "union":
        for t in d["types"]:
            x = xml_read(t, text)
            if x is not None:
                return x
        return None
    if b == "boolean":
        c = [["b", text == "true"]] if text in ("true", "false") else []
    elif b == "empty":
        c = [["t", None]] if text == "" else []
    elif b in sc.INTS:
        c = [["i", int(text)]] if re.fullmatch(r"\s*[-+]?[0-9]+(_[0-9]+)*\s*", text) and len(text) < 4000 else []
    elif b == "instance-identifier":
        c = [["rt"] + re.findall("/m:([a-z]+)", text)] if re.fullmatch("(/m:[a-z]+)+", text) else []
    else:
        c = sc.candidates(d, text)
    for v in c:
        if accepts(d, v):
            return sc.norm(d, v)


def survives(d, v):
    """Values that XML can carry and whose union member reads them back."""
    t = canon(d, v)
    if not xml_ok(t):
        return False
    return d["b"] != "union" or xml_read(d, t) == sc.norm(first_member(d, v), v)


def reparse(e):
    return XMLParser(ET.tostring(e, encoding="unicode")).root


def parsed(e):
    """Element as [namespace, name, content]."""
    m = re.fullmatch(r"(?:\{(.*)\})?(.*)", e.tag)
    return [m[1], m[2], [parsed(x) for x in e] if len(e) else e.text or ""]


def gen_leaf(r):
    while True:
        d = gen_type(r, bases=None)
        for _ in range(8):
            v = gen_value(r, d)
            if accepts(d, v) and not (v[0] == "rt" and len(v) < 2) and \
                    not (v[0] == "d" and "E" in v[1].upper() and len(v[1]) > 5) and survives(d, v):
                yield (d, v)


def leaf_model(d):
    tdefs = []
    t = type_text(d, tdefs)
    return model(module(IDTEXT + "\n" + "\n".join(tdefs) + f"\ncontainer c {{ leaf x {{ {t} }} leaf y {{ type string; }} }} leaf q {{ {t} }}"))


def value_ok(x, y):
    return same(x, y) or isinstance(y, Decimal) and isinstance(x, Decimal) and y == x or \
        isinstance(x, tuple) and isinstance(y, tuple) and sorted(map(str, x)) == sorted(map(str, y)) or \
        isinstance(x, list) and isinstance(y, list) and x == y or x == y == ()  # routes, bits


@probe(gen_leaf, weight=3)
def scalars(case):
    d, v = case
    if not accepts(d, v) or not survives(d, v):
        return
    m = leaf_model(d)
    x = cookv(v)
    root = m.from_raw({})
    c = root.put_member("m:q", x).up().put_member("m:c", {}, raw=True)
    c = c.put_member("x", x)
    root = c.top()
    e = root.to_xml()
    doc = reparse(e)
    txt = canon(d, v)
    got = sorted(map(str, parsed(doc)[2]))
    want = sorted(map(str, [["urn:m", "q", txt], ["urn:m", "c", [["urn:m", "x", txt]]]]))
    if doc.tag != "{%s}content-data" % URN or got != want:
        return f"{x!r} in {d} is encoded as {ET.tostring(e)}, expected text {txt!r}"
    back = m.from_xml(doc)
    for y in (back.value["m:q"], back.value["m:c"]["x"]):
        if not value_ok(x, y):
            return f"{x!r} in {d} -> {ET.tostring(e)} -> {y!r}"


def gen_trees(r):
    while True:
        s = sc.gen_schema(r, sc.Opts(when=0, defaults=.1, anydata=0, aug=.35))
        for _ in range(6):
            yield (s, no_empty(sc.gen_doc(r, s, good=1)), r.choice(["data", "data", "rpc", "notification", "action"]))


def no_empty(x):
    """Without lists that have no entries (XML has no notation for them)."""
    if isinstance(x, list) and x and x[0] == "o":
        return ["o", [[k, no_empty(v)] for k, v in x[1] if v != ["l", []]]]
    if isinstance(x, list) and x and x[0] == "l":
        return ["l", [no_empty(v) for v in x[1]]]
    return x


def carried(ch, doc, pns=None):
    try:
        return sc.to_raw(ch, doc, pns) is not None and carried_(ch, doc, pns)
    except (TypeError, KeyError, ValueError, IndexError, AttributeError):
        return False        # not a document (a shrunk case)


def carried_(ch, doc, pns=None):
    """No value in the document is changed by the XML notation itself."""
    for name, v in doc[1]:
        n = sc.child_of(ch, name, pns)
        if n is None or v == ["l", []]:
            return False
        if n["k"] in ("leaf", "leaf-list"):
            if not all(survives(n["t"], x) for x in (v[1] if n["k"] == "leaf-list" else [v])):
                return False
        elif not all(carried_(n["ch"], x, n["ns"]) for x in (v[1] if n["k"] == "list" else [v])):
            return False
    return True


def reference(ch, doc, pns=None):
    """Elements of a document."""
    out = []
    for name, v in doc[1]:
        n = sc.child_of(ch, name, pns)
        for x in v[1] if n["k"] in ("leaf-list", "list") else [v]:
            out.append(["urn:" + n["ns"], n["n"], canon(n["t"], x) if "t" in n else reference(n["ch"], x, n["ns"]) or ""])
    return out


def plain_types(ch):
    return all(n["ns"] == "m" and plain_types(n.get("ch", [])) for n in ch)


def rpc_model(s, kind):
    td = {"m": [], "a": []}
    augs = []
    body = sc.children_text(s, "m", "", td, augs)
    outer = {"rpc": "rpc op { input { %s } }", "notification": "notification op { %s }",
             "action": "container top { action op { output { %s } } }"}[kind] % body
    return model(module(IDTEXT + "\n" + "\n".join(td["m"]) + "\n" + outer))


def stripped(ch):
    """Without state or order statements, which operations do not have."""
    return [{**{k: v for k, v in n.items() if k not in ("cfg",)}, **({"ch": stripped(n["ch"])} if "ch" in n else {})} for n in ch]


@probe(gen_trees, weight=5)
def trees(case):
    s, doc, kind = case
    if kind in ("rpc", "action"):
        doc = ["o", [[k.split(":")[-1], v] for k, v in doc[1]]]
    if not carried(s, doc, "m" if kind in ("rpc", "action") else None):
        return
    if kind == "data":
        m = sc.build(s)
        raw = sc.to_raw(s, doc)
        root = m.from_raw(raw)
        e = root.to_xml()
        p = reparse(e)
        want = [URN, "content-data", reference(s, doc) or ""]
        back = m.from_xml(p)
    else:
        if not plain_types(s):
            return
        s = stripped(s)
        m = rpc_model(s, kind)
        if kind == "notification":
            raw = sc.to_raw(s, doc)
            inner = reference(s, doc)
            want = ["urn:m", "op", inner or ""]
            root = m.from_raw(raw, "m:op")
        else:
            part = "input" if kind == "rpc" else "output"
            raw = {"m:" + part: sc.to_raw(s, doc, "m")}
            want = ["urn:m", part, reference(s, doc, "m") or ""]
            if kind == "rpc":
                root = m.from_raw(raw, "m:op")
            else:
                from yangson.instance import RootNode
                sn = m.get_schema_node("/m:top/op")
                v = sn.from_raw(raw)
                root = RootNode(v, sn, m.schema_data, v.timestamp)
        e = root.to_xml()
        p = reparse(e)
        back = m.from_xml(p, "m:op") if kind != "action" else None
        if back is None:
            from yangson.instance import RootNode
            v = root.schema_node.from_xml(p)
            back = RootNode(v, root.schema_node, m.schema_data, v.timestamp)
    got = parsed(p)
    if got != want:
        return f"{kind} {raw} is encoded as {ET.tostring(e)}\nexpected {want}\n{sc.texts(s)}"
    if back.value != root.value or back.raw_value() != root.raw_value() or list_order(back.value) != list_order(root.value):
        return f"{kind} {raw} -> {ET.tostring(e)} -> {back.raw_value()}\n{sc.texts(s)}"


def list_order(v):
    if isinstance(v, dict):
        return {k: list_order(x) for k, x in v.items()}
    if isinstance(v, list):
        return [list_order(x) for x in v]
    return (type(v).__name__, v)


TEXTS = ["", " ", "true", "TRUE", "1", "0", " 1 ", "1_0", "+1", "-1", "300", "1.5", "NaN", "sNaN", "Infinity", "1e5", "1E400", "a", "a b",
         "b a", "a a", "m:d1", "d1", "q:d1", "z:d1", ":", "m:", ":d1", "/m:x", "/", "/m:x[", "AAAA", "A===", "é", "\u0663", "0x10", ".",
         "-", "9" * 50, "9" * 5000, "1" * 30 + "." + "1" * 30, "m:zz", "\n", "a\nb", "zz", "nope", "xml:d1", "http://x/y", "false "]


def gen_text(r):
    while True:
        d = gen_type(r)
        for _ in range(10):
            if r.random() < .6:
                t = r.choice(TEXTS)
            else:
                v = gen_value(r, d)
                t = canon(d, v) if accepts(d, v) else r.choice(TEXTS)
                if r.random() < .6:
                    t = mutate_text(r, t)
            if xml_ok(t):
                yield (d, t)


@probe(gen_text, weight=3)
def texts(case):
    """Any element text is decoded to a value of the right kind or refused as raw data."""
    d, text = case
    m = leaf_model(d)
    e = ET.Element("x")
    e.text = text
    c = ET.Element("{urn:m}c")
    e.tag = "{urn:m}x"
    c.append(e)
    top = ET.Element("{%s}content-data" % URN)
    top.append(c)
    p = reparse(top)
    k, x = outcome(m.from_xml, p)
    if k == "exc":
        if not isinstance(x, RawDataError):
            return f"text {text!r} decoded as {d}: {x!r}"
        if d["b"] != "union" and xml_read(d, text) is not None and d["b"] not in ("bits",):
            return f"text {text!r} refused for {d}"
        return
    y = x.value["m:c"]["x"]
    if not kind_ok(d, y):
        return f"text {text!r} decoded as {d} gives {y!r}"
    want = xml_read(d, text)
    if d["b"] in ("instance-identifier", "union"):
        return
    if want is not None and y in m.get_schema_node("/m:c/x").type and m.get_schema_node("/m:c/x").type.canonical_string(y) != want[1]:
        return f"text {text!r} decoded as {d} gives {y!r}, expected {want}"


def gen_elems(r):
    while True:
        s = sc.gen_schema(r, sc.Opts(when=0, defaults=.1, anydata=0, aug=.3))
        for _ in range(8):
            x = ["x", "content-data", reference(s, sc.gen_doc(r, s, good=1)) or ""]
            for _ in range(r.choice([1, 1, 2])):
                x = damage(r, x)
            yield (s, x)


def damage(r, e):
    ns, name, body = e
    if isinstance(body, list) and body and r.random() < .8:
        i = r.randrange(len(body))
        k = r.random()
        if k < .7:
            return [ns, name, body[:i] + [damage(r, body[i])] + body[i + 1:]]
        if k < .8:
            return [ns, name, body[:i] + body[i + 1:]]
        if k < .9:
            return [ns, name, body + [body[i]]]
        return [ns, name, body[::-1]]
    k = r.random()
    if k < .2:
        return [r.choice(["urn:a", "urn:m", "urn:zz", None]), name, body]
    if k < .4:
        return [ns, r.choice(["nope", "x", "y", "z"]), body]
    if k < .8:
        return [ns, name, r.choice(TEXTS)]
    return [ns, name, [["urn:m", r.choice("xyz"), "1"]]]


def element(e):
    x = ET.Element("{%s}%s" % (e[0], e[1]) if e[0] else e[1])
    if isinstance(e[2], list):
        for y in e[2]:
            x.append(element(y))
    else:
        x.text = e[2]
    return x


def well(e):
    return isinstance(e, list) and len(e) == 3 and isinstance(e[1], str) and re.fullmatch("[a-z-]+", e[1]) and \
        (e[0] is None or isinstance(e[0], str) and re.fullmatch("[a-z:]+", e[0])) and \
        (isinstance(e[2], str) and xml_ok(e[2]) or isinstance(e[2], list) and all(well(x) for x in e[2]))


@probe(gen_elems, weight=2)
def documents(case):
    """Any document is decoded, or refused with a documented error."""
    s, e = case
    if not well(e):
        return
    m = sc.build(s)
    k, x = outcome(m.from_xml, reparse(element(e)))
    if k == "exc" and not isinstance(x, (RawDataError, MissingModuleNamespace)):
        return f"document {e}: {x!r}\n{sc.texts(s)}"
