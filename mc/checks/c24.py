"""C24: annotations and output filters affect exactly what they name."""
import copy
import itertools
import json
import xml.etree.ElementTree as ET

from mc.models import build, module
from mc.ref import encode as EN
from mc.ref import types as T
from mc.checks import c04
from yangson.exceptions import (AnnotationTypeError, MissingAnnotationTarget,
                                RawDataError, RawTypeError,
                                UndefinedAnnotation, YangsonException,
                                NonexistentInstance)
from yangson.instance import ArrayEntry, OutputFilter
from yangson.instvalue import StructuredValue

PROPERTY = "C24"
BAD = (AnnotationTypeError, RawTypeError)
WD = "ietf-netconf-with-defaults:default"
WDNS = "urn:ietf:params:xml:ns:netconf:default:1.0"
MD = module("ietf-yang-metadata", "extension annotation { argument name; }",
            prefix="md")
WDM = module(WD.partition(":")[0],
             "md:annotation default { type boolean; }", prefix="ncwd",
             imports=[("ietf-yang-metadata", "md")])


def same(a, b):
    """Equality of JSON values including the types of scalars."""
    if isinstance(a, dict):
        return (isinstance(b, dict) and a.keys() == b.keys() and
                all(same(a[k], b[k]) for k in a))
    if isinstance(a, list):
        return (isinstance(b, list) and len(a) == len(b) and
                all(same(x, y) for x, y in zip(a, b)))
    return type(a) is type(b) and a == b


def out(f, *args):
    try:
        return ("ok", f(*args))
    except Exception as e:
        return ("exc", type(e).__name__, str(e))


def freeze(v):
    """Deep image of a cooked value, metadata included."""
    if isinstance(v, dict):
        return (type(v).__name__, tuple((k, freeze(v[k])) for k in v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(freeze(x) for x in v))
    return (type(v).__name__, repr(v))


def strip(v):
    """Document without metadata."""
    if isinstance(v, dict):
        return {k: strip(v[k]) for k in v if not k.startswith("@")}
    if isinstance(v, list):
        return [strip(x) for x in v]
    return v


# ------------------------------------------------------------------ types

_an = c04.types("a")
ANN = {k: v for k, v in _an.items() if k not in ("lref", "unlr")}


def idents(mod):
    res = ""
    for (m, n), bases in EN.IDGRAPH.items():
        if m == mod:
            res += f"identity {n} {{" + "".join(
                f" base {b[1] if b[0] == m else ':'.join(b)};"
                for b in bases) + " }\n"
    return res


def annotated_model(body, wd=False, ann=True, bbody=""):
    """Modules a (all annotations) and b."""
    a = "feature f;\n" + idents("a") + body
    sub = ""                    # every other one in a submodule
    if ann:
        for i, (k, (t, _)) in enumerate(ANN.items()):
            d = f"md:annotation {k} {{ {T.inline(t)} }}\n"
            if i % 2:
                sub += d
            else:
                a += d
            a += f"leaf v-{k} {{ {T.inline(t)} }}\n"
        a += "md:annotation v { type string; }\n"
        a += "md:annotation off { if-feature f; type string; }\n"
        sub += "md:annotation soff { if-feature 'not not f'; type string; }\n"
    b = idents("b") + "md:annotation bs { type string; }\n" + bbody
    mods = {"ietf-yang-metadata": MD,
            "a": module("a", a, imports=[("ietf-yang-metadata", "md")],
                        head="include sa;\n"),
            "sa": "submodule sa { yang-version 1.1; belongs-to a { prefix a; "
                  "} import ietf-yang-metadata { prefix md; }\n" + sub + "}",
            "b": module("b", b, imports=[("ietf-yang-metadata", "md"),
                                         ("a", "a")])}
    if wd:
        mods[WD.partition(":")[0]] = WDM
    return build(mods, [
        {"name": n, "submodules": ["sa"] if n == "a" else []}
        for n in mods if n != "sa"])


BODY = """
container h { presence p;
  leaf x { type uint8; }
  leaf-list ll { type string; }
  leaf-list un { type union { type uint8; type string; type boolean; } }
  list l { key k; leaf k { type string; }
    container e { leaf y { type uint8; default 3; } } leaf z { type empty; } }
  list kl { config false; leaf q { type string; } }
  leaf m { type string; mandatory true; }
  leaf d { type string; default dd; }
  must "not(x = 9)";
}
leaf t { type string; }
"""
BBODY = """
augment "/a:h" { leaf ax { type string; }
  container ac { leaf ax { type string; default "q"; } } }
leaf t { type string; }
"""

_models = {}


def model(key):
    if key not in _models:
        _models.clear()
        _models[key] = {
            "doc": lambda: annotated_model(BODY, bbody=BBODY),
            "tag": lambda: annotated_model(TAGBODY, ann=False, bbody=TAGB),
            "tagwd": lambda: annotated_model(TAGBODY, wd=True, ann=False,
                                             bbody=TAGB),
        }[key]()
    return _models[key]


# --------------------------------------------- types of annotation values

def type_case(dm, lab, raw):
    """One annotation value at all kinds of places."""
    t = ANN[lab][0]
    v = t.json(raw)
    if v is T.DONTCARE:
        return None
    md = {"a:" + lab: raw}
    places = {
        "container": {"a:h": {"@": md, "m": ""}},
        "leaf": {"a:h": {"m": "", "@m": md}},
        "leaf first": {"a:h": {"@m": md, "m": ""}},
        "top": {"a:t": "", "@a:t": md},
        "top of another": {"b:t": "", "@b:t": md},
        "entry": {"a:h": {"m": "", "l": [{"k": "1"}, {"k": "2", "@": md}]}},
        "leaf in entry": {"a:h": {"m": "", "l": [{"k": "1", "@k": md}]}},
        "leaf-list": {"a:h": {"m": "", "ll": ["1", "2"], "@ll": [None, md]}},
        "augment": {"a:h": {"m": "", "b:ax": "1", "@b:ax": md}},
        "two": {"a:h": {"m": "", "@m": {"a:v": "1", "a:" + lab: raw,
                                        "b:bs": "1"}}},
    }
    for p, doc in places.items():
        snap = json.dumps(doc)
        r = out(dm.from_raw, doc)
        if json.dumps(doc) != snap:
            return f"reading changed the input {snap}"
        if v is None:
            if r[0] == "ok":
                return f"{doc}: wrong annotation value accepted"
            if r[1] not in [b.__name__ for b in BAD]:
                return f"{doc}: {r}"
            continue
        if r[0] != "ok":
            return f"{doc}: {r}"
        exp = json.loads(json.dumps(doc).replace(
            json.dumps(md)[1:-1],
            json.dumps({"a:" + lab: t.raw(v)})[1:-1]))
        o = out(r[1].raw_value)
        if o[0] != "ok" or not same(exp, o[1]):
            return f"{doc}: written as {o[1:]}"
        if json.loads(json.dumps(o[1])) != o[1]:
            return f"{doc}: output is not plain JSON"
        w = out(r[1].validate)
        if w[0] != "ok":
            return f"{doc}: {w}"
        m = xml_case(dm, r[1], doc)
        if m:
            return m
    return None


SHAPES = [None, True, 0, "", "x", [], {}, [None], [{}], [[]], [None, None],
          [{}, None, {}], {"a:v": "1"}, [{"a:v": "1"}], [None, {"a:v": "1"}],
          [{"a:v": "1"}, {"a:v": "2"}], [None, None, {"a:v": "1"}],
          [{"a:v": "1"}, 5], ["x"], {"a:none": 1}, {"v": "1"},
          {"a:off": "1"}, {"a:soff": "1"}, {"sa:v": "1"}, {"none": 1},
          {"c:v": "1"}, {":": 1}, {"a:": 1}, {"@": 1}, {"": 1}, {":v": "1"},
          {"a:b:v": "1"}, [{"a:none": 1}]]
TARGETS = {
    "container": ({"a:h": {"m": ""}}, ("a:h",), "@"),
    "leaf": ({"a:h": {"m": ""}}, ("a:h",), "@m"),
    "absent leaf": ({"a:h": {"m": ""}}, ("a:h",), "@x"),
    "absent node": ({"a:h": {"m": ""}}, ("a:h",), "@no"),
    "absent top": ({"a:h": {"m": ""}}, (), "@a:t"),
    "top": ({"a:h": {"m": ""}, "a:t": ""}, (), "@a:t"),
    "top b": ({"b:t": "", "a:h": {"m": ""}}, (), "@b:t"),
    "entry": ({"a:h": {"m": "", "l": [{"k": ""}]}}, ("a:h", "l", 0), "@"),
    "leaf-list": ({"a:h": {"m": "", "ll": ["1", "2"]}}, ("a:h",), "@ll"),
    "one": ({"a:h": {"m": "", "ll": ["1"]}}, ("a:h",), "@ll"),
    "none": ({"a:h": {"m": "", "ll": []}}, ("a:h",), "@ll"),
    "absent leaf-list": ({"a:h": {"m": ""}}, ("a:h",), "@ll"),
    "augment": ({"a:h": {"m": "", "b:ax": ""}}, ("a:h",), "@b:ax"),
}


def classify(val, defined):
    """Class of a metadata object: None - well formed."""
    if not isinstance(val, dict):
        return "shape"
    for k, v in val.items():
        if k not in defined:
            return "undefined"
    return None


def shape_case(dm, target, shape):
    """Malformed metadata."""
    base, path, mem = TARGETS[target]
    res = []
    for first in (False, True):
        doc = copy.deepcopy(base)
        o = doc
        for p in path:
            o = o[p]
        if first:
            rest = dict(o)
            o.clear()
            o[mem] = copy.deepcopy(shape)
            o.update(rest)
        else:
            o[mem] = copy.deepcopy(shape)
        # unqualified annotation names are left open
        names = [k for x in (shape if isinstance(shape, list) else [shape])
                 if isinstance(x, dict) for k in x]
        r = out(dm.from_raw, doc)
        res.append(r[:2] if r[0] == "exc" else "ok")
        if r[0] == "exc" and r[1] not in (
                "AnnotationTypeError", "RawTypeError", "UndefinedAnnotation",
                "MissingAnnotationTarget", "RawMemberError"):
            return f"{doc}: {r}"
        if r[0] == "ok":
            w = out(lambda: (r[1].validate(), r[1].raw_value(),
                             r[1].to_xml(), r[1].add_defaults(tag=True)))
            if w[0] != "ok" and not any(":" not in k or k[0] == ":"
                                        for k in names):
                return f"{doc}: {w}"
        if any(":" not in k or k in (":", ":v") for k in names):
            continue
        if target.startswith("absent"):
            exp = {"MissingAnnotationTarget"}
        elif mem == "@ll" and isinstance(shape, list):
            exp = {"ok"}
            for i, x in enumerate(shape):
                if x is None:
                    continue
                if i >= len(o["ll"]):
                    exp = {"MissingAnnotationTarget"}
                    break
                c = classify(x, ("a:v",))
                if c:
                    exp = {"RawTypeError" if c == "shape"
                           else "UndefinedAnnotation"}
                    break
        elif mem == "@ll":
            c = classify(shape, ("a:v",))
            exp = {"RawTypeError"} if c == "shape" else \
                {"UndefinedAnnotation"} if c else {"ok", "RawTypeError"}
        else:
            c = classify(shape, ("a:v",))
            exp = {"RawTypeError" if c == "shape" else
                   "UndefinedAnnotation" if c else "ok"}
        got = "ok" if r[0] == "ok" else r[1]
        if got not in exp:
            return f"{doc}: {got} {r[1:]}, expected {sorted(exp)}"
    return None


# --------------------------------------------------- annotated documents

def subdoc(variant):
    h = {"x": 1, "ll": ["b", "a"], "l": [
        {"k": "1", "e": {"y": 2}, "z": [None]}, {"k": "2"}],
        "kl": [{"q": "1"}, {}], "m": "1", "b:ax": "1", "b:ac": {"ax": "2"}}
    if variant == 1:
        h["ll"] = ["b", "b"]            # duplicate
    if variant == 2:
        del h["m"]                      # mandatory
    if variant == 3:
        h["x"] = 300
    if variant == 4:
        h["x"] = 9                      # must
    if variant == 5:
        h["l"][1]["k"] = "1"            # duplicate key
    if variant == 6:
        h = {"m": "1", "x": 1, "ll": ["b", "a"], "l": [
            {"k": "1", "e": {}}], "b:ax": "1"}
        return {"b:t": "5", "a:h": h, "a:t": "5"}
    if variant == 7:
        h["q"] = 1                      # unknown member last
    if variant == 8:
        h["m"] = 5                      # wrong shape
    return {"a:h": h, "a:t": "5", "b:t": "6"}


PLACES = [("h",), ("h", "x"), ("h", "ll", 0), ("h", "ll", 1), ("h", "l", 0),
          ("h", "l", 1), ("h", "l", 0, "k"), ("h", "l", 0, "e"),
          ("h", "l", 0, "e", "y"), ("h", "l", 0, "z"), ("h", "kl", 1),
          ("h", "b:ax"), ("h", "b:ac"), ("t",), ("b:t",)]
VALUES = [{"a:v": "1"}, {"a:id": "a:i1"}, {"b:bs": "", "a:u8": 0},
          {"a:dec": "1.5"}, {"a:bool": False}, {"a:enum": "b c"},
          {"a:bits": "a b"}, {"a:empty": [None]}, {"a:i64": "-5"},
          {"a:un": "a:i1"}, {"a:bin": "AQ=="}, {"a:un2": [None]},
          {"a:str": " ü\"<&>"}, {"a:bool": True, "a:v": ""},
          {"a:id": "b:i3"}]


def find(doc, place):
    """(container object, member or index) of a place; None if absent."""
    o, keys = doc, list(place)
    keys[0] = keys[0] if ":" in keys[0] else "a:" + keys[0]
    for k in keys[:-1]:
        try:
            o = o[k]
        except (KeyError, IndexError):
            return None
    k = keys[-1]
    if isinstance(o, dict):
        return (o, k) if k in o else None
    return (o, k) if k < len(o) else None


def annotate(doc, marks, first=False):
    """Document with metadata: marks = {place: metadata object}."""
    doc = copy.deepcopy(doc)
    for place, md in marks.items():
        f = find(doc, place)
        if f is None:
            continue
        o, k = f
        if isinstance(o[k], dict):
            put(o[k], "@", md, first)
        elif isinstance(o, dict):
            put(o, "@" + k, md, first)
        else:
            p, n = find(doc, place[:-1])
            arr = p.get("@" + n)
            if arr is None:
                arr = []
                put(p, "@" + n, arr, first)
            arr += [None] * (k + 1 - len(arr))
            arr[k] = md
    return doc


def put(o, k, v, first):
    if not first:
        o[k] = v
        return
    rest = dict(o)
    o.clear()
    o[k] = v
    o.update(rest)


def canonical(doc):
    """The expected output form: one metadata item for every entry."""
    if isinstance(doc, dict):
        res = {}
        for k, v in doc.items():
            if k.startswith("@"):
                if isinstance(v, list):
                    n = len(doc[k[1:]])
                    v = (v + [None] * n)[:n]
                    if not any(v):
                        continue
                elif not v:
                    continue
                res[k] = v
            else:
                res[k] = canonical(v)
        return res
    if isinstance(doc, list):
        return [canonical(x) for x in doc]
    return doc


# -------------------------------------------------------------------- XML

NS = {"a": "urn:a", "b": "urn:b"}
ROOTNS = "urn:ietf:params:xml:ns:yang:ietf-yang-instance-data"
TYPES = {f"a:{k}": v[0] for k, v in ANN.items()}


def attrs(md):
    res = {}
    for k, v in (md or {}).items():
        if k == WD:
            res["{%s}default" % WDNS] = "true" if v else "false"
            continue
        m, n = k.split(":")
        if k in TYPES:
            t = TYPES[k]
            val = t.json(v)
            if isinstance(t, T.Union):
                t, val = t.member(val), val[2]
            v = t.canon(val)
            if isinstance(t, T.Idref):
                p, q = v.split(":")
                v = f"{{{NS[p]}}}{q}"
        res["{%s}%s" % (NS[m], n)] = v
    return res


def text(v):
    if v == [None]:
        return ""
    return {True: "true", False: "false"}[v] if isinstance(v, bool) \
        else str(v)


def elements(obj, mod):
    """Expected elements: (namespace, name, attributes, content)."""
    res = []
    for k, v in obj.items():
        if k.startswith("@"):
            continue
        m, s, n = k.rpartition(":")
        m = m or mod
        md = obj.get("@" + k)
        if isinstance(v, dict):
            res.append((NS[m], n, attrs(v.get("@")), elements(v, m)))
        elif isinstance(v, list) and v != [None]:
            for i, x in enumerate(v):
                if isinstance(x, dict):
                    res.append((NS[m], n, attrs(x.get("@")), elements(x, m)))
                else:
                    a = md[i] if isinstance(md, list) and i < len(md) else {}
                    res.append((NS[m], n, attrs(a), text(x)))
        else:
            res.append((NS[m], n, attrs(md), text(v)))
    return res


def build_tree(txt):
    """(namespace, name, attributes, content) with texts."""
    p = ET.XMLPullParser(["start", "start-ns", "end"])
    p.feed(txt)
    p.close()
    mods = {u: m for m, u in NS.items()}
    stack, root, new = [], None, {}
    for ev, d in p.read_events():
        if ev == "start-ns":
            new[d[0]] = d[1]
        elif ev == "start":
            scope = dict(stack[-1][0] if stack else {}, **new)
            new = {}
            a = {}
            for k, v in d.attrib.items():
                ns, _, n = k[1:].rpartition("}")
                t = TYPES.get(f"{mods.get(ns)}:{n}")
                if isinstance(t, T.Idref) or ":" in v and isinstance(
                        t, T.Union) and any(isinstance(x, T.Idref)
                                            for x in t.members):
                    pr, _, q = v.rpartition(":")
                    v = f"{{{scope.get(pr)}}}{q}"
                a[k] = v
            stack.append((scope, a, []))
        else:
            scope, a, kids = stack.pop()
            uri, _, name = d.tag.rpartition("}")
            e = (uri[1:] or None, name, a, kids if kids else d.text or "")
            if stack:
                stack[-1][2].append(e)
            else:
                root = e
    return root


def norm(es):
    """The order of members is irrelevant."""
    return sorted([(u, n, a, norm(c) if isinstance(c, list) and c else
                    "" if isinstance(c, list) else c) for u, n, a, c in es],
                  key=lambda e: e[:2])


def xml_case(dm, inst, doc, filt=None):
    """The XML output carries exactly the data and metadata of `doc`."""
    o = out(lambda: ET.tostring(
        inst.to_xml(filt) if filt else inst.to_xml(), encoding="unicode"))
    if o[0] != "ok":
        return f"{doc}: XML output {o[1:]}"
    try:
        root = build_tree(o[1])
    except ET.ParseError as e:
        return f"{doc}: XML output is not well-formed ({e}): {o[1]}"
    exp = norm(elements(canonical(doc), None))
    got = root[3] or []
    if exp != norm(got):
        return f"{doc}: written in XML as {o[1]}; expected {exp}"
    return None


def doc_case(dm, variant, marks, first):
    """Annotations do not influence anything else and survive."""
    plain = subdoc(variant)
    doc = annotate(plain, marks, first)
    p, r = out(dm.from_raw, plain), out(dm.from_raw, doc)
    if p[0] != r[0] or p[0] == "exc" and p != r:
        return f"{doc}: {r}, without metadata {p}"
    if p[0] == "exc":
        return None
    ip, ir = p[1], r[1]
    snap = freeze(ir.value)
    exp = canonical(doc)
    o = out(ir.raw_value)
    if variant == 3:
        # an invalid value, writing it is left open
        if not same(strip(o[1]), out(ip.raw_value)[1]):
            return f"{doc}: written as {o[1:]}"
    elif o[0] != "ok" or not same(exp, o[1]):
        return f"{doc}: written as {o[1:]}"
    a, b = out(ip.validate), out(ir.validate)
    if a != b:
        return f"{doc}: validation {b}, without metadata {a}"
    m = variant != 3 and xml_case(dm, ir, doc)
    if m:
        return m
    a, b = out(ip.add_defaults), out(ir.add_defaults)
    if a[0] != b[0]:
        return f"{doc}: add_defaults {b}, without metadata {a}"
    da, db = a[1].raw_value(), out(b[1].raw_value)
    if db[0] != "ok" or not same(strip(db[1]), da):
        return f"{doc}: defaults {db[1:]}, without metadata {da}"
    if variant != 3 and not same(exp, canonical(restrict(db[1], exp))):
        return f"{doc}: adding defaults changed metadata: {db[1]}"

    def walk(x, y, path):
        kx, ky = ((list(x), list(y)) if isinstance(x.value, StructuredValue)
                  else ((), ()))
        if len(kx) != len(ky):
            return f"{doc}: children of {path} differ"
        if x.is_internal() and isinstance(x.value, dict) and kx != ky:
            return f"{doc}: members of {path}: {ky}, expected {kx}"
        if str(x.instance_route()) != str(y.instance_route()) or \
                x.json_pointer() != y.json_pointer() or \
                x.path != y.path:
            return f"{doc}: addresses of {path} differ"
        n = range(len(kx)) if isinstance(x.value, list) else kx
        if isinstance(x.value, StructuredValue):
            for k in n:
                m = walk(x[k], y[k], path + (k,))
                if m:
                    return m
        elif x.value != y.value:
            return f"{doc}: value of {path}"
        if out(hash, x.value)[0] != out(hash, y.value)[0]:
            return f"{doc}: hash of {path}: {out(hash, y.value)}"
        return None
    m = walk(ip, ir, ())
    if m:
        return m
    for place in PLACES:
        if find(plain, place) is None:
            continue
        a = ("a:" if ":" not in place[0] else "") + place[0]
        rid = "/" + "/".join(str(x) for x in (a,) + place[1:]
                             if isinstance(x, str))
        if any(isinstance(x, int) for x in place):
            continue
        ir1 = dm.parse_resource_id(rid)
        x, y = ir.peek(ir1), ip.peek(ir1)
        if (x is None) != (y is None):
            return f"{doc}: peek {rid}"
    if freeze(ir.value) != snap:
        return f"{doc}: the instance was changed by queries"
    return None


def restrict(a, b):
    """Members of a (with added defaults) that are in b, recursively."""
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: restrict(a[k], b[k]) for k in a if k in b or
                k.startswith("@")}
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [restrict(x, y) for x, y in zip(a, b)]
    return a


# ---------------------------------------------------------------- filters

class Filter(OutputFilter):
    """Rejects given nodes, records calls, adds attributes."""

    def __init__(self, rej, add):
        self.rej = rej          # path -> "b", "e"
        self.add = add          # path -> attributes
        self.calls = []

    def path(self, node):
        res = []
        while node.parinst:
            res.append(node.index if isinstance(node, ArrayEntry)
                       else node.name)
            node = node.parinst
        return tuple(reversed(res))

    def call(self, what, parent, node, attr):
        p = self.path(node)
        self.calls.append((what, self.path(parent), p, json.dumps(
            {k: str(v) for k, v in attr.items()}, sort_keys=True)))
        if what[0] == "b":
            attr.update(self.add.get(p, {}))
        return self.rej.get(p) not in ((what[0],), what[0], "be")

    def begin_member(self, p, n, a):
        return self.call("bm", p, n, a)

    def end_member(self, p, n, a):
        return self.call("em", p, n, a)

    def begin_element(self, p, n, a):
        return self.call("be", p, n, a)

    def end_element(self, p, n, a):
        return self.call("ee", p, n, a)


FDOC = {"a:h": {"x": 1, "ll": ["b", "a"],
                "l": [{"k": "1", "e": {"y": 2}}], "b:ax": "1"}, "a:t": "5"}
FDOC2 = {"a:h": {"kl": [{}, {"q": "1"}], "un": [1, "1", True],
                 "b:ac": {"ax": "2"}, "m": "1"}, "b:t": "6"}
FDOC3 = {"a:h": {"l": [{"k": "1", "z": [None]}, {"k": "2"}],
                 "ll": ["", "b", "c"]}}
FDOCS = [FDOC, FDOC2, FDOC3]
FMARKS = [
    {("h",): {"a:v": "1"}, ("h", "x"): {"a:id": "b:i3"},
     ("h", "ll", 1): {"a:u8": 5}, ("h", "l", 0): {"a:bool": True},
     ("h", "l", 0, "e", "y"): {"a:dec": "1.5"}},
    {("h", "kl", 0): {"a:v": "1"}, ("h", "kl", 1): {"a:v": "2"},
     ("h", "un", 0): {"a:un": 5}, ("h", "un", 2): {"a:v": "6"},
     ("h", "b:ac"): {"b:bs": "x"}, ("b:t",): {"a:i64": "7"}},
    {("h", "l", 1): {"a:v": "1"}, ("h", "ll", 1): {"a:v": "2"},
     ("h", "l", 0, "k"): {"a:bits": "b"}},
]
ADD = {"a:v": "added"}


def nodes(doc, path=()):
    res = []
    for k, v in doc.items():
        if k.startswith("@"):
            continue
        p = path + (k,)
        res.append(p)
        if isinstance(v, dict):
            res += nodes(v, p)
        elif isinstance(v, list) and v != [None]:
            for i, x in enumerate(v):
                res.append(p + (i,))
                if isinstance(x, dict):
                    res += nodes(x, p + (i,))
    return res


def filtered(doc, rej, add, path=(), calls=None):
    """Expected output and the calls of the filter."""
    res, own = {}, {}
    for k, v in doc.items():
        if k.startswith("@"):
            continue
        p = path + (k,)
        md = doc.get("@" + k, {})
        if isinstance(v, dict):
            md = v.get("@", {})
        if isinstance(md, list):
            md = {}
        att = dict(md, **add.get(p, {}))
        calls.append(("bm", path, p, md))
        if rej.get(p) not in ("b", "be"):
            if isinstance(v, dict):
                new = filtered(v, rej, add, p, calls)
                if att:
                    new["@"] = att
            elif isinstance(v, list) and v != [None]:
                new, mds = [], []
                for i, x in enumerate(v):
                    e = p + (i,)
                    if isinstance(x, dict):
                        emd = x.get("@", {})
                    else:
                        arr = doc.get("@" + k, [])
                        emd = (arr[i] if isinstance(arr, list) and
                               i < len(arr) else None) or {}
                    eatt = dict(emd, **add.get(e, {}))
                    calls.append(("be", p, e, emd))
                    if rej.get(e) not in ("b", "be"):
                        if isinstance(x, dict):
                            y = filtered(x, rej, add, e, calls)
                            keep = bool(y) or not strip(x)
                            if eatt:
                                y["@"] = eatt
                        else:
                            y, keep = x, True
                        calls.append(("ee", p, e, eatt))
                        if rej.get(e) is None and keep:
                            new.append(y)
                            mds.append(None if isinstance(x, dict)
                                       else eatt or None)
                    else:
                        calls.append(("ee", p, e, eatt))
                if any(mds):
                    own["@" + k] = [dict(att, **(m or {})) or None
                                    for m in mds]
                elif att:
                    own["@" + k] = att
            else:
                new = v
                if att:
                    own["@" + k] = att
        calls.append(("em", path, p, att))
        if rej.get(p) is None:
            res[k] = new
            if "@" + k in own:
                res["@" + k] = own["@" + k]
    return res


def noempty(doc, top=True):
    """Document without empty arrays and list entries emptied by them."""
    if isinstance(doc, dict):
        return {k: noempty(v) for k, v in doc.items()
                if v != [] and not (k[0] == "@" and doc.get(k[1:]) == [])}
    if isinstance(doc, list):
        return [noempty(x) for x in doc]
    return doc


def filter_case(dm, n, ann, rej, add):
    doc = FDOCS[n]
    if ann:
        doc = annotate(doc, FMARKS[n])
    inst = dm.from_raw(doc)
    snap = freeze(inst.value)
    calls = []
    exp = filtered(doc, rej, add, calls=calls)
    f = Filter(rej, add)
    o = out(inst.raw_value, f)
    if o[0] != "ok" or not same(exp, o[1]):
        return f"{doc} rejected {rej} added {add}: JSON {o[1:]}, " \
               f"expected {exp}"
    ec = [c[:3] for c in calls]
    if [c[:3] for c in f.calls] != ec:
        return f"{doc} rejected {rej}: calls {[c[:3] for c in f.calls]}, " \
               f"expected {ec}"
    for c, e in zip(f.calls, calls):
        if sorted(json.loads(c[3])) != sorted(e[3]):
            return f"{doc} rejected {rej} added {add}: attributes {c}, " \
                   f"expected {e}"
    g = Filter(rej, add)
    m = xml_case(dm, inst, spread(noempty(exp)), g)
    if m:
        return f"{doc} rejected {rej} added {add}: {m}"
    if [c[:3] for c in g.calls] != ec:
        return f"{doc} rejected {rej}: calls in XML {g.calls}, expected {ec}"
    if freeze(inst.value) != snap:
        return f"{doc} rejected {rej} added {add}: filter changed the data"
    p = json.dumps(o[1])
    for x in (o[1], ):
        spoil(x)
    if freeze(inst.value) != snap:
        return f"{doc}: output shares objects with the data: {p}"
    return None


def spoil(x):
    if isinstance(x, dict):
        for v in x.values():
            spoil(v)
        x["@spoilt"] = 1
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x.append("spoilt")


def spread(doc):
    """Metadata of whole lists apply to each entry in XML."""
    if isinstance(doc, dict):
        res = {k: spread(v) for k, v in doc.items()}
        for k in doc:
            if k.startswith("@") and k != "@" and isinstance(
                    doc[k], dict) and isinstance(doc[k[1:]], list) and \
                    doc[k[1:]] != [None]:
                v = doc[k[1:]]
                if all(isinstance(x, dict) for x in v):
                    for x in res[k[1:]]:
                        x["@"] = dict(doc[k], **x.get("@", {}))
                    del res[k]
                else:
                    res[k] = [doc[k]] * len(v)
        return res
    if isinstance(doc, list):
        return [spread(x) for x in doc]
    return doc


# ---------------------------------------------------------- default tags

TAGBODY = """
md:annotation v { type string; }
container h {
  leaf x { type uint8; default 1; }
  leaf-list ll { type string; default p; default q; }
  leaf o { type string; }
  container e { leaf y { type uint8; default 2; }
    container f { leaf-list z { type uint8; default 3; } leaf u { type empty; }
    } leaf o { type string; } }
  container p { presence p; leaf y { type uint8; default 2; } }
  list l { key k; leaf k { type string; } leaf v { type uint8; default 4; }
    container e { leaf y { type uint8; default 2; } } }
  choice c { default ca; case ca { leaf ca1 { type uint8; default 5; }
     leaf ca2 { type uint8; default 6; } }
     case cb { leaf cb1 { type uint8; } leaf cb2 { type uint8; default 7; } } }
}
leaf t { type boolean; default true; }
"""
TAGB = """
augment "/a:h/a:e" { leaf bx { type uint8; default 8; }
   container bc { leaf by { type uint8; default 9; } } }
"""


def tag_docs():
    """All documents over a few members of each level."""
    es = [None, {}, {"o": "1"}, {"y": 5}, {"f": {}}, {"f": {"u": [None]}},
          {"f": {"z": [1, 2]}, "y": 2}, {"b:bx": 1}, {"b:bc": {}}]
    for e, x, ll, p, l, c, t, o in itertools.product(
            es, (None, 1, 7), (None, ["p", "q"], ["r"]),
            (None, {}, {"y": 5}),
            (None, [{"k": "1"}, {"k": "2", "v": 4, "e": {}}]),
            (None, {"ca1": 1}, {"cb1": 1}, {"ca1": 1, "ca2": 6}),
            (None, True), (None, "x")):
        h = {}
        for k, v in (("x", x), ("ll", ll), ("o", o), ("e", e), ("p", p),
                     ("l", l)):
            if v is not None:
                h[k] = v
        h.update(c or {})
        doc = {"a:h": h} if h else {}
        if t is not None:
            doc["a:t"] = t
        yield doc


def expected_tags(full, doc):
    """Tag the nodes of full that are not in doc (None: nothing)."""
    res = {}
    tag = {WD: True}
    for k, v in full.items():
        if k.startswith("@"):
            res[k] = v
            continue
        old = doc.get(k) if doc is not None else None
        if isinstance(v, dict):
            res[k] = expected_tags(v, old)
            if old is None:
                res[k]["@"] = dict(v.get("@", {}), **tag)
        elif isinstance(v, list) and v and isinstance(v[0], dict):
            res[k] = [expected_tags(x, old[i]) for i, x in enumerate(v)]
        else:
            res[k] = v
            if old is None:
                res["@" + k] = [tag] * len(v) if isinstance(v, list) and \
                    v != [None] else tag
    return res


def tag_case(dm, doc, marks):
    """Exactly the added nodes are marked."""
    if marks:
        doc = annotate(doc, {p: {"a:v": "old"} for p in
                             [("h",), ("h", "x"), ("h", "o"), ("h", "e"),
                              ("h", "l", 1), ("h", "p")]})
    inst = dm.from_raw(doc)
    snap = freeze(inst.value)
    plain = inst.add_defaults()
    full = plain.raw_value()
    o = out(lambda: inst.add_defaults(tag=True))
    if o[0] != "ok":
        return f"{doc}: add_defaults(tag=True): {o}"
    exp = expected_tags(full, doc)
    got = out(o[1].raw_value)
    if got[0] != "ok" or not same(canonical(exp), got[1]):
        return f"{doc}: tagged {got[1:]}, expected {exp}"
    if freeze(inst.value) != snap:
        return f"{doc}: the original was changed"
    if not same(plain.raw_value(), full):
        return f"{doc}: other defaults were changed"
    again = inst.add_defaults().raw_value()
    if not same(again, full):
        return f"{doc}: tags appear in untagged data {again}"
    w = out(o[1].validate)
    if w != out(plain.validate):
        return f"{doc}: tagged data {w}"
    m = xml_case(dm, o[1], exp)
    if m:
        return m
    if "ietf-netconf-with-defaults" in [
            x[0] for x in dm.schema_data.modules]:
        r = out(dm.from_raw, json.loads(json.dumps(got[1])))
        if r[0] != "ok" or not same(r[1].raw_value(), got[1]):
            return f"{doc}: tagged data {got[1]} read back: {r}"
    return None


# ------------------------------------------------------------------ edits

EDOC = {"a:h": {"x": 1, "ll": ["b", "a", "c"],
                "l": [{"k": "1", "e": {"y": 2}}, {"k": "2"}], "m": "1",
                "b:ax": "1"}, "a:t": "5"}
EPLACES = [("h",), ("h", "x"), ("h", "ll", 0), ("h", "ll", 1),
           ("h", "ll", 2), ("h", "l", 0), ("h", "l", 1), ("h", "l", 0, "e"),
           ("h", "l", 0, "e", "y"), ("h", "m"), ("h", "b:ax"), ("t",)]
EMARKS = {p: {"a:v": f"m{i}"} for i, p in enumerate(EPLACES)}


class N:
    """Reference tree node: value and metadata together."""

    def __init__(self, v, md=None):
        self.v, self.md = v, md

    @classmethod
    def load(cls, doc, md=None):
        if isinstance(doc, dict):
            return cls({k: cls.load(v, doc.get("@" + k)) for k, v in
                        doc.items() if k[0] != "@"}, doc.get("@"))
        if isinstance(doc, list) and doc != [None]:
            return cls([cls.load(x, md[i] if isinstance(md, list) and
                                 i < len(md) else None)
                        for i, x in enumerate(doc)])
        return cls(doc, md)

    def dump(self):
        if isinstance(self.v, dict):
            res = {}
            for k, n in self.v.items():
                res[k] = n.dump()
                if isinstance(n.v, list) and n.v != [None]:
                    mds = [x.md for x in n.v
                           if not isinstance(x.v, dict)]
                    if any(mds):
                        res["@" + k] = mds
                elif n.md and not isinstance(n.v, dict):
                    res["@" + k] = n.md
            if self.md:
                res["@"] = self.md
            return res
        if isinstance(self.v, list) and self.v != [None]:
            return [x.dump() for x in self.v]
        return self.v


def ops():
    """Edit operations: label -> (on the node h, on the reference)."""
    def old(n, k):
        return n.v[k].md if k in n.v else None

    def seq(n, new):
        """leaf-list entries are identified by their values"""
        todo = list(n.v["ll"].v) if "ll" in n.v else []
        res = []
        for x in new:
            for y in todo:
                if y.v == x:
                    res.append(y)
                    todo.remove(y)
                    break
            else:
                res.append(N(x))
        return N(res)

    def dele(k):
        def f(n):
            n.v.pop(k)
        return lambda h: h.delete_item(k), f

    def putm(k, v, how):
        def ref(n):
            if isinstance(v, list):
                new = N.load(v) if k != "ll" else seq(n, v)
            else:
                new = N(v, old(n, k))
            if how != "put" and k not in n.v:
                raise KeyError
            n.v[k] = new
        if how == "put":
            return lambda h: h.put_member(k, v, True).up(), ref
        return lambda h: h[k].update(v, True).up(), ref

    def entry(k, i, f, g):
        def ref(n):
            g(n.v[k].v, i)
        return lambda h: f(h[k][i]).up().up(), ref

    def delentry(k, i):
        def ref(n):
            del n.v[k].v[i]
        return lambda h: h[k].delete_item(i).up(), ref

    def ins(v, after):
        def f(e):
            return e.insert_after(v, True) if after else \
                e.insert_before(v, True)

        def g(lst, i):
            i = i + len(lst) if i < 0 else i
            lst[i]
            lst.insert(i + after, N.load(v))
        return f, g

    def upde(v):
        def g(lst, i):
            lst[i] = lst[i] if lst[i].v == v else N(v)
        return lambda e: e.update(v, True), g

    def merge(raw):
        def ref(n):
            merge_ref(n, N.load(raw))
        return lambda h: h.merge(raw, True), ref
    res = {
        "del x": dele("x"), "del ll": dele("ll"), "del l": dele("l"),
        "del b:ax": dele("b:ax"), "put x": putm("x", 2, "put"),
        "update x": putm("x", 3, "upd"),
        "put ll": putm("ll", ["c", "z", "a"], "put"),
        "update ll": putm("ll", ["a"], "upd"),
        "put l": putm("l", [{"k": "1"}], "put"),
        "put b:ax": putm("b:ax", "2", "put"),
        "del ll 0": delentry("ll", 0), "del ll 1": delentry("ll", 1),
        "del ll -1": delentry("ll", -1), "del l 0": delentry("l", 0),
        "before ll 1": entry("ll", 1, *ins("n", 0)),
        "after ll 0": entry("ll", 0, *ins("n", 1)),
        "after ll -1": entry("ll", -1, *ins("w", 1)),
        "before l 0": entry("l", 0, *ins({"k": "3"}, 0)),
        "upd ll 1": entry("ll", 1, *upde("u")),
        "upd ll 0": entry("ll", 0, *upde("b")),
        "merge x": merge({"x": 5}),
        "merge @x": merge({"x": 5, "@x": {"a:v": "new"}}),
        "merge @x2": merge({"x": 5, "@x": {"b:bs": "new"}}),
        "merge ll": merge({"ll": ["c", "y"]}),
        "merge @ll": merge({"ll": ["y", "a"], "@ll": [
            {"a:v": "ny"}, {"b:bs": "na"}]}),
        "merge @": merge({"@": {"b:bs": "nh"}, "m": "2"}),
        "merge l": merge({"l": [{"k": "2", "@": {"a:v": "n2"}},
                                {"k": "9", "@": {"a:v": "n9"}},
                                {"k": "1", "@": {"b:bs": "n1"},
                                 "e": {"y": 7, "@y": {"b:bs": "ny"}}}]}),
        "leaf in entry": (
            lambda h: h["l"][0]["e"]["y"].update(9).up().up().up().up(),
            lambda n: setattr(n.v["l"].v[0].v["e"].v["y"], "v", 9)),
        "del in entry": (
            lambda h: h["l"][0]["e"].delete_item("y").up().up().up(),
            lambda n: n.v["l"].v[0].v["e"].v.pop("y")),
        "walk": (lambda h: walk_all(h), lambda n: None),
    }
    return res


def walk_all(h):
    if len(h.value.get("ll", ())) > 1:
        h = h["ll"][0].next().previous().up().sibling("m").up()
    return h.top()["a:h"]


def merge_md(a, b):
    return {**(a or {}), **(b or {})} or None


def merge_ref(n, m):
    if isinstance(n.v, dict):
        for k, x in m.v.items():
            if k in n.v:
                merge_ref(n.v[k], x)
            else:
                n.v[k] = x
        n.md = merge_md(n.md, m.md)
    elif isinstance(n.v, list) and n.v != [None]:
        if m.v and isinstance(m.v[0].v, dict):
            for e in m.v:
                for f in n.v:
                    if f.v["k"].v == e.v["k"].v:
                        merge_ref(f, e)
                        break
                else:
                    n.v.append(e)
        else:
            for e in m.v:
                for f in n.v:
                    if f.v == e.v:
                        f.md = merge_md(f.md, e.md)
                        break
                else:
                    n.v.append(e)
    else:
        n.v, n.md = m.v, merge_md(n.md, m.md)


OPS = ops()


def edit_case(dm, seq):
    doc = annotate(EDOC, EMARKS)
    inst = dm.from_raw(doc)
    h = inst["a:h"]
    ref = N.load(doc)
    snap = freeze(inst.value)
    for i, lab in enumerate(seq):
        f, g = OPS[lab]
        c = copy.deepcopy(ref)
        e = None
        try:
            g(c.v["a:h"])
        except (KeyError, IndexError):
            e = "exc"
        r = out(f, h)
        if e:
            if r[0] == "ok":
                return None     # not an edit of existing nodes
            if r[1] not in ("NonexistentInstance",):
                return f"{seq[:i + 1]}: {r}"
            return None
        if r[0] != "ok":
            return f"{seq[:i + 1]}: {r}"
        h, ref = r[1], c
    got = out(h.top().raw_value)
    exp = ref.dump()
    if got[0] != "ok" or not same(exp, got[1]):
        return f"{seq}: {got[1:]}, expected {exp}"
    m = xml_case(dm, h.top(), exp)
    if m:
        return f"{seq}: {m}"
    if freeze(inst.value) != snap:
        return f"{seq}: the original was changed"
    return None


# ------------------------------------------------------------------- run

def bounds(tier):
    return {"annotation types": len(ANN), "shapes": len(SHAPES),
            "targets": len(TARGETS), "places": len(PLACES),
            "document variants": 9,
            "filters": "all subsets of rejections" if tier != "quick" else
            "all rejections of up to 3 nodes",
            "edit sequences": 3 if tier != "quick" else 2}


def groups(tier):
    res = [["types", k] for k in ANN]
    res += [["shapes", t] for t in TARGETS]
    n = len(PLACES)
    for v in range(9):
        for hi in range(8):
            res.append(["docs", tier, v, hi])
    for i in range(len(FDOCS)):
        for ann in (0, 1):
            ns = nodes(FDOCS[i])
            for first in range(len(ns) + 1):
                res.append(["filter", tier, i, ann, first])
    for wd in ("tag", "tagwd"):
        for k in range(16):
            res.append(["tags", tier, wd, k])
    for o in OPS:
        res.append(["edits", tier, o])
    return res


def space(group):
    kind = group[0]
    if kind == "types":
        lab = group[1]
        raws = list(ANN[lab][1]) + c04.SHAPES
        for t, rs in ANN.values():
            raws += rs[:3]
        seen = []
        for r in raws:
            if not any(same(r, s) for s in seen):
                seen.append(r)
                yield ("type", lab, r)
    elif kind == "shapes":
        for s in SHAPES:
            yield ("shape", group[1], s)
    elif kind == "docs":
        _, tier, v, hi = group
        n = len(PLACES)
        for bits in range(2 ** n):
            if bits % 8 != hi:
                continue
            cnt = bin(bits).count("1")
            if tier == "quick" and 3 < cnt < n - 1:
                continue
            if tier != "quick" and 5 < cnt < n - 2:
                continue
            for first in (0, 1):
                for rot in range(1 if tier == "quick" and cnt > 1 else 3
                                 if cnt > 2 else len(VALUES)):
                    yield ("doc", v, bits, first, rot)
    elif kind == "filter":
        _, tier, i, ann, first = group
        ns = nodes(FDOCS[i])
        # the first rejected node is the one with number `first`
        if first == len(ns):
            for a in range(2 ** len(ns)):
                if tier == "quick" and bin(a).count("1") > 3:
                    continue
                yield ("filter", i, ann, [], [j for j in range(len(ns))
                                              if a >> j & 1])
            return
        rest = range(first + 1, len(ns))
        most = 2 if tier == "quick" else 4
        for size in range(0, most + 1):
            for more in itertools.combinations(rest, size):
                chosen = (first,) + more
                for how in itertools.product(("b", "e", "be") if size == 0
                                             else "be", repeat=size + 1):
                    rej = [[j, h] for j, h in zip(chosen, how)]
                    yield ("filter", i, ann, rej, [])
                    if size < 2:
                        yield ("filter", i, ann, rej, list(range(len(ns))))
    elif kind == "tags":
        _, tier, wd, k = group
        for j, d in enumerate(tag_docs()):
            if j % 16 != k or tier == "quick" and (j // 16) % 2 != (
                    wd == "tag"):
                continue
            for marks in (0, 1):
                yield ("tag", wd, d, marks)
    elif kind == "edits":
        _, tier, o = group
        for rest in itertools.product(OPS, repeat=1 if tier == "quick"
                                      else 2):
            yield ("edit", [o] + list(rest))


def decide(item):
    kind = item[0]
    if kind == "type":
        return type_case(model("doc"), *item[1:])
    if kind == "shape":
        return shape_case(model("doc"), *item[1:])
    if kind == "doc":
        _, v, bits, first, rot = item
        marks = {p: VALUES[(i + rot) % len(VALUES)]
                 for i, p in enumerate(PLACES) if bits >> i & 1}
        return doc_case(model("doc"), v, marks, first)
    if kind == "filter":
        _, i, ann, rej, add = item
        ns = nodes(FDOCS[i])
        return filter_case(model("doc"), i, ann,
                           {ns[j]: h for j, h in rej},
                           {ns[j]: dict(ADD) for j in add})
    if kind == "tag":
        return tag_case(model(item[1]), item[2], item[3])
    return edit_case(model("doc"), item[1])


def run_group(group, rec):
    n = 0
    for item in space(group):
        n += 1
        rec.state()
        rec.step()
        try:
            m = decide(item)
        except Exception as e:
            m = f"{item}: {e!r}"
        rec.agree(item[0])
        if m:
            rec.fail({"item": item}, m)
    rec.sample({"group": group, "cases": n})


def replay(case):
    return decide(tuple(case["item"]))
