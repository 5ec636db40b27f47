"""A pool of public operations on one data model (and on others in the same
process), used by C18 (histories) and C19 (schedules).

An operation is a function of a World; everything that it shares with other
operations - the data models, the instances - comes from the World.
"""
import copy
import json
import xml.etree.ElementTree as ET

from mc.models import libtext, moddir, module
from yangson.datamodel import DataModel
from yangson.enumerations import ContentType, ValidationScope
from yangson.instance import InstanceNode
from yangson.schemadata import SchemaContext
from yangson.xmlparser import XMLParser
from yangson.xpathparser import XPathParser

MD = module("ietf-yang-metadata", "extension annotation { argument name; }",
            prefix="md")
A = module("a", """
  feature f0;
  identity base;
  identity i1 { base base; }
  identity i2 { base i1; }
  identity other;
  typedef small { type uint8 { range "1..9" {
      error-message "not small"; error-app-tag small-range; } }
    default 3; units kg; }
  typedef word { type string { length "1..4" {
      error-message "bad length"; error-app-tag word-length; }
    pattern "[a-z]*" { error-message "no word"; error-app-tag word-chars; } } }
  typedef refk { type leafref { path "/a:c/a:l/a:k"; } }
  md:annotation note { type a:word; }
  md:annotation num { type uint8 { range "1..9"; } }
  grouping g {
    leaf gx { type uint8; default 4; }
    leaf gm { type string; mandatory true; }
  }
  container c {
    must "not(bad)" { error-message "bad is set"; error-app-tag no-bad; }
    leaf bad { type empty; }
    leaf t { type enumeration { enum a; enum b; enum z { value 9; } } }
    leaf w { when "../t = 'a'"; type uint8; default 7; }
    leaf w2 { when "../w > 7"; type string; default two; }
    container cw { when "../t = 'b'";
      leaf m { type string; mandatory true; }
      leaf d { type small; } }
    choice ch { default ca;
      case ca { leaf x { type uint8; default 1; } leaf y { type string; } }
      case cb { when "t = 'b'"; leaf u { type uint8; } }
      leaf v { type word; } }
    uses g { when "t = 'z'"; }
    list l { key k; unique n; max-elements 3;
      leaf k { type word; }
      leaf n { type uint8; must ". != 5" { error-message "five"; } }
      leaf dd { type small; }
      leaf r { type leafref { path "../../l/k"; } }
      action act { input { leaf p { type small; mandatory true; } }
                   output { leaf q { type string; default ok; } } }
    }
    list nk { config false; leaf x { type uint8; } }
    leaf-list ll { type small; min-elements 1; ordered-by user; }
    leaf-list dl { type uint8; default 1; default 2; }
    leaf st { config false; type uint8; mandatory true; }
  }
  container ty { presence "types";
    container any { presence any; anydata d; }
    leaf i8 { type int8; }
    leaf u64 { type uint64 { range "5..max"; } }
    leaf dec { type decimal64 { fraction-digits 2; range "0..9.99"; } }
    leaf s { type word; }
    leaf b { type boolean; }
    leaf e { type empty; }
    leaf bi { type bits { bit x; bit y { position 3; } } }
    leaf bin { type binary { length "1..2"; } }
    leaf id { type identityref { base base; } }
    leaf ii { type instance-identifier; }
    leaf ref { type refk; }
    leaf ref2 { type leafref { path "/a:ty/a:s"; require-instance false; } }
    leaf un { type union { type small; type word;
      type identityref { base base; } } }
    leaf sm { type small; }
  }
  rpc op { input { leaf p { type small; mandatory true; }
                   leaf h { when "../p = 2"; type string; default hh; } }
           output { leaf q { type word; } } }
  notification ev { leaf what { type word; mandatory true; }
    leaf tgt { type leafref { path "/a:c/a:l/a:k"; } } }
""", imports=[("ietf-yang-metadata", "md")])
B = module("b", """
  identity i3 { base a:i1; }
  augment "/a:c" { when "a:t = 'a'";
    leaf w { type uint8; }
    leaf aug { type uint8; default 8; } }
  augment "/a:c/a:l" { leaf ident { type identityref { base a:i1; }
     default i3; } }
""", imports=[("a", "a")])
LIB = libtext([{"name": "a", "features": ["f0"]}, {"name": "b"},
               {"name": "ietf-yang-metadata"}])
# another data model whose module has the same name and differs everywhere
A2 = module("a", """
  identity base; identity i1 { base base; }
  typedef small { type uint8 { range "100..200"; } default 150; }
  container c { must "t";
    leaf t { type string; }
    leaf w { when "not(../t)"; type small; }
    leaf st { type small; config false; }
    list l { key n; leaf n { type small; } leaf k { type string; }
             leaf id { type identityref { base base; } } }
  }
""")
LIB2 = libtext([{"name": "a"}])

RAW = {
    "good": {"a:c": {
        "t": "a", "w": 8, "w2": "x", "y": "why", "b:w": 1,
        "l": [{"k": "one", "n": 1, "r": "two"},
              {"k": "two", "n": 2, "b:ident": "b:i3"}],
        "ll": [3, 1], "st": 1, "nk": [{"x": 1}, {"x": 1}]},
        "a:ty": {"i8": -3, "u64": "77", "dec": "1.50", "s": "abc", "b": True,
                 "e": [None], "bi": "y x", "bin": "AAE=", "id": "a:i2",
                 "ii": "/a:c/l[k='one']/n", "ref": "two", "ref2": "zz",
                 "un": 4, "sm": 2}},
    "any": {"a:ty": {"any": {"d": {"a": [1, {"b": None}]}}}},
    "other": {"a:c": {"t": "b", "cw": {"m": "mm", "d": 4}, "u": 2,
                      "ll": [2], "st": 0, "dl": [7]}},
    "bare": {"a:c": {"ll": [2], "st": 0}},
    "grp": {"a:c": {"t": "z", "gm": "g", "ll": [9], "st": 0, "v": "vv"}},
    # one fault each
    "must": {"a:c": {"bad": [None], "ll": [2], "st": 0}},
    "must5": {"a:c": {"ll": [2], "st": 0, "l": [{"k": "one", "n": 5}]}},
    "nowhen": {"a:c": {"t": "b", "cw": {"m": "m"}, "w": 3, "ll": [2],
                       "st": 0}},
    "nomand": {"a:c": {"t": "b", "ll": [2], "st": 0}},
    "nogrp": {"a:c": {"t": "z", "ll": [2], "st": 0}},
    "nomin": {"a:c": {"st": 0, "ll": []}},
    "nost": {"a:c": {"ll": [2]}},
    "twocase": {"a:c": {"x": 1, "v": "v", "ll": [2], "st": 0}},
    "dup": {"a:c": {"ll": [2], "st": 0, "l": [{"k": "one"}, {"k": "one"}]}},
    "uniq": {"a:c": {"ll": [2], "st": 0,
                     "l": [{"k": "one", "n": 1}, {"k": "two", "n": 1}]}},
    "max": {"a:c": {"ll": [2], "st": 0,
                    "l": [{"k": k} for k in ("p", "q", "r", "s")]}},
    "small": {"a:c": {"ll": [2, 99], "st": 0}},
    "len": {"a:ty": {"s": "toolong"}},
    "pat": {"a:ty": {"s": "A1"}},
    "ref": {"a:ty": {"ref": "nope"}},
    "refpat": {"a:ty": {"ref": "N1"}},
    "ref2len": {"a:ty": {"ref2": "toolong"}},
    "i8": {"a:ty": {"i8": 1000}},
    "u64": {"a:ty": {"u64": "4"}},
    "dec": {"a:ty": {"dec": "10.00"}},
    "binl": {"a:ty": {"bin": "AAEC"}},
    "id": {"a:ty": {"id": "a:other"}},
    "iinone": {"a:ty": {"ii": "/a:c/l[k='none']/n"}},
        "sm": {"a:ty": {"sm": 10}},
}
for _v in RAW.values():
    _v.setdefault("a:c", {"ll": [2], "st": 0})
# data that cannot be read
BADRAW = {
    "rawint": {"a:ty": {"i8": "x"}},
    "rawenum": {"a:c": {"t": "q"}},
    "rawdec": {"a:ty": {"dec": 1.5}},
    "rawun": {"a:ty": {"un": "Q9"}},
    "rawunk": {"a:c": {"unk": 1}},
    "rawlist": {"a:c": {"l": {}}},
    "rawid": {"a:ty": {"id": "a:nope"}},
    "rawbits": {"a:ty": {"bi": "x q"}},
    "rawann": {"a:ty": {"s": "abc", "@s": {"a:note": "TOO"}}},
    "rawann2": {"a:ty": {"s": "abc", "@s": {"a:num": 77}}},
    "rawann3": {"a:ty": {"s": "abc", "@s": {"a:none": 1}}},
}
GOODANN = {"a:ty": {"s": "abc", "@s": {"a:note": "ok", "a:num": 3}}}
XML = {
    "xgood": "<content-data xmlns:b='urn:b'><c xmlns='urn:a'><t>a</t><w>8</w>"
             "<l><k>one</k><b:ident>b:i3</b:ident></l><ll>4</ll>"
             "<st>1</st></c></content-data>",
    "xint": "<content-data><ty xmlns='urn:a'><i8>q</i8></ty></content-data>",
    "xrange": "<content-data><ty xmlns='urn:a'><sm>90</sm></ty>"
              "</content-data>",
    "xns": "<content-data><ty xmlns='urn:q'><i8>1</i8></ty></content-data>",
    "xid": "<content-data><ty xmlns='urn:a' xmlns:q='urn:b'><id>q:i3</id>"
           "</ty></content-data>",
    "xid2": "<content-data><ty xmlns='urn:a' xmlns:q='urn:a'><id>q:i1</id>"
            "</ty></content-data>",
}

_dirs = []


def dirs():
    if not _dirs:
        _dirs.append(moddir({"a": A, "b": B, "ietf-yang-metadata": MD}))
        _dirs.append(moddir({"a": A2}))
    return _dirs


class World:
    def __init__(self):
        ds = dirs()
        self.dm = DataModel(LIB, [ds[0]])
        self._dm2 = None
        self.insts = {}

    @property
    def dm2(self):
        if self._dm2 is None:
            self._dm2 = DataModel(LIB2, [dirs()[1]])
        return self._dm2

    def inst(self, name):
        """The shared instance of that name."""
        if name not in self.insts:
            self.insts[name] = self.dm.from_raw(copy.deepcopy(RAW[name]))
        return self.insts[name]


def dump(x):
    if isinstance(x, InstanceNode):
        try:
            raw = json.dumps(x.raw_value())
        except Exception as e:
            raw = outcome_of(e)
        return (f"<{type(x).__name__} {x.json_pointer()} "
                f"{x.schema_node.qual_name} {raw}>")
    if isinstance(x, ET.Element):
        return ET.tostring(x, encoding="unicode")
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(dump(y) for y in x) + "]"
    if isinstance(x, dict):
        return "{" + ", ".join(f"{k!r}: {dump(v)}"
                               for k, v in x.items()) + "}"
    if isinstance(x, float):
        return repr(x)
    return f"{type(x).__name__}:{x}"


def outcome_of(e):
    attrs = {k: str(v) for k, v in sorted(vars(e).items())
             if isinstance(v, (str, int, type(None)))}
    return f"{type(e).__name__}({e}) {attrs}"


def outcome(fn, w):
    try:
        return dump(fn(w))
    except Exception as e:
        return outcome_of(e)


def _edit(i, p, fn):
    def f(w):
        n = w.inst(i).goto(w.dm.parse_resource_id(p)) if p else w.inst(i)
        return fn(n).top()
    return f


def _xp(i, p, expr):
    def f(w):
        n = w.inst(i).goto(w.dm.parse_resource_id(p)) if p else w.inst(i)
        sc = SchemaContext(w.dm.schema_data, "a", ("a", ""))
        return XPathParser(expr, sc).parse().evaluate(n)
    return f


def _ty(p, meth, *args):
    def f(w):
        t = w.dm.get_data_node(p).type
        if meth == "in":
            ok = args[0] in t
            return ok, None if ok else (t.error_tag, t.error_message)
        return getattr(t, meth)(*args)
    return f


def _model(lib, i):
    def f(w):
        return DataModel(lib, [dirs()[i]]).ascii_tree()
    return f


def pool():
    """name -> operation."""
    ops = {}
    sc, ct = ValidationScope, ContentType
    for r in RAW:
        ops["raw:" + r] = lambda w, r=r: w.dm.from_raw(copy.deepcopy(RAW[r]))
        ops["val:" + r] = lambda w, r=r: w.inst(r).validate(
            sc.all, ct.all)
    for r in BADRAW:
        ops["raw:" + r] = lambda w, r=r: w.dm.from_raw(
            copy.deepcopy(BADRAW[r]))
    ops["raw:ann"] = lambda w: w.dm.from_raw(copy.deepcopy(GOODANN))
    for r in XML:
        ops["xml:" + r] = lambda w, r=r: w.dm.from_xml(XMLParser(XML[r]).root)
    for r in ("good", "nomand", "nost", "small"):
        for s in (sc.syntax, sc.semantics):
            ops[f"val:{r}:{s.name}"] = lambda w, r=r, s=s: w.inst(r).validate(
                s, ct.all)
        for c in (ct.config, ct.nonconfig):
            ops[f"val:{r}:{c.name}"] = lambda w, r=r, c=c: w.inst(r).validate(
                sc.all, c)
    for r in ("good", "other", "bare", "grp", "nomand", "small", "must"):
        ops["dfl:" + r] = lambda w, r=r: w.inst(r).add_defaults()
        ops["dflv:" + r] = lambda w, r=r: w.inst(r).add_defaults().validate(
            sc.all, ct.all)
        ops["toxml:" + r] = lambda w, r=r: w.inst(r).to_xml()
    ops["dfl:bare:config"] = lambda w: w.inst("bare").add_defaults(ct.config)
    ops["show:all"] = lambda w: [(r, w.inst(r)) for r in RAW]
    ops["str:good"] = lambda w: str(w.inst("good")["a:c"])
    for r, p in (("good", "/a:ty/dec"), ("good", "/a:ty/un"),
                 ("good", "/a:c/l=one"), ("i8", "/a:ty/i8"),
                 ("dec", "/a:ty/dec"), ("id", "/a:ty/id")):
        ops[f"str:{r}:{p}"] = _edit(r, p, lambda n: n) and (
            lambda w, r=r, p=p: str(w.inst(r).goto(
                w.dm.parse_resource_id(p))))
    ops["tree"] = lambda w: w.dm.ascii_tree()
    ops["tree:nt"] = lambda w: w.dm.ascii_tree(True)
    ops["digest"] = lambda w: w.dm.schema_digest()
    ops["msid"] = lambda w: w.dm.module_set_id()
    for p in ("/a:c/ch/ca/x", "/a:c/l", "/a:nope", "/a:c/l/act/input/p",
              "/c"):
        ops["sn:" + p] = lambda w, p=p: getattr(
            w.dm.get_schema_node(p), "qual_name", None)
    for p in ("/a:c/x", "/a:c/b:aug", "/a:c/ch"):
        ops["dn:" + p] = lambda w, p=p: getattr(
            w.dm.get_data_node(p), "qual_name", None)
    for p in ("/a:c/l[k='one']/n", "/a:c/l[2]", "/a:c/nope", "/a:c/l[k="):
        ops["iid:" + p] = lambda w, p=p: w.inst("good").peek(
            w.dm.parse_instance_id(p))
    for p in ("/a:c/l=two/n", "/a:c/l=none", "/a:c/nope", "/a:c/l="):
        ops["rid:" + p] = lambda w, p=p: w.inst("good").goto(
            w.dm.parse_resource_id(p))
    ops["ptr"] = lambda w: w.inst("good")["a:c"]["l"][0]["k"].json_pointer()
    ops["miss"] = lambda w: w.inst("good")["a:c"]["zz"]
    ops["up:t"] = _edit("good", "/a:c/t", lambda n: n.update("b", raw=True))
    ops["up:t:bad"] = _edit("good", "/a:c/t",
                            lambda n: n.update("q", raw=True))
    ops["up:val"] = lambda w: w.inst("good").goto(
        w.dm.parse_resource_id("/a:c/t")).update("b", raw=True).top(
        ).validate(sc.all, ct.all)
    ops["put"] = _edit("bare", "/a:c", lambda n: n.put_member(
        "t", "a", raw=True))
    ops["put:val"] = lambda w: w.inst("bare")["a:c"].put_member(
        "t", "a", raw=True).top().validate(sc.all, ct.all)
    ops["put:dfl"] = lambda w: w.inst("bare")["a:c"].put_member(
        "t", "a", raw=True).top().add_defaults()
    ops["del"] = _edit("good", "/a:c", lambda n: n.delete_item("t"))
    ops["del:val"] = lambda w: w.inst("good")["a:c"].delete_item(
        "t").top().validate(sc.all, ct.all)
    ops["ins"] = _edit("good", "/a:c/l=one", lambda n: n.insert_after(
        {"k": "mid"}, raw=True).up())
    ops["ins:bad"] = _edit("good", "/a:c/l=one", lambda n: n.insert_after(
        {"k": 7}, raw=True).up())
    for i, p, x in (("good", "", "/a:c/a:l[a:n > 1]/a:k"),
                    ("good", "/a:ty/ref", "deref(.)/../a:n"),
                    ("good", "/a:ty/id", "derived-from(., 'a:i1')"),
                    ("good", "/a:ty/bi", "bit-is-set(., 'y')"),
                    ("good", "/a:c", "count(a:l | a:ll) + 1"),
                    ("good", "/a:c/t", "enum-value(.)"),
                    ("good", "/a:c", "string(a:w)"),
                    ("other", "/a:c", "string(a:w)"),
                    ("good", "/a:c", "boolean(a:"),
                    ("good", "/a:c", "zz:q")):
        ops[f"xp:{i}:{x}"] = _xp(i, p, x)
    for p, v in (("/a:ty/sm", 5), ("/a:ty/sm", 10), ("/a:c/ll", 12),
                 ("/a:ty/s", "toolong"), ("/a:ty/s", "A"),
                 ("/a:ty/ref", "N1"), ("/a:ty/ref", "toolong"),
                 ("/a:ty/un", "Q9"), ("/a:ty/id", ("other", "a")),
                 ("/a:ty/bi", ("x", "x")), ("/a:ty/bi", ("q",)),
                 ("/a:ty/bin", b"abc"), ("/a:ty/b", 3), ("/a:c/t", "q"),
                 ("/a:ty/i8", "s"), ("/a:ty/i8", 400), ("/a:ty/dec", 4)):
        ops[f"in:{p}:{v}"] = _ty(p, "in", v)
    ops["pv:un"] = _ty("/a:ty/un", "parse_value", "a:i1")
    ops["pv:dec"] = _ty("/a:ty/dec", "parse_value", "1.999")
    ops["fy:id"] = _ty("/a:ty/id", "from_yang", "i2")
    ops["fy:bad"] = _ty("/a:ty/i8", "from_yang", "two")
    ops["cs:dec"] = _ty("/a:ty/dec", "canonical_string", 3)
    ops["tr:un"] = _ty("/a:ty/un", "to_raw", ("i1", "a"))
    ops["dt:sm"] = lambda w: (w.dm.get_data_node("/a:ty/sm").default,
                              w.dm.get_data_node("/a:ty/sm").units)
    ops["der"] = lambda w: w.dm.schema_data.derived_from_all(
        [("base", "a")]) and sorted(
        w.dm.schema_data.derived_from_all([("base", "a")]))
    for n, v in (("ok", {"a:input": {"p": 2}}), ("none", {"a:input": {}}),
                 ("bad", {"a:input": {"p": 22}}),
                 ("out", {"a:output": {"q": "A"}}),
                 ("h", {"a:input": {"p": 1, "h": "x"}})):
        def f(w, v=v):
            r = w.dm.from_raw(copy.deepcopy(v), subschema="a:op")
            (m,) = v
            r[m].validate(sc.all, ct.all)
            return r.add_defaults()
        ops["rpc:" + n] = f
    for n, v in (("ok", {"what": "abc", "tgt": "one"}), ("bad", {
            "what": "A"}), ("none", {"tgt": "one"})):
        ops["ntf:" + n] = lambda w, v=v: w.dm.from_raw(
            {"a:" + k: x for k, x in v.items()}, subschema="a:ev").validate(
            sc.all, ct.all)
    ops["load:same"] = _model(LIB, 0)
    ops["load:other"] = _model(LIB2, 1)
    ops["load:bad"] = _model(LIB, 1)
    r2 = {"a:c": {"t": "q", "l": [{"n": 150, "k": "one", "id": "a:i1"}],
                  "st": 120}}
    ops["m2:val"] = lambda w: w.dm2.from_raw(copy.deepcopy(r2)).validate(
        sc.all, ct.all)
    ops["m2:bad"] = lambda w: w.dm2.from_raw(
        {"a:c": {"t": "q", "st": 5}}).validate(sc.all, ct.all)
    ops["m2:dfl"] = lambda w: w.dm2.from_raw(
        {"a:c": {"l": [{"n": 1}]}}).add_defaults()
    ops["m2:tree"] = lambda w: w.dm2.ascii_tree()
    return ops


TYPED = ["/a:c/t", "/a:c/ll", "/a:c/l/k", "/a:c/l/r", "/a:c/v",
         "/a:c/b:w"] + [
    "/a:ty/" + n for n in ("i8", "u64", "dec", "s", "b", "e", "bi", "bin",
                           "id", "ii", "ref", "ref2", "un", "sm")]
COOKED = [3, 300, "abc", "A1", "toolong", None, (None,),
          ("i1", "a"), ("other", "a"), ("x", "x"), b"abcd"]
RAWV = [3, "3", "x y", True, [None], "A1", 1.5]


def typepool():
    """Operations of data types (of leaves that share types)."""
    ops = {}
    for p in TYPED:
        for v in COOKED:
            ops[f"in:{p}:{v!r}"] = _ty(p, "in", v)
        for v in COOKED[::3]:
            ops[f"cs:{p}:{v!r}"] = _ty(p, "canonical_string", v)
            ops[f"tr:{p}:{v!r}"] = _ty(p, "to_raw", v)
        for v in RAWV:
            ops[f"fr:{p}:{v!r}"] = _ty(p, "from_raw", v)
            if isinstance(v, str):
                ops[f"pv:{p}:{v!r}"] = _ty(p, "parse_value", v)
    return ops
