"""Small module libraries whose modules depend on each other, and everything
that can be observed of their data models (used by C16 and C18)."""
import itertools
import json
import os
import xml.etree.ElementTree as ET

from mc.models import module
from yangson.datamodel import DataModel
from yangson.enumerations import ContentType, ValidationScope


def sub(name, main, prefix, body, imports=(), includes=(), rev=None):
    imp = "".join(f"  import {m} {{ prefix {p}; }}\n" for m, p in imports)
    imp += "".join(f"  include {s};\n" for s in includes)
    r = f"  revision {rev};\n" if rev else ""
    return (f"submodule {name} {{\n  yang-version 1.1;\n  belongs-to {main} "
            f"{{ prefix {prefix}; }}\n{imp}{r}{body}\n}}\n")


def imp(*names):
    return [(n, n) for n in names]


def worlds():
    """name -> (texts, library entries)."""
    W = {}
    # several modules augment and deviate the same nodes
    W["augment"] = ({
        "a": module("a", """
          container c { leaf x { type uint8; default 1; } leaf m { type
            uint8; } choice ch { leaf y { type uint8; } } }
          list l { key k; leaf k { type uint8; } leaf v { type string; } }
          rpc r { input { leaf i { type uint8; } } output { leaf o { type
            uint8; } } }
          notification n { leaf q { type uint8; } }"""),
        "b": module("b", """
          augment /a:c { leaf x { type uint8; default 2; } leaf w { type
            uint8; } }
          augment /a:c/a:ch { leaf z { type uint8; } container zc { leaf d {
            type uint8; default 4; } } }
          augment /a:r/a:input { leaf i { type uint8; } }
          augment /a:n { leaf q { type uint8; } }
          container t { leaf b { type uint8; default 9; } }""",
                    imports=imp("a")),
        "c": module("c", """
          augment /a:c { leaf x { type uint8; default 3; } container e { leaf
            f { type uint8; mandatory true; } presence p; } }
          augment /a:c/a:ch { case k { leaf z { type uint8; } } }
          augment /a:l { leaf u { type uint8; must "../a:v"; } }
          augment /a:r/a:output { leaf o { type uint8; } }
          container t { leaf b { type uint8; default 8; } }""",
                    imports=imp("a")),
        "d": module("d", """
          deviation /a:c/b:x { deviate replace { default 20; } }
          deviation /a:c/a:m { deviate add { must "../c:x = 3"; } }
          deviation /a:c/c:e/c:f { deviate replace { mandatory false; } }
          deviation /a:l { deviate add { unique c:u; } }
          augment /a:c { leaf x { type uint8; default 5; } }""",
                    imports=imp("a", "b", "c"))},
        [{"name": "a"}, {"name": "b"}, {"name": "c"},
         {"name": "d"}])
    # a chain of augments, each in the node of another one
    W["chain"] = ({
        "a": module("a", "container p { } choice q { leaf q1 { type uint8; "
                         "} } "),
        "b": module("b", "augment /a:p { container p { leaf v { type uint8; "
                    "} } } augment /a:q { container p { } }",
                    imports=imp("a")),
        "c": module("c", "augment /a:p/b:p { container p { leaf v { type "
                    "uint8; default 1; } } } augment /a:q/b:p/b:p { leaf v {"
                    " type uint8; default 7; } } augment /a:p { leaf v { "
                    "type uint8; } }", imports=imp("a", "b")),
        "d": module("d", "augment /a:p/b:p/c:p { leaf v { type uint8; "
                    "mandatory true; when \"../c:v = 1\"; } } augment /a:p {"
                    " leaf v { type uint8; default 2; } } augment /a:p/b:p {"
                    " leaf w { type uint8; default 6; } }",
                    imports=imp("a", "b", "c"))},
        [{"name": n} for n in "abcd"])
    # submodules
    W["sub"] = ({
        "a": module("a", """
          grouping g { leaf g0 { type t1; } uses g2; }
          container c { uses g1; leaf z { type t2; } }
          augment /c/c1 { leaf h { type t3; } }
          identity i0; identity i4 { base i2; }""",
                    head="include s1; include s2; include s3;\n"),
        "s1": sub("s1", "a", "a", """
          typedef t1 { type uint8 { range "1..5"; } default 3; }
          grouping g1 { container c1 { leaf x { type t1; } } }
          identity i1 { base i0; }
          augment /a:c { leaf s { type t2; } leaf o { type identityref {
            base i0; } default i4; } }
          container top { leaf s { type uint8; default 1; } }"""),
        "s2": sub("s2", "a", "a", """
          typedef t2 { type t1 { range "2..4"; } }
          grouping g2 { container c2 { leaf y { type t2; default 4; } } }
          identity i2 { base i1; }
          feature f2; feature f3 { if-feature f2; }
          container top2 { uses g; if-feature f3; }
          augment /a:c/a:c1 { uses g2; }""",
                  includes=["s1"]),
        "s3": sub("s3", "a", "a", """
          typedef t3 { type t2; default 2; }
          identity i3 { base i2; }
          augment /a:top2 { leaf ii { type identityref { base i1; } } }
          deviation /b:bb { deviate add { default 4; } }
          augment /a:top { leaf s3 { type t3; } }""",
                  imports=imp("b")),
        "b": module("b", "leaf bb { type uint8; } container cb { leaf s { "
                         "type uint8; } }")},
        [{"name": "a", "submodules": ["s1", "s2", "s3"],
          "features": ["f2", "f3"]}, {"name": "b"}])
    # identities of implemented and import-only modules
    W["identity"] = ({
        "a": module("a", """
          identity r; identity x { base r; } identity y { base r; base b:x; }
          leaf i { type identityref { base r; } }
          leaf-list j { type identityref { base r; base b:r; } }
          leaf k { type identityref { base c:x; } default d:x; }
          leaf m { type uint8; must "not(../i) or derived-from(../i,
            'b:r')"; }""", imports=imp("b", "c", "d")),
        "b": module("b", "identity r; identity x { base r; } identity z { "
                         "base c:x; base x; }", imports=imp("c")),
        "c": module("c", "identity x { base d:x; } identity y { base x; }",
                    imports=imp("d")),
        "d": module("d", "identity x; identity w { base x; }"),
        "e": module("e", "identity q { base a:y; base d:w; base c:y; } "
                         "identity x { base c:x; }",
                    imports=imp("a", "c", "d"))},
        [{"name": "a"}, {"name": "b"}, {"name": "c", "conformance":
                                        "import"}, {"name": "d"},
         {"name": "e"}])
    W["identity"][0]["a"] = W["identity"][0]["a"].replace(
        "default d:x;", "default b:z;")
    # deviations that meet in the same subtree
    W["deviation"] = ({
        "a": module("a", """
          container c { container d { leaf x { type uint8; default 3; } leaf
            y { type string; } leaf-list ll { type uint8; } }
            list l { key k; leaf k { type uint8; } leaf v { type uint8; } }
            choice ch { default x1; leaf x1 { type uint8; default 1; } leaf
              x2 { type uint8; default 2; } } }
          container e { leaf x { type uint8; } }"""),
        "b": module("b", """
          deviation /a:c/a:d/a:x { deviate replace { type string; } }
          deviation /a:c/a:l { deviate add { max-elements 1; } }
          deviation /a:e/a:x { deviate add { must "a"; } }
          deviation /a:c/a:ch/a:x2 { deviate not-supported; }""",
                    imports=imp("a")),
        "c": module("c", """
          deviation /a:c/a:d/a:x { deviate replace { default foo; } }
          deviation /a:c/a:l { deviate add { must "a:k < 5"; } }
          deviation /a:e { deviate not-supported; }
          deviation /a:c/a:d/a:ll { deviate add { default 1; } }""",
                    imports=imp("a")),
        "d": module("d", """
          deviation /a:c/a:l { deviate add { must "a:k > 1"; unique a:v; } }
          deviation /a:c/a:ch/a:x2/a:x2 { deviate replace { default 4; } }
          deviation /a:c/a:ch { deviate replace { default a:x1; } }
          deviation /a:c/a:d/a:ll { deviate add { default 2; must ". < 9"; }
            }""", imports=imp("a"))},
        [{"name": n} for n in "abcd"])
    # features that depend on features of other modules
    W["feature"] = ({
        "a": module("a", """
          feature f1 { if-feature b:f; } feature f2; feature f3;
          leaf x { if-feature "f1 and not b:g"; type uint8; default 1; }
          leaf y { if-feature "f2 or f3 and c:f"; type uint8; }
          leaf z { if-feature f3; type enumeration { enum p; enum q {
            if-feature c:f; } enum r { if-feature f2; } } }""",
                    imports=imp("b", "c")),
        "b": module("b", """
          feature f { if-feature "c:f or c:g"; } feature g;
          identity i; identity j { if-feature g; base i; } identity k {
            if-feature f; base i; }
          leaf u { type identityref { base i; } }""", imports=imp("c")),
        "c": module("c", "feature f; feature g { if-feature f; }"),
        "d": module("d", """
          augment /b:dd { if-feature "a:f1 or b:g"; leaf v { type uint8;
            default 3; if-feature c:g; } leaf w { type uint8; } }""",
                    imports=imp("a", "b", "c"))},
        [{"name": "a", "features": ["f1", "f2", "f3"]},
         {"name": "b", "features": ["f"]},
         {"name": "c", "features": ["f", "g"], "conformance": "import"},
         {"name": "d"}])
    W["feature"][0]["b"] = W["feature"][0]["b"].replace(
        "leaf u", "container dd { } leaf u")
    # several revisions, import-only and implemented
    t = 'typedef t { type uint8 { range "%s"; } } identity i%s { base r; }'
    W["revision"] = ({
        "t@2020-01-01": module("t", "identity r; " + t % ("1", 1),
                               rev="2020-01-01"),
        "t@2021-01-01": module("t", "identity r; " + t % ("1..2", 2),
                               rev="2021-01-01"),
        "t@2022-01-01": module("t", "identity r; " + t % ("1..3", 3)
                               + "container tt { leaf v { type t; } }",
                               rev="2022-01-01"),
        "a": module("a", "leaf x { type t:t; } leaf y { type identityref { "
                         "base t:r; } } container c { leaf x { type u:t; } "
                         "}", head="import t { prefix t; revision-date "
                    "2020-01-01; } import u { prefix u; }\n"),
        "b": module("b", "augment /a:c { leaf x { type t:t; } }",
                    head="import a { prefix a; } import t { prefix t; "
                         "revision-date 2021-01-01; }\n"),
        "u": module("u", "typedef t { type t:t; default 2; } augment /t:tt {"
                         " leaf x { type t:t; } } leaf w { type t; }",
                    imports=imp("t"))},
        [{"name": "t", "revision": "2020-01-01", "conformance": "import"},
         {"name": "t", "revision": "2021-01-01", "conformance": "import"},
         {"name": "t", "revision": "2022-01-01"}, {"name": "a"},
         {"name": "b"}, {"name": "u"}])
    # annotations, actions, groupings used by several modules
    W["operation"] = ({
        "a": module("a", """
          grouping g { action do { input { leaf i { type uint8; } } output {
            leaf o { type uint8; } } } notification ev { leaf s { type
            uint8; } } leaf gl { type uint8; default 1; } }
          container c { uses g; list l { key k; leaf k { type uint8; } uses
            g; } }
          rpc go { input { uses p:p; } }""", head="import p { prefix p; }\n"),
        "b": module("b", """
          container c { uses a:g { augment do/input { leaf j { type uint8; }
            } refine gl { default 2; } } }
          augment /a:c { action more { input { leaf m { type uint8; } } } }
          augment /a:go/a:input { leaf n { type uint8; default 3; } }""",
                    imports=imp("a")),
        "c": module("c", """
          augment /a:c/a:l { action do; notification ev2; leaf d { type
            uint8; } }
          augment /a:go/a:output { uses p:p; }
          md:annotation note { type string; }""",
                    imports=imp("a", "p") + [("ietf-yang-metadata", "md")]),
        "p": module("p", "grouping p { leaf pl { type pt; } } typedef pt { "
                         "type uint8; default 7; }"),
        "ietf-yang-metadata": module(
            "ietf-yang-metadata", "extension annotation { argument name; }",
            ns="urn:ietf:params:xml:ns:yang:ietf-yang-metadata",
            prefix="md", rev="2016-08-05")},
        [{"name": "a"}, {"name": "b"}, {"name": "c"},
         {"name": "p", "conformance": "import"},
         {"name": "ietf-yang-metadata", "revision": "2016-08-05",
          "namespace": "urn:ietf:params:xml:ns:yang:ietf-yang-metadata",
          "conformance": "import"}])
    # leafrefs, whens and defaults across modules
    W["reference"] = ({
        "a": module("a", """
          list l { key k; leaf k { type uint8; } leaf r { type leafref {
            path "/b:m/b:k"; } } }
          container d { leaf x { type uint8; default 1; } }"""
                    , imports=imp("b")),
        "b": module("b", """
          list m { key k; leaf k { type uint8; } }
          container d { leaf x { type uint8; default 2; when
            "not(/c:d/c:x)"; } }""", head=""),
        "c": module("c", """
          augment /a:l { leaf r { type leafref { path "../a:k"; } } leaf s {
            type leafref { path "deref(../a:r)/../b:k"; } } }
          container d { leaf x { type leafref { path "/a:l/r"; } } leaf y {
            type instance-identifier; } leaf e { type uint8; must
            "/a:d/a:x = 1 and /b:d/b:x = 2"; default 5; } }"""
                    .replace("deref(../a:r)/../b:k", "/b:m/b:k")
                    .replace("/a:l/r", "/a:l/c:r"),
                    imports=imp("a", "b"))},
        [{"name": n} for n in "abc"])
    W["reference"][0]["b"] = W["reference"][0]["b"].replace(
        "not(/c:d/c:x)", "not(../../b:m)")
    return W


def library(entries, order=None):
    """YANG library text with the listing orders given by `order`."""
    res = []
    for e in entries:
        m = {"name": e["name"], "revision": e.get("revision", ""),
             "namespace": e.get("namespace", "urn:" + e["name"]),
             "conformance-type": e.get("conformance", "implement")}
        if e.get("features"):
            m["feature"] = list(e["features"])
        if e.get("submodules"):
            m["submodule"] = [{"name": s, "revision": ""}
                              for s in e["submodules"]]
        res.append(m)
    return json.dumps({"ietf-yang-library:modules-state":
                       {"module-set-id": "x", "module": res}})


# --------------------------------------------------------- observation

def values(t):
    b = t["base"] if isinstance(t, dict) else t
    if b == "enumeration":
        return list(t["enums"])[:2]
    if b == "identityref":
        return [f"{m}:{n}" for n, m in t.get("identities", [])]
    if b == "string":
        return ["s"]
    if b == "empty":
        return [[None]]
    if b == "boolean":
        return [True]
    if b == "instance-identifier":
        return ["/a:d/x", "/c:d/e"]
    return [1, 2, 3]


def documents(dig):
    """Documents of the schema with a digest."""
    def single(d):
        for n, c in d.get("children", {}).items():
            k = c["kind"]
            if k == "leaf":
                for v in values(c["type"]):
                    yield {n: v}
            elif k == "leaf-list":
                for v in values(c["type"]):
                    yield {n: [v]}
                yield {n: values(c["type"])}
            elif k == "container":
                yield {n: {}}
                for s in single(c):
                    yield {n: s}
            elif k == "list":
                for s in single(c):
                    e = {x: 1 for x in keys(c)}
                    e.update(s)
                    yield {n: [e]}
                    yield {n: [dict(e, **{x: 7 for x in keys(c)}), e]}

    def keys(c):
        return [k for k in c.get("keys", [])]

    def full(d, i):
        res = {}
        for n, c in d.get("children", {}).items():
            k = c["kind"]
            if k in ("leaf", "leaf-list"):
                vs = values(c["type"])
                if vs:
                    v = vs[i % len(vs)]
                    res[n] = [v] if k == "leaf-list" else v
            elif k == "container":
                res[n] = full(c, i)
            elif k == "list":
                res[n] = [full(c, i)]
        return res

    def merge(a, b):
        r = dict(a)
        for k, v in b.items():
            r[k] = merge(r[k], v) if isinstance(v, dict) and isinstance(
                r.get(k), dict) else v
        return r
    one = list(single(dig))
    yield {}
    yield from one
    if len(one) <= 8:
        for x, y in itertools.combinations(one, 2):
            yield merge(x, y)
    for i in range(3):
        yield full(dig, i)


def exc(f, *args, **kw):
    try:
        return f(*args, **kw)
    except Exception as e:
        return f"{type(e).__name__}: {e}"


def observe(dm, light=False):
    """Everything observable of a data model, as ordered text entries."""
    yield "tree", dm.ascii_tree()
    yield "tree-notypes", dm.ascii_tree(no_types=True)
    dig = dm.schema_digest()
    yield "digest", dig
    yield "id", dm.module_set_id()
    yield "stats", repr(dm.schema.description)
    sd = dm.schema_data
    yield "identities", json.dumps(sorted(
        ["%s:%s" % (i[1], i[0]), sorted(map(list, sd.derived_from(i)))]
        for i in sd.identity_adjs))
    dg = json.loads(dig)
    docs = list(documents(dg))
    if light:
        docs = docs[:1] + docs[-3:]
    for n, c in dg.get("children", {}).items():
        if c["kind"] in ("rpc", "notification"):
            for part in ("input", "output"):
                for d in documents(c.get(part, {})):
                    docs.append(("sub", n, {f"{n.split(':')[0]}:{part}": d}))
            if c["kind"] == "notification":
                for d in documents(c):
                    docs.append(("sub", n, d))
    for d in docs:
        yield from observe_doc(dm, d)


def observe_doc(dm, d):
    key = json.dumps(d)
    sub = None
    if isinstance(d, tuple):
        _, sub, d = d
    r = exc(dm.from_raw, d, sub)
    if isinstance(r, str):
        yield key, r
        return
    out = []
    for ct, sc in ((ContentType.all, ValidationScope.all),
                   (ContentType.config, ValidationScope.semantics)):
        out.append(str(exc(r.validate, sc, ct)))
    w = exc(r.add_defaults)
    out.append(w if isinstance(w, str) else exc(
        lambda: json.dumps(w.raw_value())))
    out.append(exc(lambda: json.dumps(r.raw_value())))
    if sub is None:
        out.append(exc(lambda: ET.tostring(r.to_xml(), "unicode")))
        x = exc(lambda: json.dumps(dm.from_xml(r.to_xml()).raw_value()))
        out.append(x)
    yield key, "\n".join(map(str, out))
