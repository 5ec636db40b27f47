"""C23: hostile instance data never crashes the library."""
import copy
import itertools
import json
import xml.etree.ElementTree as ET

from mc.models import build, module
from yangson.enumerations import ContentType, ValidationScope
from yangson.exceptions import (InstanceValueError, MissingModuleNamespace,
                                RawDataError, ValidationError,
                                YangsonException, YangTypeError)
from yangson.instance import (ArrayEntry, InstanceNode, ObjectMember,
                              OutputFilter, RootNode)
from yangson.instvalue import ArrayValue, ObjectValue
from yangson.schemanode import AnyContentNode
from yangson.xmlparser import XMLParser

PROPERTY = "C23"
ASSUMPTIONS = [
    "data nested deeper than the recursion limit of the Python interpreter "
    "are out of scope",
    "edit values are raw (JSON) values; values passed as already cooked are "
    "the caller's responsibility",
]

MD = module("ietf-yang-metadata", "extension annotation { argument name; }",
            prefix="md")
TYPES = """
  leaf i8 { type int8 { range "-5..5 | 100"; } }
  leaf u64 { type uint64; }
  leaf i64 { type int64; }
  leaf d { type decimal64 { fraction-digits 2; range "-1..9.99"; } }
  leaf bo { type boolean; }
  leaf en { type enumeration { enum one; enum "t o"; } }
  leaf bi { type bits { bit b0; bit b1; } }
  leaf by { type binary { length 1..3; } }
  leaf e { type empty; }
  leaf s { type string { length 0..4; pattern "[a-z]*"; } }
  leaf id { type identityref { base i0; } }
  leaf ii { type instance-identifier; }
  leaf in { type instance-identifier { require-instance false; } }
  leaf lr { type leafref { path "../l/k"; } }
  leaf ln { type leafref { path "../i8"; require-instance false; } }
  leaf un { type union { type int8; type leafref { path "../l/k"; }
            type enumeration { enum x; } type instance-identifier;
            type identityref { base i0; } type decimal64 {
            fraction-digits 1; } type bits { bit q; } type binary; } }
  leaf df { type string; default zz; }
"""
A = module("a", """
  md:annotation an { type uint8; }
  md:annotation ab { type identityref { base i0; } }
  identity i0; identity i1 { base i0; }
  container c {
    """ + TYPES + """
    list l { key "k n"; unique "v w/x"; min-elements 1; max-elements 3;
      leaf k { type string; } leaf n { type decimal64 { fraction-digits 1; } }
      leaf v { type int8; } container w { leaf x { type string; default q; } }
      action ac { input { leaf x { type int8; } } }
    }
    leaf-list ll { type int8; max-elements 3; ordered-by user; }
    leaf-list li { type identityref { base i0; } min-elements 1; }
    leaf-list le { type enumeration { enum p; enum q; } default p; }
    choice ch { mandatory true;
      case ca { leaf ca { type string; } leaf cb { type int8; } }
      leaf cc { type empty; }
      choice inner { leaf cd { type string; } container ce { leaf q {
        type int8; mandatory true; } } } }
    anydata ad; anyxml ax;
    container p { presence x; leaf m { type string; mandatory true; }
      must "m != 'bad'" { error-message "oops"; } }
    container np { leaf z { type string; default "z"; }
      leaf wh { when "../../i8 > 3"; type string; }
      leaf r { type leafref { path "../../l[k=current()/../../lr]/v"; } } }
    must "count(l) < 9 and not(number(s) = 7)";
  }
  list st { config false; leaf x { type string; } leaf-list y { type int8; } }
  leaf-list top { type string; }
  rpc op { input { leaf a { type int8; } leaf-list b { type string; }
                   container c { leaf q { type bits { bit z; } } } }
           output { leaf o { type string; } } }
  notification no { leaf n { type int8; } list nl { leaf x { type empty; } } }
""", imports=[("ietf-yang-metadata", "md")])
B = module("b", """
  augment "/a:c" { leaf i8 { type int8; } leaf bu { type union {
    type a:i; type empty; type boolean; } }
    container bc { list l { key k; leaf k { type instance-identifier {
      require-instance false; } } } } }
""".replace("type a:i;", "type uint8;"), imports=[("a", "a")])

DOC = {"a:c": {
    "i8": 5, "u64": "7", "i64": "-7", "d": "1.5", "bo": True, "en": "one",
    "bi": "b0 b1", "by": "YQ==", "e": [None], "s": "ab", "id": "i1",
    "ii": "/a:c/l[k='x'][n='1.5']/v", "in": "/a:c/l[1]", "lr": "x", "ln": 3,
    "un": "x",
    "l": [{"k": "x", "n": "1.5", "v": 1, "w": {"x": "u"}},
          {"k": "y", "n": "0", "v": 2}],
    "ll": [3, 1], "li": ["a:i1"], "le": ["q"], "ca": "c", "cb": 2,
    "ad": {"a:c": {"i8": 1}, "z:y": [1, {"b": None}]}, "ax": {"q": [1]},
    "p": {"m": "y"}, "np": {"z": "w", "wh": "h", "r": 1},
    "b:i8": 3, "b:bu": True, "b:bc": {"l": [{"k": "/a:c/i8"}]},
    "@i8": {"a:an": 3}, "@ll": [{"a:an": 1}, None], "@": {"a:ab": "i1"}},
    "a:st": [{"x": "r", "y": [1]}, {"x": "r"}], "a:top": ["t", ""]}
SUB = {"a:op/in": {"a:input": {"a": 3, "b": ["x"], "c": {"q": "z"}}},
       "a:op/out": {"a:output": {"o": "x"}},
       "a:no": {"a:n": 1, "a:nl": [{"x": [None]}]}}

INF = float("inf")
SCALARS = [None, True, False, 0, -1, 1, 300, 2 ** 64, 10 ** 400, 1.5, 1.0,
           -0.0, 1e300, INF, float("nan"), "", " ", "a", "x", "1", "-1", "+1",
           "1.5", "1.", ".5", "1e5", "1E999999999", "NaN", "-Infinity", "sNaN",
           "9" * 5000, "-" + "9" * 5000, "0." + "9" * 5000, "\u0663", "\u0967",
           "\ud800", "\x00", "\n", "1\n", " 1", "1_0", "0x1", "true", "i1",
           "a:i1", "b:i1", "a:", ":a", ":", "::", "z:y", "a:i1:z", "one",
           "t o", "b0", "b1 b1", "b0  b1", "YQ==", "====", "Y", "Y Q = =",
           "\u00e9", "/", "//", "/a", "/a:c", "/a:c/", "/a:c[", "/a:c/l[",
           "/a:c/l[k", "/a:c/l[k=", "/a:c/l[k='x'", "/a:c/l[k='x']",
           "/a:c/l[k='x'][n='z']/v", "/a:c/l[0]", "/a:c/l[9999999999]/v",
           "/a:c/l[-1]", "/a:c/ll[.='z']", "/a:c/ll[.='3']", "/z:c/i8",
           "/a:c/..", "/a:op", "/a:op/input/a", "/a:no/n", "/a:c/l[1]/ac",
           "/a:c/ad/z", "/a:c/i8/x", "/a:c[k='x']", "/a:c/ca", "/a:st[1]/x",
           "/a:st[x='r']/y[.='1']", "/" + "a:c/" * 500, "(" * 300, "[1]",
           "a" * 3000]
STRUCT = [[], {}, [None], [[]], [{}], [[None]], [None, None], [1, 1], [1, "a"],
          ["a"], ["a", "a"], ["x", {"x": []}], [True], {"": 1}, {"a": None},
          {"a:c": {}}, {"a:nope": 1}, {"b:i8": 1}, {"x": 1}, {"@": {}},
          {"@": 1}, {"@x": 1}, {"@x": {"a:an": 1}}, {"@nope": {"a:an": 1}},
          {"k": "x"}, [{"k": "x"}], [{"k": "x", "n": "1.5"}] * 2,
          [{"k": "x", "n": 1.5}], [{"k": None, "n": "1"}], [{"k": ["x"]}],
          [{"k": {}, "n": "1.0"}], [{"m": 1}], {"m": "bad"}, {"q": 1},
          {"q": None}, [{"a:an": 1}], {"a:an": "x"}, {"a:ab": 3},
          {"z:an": 1}, {"an": 1}, [{"a:an": 1}] * 5, {"a:an": [1]},
          {"a:an": None}]
POOL = SCALARS + STRUCT
SMALL = [None, True, 1, "x", "9" * 5000, "/a:c/l[k='x'][n='1.5']/v", INF, [],
         {}, [None], [{}], [1, 1], {"@": 1}, {"": 1}, [{"k": "x"}]]
NAMES = ["", " ", ":", "a:", ":a", "::", "a:c:d", "nope", "a:nope", "b:nope",
         "z:z", "@", "@@", "@nope", "@:", "@a:", "@a:nope", "a:@i8", "\n",
         "c", "a:c", "b:c", "a:op", "op", "a:no", "no", "input", "a:input",
         "ac", "a:ac", "ch", "a:ch", "inner", "case", "a:ca", "i8", "b:i8",
         "a:i8", "l", "a:l", "k", "cc", "cd", "ce", "a:ce", "@i8", "@a:i8",
         "@b:i8", "@ll", "@a:ll", "@l", "@ad", "@p", "@s", "@a:s", "\u0661",
         "\ud800", "i8\x00", "bc", "b:bc", "a:bc", "st", "a:st", "top", "."]

_dm = None


def model():
    global _dm
    if _dm is None:
        _dm = build({"ietf-yang-metadata": MD, "a": A, "b": B})
        _dm._control = control(_dm)
        _dm._digest = _dm.schema_digest(), _dm.ascii_tree()
    return _dm


def control(dm):
    """Outcomes of the unchanged documents."""
    res = []
    for key in ("data", *SUB):
        inst = entry(dm, key, copy.deepcopy(subdoc(key)))
        try:
            inst.validate(ValidationScope.all, ContentType.all)
            err = None
        except YangsonException as e:
            err = str(e)
        res.append((err, inst.add_defaults(ContentType.all).raw_value()))
    return res


def short(v):
    r = repr(v)
    return r if len(r) < 120 else r[:80] + "..."


class Bad(Exception):
    pass


def guard(what, f):
    """Run f: ("ok", result) or ("exc", exception); other exceptions than the
    documented ones are failures."""
    try:
        return "ok", f()
    except YangsonException as e:
        try:
            str(e)
        except Exception as x:
            raise Bad(f"{what}: {type(e).__name__} whose text raises {x!r}")
        return "exc", e
    except Exception as e:
        raise Bad(f"{what}: {short(e)}")


def pointer(path):
    return "".join("/" + str(p) for p in path)


def pointers(doc, path):
    """Forms of a pointer; list entries may be identified by their keys."""
    res = [""]
    for p in path:
        seg = ["/" + str(p)]
        if isinstance(p, str) and p[:1] == "@":
            seg.append("/" + p[1:] if p[1:] else "")    # annotated node
        if isinstance(p, int) and isinstance(doc, list) and p < len(doc) \
                and isinstance(doc[p], dict):
            for keys in (["k", "n"], ["k"]):
                seg.append("=" + ",".join(
                    str(doc[p].get(k, "<missing>")) for k in keys))
        res = [r + s for r in res for s in seg]
        try:
            doc = doc[p]
        except (KeyError, IndexError, TypeError):
            doc = None
    return res


def nodes_of(inst, limit=400):
    res, todo = [], [inst]
    while todo and len(res) < limit:
        n = todo.pop(0)
        res.append(n)
        if isinstance(n.schema_node, AnyContentNode):
            continue        # content without a schema
        if isinstance(n.value, ObjectValue):
            for m in n.value:
                if not m.startswith("@"):
                    todo.append(n[m])
        elif isinstance(n.value, ArrayValue):
            todo += [n[i] for i in range(len(n.value))]
    return res


def check_error(what, e, dm, inst=None, at=None):
    """An error identifies an existing place."""
    if isinstance(e, ValidationError):
        if not isinstance(e.instance, InstanceNode):
            raise Bad(f"{what}: {e!r} without an instance")
        guard(what + ": location", lambda: (e.instance.json_pointer(),
                                            str(e.instance.instance_route())))
        if inst is not None:
            node = inst
            for k in e.instance.path:
                try:
                    node = node[k]
                except Exception:
                    node = None
                    break
            # defaults may be added during validation
            if isinstance(e, YangTypeError) and node is None:
                raise Bad(f"{what}: error at nonexistent "
                          f"{e.instance.json_pointer()}")
        if isinstance(e, YangTypeError) and at is not None:
            p = e.instance.json_pointer()
            if not (p + "/").startswith(at + "/"):
                raise Bad(f"{what}: type error at {p}, change was at {at}")


LIGHT = [(ValidationScope.all, ContentType.all),
         (ValidationScope.syntax, ContentType.config),
         (ValidationScope.semantics, ContentType.nonconfig)]
SCOPES = [(s, c) for s in ValidationScope for c in ContentType]


def battery(dm, inst, count, at=None, full=True):
    """Every operation on an accepted instance."""
    valid = False
    for s, c in SCOPES if full else LIGHT:
        count[0] += 1
        k, e = guard(f"validate({s.name}, {c.name})",
                     lambda: inst.validate(s, c))
        if k == "exc":
            check_error("validate", e, dm, inst, at)
        elif s is ValidationScope.all and c is ContentType.all:
            valid = True
    count[0] += 3
    k, raw = guard("raw_value", inst.raw_value)
    if k == "exc":
        raise Bad(f"raw_value: {raw!r}")
    try:
        json.dumps(raw)
        str(inst), hash(inst.value)
    except Exception as e:
        raise Bad(f"text of the value: {short(e)}")
    guard("json_pointer", inst.json_pointer)
    k, el = guard("to_xml", inst.to_xml)
    if k == "ok" and el is not None:
        try:
            ET.tostring(el, encoding="unicode")
        except Exception as e:
            raise Bad(f"written XML: {short(e)}")
    if k == "exc" and valid and not (
            isinstance(el, InstanceValueError) and
            isinstance(el.instance.schema_node, AnyContentNode)
            # identifiers of unknown modules have no XML form
            or isinstance(el, MissingModuleNamespace) and str(el) == "z"):
        raise Bad(f"to_xml of valid data: {el!r}")
    for c in (None, *ContentType) if full else (None,):
        count[0] += 1
        k, wd = guard("add_defaults", lambda: inst.add_defaults(c))
        if k == "exc":
            if valid:
                raise Bad(f"add_defaults of valid data: {wd!r}")
            check_error("add_defaults", wd, dm)
        elif c is None:
            guard("raw_value with defaults", wd.raw_value)
            k, e = guard("validate with defaults",
                         lambda: wd.validate(ValidationScope.all,
                                             ContentType.all))
            if k == "exc" and valid:
                raise Bad(f"valid data with defaults: {e!r}")
    if full:
        for n in nodes_of(inst):
            count[0] += 1
            guard("route", lambda: str(n.instance_route()))
            guard("pointer", n.json_pointer)
            guard("string", lambda: str(n))
            guard("deref", getattr(n, "_deref", list))
            if not isinstance(n, RootNode):
                guard("validate part", n.validate)
                guard("xml part", n.to_xml)
                guard("raw part", n.raw_value)
                guard("defaults part", n.add_defaults)
    return valid


def positions(doc, path=()):
    """Paths of all places in a document."""
    yield path
    if doc == [None]:
        return      # an empty leaf is a scalar
    if isinstance(doc, dict):
        for k in doc:
            yield from positions(doc[k], path + (k,))
    elif isinstance(doc, list):
        for i, v in enumerate(doc):
            yield from positions(v, path + (i,))


def at(doc, path):
    for p in path:
        doc = doc[p]
    return doc


def replace(doc, path, val):
    if not path:
        return copy.deepcopy(val)
    doc = copy.deepcopy(doc)
    par = at(doc, path[:-1])
    par[path[-1]] = copy.deepcopy(val)
    return doc


def mutate(doc, mut):
    kind, path = mut[0], tuple(mut[1])
    if kind == "set":
        return replace(doc, path, mut[2])
    doc = copy.deepcopy(doc)
    if kind == "add":
        at(doc, path)[mut[2]] = copy.deepcopy(mut[3])
    elif kind == "del":
        del at(doc, path[:-1])[path[-1]]
    elif kind == "dup":
        v = at(doc, path)
        v.append(copy.deepcopy(v[mut[2]]))
    elif kind == "ins":
        at(doc, path).insert(mut[2], copy.deepcopy(mut[3]))
    elif kind == "rename":
        par = at(doc, path[:-1])
        items = [(mut[2] if k == path[-1] else k, v) for k, v in par.items()]
        par.clear()
        par.update(items)
    return doc


def mutations(doc, path, pool):
    """All single mutations at one place."""
    v = at(doc, path)
    for w in pool:
        yield ["set", list(path), w]
    if path and isinstance(path[-1], str):
        yield ["del", list(path)]
        for n in NAMES:
            yield ["rename", list(path), n]
    elif path:
        yield ["del", list(path)]
    if isinstance(v, list):
        for i in range(len(v)):
            yield ["dup", list(path), i]
            for w in pool:
                yield ["ins", list(path), i, w]
    if isinstance(v, dict):
        for n in NAMES:
            if n not in v:
                for w in SMALL:
                    yield ["add", list(path), n, w]


def where(mut):
    """Pointer below which a single mutation can cause a raw error."""
    kind, path = mut[0], mut[1]
    if kind == "set":
        return pointer(path)
    return None


def subdoc(key):
    return DOC if key == "data" else SUB[key]


def entry(dm, key, doc):
    if key == "data":
        return dm.from_raw(doc)
    return dm.from_raw(doc, "a:" + key[2:4])


def json_case(case, rec=None):
    dm = model()
    key, muts = case["doc"], case["muts"]
    doc = subdoc(key)
    for m in muts:
        doc = mutate(doc, m)
    before = repr(doc)
    count = [1]
    what = f"{key} {[(m[:2] + [short(x) for x in m[2:]]) for m in muts]}"
    try:
        k, r = guard("from_raw", lambda: entry(dm, key, doc))
        loc = where(muts[0]) if len(muts) == 1 else None
        if k == "ok":
            res = "valid" if battery(dm, r, count, loc, len(muts) == 1
                                     and not {"ad", "ax"} & set(muts[0][1])) \
                else "invalid"
        else:
            res = type(r).__name__
            if loc is not None and isinstance(r, RawDataError) \
                    and key == "data" and \
                    not any((r.path + "/").startswith((x + "/", x + "="))
                            for x in pointers(doc, muts[0][1])):
                raise Bad(f"error at {r.path}, change was at {loc}")
        if repr(doc) != before:
            raise Bad("the given document was changed")
    except Bad as e:
        return f"{what}: {e}"
    if rec:
        rec.step(count[0])
        rec.agree(res)
    return None


# ------------------------------------------------------------------ edits

def edit_ops(node):
    """Editing calls with raw values on an instance node."""
    for k, v in enumerate(POOL):
        yield ["update", k]
    if isinstance(node.value, ObjectValue):
        for n in NAMES:
            for k in range(len(SMALL)):
                yield ["put", n, k]
        for n in NAMES:
            yield ["del", n]
            yield ["get", n]
        yield ["merge"]
    if isinstance(node.value, ArrayValue):
        yield ["merge"]
        for k in range(len(SMALL)):
            yield ["look", "k", k]
            yield ["look2", k]
            yield ["look", "nope", k]
        for n in (0, 1, 2, -1, -3, 10 ** 30, "x", "", None, 1.5, True):
            yield ["del", n]
            yield ["get", n]
    if isinstance(node, ArrayEntry):
        for k in range(len(POOL)):
            yield ["before", k]
            yield ["after", k]
    if isinstance(node, ObjectMember):
        for n in NAMES:
            yield ["sibling", n]


def apply_edit(node, op):
    k = op[0]
    cp = copy.deepcopy
    if k == "update":
        return node.update(cp(POOL[op[1]]), raw=True)
    if k == "put":
        return node.put_member(op[1], cp(SMALL[op[2]]), raw=True)
    if k == "del":
        return node.delete_item(op[1])
    if k == "get":
        return node[op[1]]
    if k == "merge":
        res = None
        for v in POOL:
            r = guard(f"merge {short(v)}",
                      lambda: node.merge(cp(v), raw=True))
            if r[0] == "ok":
                guard(f"merge {short(v)} and top", r[1].top)
                res = r[1]
        return res
    if k == "look":
        return node.look_up(True, **{op[1]: cp(SMALL[op[2]])})
    if k == "look2":
        return node.look_up(True, k="x", n=cp(SMALL[op[1]]))
    if k == "before":
        return node.insert_before(cp(POOL[op[1]]), raw=True)
    if k == "after":
        return node.insert_after(cp(POOL[op[1]]), raw=True)
    return node.sibling(op[1])


def edit_case(case, rec=None):
    dm = model()
    node = entry(dm, case["doc"], copy.deepcopy(subdoc(case["doc"])))
    count = [1]
    try:
        for p in case["path"]:
            node = node[p]
        k, r = guard(f"{case['op']}", lambda: apply_edit(node, case["op"]))
        res = type(r).__name__
        if k == "ok":
            res = "applied"
            if r is not None and case["op"][0] not in ("look", "get"):
                k, t = guard("top", r.top)
                battery(dm, t, count, None, False)
            guard("old", node.raw_value)
    except Bad as e:
        op = case["op"]
        v = f" ({short(POOL[op[1]])})" if op[0] in ("update", "before",
                                                   "after") else ""
        return f"{case['doc']} {case['path']} {op}{v}: {e}"
    if rec:
        rec.step(count[0])
        rec.agree(res)
    return None


# -------------------------------------------------------------------- XML

XTEXT = [x for x in SCALARS if isinstance(x, str)
         and not any(ord(c) < 32 and c != "\n" or 0xd800 <= ord(c) < 0xe000
                     for c in x)]
ATTRS = [{"nope": "1"}, {"{urn:a}an": "1"}, {"{urn:a}an": "x"},
         {"{urn:zz}an": "1"}, {"{urn:a}nope": "1"}, {"an": "1"},
         {"{urn:a}ab": "a:i1"}, {"{urn:a}ab": "z:i1"}, {"{urn:a}ab": ""},
         {"xmlns:a": "urn:a"}, {"xml:lang": "en"},
         {"{http://www.w3.org/XML/1998/namespace}lang": "en"}]
KIDS = ["<nope/>", "<nope xmlns=''/>", "<x xmlns='urn:zz'/>",
        "<i8 xmlns='urn:a'>1</i8>", "<i8 xmlns='urn:b'>1</i8>",
        "<i8 xmlns=''>1</i8>", "<l xmlns='urn:a'/>", "<ll xmlns='urn:a'/>",
        "<l xmlns='urn:a'><k>x</k></l>",
        "<l xmlns='urn:a'><n>1.5</n><k>x</k></l>", "<ch xmlns='urn:a'/>",
        "<op xmlns='urn:a'/>", "<no xmlns='urn:a'><n>1</n></no>",
        "<ac xmlns='urn:a'><x>1</x></ac>", "<ce xmlns='urn:a'><q/></ce>",
        "<cc xmlns='urn:a'>x</cc>", "<cc xmlns='urn:a'/>",
        "<input xmlns='urn:a'/>", "<!-- c -->", "<?pi x?>",
        "<st xmlns='urn:a'><y>1</y><x>q</x><y>2</y></st>",
        "<top xmlns='urn:a'/>", "<c xmlns='urn:a'/>", "<ad xmlns='urn:a'/>",
        "<ad xmlns='urn:a'>t</ad>", "<ax xmlns='urn:a'><q><r/></q>t</ax>",
        "<ad xmlns='urn:a'><i8>1</i8><i8>2</i8><q xmlns='urn:u'/></ad>",
        "<e xmlns='urn:a'> </e>", "<un xmlns='urn:a'/>",
        "<bu xmlns='urn:b'/>", "<bu xmlns='urn:b'>x</bu>"]


def xml_doc(key):
    dm = model()
    if key == "data":
        doc = copy.deepcopy(DOC)
        for k in ("ad", "ax"):
            del doc["a:c"][k]
    else:
        doc = SUB[key]
    el = entry(dm, key, doc).to_xml()
    return ET.tostring(el, encoding="unicode")


def xpositions(el, path=()):
    yield path
    for i, e in enumerate(el):
        yield from xpositions(e, path + (i,))


def xat(el, path):
    for i in path:
        el = el[i]
    return el


def xmutations(root, path, wide):
    e = xat(root, path)
    for k in range(len(XTEXT)):
        yield ["text", list(path), k]
    for k in range(len(ATTRS)):
        yield ["attr", list(path), k]
    for k in range(len(KIDS)):
        for pos in sorted({0, len(e)}):
            yield ["kid", list(path), k, pos]
            if wide:
                yield ["kidtail", list(path), k, pos]
    if path:
        for t in ("{urn:zz}x", "x", "{urn:a}nope", "{urn:a}c", "{urn:b}i8",
                  "{urn:a}i8", "{urn:a}l", "{urn:a}ll", "{urn:a}op",
                  "{urn:a}ch", "{urn:a}k", "{urn:a}bu", "{urn:a}bc",
                  "{urn:a}un", "{urn:a}e", "{urn:a}p", "{urn:a}ad"):
            yield ["tag", list(path), t]
        yield ["del", list(path)]
        yield ["dup", list(path)]
    yield ["nons", list(path)]


def xmutate(root, mut):
    kind, path = mut[0], mut[1]
    e = xat(root, path)
    if kind == "text":
        e.text = XTEXT[mut[2]]
    elif kind == "attr":
        e.attrib.update(ATTRS[mut[2]])
    elif kind in ("kid", "kidtail"):
        p = ET.XMLParser(target=ET.TreeBuilder(insert_comments=True,
                                               insert_pis=True))
        p.feed(f"<r>{KIDS[mut[2]]}</r>")
        kid = p.close()[0]
        if kind == "kidtail":
            kid.tail = "tail"
        e.insert(mut[3], kid)
    elif kind == "tag":
        e.tag = mut[2]
    elif kind == "nons":
        e.tag = e.tag.rpartition("}")[2]
    elif kind == "del":
        par = xat(root, path[:-1])
        par.remove(e)
    else:
        par = xat(root, path[:-1])
        par.append(copy.deepcopy(e))


LISTS = {"l", "ll", "li", "le", "st", "y", "top", "b", "nl"}


def xlocate(key, mut, err):
    """An error is at the changed element or below."""
    el = ET.fromstring(_xtext[key])
    res, pns = "", None
    path = mut[1]
    if mut[0] in ("tag", "nons", "dup", "del"):
        path = path[:-1]        # reported under the new name
    if key == "a:op/in" or key == "a:op/out":
        return
    for i in path:
        kid = el[i]
        ns, name = kid.tag[1:].split("}")
        res += "/" + (name if ns == pns or key == "a:no" and not pns
                      else f"{ns[4:]}:{name}")
        if name in LISTS:
            res += "/" + str([x for x in el if x.tag == kid.tag].index(kid))
        pns, el = ns, kid
    if not (err.path + "/").startswith(res + "/"):
        raise Bad(f"error at {err.path}, change was at {res}")


_xtext = {}


def xml_case(case, rec=None):
    dm = model()
    key = case["doc"]
    if key not in _xtext:
        _xtext[key] = xml_doc(key)
    count = [1]
    res = None
    try:
        for tree in (True, False):
            # the library's own parser, and a plain element tree
            root = ET.fromstring(_xtext[key])
            for m in case["muts"]:
                xmutate(root, m)
            if tree:
                text = ET.tostring(root, encoding="unicode")
                try:
                    ET.fromstring(text)
                except ET.ParseError:
                    continue    # not well-formed after the mutation
                k, r = guard("parse", lambda: XMLParser(text).root)
                if k == "exc":
                    continue
                root = r
            k, r = guard("from_xml", lambda: dm.from_xml(
                root, None if key == "data" else "a:" + key[2:4]))
            if k == "ok":
                res = "valid" if battery(dm, r, count, None, tree and len(
                    case["muts"]) == 1) else "invalid"
            else:
                res = type(r).__name__
                if isinstance(r, RawDataError) and len(case["muts"]) == 1:
                    xlocate(key, case["muts"][0], r)
    except Bad as e:
        m = [x[:2] + [{"text": XTEXT, "attr": ATTRS, "kid": KIDS,
                       "kidtail": KIDS}.get(x[0], {}) and short(
                           {"text": XTEXT, "attr": ATTRS, "kid": KIDS,
                            "kidtail": KIDS}[x[0]][x[2]])] + x[3:]
             for x in case["muts"]]
        return f"XML {key} {m}: {e}"
    if rec:
        rec.step(count[0])
        rec.agree(res)
    return None


# ------------------------------------------------------------------- run

KEYS = ["data", *SUB]


def bounds(tier):
    return {"hostile values": len(POOL), "hostile names": len(NAMES),
            "places": len(list(positions(DOC))),
            "simultaneous JSON changes": 1 if tier == "quick" else 2}


def groups(tier):
    res = []
    for key in KEYS:
        for p in positions(subdoc(key)):
            res.append(["json", key, list(p)])
    model()
    for key in KEYS:
        inst = entry(model(), key, subdoc(key))
        for n in nodes_of(inst):
            res.append(["edit", key, list(n.path)])
        root = ET.fromstring(xml_doc(key))
        for p in xpositions(root):
            res.append(["xml", key, list(p)])
    if tier != "quick":
        ps = [list(p) for p in positions(DOC) if p]
        res += [["pair", p] for p in ps]
    return res


def run_group(group, rec):
    kind = group[0]
    if kind == "json":
        _, key, p = group
        items = ({"kind": "json", "doc": key, "muts": [m]}
                 for m in mutations(subdoc(key), p, POOL))
        fn = json_case
    elif kind == "pair":
        ps = [list(p) for p in positions(DOC) if p]
        i = ps.index(group[1])
        items = ({"kind": "json", "doc": "data",
                  "muts": [["set", q, v], ["set", group[1], w]]}
                 for q in ps[i + 1:] if q[:len(group[1])] != group[1]
                 for v in SMALL[:12] for w in SMALL[:12])
        fn = json_case
    elif kind == "edit":
        _, key, p = group
        node = entry(model(), key, copy.deepcopy(subdoc(key)))
        for x in p:
            node = node[x]
        items = ({"kind": "edit", "doc": key, "path": p, "op": op}
                 for op in edit_ops(node))
        fn = edit_case
    else:
        _, key, p = group
        root = ET.fromstring(xml_doc(key))
        items = ({"kind": "xml", "doc": key, "muts": [m]}
                 for m in xmutations(root, tuple(p), False))
        fn = xml_case
    dm = model()
    for c in items:
        rec.state()
        m = fn(c, rec)
        if m:
            rec.fail(c, m)
    if (dm.schema_digest(), dm.ascii_tree()) != dm._digest or \
            control(dm) != dm._control:
        rec.fail({"kind": "group", "group": group},
                 f"{group}: the data model changed")
    rec.sample(group)


def replay(case):
    if case["kind"] == "group":
        from mc.core import Rec
        rec = Rec()
        run_group(case["group"], rec)
        return rec.fails[0][1] if rec.fails else None
    return {"json": json_case, "edit": edit_case,
            "xml": xml_case}[case["kind"]](case)
