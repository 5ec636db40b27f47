"""C21: exports and lookups describe exactly the schema."""
import itertools
import json

from mc.models import build, libtext
from yangson.enumerations import ContentType
from yangson.exceptions import InvalidSchemaPath

PROPERTY = "C21"
ASSUMPTIONS = ["flags of RPC and action parameters and the order of siblings "
               "in tree diagrams are left open",
               "digest members config and mandatory, and names qualified or "
               "not, are left open inside operations and notifications",
               "data paths into operations are left open"]
OPS = ("rpc", "action", "notification", "input", "output")
DATA = ("container", "list", "leaf", "leaf-list", "anydata", "anyxml")
CLASS = {"container": "ContainerNode", "list": "ListNode",
         "leaf": "LeafNode", "leaf-list": "LeafListNode",
         "anydata": "AnydataNode", "anyxml": "AnyxmlNode",
         "choice": "ChoiceNode", "case": "CaseNode",
         "rpc": "RpcActionNode", "action": "RpcActionNode",
         "notification": "NotificationNode", "input": "InputNode",
         "output": "OutputNode", "root": "SchemaTreeNode"}


def bounds(tier):
    return {"schema nodes": 3 if tier == "quick" else 4,
            "module texts": 2, "path components": 3}


# -------------------------------------------------------------- schemas

class N:
    """Schema node; group: conditional uses or augment."""

    def __init__(self, kind, name=None, kids=(), mod="a", **props):
        self.kind = kind
        self.name = name
        self.kids = list(kids)
        self.mod = mod
        self.props = props
        self.parent = None

    def link(self):
        for k in list(self.kids):
            k.parent = self
            k.link()
        if self.kind in ("rpc", "action"):
            for io in ("input", "output"):
                if not any(k.kind == io for k in self.kids):
                    k = N(io, io, mod=self.mod, implicit=True)
                    k.parent = self
                    self.kids.append(k)
        return self

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()

    @property
    def sparent(self):
        """Parent other than a group."""
        p = self.parent
        while p.kind == "group":
            p = p.parent
        return p

    @property
    def skids(self):
        for k in self.kids:
            if k.kind == "group":
                yield from k.skids
            else:
                yield k

    @property
    def dkids(self):
        """Data nodes one level down."""
        for k in self.skids:
            if k.kind in DATA:
                yield k
            elif k.kind in ("choice", "case"):
                yield from k.dkids

    @property
    def dparent(self):
        p = self.parent
        while p.kind not in ("root", "container", "list") + OPS:
            p = p.parent
        return p

    @property
    def in_op(self):
        """Inside an operation or notification."""
        p = self.parent
        while p:
            if p.kind in OPS:
                return True
            p = p.parent
        return False

    @property
    def iname(self):
        p = self.dparent
        return self.name if p.kind != "root" and p.mod == self.mod else (
            f"{self.mod}:{self.name}")

    def dpath(self):
        p = self.dparent
        return ("" if p.kind == "root" else p.dpath()) + "/" + self.iname

    def route(self):
        if self.kind == "root":
            return []
        return self.sparent.route() + [(self.name, self.mod)]

    def spath(self):
        return canonical(self.route())

    @property
    def config(self):
        n = self
        while n.kind != "root":
            if n.kind in OPS:
                return False
            if "config" in n.props:
                return n.props["config"]
            n = n.parent
        return True

    @property
    def ct(self):
        if not self.config:
            return ContentType.nonconfig
        return (ContentType.config if self.kind in (
            "leaf", "leaf-list", "anydata", "anyxml") else ContentType.all)

    @property
    def mandatory(self):
        if self.kind in ("leaf", "choice", "anydata", "anyxml"):
            return bool(self.props.get("mandatory")) or self.is_key
        if self.kind in ("list", "leaf-list"):
            return self.props.get("min", 0) > 0
        if self.kind == "container" and self.props.get("presence"):
            return False
        if self.kind in ("container", "root"):
            return any(k.mandatory and not k.removable
                       for k in self.skids if k.kind not in OPS)
        return False

    @property
    def removable(self):
        """Own status deprecated or obsolete."""
        return self.status in "xo" and self.status != self.parent.status

    @property
    def is_key(self):
        return self.parent.kind == "list" and self.name in self.parent.props[
            "keys"]

    @property
    def status(self):
        n = self
        while n:
            s = n.props.get("status")
            if s:
                if s == "obsolete" and n.mod in KEEP:
                    return "O"
                return {"deprecated": "x", "obsolete": "o",
                        "current": "+"}[s]
            n = n.parent
        return "+"


KEEP = set()


def canonical(route):
    res, prev = "", None
    for n, m in route:
        res += "/" + (n if m == prev else f"{m}:{n}")
        prev = m
    return res


# type -> (statement, tree, digest, default in YANG, in JSON)
TYPES = {
    "u8": ("type uint8;", "uint8", {"base": "uint8"}, "3", 3),
    "rng": ('type int16 { range "1..3 | 7 | 9..max"; }', "int16",
            {"base": "int16", "range": [[1, 3], [7, 7], [9, 32767]]}, "7",
            7),
    "i64": ('type int64 { range "-5..5"; }', "int64",
            {"base": "int64", "range": [["-5", "-5"], ["-5", "5"]][1:]},
            "-1", "-1"),
    "dec": ('type decimal64 { fraction-digits 2; range "1.5..max"; }',
            "decimal64", {"base": "decimal64", "fraction_digits": 2,
                          "range": [["1.5", "92233720368547758.07"]]},
            "1.50", "1.5"),
    "dec0": ("type decimal64 { fraction-digits 18; }", "decimal64",
             {"base": "decimal64", "fraction_digits": 18}, "1", "1.0"),
    "str": ('type string { length "1 | 3..4"; pattern "[a-z]*"; pattern '
            '"b.*" { modifier invert-match; } pattern ".+"; }', "string",
            {"base": "string", "length": [[1], [3, 4]],
             "patterns": ["[a-z]*", ".+"], "neg_patterns": ["b.*"]},
            "abc", "abc"),
    "bin": ('type binary { length "0..9"; }', "binary",
            {"base": "binary", "length": [[0, 9]]}, "AAEC", "AAEC"),
    "enum": ("type enumeration { enum b; enum a { value 7; } enum c; }",
             "enumeration", {"base": "enumeration", "enums": ["b", "a", "c"]},
             "a", "a"),
    "bits": ("type bits { bit c { position 4; } bit a { position 1; } bit b "
             "{ position 2; } }", "bits",
             {"base": "bits", "bits": [None, "a", "b", None, "c"]}, "b c",
             "b c"),
    "bool": ("type boolean;", "boolean", {"base": "boolean"}, "false",
             False),
    "empty": ("type empty;", "empty", {"base": "empty"}, None, None),
    "id": ("type identityref { base i0; }", "identityref",
           {"base": "identityref", "identities": ["i1", "i2"]}, "i2",
           "a:i2"),
    "id2": ("type identityref { base i0; base j0; }", "identityref",
            {"base": "identityref", "identities": ["i2"]}, "i2", "a:i2"),
    "ref": ('type leafref { path "/a:tgt"; }', "leafref",
            {"base": "leafref", "ref_type": {
                "base": "uint8", "derived": "tgt",
                "range": [[0, 5]]}}, "2", 2),
    "iid": ("type instance-identifier;", "instance-identifier",
            {"base": "instance-identifier"}, "/a:tgt", "/a:tgt"),
    "uni": ("type union { type uint8; type string; }", "union",
            {"base": "union"}, "x", "x"),
    "td": ("type td;", "td(uint8)", {"base": "uint8", "derived": "td"},
           "9", 9),
    "td2": ('type td2 { range "2..4"; }', "td2(uint8)",
            {"base": "uint8", "derived": "td2", "range": [[2, 4]]}, "3", 3),
    "tde": ("type tde { enum e3; }", "tde(enumeration)",
            {"base": "enumeration", "derived": "tde", "enums": ["e3"]},
            "e3", "e3"),
    "tdr": ("type tdr;", "tdr(leafref)",
            {"base": "leafref", "derived": "tdr", "ref_type": {
                "base": "uint8", "derived": "tgt", "range": [[0, 5]]}},
            "1", 1),
}
TDEF = {"td": (5, "utd"), "td2": (3, "utd")}       # default, units
HEAD = """
  identity i0;
  identity j0;
  identity i1 { base i0; }
  identity i2 { base i1; base j0; }
  typedef td { type uint8; default 5; units utd; }
  typedef td2 { type td { range "1..4"; } default 3; }
  typedef tde { type enumeration { enum e1; enum e2; enum e3; } }
  typedef tdr { type leafref { path "/a:tgt"; } }
  typedef tgt { type uint8 { range "0..5"; } }
"""


class Writer:
    def __init__(self, root, types):
        self.aug = {"a": [], "b": []}
        self.gr = {"a": "", "b": ""}
        top = {m: "".join(self.node(k, 1) for k in root.kids if k.mod == m)
               for m in "ab"}
        self.texts = {}
        used = {n.mod for n in root.walk() if n.mod} | {"a"}
        for m in sorted(used):
            t = (f"module {m} {{\n  yang-version 1.1;\n  namespace "
                 f"\"urn:{m}\";\n  prefix {m};\n")
            if m == "b":
                t += "  import a { prefix a; }\n"
            if m == "a" and types:
                t += HEAD + "  leaf tgt { type tgt; }\n"
            t += self.gr[m] + top[m] + "".join(self.aug[m])
            self.texts[m] = t + "}\n"

    def path(self, n):
        return "".join(f"/{m}:{x}" for x, m in n.route())

    def kids(self, n, ind):
        t = ""
        for k in n.kids:
            if k.mod == n.mod:
                t += self.node(k, ind)
            else:
                tgt = n if n.kind != "group" else n.sparent
                self.aug[k.mod].append(
                    f'  augment "{self.path(tgt)}" {{\n'
                    f"{self.node(k, 2)}  }}\n")
        return t

    def node(self, n, ind):
        sp = "  " * ind
        p = n.props
        if p.get("implicit"):
            return ""
        if n.kind == "group":
            body = self.kids(n, 2)
            if p["via"] == "uses":
                g = f"g{n.name}"
                self.gr[n.mod] += f"  grouping {g} {{\n{body}  }}\n"
                return f'{sp}uses {g} {{ when "true()"; }}\n'
            self.aug[n.mod].append(
                f'  augment "{self.path(n.sparent)}" {{\n    when "true()";'
                f"\n{body}  }}\n")
            return ""
        if n.kind == "case" and p.get("short"):
            return self.kids(n, ind)
        t = sp + (f"{n.kind} {n.name}" if n.kind not in ("input", "output")
                  else n.kind) + " {"
        if n.kind in ("leaf", "leaf-list"):
            t += " " + TYPES[p.get("type", "u8")][0]
        if "config" in p:
            t += f" config {str(p['config']).lower()};"
        if "mandatory" in p:
            t += f" mandatory {str(p['mandatory']).lower()};"
        for k, kw in (("status", "status"), ("description", "description"),
                      ("presence", "presence"), ("units", "units"),
                      ("min", "min-elements"), ("max", "max-elements"),
                      ("ordered", "ordered-by")):
            if k in p:
                t += f" {kw} {json.dumps(p[k], ensure_ascii=False)};" if isinstance(
                    p[k], str) else f" {kw} {p[k]};"
        if p.get("keys"):
            t += f' key "{" ".join(p["keys"])}";'
        if p.get("when"):
            t += ' when "true()";'
        if p.get("must"):
            t += ' must "true()";'
        if p.get("default"):
            if n.kind == "choice":
                t += f" default {p['default']};"
            else:
                d = TYPES[p.get("type", "u8")][3]
                if n.kind == "leaf-list" and p.get("ordered") == "user":
                    t += f' default "{d}";'
                t += f' default "{d}";'
        return t + "\n" + self.kids(n, ind + 1) + sp + "}\n"


def model(root, types=False, keep=()):
    """Data model of a linked schema."""
    w = Writer(root, types)
    lib = libtext([{"name": m} for m in w.texts])
    if keep:
        lib = json.loads(lib)
        for m in lib["ietf-yang-library:modules-state"]["module"]:
            if m["name"] in keep:
                m["yangson-yl:keep-obsolete"] = True
        lib = json.dumps(lib)
    return build(w.texts, lib), w.texts


# ------------------------------------------------------------- exports

def want_tree(n, types):
    """Set-like nested list of the lines below n."""
    res = []
    for k in n.skids:
        p = k.sparent
        name = k.name if p.kind != "root" and p.mod == k.mod else (
            f"{k.mod}:{k.name}")
        fl = "ro" if not k.config else "rw"
        deco, tail = "", ""
        if k.kind in ("leaf", "anydata", "anyxml"):
            deco = "" if k.mandatory else "?"
        if k.kind in ("leaf", "leaf-list") and types:
            tail = f" <{TYPES[k.props.get('type', 'u8')][1]}>"
        if k.kind in ("list", "leaf-list"):
            deco = "#" if k.props.get("ordered") == "user" else "*"
            if k.props.get("keys"):
                tail = f" [{' '.join(k.props['keys'])}]"
        if k.kind == "container" and k.props.get("presence"):
            deco = "!"
        if k.kind == "choice":
            name, deco = f"({name})", "" if k.props.get("mandatory") else "?"
        if k.kind in ("rpc", "action"):
            fl = "-x"
        if k.kind == "notification":
            fl = "-n"
        if k.kind == "case":
            line = f"{k.status}--:({name})"
        else:
            line = f"{k.status}--{fl} {name}{deco}{tail}"
        res.append((line, want_tree(k, types)))
    return sorted(res)


def draw(nodes, indent=""):
    """Text of a parsed tree, in the given order."""
    res = ""
    for i, (line, kids) in enumerate(nodes):
        res += indent + line + "\n"
        res += draw(kids, indent + ("|  " if i + 1 < len(nodes) else "   "))
    return res


def parse_tree(text):
    """Nested list of lines, in the order of the text."""
    root = []
    stack = [(-1, root)]
    for line in text.splitlines():
        pos = len(line) - len(line.lstrip("| "))
        node = (line[pos:], [])
        while stack[-1][0] >= pos:
            stack.pop()
        stack[-1][1].append(node)
        stack.append((pos, node[1]))
    return root


def input_flags(nodes, inside=False):
    """Sorted tree; flags -w of input parameters replaced by ro."""
    res = []
    for line, kids in nodes:
        fl = line[3:5]
        inp = inside or line.split(" ")[-1].split(":")[-1] == "input"
        if inp and fl == "-w":
            line = line[:3] + "ro" + line[5:]
        res.append((line, input_flags(kids, inp)))
    return sorted(res)


def check_tree(rt, dm):
    for types in (True, False):
        txt = dm.ascii_tree(not types)
        got = parse_tree(txt)
        if draw(got) != txt:
            return f"malformed tree {txt!r}"
        a, b = input_flags(got), want_tree(rt, types)
        if a != b:
            return f"tree {a}, expected {b}"
    cnt = dm.ascii_tree(True, True)
    if cnt.replace(" {0}", "") != txt:
        return f"tree with counts {cnt!r}"
    n = sum(1 for k in rt.walk() if k.kind in DATA or k.kind in OPS)
    if cnt.count(" {0}") != n:
        return f"counts of {cnt.count(' {0}')} instead of {n} nodes"
    return None


def want_default(n):
    """Default in JSON, or None."""
    p = n.props
    t = p.get("type", "u8")
    if n.mandatory:
        return None
    if p.get("default"):
        d = TYPES[t][4]
        if n.kind == "leaf-list":
            return [d, d] if p.get("ordered") == "user" else [d]
        return d
    if t in TDEF:
        return TDEF[t][0] if n.kind == "leaf" else [TDEF[t][0]]
    return None


def check_digest(n, d, where=""):
    """Compare digest d with node n."""
    def bad(what, got, want):
        return f"digest of {where or '/'}: {what} {got!r}, expected {want!r}"
    d = dict(d)
    kind = d.pop("kind", None)
    if n.kind == "root":
        if kind != "schematree":
            return bad("kind", kind, "schematree")
        if d.pop("config", None) is not True:
            return bad("config", False, True)
    elif n.kind not in OPS and kind != n.kind:
        return bad("kind", kind, n.kind)
    want = {}
    op = n.kind in OPS or n.in_op
    if op:
        d.pop("config", None)
    elif n.kind != "root" and not n.config and n.dparent.config:
        want["config"] = False
    elif not n.config and d.get("config") is False:
        del d["config"]         # may be repeated
    if n.kind in OPS:
        d.pop("mandatory", None)
    elif n.mandatory:
        want["mandatory"] = True
    if n.props.get("description"):
        want["description"] = n.props["description"]
    elif n.kind == "root":
        d.pop("description", None)
    if n.kind == "container":
        want["presence"] = bool(n.props.get("presence"))
    if n.kind == "list":
        want["keys"] = n.props.get("keys", [])
    if n.kind in ("leaf", "leaf-list"):
        t = n.props.get("type", "u8")
        wt = dict(TYPES[t][2])
        gt = d.pop("type", None)
        if not isinstance(gt, dict):
            return bad("type", gt, wt)
        gt = dict(gt)
        if not n.config:
            for k in ("enums", "identities"):
                wt.pop(k, None)
                gt.pop(k, None)
        if "identities" in gt:
            gt["identities"] = sorted(
                x if isinstance(x, str) else x[0] for x in gt["identities"])
        if "length" in gt:
            gt["length"] = [sorted(set(x)) for x in gt["length"]]
        if gt != wt:
            return bad("type", gt, wt)
        dv = want_default(n)
        if dv is not None:
            want["default"] = dv
        u = n.props.get("units", TDEF.get(t, (0, None))[1])
        if u:
            want["units"] = u
    ch = d.pop("children", None)
    if d != want or repr(sorted(d.items())) != repr(sorted(want.items())):
        return bad("members", d, want)
    internal = n.kind in ("root", "container", "list") + OPS
    if (ch is not None) != internal:
        return bad("children", ch, internal)
    if not internal:
        return None
    kids = {}
    for k in list(n.dkids) + [k for k in n.skids if k.kind in OPS]:
        kids[(k.name, k.mod)] = k
    seen = {}
    for key, v in ch.items():
        p, s, loc = key.partition(":")
        q = (loc, p) if s else (p, n.mod)
        if q in seen:
            return bad("children", list(ch), list(kids))
        seen[q] = (key, v)
    if set(seen) != set(kids):
        return bad("children", list(ch), list(kids))
    for q, (key, v) in seen.items():
        k = kids[q]
        if not op and k.kind not in OPS and key != k.iname:
            return bad("child name", key, k.iname)
        msg = check_digest(k, v, f"{where}/{key}")
        if msg:
            return msg
    return None


# -------------------------------------------------------------- lookups

def ref_schema(rt, path):
    """Node, None, or "invalid"."""
    if path in ("", "/"):
        return rt
    prev = None
    route = []
    comps = path.split("/")
    for c in comps[1:] if path[0] == "/" else comps:
        p, s, loc = c.partition(":")
        if s:
            if p == prev:
                return "invalid"
            prev = p
            route.append((loc, p))
        elif prev is None:
            return "invalid"
        else:
            route.append((p, prev))
    n = rt
    for r in route:
        n = next((k for k in n.skids if (k.name, k.mod) == r), None)
        if n is None:
            return None
    return n


def ref_data(rt, path):
    r = ref_schema(rt, path)
    if r == "invalid" or r is rt:
        return r
    prev = None
    n = rt
    comps = path.split("/")
    for c in comps[1:] if path[0] == "/" else comps:
        p, s, loc = c.partition(":")
        prev = p if s else prev
        q = (loc if s else p, prev)
        n = next((k for k in n.dkids if (k.name, k.mod) == q), None)
        if n is None:
            return None
    return n


def call(f, *args):
    try:
        return f(*args)
    except InvalidSchemaPath:
        return "invalid"
    except Exception as e:
        return repr(e)


def check_lookup(rt, dm, nodes, path, rec):
    """nodes: schema node -> reference node."""
    got = call(dm.get_schema_node, path)
    want = ref_schema(rt, path)
    if nodes.get(got, got) is not want and not (
            got == want == "invalid"):
        return (f"get_schema_node({path!r}): "
                f"{show(nodes.get(got, got))}, expected {show(want)}")
    got = call(dm.get_data_node, path)
    want = ref_data(rt, path)
    if want is rt and (got is None or got is dm.schema):
        pass
    elif nodes.get(got, got) is not want and not (got == want == "invalid"):
        return (f"get_data_node({path!r}): "
                f"{show(nodes.get(got, got))}, expected {show(want)}")
    if rec:
        rec.step(2)
        rec.agree("found" if isinstance(want, N) else str(want))
    return None


def show(n):
    return f"{n.kind} {n.spath()}" if isinstance(n, N) else repr(n)


def match(rt, dm):
    """Map the real schema nodes to the reference ones, or a message."""
    nodes = {dm.schema: rt}
    todo = [(dm.schema, rt)]
    while todo:
        sn, n = todo.pop()
        for k in n.skids:
            c = sn.get_child(k.name, k.mod)
            if c is None:
                return f"{k.spath()} is missing", None
            if (c.qual_name != (k.name, k.mod)
                    or type(c).__name__ != CLASS[k.kind]):
                return f"{k.spath()}: found {type(c).__name__} " \
                       f"{c.qual_name}", None
            if c in nodes:
                return f"{k.spath()} is {nodes[c].spath()}", None
            nodes[c] = k
            if k.kids or k.kind in ("rpc", "action"):
                todo.append((c, k))
    return None, nodes


def check_nodes(rt, dm, nodes, rec):
    for sn, n in nodes.items():
        where = n.spath() or "/"
        if rec:
            rec.step(1)
        if n.kind in OPS or (n.kind != "root" and n.in_op):
            continue
        if n.kind != "root":
            for attr, want in (("config", n.config),
                               ("mandatory", n.mandatory)):
                if getattr(sn, attr) != want and n.kind != "case":
                    return f"{where}: {attr} {getattr(sn, attr)}"
            if sn.content_type() != n.ct:
                return f"{where}: content type {sn.content_type()}"
        if n.kind in DATA:
            if sn.iname() != n.iname:
                return f"{where}: instance name {sn.iname()}"
            if sn.data_path() != n.dpath():
                return f"{where}: data path {sn.data_path()}"
            dp = sn.data_parent()
            want = n.dparent
            if (nodes.get(dp) if dp else rt) is not want:
                return f"{where}: data parent {dp}"
        roots = state_roots(n)
        if n.kind in DATA + ("root",) and sorted(
                sn.state_roots()) != sorted(roots):
            return f"{where}: state roots {sn.state_roots()}, " \
                   f"expected {roots}"
        if n.kind in ("root", "container", "list", "choice", "case"):
            got = [nodes.get(c) for c in sn.data_children()]
            if (sorted(map(id, got)) != sorted(map(id, n.dkids))):
                return f"{where}: data children {list(map(show, got))}"
            for name in {k.name for k in n.walk() if k.name}:
                for m in "ab":
                    d = sn.get_data_child(name, m)
                    want = next((k for k in n.dkids
                                 if (k.name, k.mod) == (name, m)), None)
                    if nodes.get(d, d) is not want:
                        return f"{where}: data child {name} in {m}: {d}"
            for ct in (None, ContentType.config, ContentType.nonconfig,
                       ContentType.all):
                c = ct or n.ct
                got = {nodes[x] for x in sn.filter_children(ct)
                       if x.name is not None}
                want = {k for k in n.kids if k.kind not in OPS + ("group",)
                        and k.ct.value & c.value}
                if got != want:
                    return f"{where}: children with content {ct}: " \
                           f"{list(map(show, got))}"
    return None


def state_roots(n):
    if n.kind != "root" and not n.config:
        return [n.dpath()] if n.kind in DATA else []
    res = []
    for k in n.dkids:
        res += state_roots(k)
    return res


def paths(rt, full):
    """Schema paths to look up."""
    names = sorted({n.name for n in rt.walk() if n.name})[:4] + ["q"]
    comps = [f"{p}{n}" for p in ("", "a:", "b:", "c:") for n in names]
    yield from ("", "/", "//", "a:", "/a:", ":", "/:x")
    depth = full
    for r in range(1, depth + 1):
        for c in itertools.product(comps, repeat=r):
            yield "/" + "/".join(c)
    seen = set()
    for n in rt.walk():
        if n.kind in ("root", "group"):
            continue
        bases = [n.spath()]
        if n.kind in DATA and not n.in_op:
            bases.append(n.dpath())
        for base in bases:
            cs = base.split("/")[1:]
            var = [cs, cs + ["q"], cs + [cs[-1]], cs + [""]]
            for i, c in enumerate(cs):
                p, s, loc = c.rpartition(":")
                loc = loc if s else c
                var += [cs[:i] + [x] + cs[i + 1:] for x in (
                    loc, f"a:{loc}", f"b:{loc}", f"c:{loc}", p + s + "q")]
                var.append(cs[:i] + cs[i + 1:])
                var.append(cs[:i] + [c] + cs[i:])
            for v in var:
                for s in ("/" + "/".join(v), "/".join(v), "/".join(v) + "/"):
                    if s not in seen:
                        seen.add(s)
                        yield s


def examine(rt, full=0, types=False, keep=(), rec=None):
    """Message or None."""
    KEEP.clear()
    KEEP.update(keep)
    rt.link()
    dm, texts = model(rt, types, keep)
    if types:
        t = N("leaf", "tgt", type="tgt")
        rt.kids.append(t)
        t.parent = rt
        TYPES["tgt"] = ("", "tgt(uint8)", {"base": "uint8", "derived": "tgt",
                                           "range": [[0, 5]]}, None, None)
    msg, nodes = match(rt, dm)
    msg = msg or check_tree(rt, dm)
    msg = msg or check_digest(rt, json.loads(dm.schema_digest()))
    msg = msg or check_nodes(rt, dm, nodes, rec)
    if not msg:
        for p in paths(rt, full):
            msg = check_lookup(rt, dm, nodes, p, rec)
            if msg:
                break
    return msg and f"{msg}\n{''.join(texts.values())}"


# ---------------------------------------------------------- enumeration

def child_kinds(kind, inop, keyless):
    data = ["container", "list", "leaf", "leaf-list", "choice", "anydata"]
    if kind == "root":
        return data + ["rpc", "notification", "group"]
    if kind in ("container", "list"):
        return data + ["group"] + (
            [] if inop or keyless else ["action", "notification"])
    if kind == "choice":
        return ["case", "s-container", "s-leaf", "s-choice", "s-list",
                "group"]
    if kind in ("rpc", "action"):
        return ["input", "output"]
    if kind in ("case", "input", "output", "notification"):
        return data
    return []


def forests(kind, size, inop, keyless=False, via=None):
    """Sequences of child specs of a total size; spec = (kind, kids)."""
    if size == 0:
        yield ()
        return
    for first in range(1, size + 1):
        for t in trees(kind, first, inop, keyless, via):
            for rest in forests(kind, size - first, inop, keyless, via):
                if rest and rest[0] < t:
                    continue
                if t[0] in ("input", "output") and t[0] in [
                        r[0] for r in rest]:
                    continue
                yield (t,) + rest


def trees(kind, size, inop, keyless, via=None):
    kinds = child_kinds(kind, inop, keyless)
    if via:
        kinds = [k for k in kinds if k != "group"]
    for k in kinds:
        op = inop or k in OPS
        if k == "group":
            if size < 2 or kind == "root":
                continue
            for v in ("uses", "augment"):
                if v == "uses" and kind == "choice":
                    continue
                for f in forests(kind, size - 1, inop, keyless, v):
                    yield (f"group-{v}", f)
            continue
        sub = k[2:] if k.startswith("s-") else k
        if sub in ("leaf", "leaf-list", "anydata"):
            if size == 1:
                yield (k, ())
            continue
        kl = False
        for f in forests(sub, size - 1, op, kl):
            if k == "choice" and not f:
                continue
            yield (k, f)


def instantiate(spec, mods, names, counter, pmod="a", parent="root"):
    """N nodes of a spec; iterators give modules and names."""
    kind, kids = spec
    if kind.startswith("group"):
        m = next(mods)
        return N("group", str(next(counter)),
                 [instantiate(k, mods, names, counter, m) for k in kids],
                 mod=m, via=kind[6:])
    if kind in ("input", "output"):
        return N(kind, kind,
                 [instantiate(k, mods, names, counter, pmod) for k in kids],
                 mod=pmod)
    m, name = next(mods), next(names)
    sub = kind[2:] if kind.startswith("s-") else kind
    props = {}
    sons = [instantiate(k, mods, names, counter, m) for k in kids]
    if sub == "list":
        i = next(counter)
        props["keys"] = [f"k{i}"]
        sons.insert(0, N("leaf", f"k{i}", mod=m))
    n = N(sub, name, sons, mod=m, **props)
    if kind.startswith("s-"):
        return N("case", name, [n], mod=m, short=True)
    return n


def slots(spec):
    """Module and name choices needed: list of "mn", "m" or ""."""
    kind, kids = spec
    own = ["m"] if kind.startswith("group") else (
        [] if kind in ("input", "output") else ["mn"])
    return own + [s for k in kids for s in slots(k)]


def valid(rt):
    """Names unique where YANG requires so, modules consistent."""
    for n in rt.walk():
        ks = [(k.name, k.mod) for k in n.skids]
        if len(set(ks)) < len(ks):
            return False
        if n.kind not in ("choice", "case"):
            ds = [(k.name, k.mod) for k in n.dkids]
            ds += [(k.name, k.mod) for k in n.skids if k.kind in OPS]
            if len(set(ds)) < len(ds):
                return False
        p = n.parent
        # module a doesn't know module b
        if p and p.mod == "b" and n.mod == "a":
            return False
        if n.kind == "group":
            if n.props["via"] == "uses" and n.mod != p.mod:
                return False
            if any(k.mod != n.mod for k in n.kids):
                return False
        # kids of a uses are written in the grouping; augments of nodes
        # in the same module are written in place
        if n.kind == "root" and not any(k.mod == "a" for k in n.walk()
                                        if k is not n):
            return False
        if n.kind in ("input", "output") and p.mod != n.mod:
            return False
    return True


def schemas(size, part, parts):
    """All schemas of a size (every parts-th spec)."""
    for i, f in enumerate(forests("root", size, False)):
        if i % parts != part:
            continue
        sl = [s for t in f for s in slots(t)]
        nm = sum("n" in s for s in sl)
        for mods in itertools.product("ab", repeat=len(sl)):
            if mods and mods[0] == "b" and "a" not in mods:
                continue
            for names in itertools.product("xy", repeat=nm):
                # x is used first
                if nm and names[0] == "y":
                    continue
                im, inm = iter(mods), iter(names)
                cnt = itertools.count(1)
                rt = N("root", None, [instantiate(t, im, inm, cnt)
                                      for t in f])
                rt.mod = None
                yield rt, [f, mods, names]


LEAFPROPS = [{}, {"mandatory": True}, {"default": True}, {"units": "u"},
             {"description": "d \" é"}, {"status": "deprecated"},
             {"status": "obsolete"}, {"when": True, "must": True},
             {"mandatory": False, "units": "ü"},
             {"default": True, "description": "x", "units": "v"}]
PROPS = {
    "leaf": LEAFPROPS,
    "leaf-list": [{}, {"min": 1}, {"max": 2}, {"ordered": "user"},
                  {"ordered": "system"}, {"default": True},
                  {"default": True, "ordered": "user", "config": False},
                  {"min": 2, "max": 3, "ordered": "user"}, {"units": "u"},
                  {"status": "obsolete"}, {"description": "d"}],
    "list": [{"keys": ["k"]}, {"keys": ["l", "k"]},
             {"keys": ["k"], "min": 1}, {"keys": ["k"], "max": 2},
             {"keys": ["k"], "ordered": "user", "description": "d"},
             {"keys": ["k"], "status": "deprecated"},
             {"keys": [], "config": False},
             {"keys": [], "config": False, "min": 1}],
    "container": [{}, {"presence": "p"}, {"description": "d"},
                  {"status": "deprecated"}, {"status": "obsolete"},
                  {"presence": "p", "description": "e"}, {"when": True}],
    "choice": [{}, {"mandatory": True}, {"status": "deprecated"},
               {"default": "y"}, {"description": "d"}],
    "case": [{}, {"status": "deprecated"}, {"short": True}],
    "anydata": [{}, {"mandatory": True}, {"description": "d"},
                {"status": "obsolete"}],
    "anyxml": [{}, {"mandatory": True}, {"status": "deprecated"}],
}
CONFIGS = [None, True, False]


def property_cases(size):
    """Chains of property-carrying nodes: outer, inner."""
    inner = [("leaf", p, {}) for p in PROPS["leaf"]]
    inner += [(k, p, {}) for k in ("leaf-list", "anydata", "anyxml")
              for p in PROPS[k]]
    inner += [(k, p, {}) for k in ("container", "list", "choice")
              for p in PROPS[k]]
    outer = [(k, p, {}) for k in ("container", "list", "choice")
             for p in PROPS[k]]
    outer += [(k, {}, {}) for k in ("rpc", "notification", "action")]
    for o in outer:
        for oc in CONFIGS:
            for i in inner:
                for ic in CONFIGS:
                    yield [o[0], o[1], oc], [i[0], i[1], ic]


def property_schema(o, i, keep):
    (ok, op, oc), (ik, ip, ic) = o, i
    if ok in OPS and (oc is not None or ic is not None):
        return None
    if oc is False and ic is True:
        return None
    state = oc is False or op.get("config") is False
    if state and ic is True:
        return None
    inop = ok in OPS

    def mk(kind, name, p, c, kids):
        p = dict(p)
        if c is not None:
            if "config" in p and p["config"] != c:
                return None
            p["config"] = c
        if p.get("config") and state:
            return None
        if kind == "list" and not p["keys"] and p.get("config") is not False:
            return None
        if inop:
            p.pop("config", None)
        if kind == "list":
            kids = [N("leaf", k) for k in sorted(p["keys"])] + kids
        if kind == "leaf-list" and p.get("default") and p.get("min"):
            return None
        if p.get("ordered") and not p.get("default") and (state or p.get("config") is False or inop):
            p.pop("ordered")
        if p.get("default") and p.get("ordered") and not (
                state or p.get("config") is False or inop):
            # duplicate values only in state data
            return None
        return N(kind, name, kids, **p)
    sons = []
    if ik in ("container", "list"):
        sons = [N("leaf", "z", mandatory=True)]
    if ik == "choice":
        sons = [N("case", "y", [N("leaf", "y")], short=True),
                N("case", "z", [N("leaf", "z")])]
    n = mk(ik, "x", ip, ic, sons)
    if n is None:
        return None
    if ok == "choice":
        kids = [N("case", "x", [n], short=True) if ik != "choice" else
                N("case", "x", [n]), N("case", "y", [N("leaf", "y1")])]
    else:
        kids = [n]
    if ok == "action":
        act = N("action", "o", [N("input", "input", kids)])
        rt = N("root", None, [N("container", "c", [act])])
    elif ok == "rpc":
        rt = N("root", None, [N("rpc", "o", [N("output", "output", kids)])])
    elif ok == "notification":
        rt = N("root", None, [N("notification", "o", kids)])
    else:
        o = mk(ok, "o", op, oc, kids)
        if o is None:
            return None
        rt = N("root", None, [o])
    rt.mod = None
    return rt


def type_schema(t, kind, place, props, cfg):
    p = dict(props, type=t)
    if p.get("default") and TYPES[t][3] is None:
        return None
    if cfg is not None:
        p["config"] = cfg
    n = N(kind, "x", **p)
    if place == "root":
        kids = [n]
    elif place == "list":
        kids = [N("list", "l", [N("leaf", "k", type=t), n], keys=["k"])]
        if t == "empty":
            return None
    elif place == "case":
        kids = [N("choice", "c", [N("case", "d", [n])])]
    else:
        if cfg is not None:
            return None
        kids = [N("rpc", "r", [N("input", "input", [n])])]
    rt = N("root", None, kids)
    rt.mod = None
    return rt


def groups(tier):
    size = 3 if tier == "quick" else 4
    res = []
    for s in range(1, size + 1):
        parts = {1: 1, 2: 8, 3: 96, 4: 768}[s]
        res += [{"kind": "shape", "size": s, "part": i, "parts": parts}
                for i in range(parts)]
    res += [{"kind": "props", "part": i, "parts": 48} for i in range(48)]
    res += [{"kind": "types", "type": t} for t in sorted(TYPES)
            if t != "tgt"]
    res += [{"kind": "counts", "first": i} for i in range(len(CDOCS) + 1)]
    return res


def full_depth(size):
    return {1: 3, 2: 2}.get(size, 1)


# ------------------------------------------------------------- counters

CMODS = {
    "a": """module a { yang-version 1.1; namespace "urn:a"; prefix a;
  container c { presence p; leaf x { type uint8; } leaf-list ll { type string; }
    list l { key k; leaf k { type string; }
      container i { presence p; leaf y { type uint8; } }
      list n { config false; leaf y { type uint8; } } }
    choice ch { case p { leaf p { type empty; } }
      container q { presence p; leaf r { type string; } } }
    anydata ad; }
  leaf t { type string; }
  rpc op { input { leaf x { type uint8; } } }
  notification nt { leaf x { type uint8; } } }""",
    "b": """module b { yang-version 1.1; namespace "urn:b"; prefix b;
  import a { prefix a; }
  augment "/a:c" { leaf t { type string; } leaf x { type uint8; } }
  augment "/a:c/a:l" { leaf k { type string; } }
  leaf t { type string; } }""",
}
CDOCS = [
    {}, {"a:t": "1"}, {"a:c": {}}, {"b:t": "1", "a:t": "1"},
    {"a:c": {"x": 1, "ll": ["a", "b", "a b"], "p": [None]}},
    {"a:c": {"q": {}, "b:x": 1}},
    {"a:c": {"q": {"r": "1"}, "b:t": "1", "ad": {"z:q": [1, {"x": 2}]}}},
    {"a:c": {"l": [{"k": "1"}, {"k": "2", "i": {}}, {"k": "3", "i": {"y": 1},
                                                     "b:k": "7"}]}},
    {"a:c": {"l": [{"k": "1", "n": [{"y": 1}, {"y": 1}, {}]},
                   {"k": "2", "n": [{}]}], "x": 1}},
    {"a:c": {"ll": [], "l": [], "x": 3}, "a:t": ""},
]


def counts_of(doc, ns=None, path="", res=None):
    """Data path -> number of instances (entries of lists)."""
    res = {} if res is None else res
    for k, v in doc.items():
        p = path + "/" + k
        for e in v if isinstance(v, list) and v != [None] else [v]:
            res[p] = res.get(p, 0) + 1
            if isinstance(e, dict) and k != "ad":
                counts_of(e, None, p, res)
    return res


def counts_case(hist):
    """Validate documents in turn; None clears the counters."""
    dm = build(CMODS)
    paths = {c.data_path(): c for c in all_data(dm.schema)}
    want = dict.fromkeys(paths, 0)
    for h in hist:
        if h is None:
            dm.clear_val_counters()
            want = dict.fromkeys(paths, 0)
        else:
            dm.from_raw(json.loads(json.dumps(CDOCS[h]))).validate(
                ctype=ContentType.all)
            for k, v in counts_of(CDOCS[h]).items():
                want[k] += v
        got = {k: c.val_count for k, c in paths.items()}
        if got != want:
            return f"after {hist}: counts {got}, expected {want}"
        txt = dm.ascii_tree(True, True)
        drawn = sorted(int(x.split("}")[0]) for x in txt.split("{")[1:])
        extra = [0] * (len(drawn) - len(want))
        if drawn != sorted(list(want.values()) + extra):
            return f"after {hist}: drawn as {txt}"
    return None


def all_data(sn):
    for c in sn.data_children():
        yield c
        if hasattr(c, "data_children"):
            yield from all_data(c)


def run_counts(first, rec):
    opts = list(range(len(CDOCS))) + [None]
    for a, b in itertools.product(opts, repeat=2):
        hist = [opts[first], a, b]
        rec.state()
        rec.step(3)
        msg = counts_case(hist)
        rec.agree("counts")
        if msg:
            rec.fail({"kind": "counts", "hist": hist}, msg)


def run_group(g, rec):
    if g["kind"] == "counts":
        return run_counts(g["first"], rec)
    if g["kind"] == "shape":
        for rt, key in schemas(g["size"], g["part"], g["parts"]):
            rt.link()
            if not valid(rt):
                continue
            case = {"kind": "shape", "spec": key}
            one(case, rec)
    elif g["kind"] == "props":
        for j, (o, i) in enumerate(property_cases(2)):
            if j % g["parts"] != g["part"]:
                continue
            obs = "obsolete" in (o[1].get("status"), i[1].get("status"))
            for keep in ([], ["a"]) if obs else ([],):
                case = {"kind": "props", "o": o, "i": i, "keep": keep}
                one(case, rec)
    else:
        for kind in ("leaf", "leaf-list"):
            for place in ("root", "list", "case", "rpc"):
                for pr in PROPS[kind]:
                    for cfg in CONFIGS:
                        one({"kind": "types", "type": g["type"],
                             "node": kind, "place": place, "props": pr,
                             "cfg": cfg}, rec)


def schema_of(case):
    """(root, kwargs) or None."""
    if case["kind"] == "shape":
        f, mods, names = case["spec"]
        im, inm = iter(mods), iter(names)
        cnt = itertools.count(1)
        rt = N("root", None, [instantiate(t, im, inm, cnt) for t in f])
        rt.mod = None
        n = len(list(itertools.chain.from_iterable(map(slots, f))))
        return rt, {"full": full_depth(n)}
    if case["kind"] == "props":
        rt = property_schema(case["o"], case["i"], case["keep"])
        return rt and (rt, {"keep": case["keep"]})
    pr = case["props"]
    if case["node"] == "leaf-list" and pr.get("ordered") == "user" and (
            pr.get("default") and case["cfg"] is not False):
        return None
    if pr.get("config") is False and case["cfg"]:
        return None
    rt = type_schema(case["type"], case["node"], case["place"], pr,
                     case["cfg"])
    return rt and (rt, {"types": True})


def one(case, rec):
    s = schema_of(case)
    if s is None:
        return
    rec.state()
    msg = examine(s[0], rec=rec, **s[1])
    if msg:
        rec.fail(case, msg)


def replay(case):
    if case["kind"] == "counts":
        return counts_case(case["hist"])
    s = schema_of(case)
    return s and examine(s[0], **s[1])
