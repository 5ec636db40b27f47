"""C15: a modular schema behaves like its hand-expanded equivalent."""
import itertools
import json

from mc.models import build, libtext
from mc.ref.expand import Expander, Invalid
from yangson.enumerations import ContentType, ValidationScope
from yangson.exceptions import (InvalidArgument, InvalidLeafrefPath,
                                RawDataError, ValidationError)
from yangson.schemanode import SchemaTreeNode

PROPERTY = "C15"
HOME = "a"

INTS = [0, 1, 3, 7, 10, 20, -1]
POOL = {"string": ["", "x", "xy", "abcd", "abcdefgh", "1"],
        "enumeration": ["e1", "e2", "e3"],
        "bits": ["", "b1", "b2", "b1 b2"],
        "boolean": [True, False], "empty": [[None]],
        "decimal64": ["1.5", "2.0", "100.0"],
        "identityref": [f"{m}:{i}" for m in "abcgh"
                        for i in ("id", "id1", "id2")],
        "leafref": [1, 3, "x", "xy", "b:id1", "e1", True],
        "union": [1, 7, -1, 20, "x", "abcd", "e1", "b1", "b:id1", "g:id1",
                  True],
        "instance-identifier": []}


def bounds(tier):
    return {"document": f"at most {2 if tier == 'quick' else 3} leaves "
            "present, and all present",
            "models": "bodies x definition places x use places; operations on "
            "a grouping, alone and in pairs; chains of 3 augments"}


# ------------------------------------------------------------- renaming

def ren_name(iname, ns):
    """(plain name, namespace) of an instance name under namespace ns."""
    p, s, loc = iname.partition(":")
    m = p if s else ns
    loc = loc if s else p
    return (loc if m == HOME or loc in ("input", "output")
            else f"{m}-{loc}"), m


def ren_path(path):
    """JSON pointer or data path, modular to plain."""
    ns = None
    res = ""
    for c in path.split("/")[1:]:
        if c == "" or c.isdigit():
            res += "/" + c
            continue
        n, m = ren_name(c, ns)
        res += "/" + (n if ns and n not in ("input", "output")
                      else f"{HOME}:{n}")
        ns = m
    return res


def ren_obj(o, ns=None):
    """Document, modular to plain."""
    if isinstance(o, dict):
        res = {}
        for k, v in o.items():
            n, m = ren_name(k, ns)
            res[n if ns else f"{HOME}:{n}"] = ren_obj(v, m)
        return res
    if isinstance(o, list):
        return [ren_obj(x, ns) for x in o]
    return o


def ren_digest(d, ns=None):
    res = dict(d)
    if "type" in res:
        res["type"] = clean_type(res["type"])
    if "keys" in res:
        res["keys"] = [ren_name(k, ns)[0] for k in res["keys"]]
    if "children" in res:
        ch = {}
        for k, v in res["children"].items():
            n, m = ren_name(k, ns)
            ch[n] = ren_digest(v, m)
        res["children"] = ch
    return res


def plain_digest(d):
    """The same for the plain module: names without its name."""
    res = dict(d)
    if "type" in res:
        res["type"] = clean_type(res["type"])
    if "children" in res:
        res["children"] = {k.partition(":")[2] if ":" in k else k:
                           plain_digest(v)
                           for k, v in res["children"].items()}
    return res


def clean_type(t):
    t = {k: v for k, v in t.items() if k != "derived"}
    if "ref_type" in t:
        t["ref_type"] = clean_type(t["ref_type"])
    return t


def tree(text, modular):
    """Nested multiset from an ASCII tree."""
    root = []
    stack = [(-1, HOME, root)]
    for line in text.splitlines():
        if not line:
            continue
        pos = line.index("+--") if "+--" in line else line.index("--") - 1
        rest = line[pos:]
        while stack[-1][0] >= pos:
            stack.pop()
        ns = stack[-1][1] if len(stack) > 1 else None
        flags, _, rest = rest.partition(" ")
        # a case has the name attached to its flags
        head, sp, tail = rest.partition(" ")
        if flags.endswith(")"):
            flags, _, nm = flags.partition(":(")
            head, sp, tail = nm[:-1], "", ""
            flags += ":"
        core = head.strip("()?!*#")
        deco = head.replace(core, "@", 1)
        p, s, loc = core.partition(":")
        m = p if s else ns
        loc = loc if s else p
        name = loc if m == HOME or not modular or loc in (
            "input", "output") else f"{m}-{loc}"
        if tail.startswith("["):
            keys, b, tail = tail[1:].partition("]")
            keys = [k if m == HOME or not modular else f"{m}-{k}"
                    for k in keys.split()]
            deco += f"[{' '.join(keys)}]"
        node = [f"{flags} {deco} {name} {ttype(tail.strip())}"]
        stack[-1][2].append(node)
        stack.append((pos, m, node))
    return norm(root)


def ttype(t):
    """<name(base)> -> <base>"""
    t = t.strip("<>")
    if "(" in t and t.endswith(")"):
        t = t[t.index("(") + 1:-1]
        return ttype(t)
    return t


def norm(node):
    head = [x for x in node if isinstance(x, str)]
    kids = sorted((norm(x) for x in node if not isinstance(x, str)),
                  key=json.dumps)
    return head + kids


# ------------------------------------------------------------ documents

def pool(n):
    if n.kind in ("anydata", "anyxml"):
        return [5]
    b = n.base
    if b.startswith(("int", "uint")):
        v = INTS if not b.endswith("64") else [str(x) for x in INTS]
    else:
        v = POOL[b]
    if n.kind == "leaf-list":
        return [[x] for x in v] + [[v[0], v[-1]], [v[1 % len(v)]] * 2,
                                   v[:4]] if v else []
    return list(v)


def chain(n):
    res = []
    while n.data:
        res.append(n)
        n = n.dparent
    return res[::-1]


def put(doc, n, val):
    """Set a value in a document (nested dict keyed by nodes)."""
    cur = doc
    ch = chain(n)
    for c in ch[:-1]:
        cur = cur.setdefault(c, {})
    if val is None:
        cur.setdefault(n, {})
    else:
        cur[n] = val


def render(doc, keys, modular, ns=None):
    """Raw document for the modular or the plain data model."""
    res = {}
    for n, v in doc.items():
        if modular:
            name = n.name if n.ns == ns else f"{n.ns}:{n.name}"
        else:
            name = n.name if n.ns == HOME else f"{n.ns}-{n.name}"
            if ns is None:
                name = f"{HOME}:{name}"
        if n.kind == "container":
            res[name] = render(v, keys, modular, n.ns)
        elif n.kind == "list":
            res[name] = [render(e, keys, modular, n.ns)
                         for e in entries(n, v, keys)]
        else:
            res[name] = v
    return res


def entries(n, v, keys):
    """Entries of a list: the given one and, with mode 'same' or 'other',
    another one with the same or another key."""
    e = dict(v)
    mode = e.pop("mode", None)
    first = {}
    for k in n.kids_keys:
        first[k] = e[k] if k in e else keys[k][0]
    for k, x in e.items():
        first.setdefault(k, x)
    res = [first]
    if mode:
        second = dict(first)
        if mode == "other" and n.kids_keys:
            k = n.kids_keys[0]
            second[k] = next((x for x in keys[k] if x != first[k]),
                             first[k])
        res.append(second)
    return res


def documents(root, accepted, k):
    """Documents with at most k nodes given, and with all nodes.

    k = 0: only documents with all nodes or all but one.
    """
    atoms = []
    for n in root.walk():
        if not n.data or not under(n, root):
            continue
        if n.kind in ("container", "list"):
            atoms.append((n, [None]))
        else:
            atoms.append((n, accepted[n]))
    yield {}
    lists = [n for n, _ in atoms if n.kind == "list"] if k else []

    def variants(combo):
        for vals in itertools.product(*[v for _, v in combo]):
            d = {}
            for (n, _), v in zip(combo, vals):
                put(d, n, v)
            yield d
            for ln in lists:
                if any(ln in chain(n) for n, _ in combo):
                    for mode in ("same", "other"):
                        d = {}
                        for (n, _), v in zip(combo, vals):
                            put(d, n, v)
                        cur = d
                        for c in chain(ln):
                            cur = cur.setdefault(c, {})
                        cur["mode"] = mode
                        yield d
    # one value each of all atoms, minus one
    full = [(n, v[:1]) for n, v in atoms if v]
    yield from variants(full)
    for i in range(len(full)):
        yield from variants(full[:i] + full[i + 1:])
    # singles: all values of the pool
    for n, _ in atoms if k else ():
        for v in ([None] if n.kind in ("container", "list") else pool(n)):
            d = {}
            put(d, n, v)
            yield d
    for r in range(1, k + 1):
        for combo in itertools.combinations(atoms, r):
            yield from variants([(n, v[:2]) for n, v in combo])


def under(n, root):
    """Data node reachable from root without crossing operations."""
    while n is not root:
        if n.kind in ("rpc", "action", "notification", "input", "output"):
            return False
        n = n.parent
    return True


# ------------------------------------------------------------- outcomes

SCOPES = [(ValidationScope.all, ContentType.all),
          (ValidationScope.semantics, ContentType.config),
          (ValidationScope.all, ContentType.config),
          (ValidationScope.syntax, ContentType.nonconfig)]


def run(dm, raw, sub, ren, scopes=4):
    """Everything observable for one document."""
    try:
        inst = dm.from_raw(raw, sub)
    except RawDataError as e:
        return ["raw", type(e).__name__, ren(e.path)]
    except Exception as e:
        return ["raw!", repr(e)]
    res = []
    for sc, ct in SCOPES[:scopes]:
        try:
            inst.validate(sc, ct)
            res.append("ok")
        except ValidationError as e:
            msg = e.message if e.tag.split()[-1] not in (
                "missing-data", "member-not-allowed", "invalid-type",
                "non-unique-key", "list-key-missing") else ""
            res.append([type(e).__name__, e.tag, msg,
                        ren(e.instance.json_pointer())])
        except Exception as e:
            res.append(["!", repr(e)])
    try:
        res.append(ren.obj(inst.add_defaults(ContentType.all).raw_value()))
    except Exception as e:
        res.append(["!", repr(e)])
    return res


class Ren:
    """Renaming relative to an operation or the root."""

    def __init__(self, modular):
        self.m = modular

    def __call__(self, path):
        return ren_path(path) if self.m else path

    def obj(self, o):
        return ren_obj(o) if self.m else o


def nodeprops(sn):
    res = {"class": type(sn).__name__, "config": sn.config,
           "mandatory": sn.mandatory, "status": sn.status.name}
    for a in ("min_elements", "max_elements", "user_ordered", "presence",
              "units"):
        if hasattr(sn, a):
            res[a] = getattr(sn, a)
    return res


# --------------------------------------------------------------- models

def compare(texts, lib, features, k, rec=None, docs=True):
    """Message if the modular model differs from its expansion."""
    impl = [m["name"] for m in lib
            if m.get("conformance", "implement") == "implement"]
    try:
        ex = Expander(texts, features, impl)
    except Invalid:
        return None
    plain = ex.plain()
    feats = {}
    for m, f in features:
        feats.setdefault(m, []).append(f)
    plib = []
    for m in lib:
        e = {"name": m["name"], "features": feats.get(m["name"], []),
             "conformance": m.get("conformance", "implement")}
        plib.append(e)
    mlib = [dict(m, features=feats.get(m["name"], [])) for m in lib]
    try:
        pdm = build(plain, plib)
    except (InvalidLeafrefPath, InvalidArgument) as e:
        try:
            build(texts, mlib)
        except type(e):
            return None
        return f"invalid modular schema accepted, expanded: {e!r}"
    except Exception as e:
        raise AssertionError(f"plain module: {e!r}\n{plain['a']}") from None
    try:
        mdm = build(texts, mlib)
    except Exception as e:
        return f"modular schema rejected: {e!r}"
    return equal(ex, mdm, pdm, k, rec, docs)


def equal(ex, mdm, pdm, k, rec, docs):
    a = ren_digest(json.loads(mdm.schema_digest()))
    b = plain_digest(json.loads(pdm.schema_digest()))
    if a != b:
        return "digest: " + diff(a, b)
    ta, tb = tree(mdm.ascii_tree(), True), tree(pdm.ascii_tree(), False)
    if ta != tb:
        return f"tree: {tdiff(ta, tb)}"
    for n in ex.root.walk():
        if n.kind == "root":
            continue
        if n.key:
            n.kids_keys = [c for kk in n.key for c in n.dkids()
                           if (c.name, c.ns) == kk]
        else:
            n.kids_keys = []
        mp, pp = spath(n, True), spath(n, False)
        sa, sb = mdm.get_schema_node(mp), pdm.get_schema_node(pp)
        if sa is None or sb is None:
            return f"{mp}: {sa}, {pp}: {sb}"
        pa, pb = nodeprops(sa), nodeprops(sb)
        if pa != pb:
            return f"{mp}: {pa}, expected {pb}"
        if n.data:
            da, db = sa.data_path(), sb.data_path()
            if ren_path(da) != db:
                return f"data path {da}, expected {db}"
            if rec:
                rec.step(1)
    if not docs:
        return None
    roots = [(ex.root, None)] + [(n, n) for n in ex.root.kids
                                 if n.kind in ("rpc", "notification")]
    for r, sub in roots:
        msg = documents_equal(ex, mdm, pdm, r, sub, k, rec)
        if msg:
            return msg
    return None


def spath(n, modular):
    res = ""
    ns = None
    while n.kind != "root":
        p = n.parent
        if modular:
            pre = "" if p.kind != "root" and p.ns == n.ns else n.ns + ":"
            nm = n.name
        else:
            pre = "" if p.kind != "root" else HOME + ":"
            nm = n.name if n.ns == HOME or n.kind in (
                "input", "output") else f"{n.ns}-{n.name}"
        res = f"/{pre}{nm}" + res
        n = p
    return res


def accepted_values(ex, pdm):
    res = {}
    for n in ex.root.walk():
        if n.data and n.kind not in ("container", "list"):
            vs = []
            if n.kind in ("leaf", "leaf-list"):
                sn = pdm.get_schema_node(spath(n, False))
                for v in pool(n):
                    try:
                        c = sn.from_raw(v)
                    except RawDataError:
                        continue
                    if n.kind == "leaf":
                        if c in sn.type:
                            vs.append(v)
                    elif all(x in sn.type for x in c):
                        vs.append(v)
            else:
                vs = pool(n)
            res[n] = vs or pool(n)[:1]
    return res


def documents_equal(ex, mdm, pdm, r, sub, k, rec):
    acc = accepted_values(ex, pdm)
    if sub is None:
        roots = [(ex.root, None, None)]
    elif r.kind == "notification":
        roots = [(r, f"{r.ns}:{r.name}", f"{HOME}:{nm(r)}")]
    else:
        roots = [(io, f"{r.ns}:{r.name}", f"{HOME}:{nm(r)}")
                 for io in r.kids]
    for rt, ms, ps in roots:
        seen = set()
        for d in documents(rt, acc, k):
            md = render(d, acc, True, rt.ns)
            pd = render(d, acc, False, HOME if rt.ns else None)
            if rt.kind in ("input", "output"):
                md = {f"{rt.ns}:{rt.kind}": md}
                pd = {f"{HOME}:{rt.kind}": pd}
            elif rt.kind == "notification":
                md = {(x if ":" in x else f"{rt.ns}:{x}"): v
                      for x, v in md.items()}
                pd = {f"{HOME}:{x}": v for x, v in pd.items()}
            key = json.dumps(md)
            if key in seen:
                continue
            seen.add(key)
            ra = run(mdm, md, ms, Ren(True), 4 if k > 1 else 2)
            rb = run(pdm, pd, ps, Ren(False), 4 if k > 1 else 2)
            if rec:
                rec.step(1)
                rec.agree(rb[0] if isinstance(rb[0], str) else rb[0][0])
            if ra != rb:
                return f"document {key}{' of ' + ms if ms else ''}: {ra}, " \
                       f"expanded: {rb}"
    return None


def nm(n):
    return n.name if n.ns == HOME else f"{n.ns}-{n.name}"


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [x for x in b if x not in a]:
            if a.get(k) != b.get(k) or (k in a) != (k in b):
                return diff(a.get(k), b.get(k), f"{path}/{k}")
    return f"{path}: {str(a)[:300]}, expanded: {str(b)[:300]}"


def tdiff(a, b):
    ha = [x for x in a if isinstance(x, str)]
    hb = [x for x in b if isinstance(x, str)]
    if ha != hb:
        return f"{ha} expanded {hb}"
    ka = [x for x in a if x not in b]
    kb = [x for x in b if x not in a]
    if len(ka) == len(kb) == 1:
        return tdiff(ka[0], kb[0])
    return f"{ka} expanded {kb}"


# ------------------------------------------------- modules of the models

DEFS = {"a": 'type uint8 { range "0..10"; } units ua; default 7;',
        "b": 'type string { length "1..4"; } default xy;',
        "c": 'type enumeration { enum e1; enum e2; } default e2;',
        "d": 'type uint8 { range "1 | 3 | 20"; } units ud; default 3;',
        "g": 'type int8 { range "-5..5"; } default "-1"; units ug;',
        "h": "type boolean; default true;"}
FEATURES = [("a", "f"), ("c", "f"), ("h", "f"), ("b", "f2"), ("d", "f2"),
            ("g", "f2"), ("d", "ff")]
# prefix -> module, for each module text
IMPORTS = {"a": {"x": "g", "y": "h", "p": "b", "r": "c"},
           "as": {"x": "h", "y": "g", "p": "b", "r": "c"},
           "b": {"x": "h", "y": "g", "p": "c"},
           "bs": {"x": "g", "y": "h", "p": "c"},
           "c": {"x": "g", "y": "h"},
           "d": {"x": "h", "y": "g", "p": "b", "r": "c", "m": "a"},
           "ds": {"x": "g", "y": "h", "p": "b", "r": "c", "m": "a"},
           "g": {}, "h": {}}
OWN = {"as": "s", "bs": "s", "ds": "s"}
MAIN = {"as": "a", "bs": "b", "ds": "d"}


def modtext(name, body):
    main = MAIN.get(name)
    own = OWN.get(name, name)
    t = ""
    if main:
        t += f"submodule {name} {{\n  yang-version 1.1;\n" \
             f"  belongs-to {main} {{ prefix {own}; }}\n"
    else:
        t += f"module {name} {{\n  yang-version 1.1;\n" \
             f"  namespace \"urn:{name}\";\n  prefix {own};\n"
    for p, m in IMPORTS[name].items():
        t += f"  import {m} {{ prefix {p}; }}\n"
    for s, m in MAIN.items():
        if m == name:
            t += f"  include {s};\n"
    if not main:
        t += f"  typedef t {{ {DEFS[name]} }}\n"
        t += ('  typedef lr { type leafref { path "../x"; } }\n'
              "  typedef ir { type identityref { base id; } default id1; }\n"
              "  feature f;\n  feature f2;\n  identity id;\n"
              "  identity id1 { base id; }\n  identity id2 { base id1; }\n"
              f"  grouping gg {{ leaf in-{name} {{ type t; }} }}\n")
    return t + body.replace("OWN", own) + "\n}\n"


def world(bodies, conf={}):
    """(texts, lib) of all modules with the given additional bodies."""
    use = set(bodies)
    for m in list(use):
        use.add(MAIN.get(m, m))
    todo = list(use) + ["a"]
    use = set()
    while todo:
        m = todo.pop()
        if m in use:
            continue
        use.add(m)
        todo.extend(IMPORTS[m].values())
        if m in MAIN:
            todo.append(MAIN[m])
        todo.extend(s for s, x in MAIN.items() if x == m and s in bodies)
    texts = {}
    for m in sorted(use):
        t = modtext(m, bodies.get(m, ""))
        for s, x in MAIN.items():
            if x == m and s not in use:
                t = t.replace(f"  include {s};\n", "")
        texts[m] = t
    lib = []
    for m in sorted(use):
        if m in MAIN:
            continue
        lib.append({"name": m,
                    "conformance": conf.get(
                        m, "import" if m in "gh" else "implement"),
                    "submodules": [s for s, x in MAIN.items()
                                   if x == m and s in use]})
    return texts, lib


ITEMS = {
    "type": "leaf x { type t; }",
    "own-type": "leaf x { type OWN:t; }",
    "imp-type": "leaf x { type x:t; }",
    "restricted": "leaf-list x { type t; }",
    "local-type": 'typedef t { type string { length "2..8"; } '
                  "default abcd; } leaf x { type t; }",
    "local-chain": 'typedef u { type t; units k; } leaf x { type u; }',
    "local-shadow": 'typedef u { type t; } container k { typedef t { type '
                    "string { length 2; } } leaf x { type u; } leaf y { "
                    "type t; } leaf z { type OWN:t; } }",
    "id": "leaf x { type identityref { base id; } }",
    "own-id": "leaf x { type identityref { base OWN:id1; } }",
    "imp-id": "leaf x { type identityref { base x:id; } default x:id2; }",
    "id-default": "leaf x { type identityref { base id; } default id1; }",
    "id-typedef": "leaf x { type ir; } leaf y { type x:ir; } leaf-list z { "
                  "type ir; }",
    "id-two": "typedef j { type identityref { base OWN:id; } } leaf x { "
              "type j; default OWN:id2; }",
    "ll-default": "leaf-list x { type uint8; default 1; default 3; "
                  "min-elements 0; max-elements 2; }",
    "ll-user": "leaf-list x { type uint8; ordered-by user; min-elements 1; }",
    "list": 'list x { key "k l"; unique "m n/o"; leaf k { type uint8; } '
            "leaf l { type boolean; } leaf m { type uint8; default 3; } "
            "container n { leaf o { type t; } } }",
    "list-own": 'list x { key "OWN:k"; unique "OWN:n/m"; leaf k { '
                "type uint8; } choice n { leaf m { type uint8; } } }",
    "np": "container x { leaf y { type t; } leaf z { type uint8; default 3; "
          "} }",
    "presence": "container x { presence p; leaf y { type t; mandatory true; "
                "} }",
    "choice": "choice x { default y; leaf y { type uint8; default 1; } "
              "container z { leaf w { type t; mandatory true; } } case v { "
              "leaf u { type t; } } }",
    "choice-own": "choice x { default OWN:y; mandatory false; leaf y { type "
                  "uint8; default 1; } leaf z { type uint8; } }",
    "choice-deep": "choice x { mandatory true; choice y { leaf z { type "
                   "uint8; } leaf w { type uint8; } } leaf v { type empty; }"
                   " }",
    "must": 'leaf x { type uint8; } leaf y { type uint8; must "../x = 1" { '
            'error-message mmm; error-app-tag ttt; } }',
    "must-own": 'leaf x { type uint8; } leaf y { type uint8; must '
                '"not(../OWN:x)"; }',
    "when": 'leaf x { type uint8; } leaf y { when "../x > 1"; type uint8; '
            "default 1; }",
    "when-own": 'leaf x { type uint8; } container y { when "not(../OWN:x)"; '
                "leaf z { type uint8; default 1; } }",
    "when-choice": 'leaf x { type uint8; } choice y { when "x = 1"; leaf z '
                   '{ type uint8; default 1; } case w { when "x = 3"; leaf '
                   "v { type uint8; } } }",
    "leafref": 'leaf x { type t; } leaf y { type leafref { path "../x"; } }',
    "leafref-own": 'leaf x { type uint8; } leaf y { type leafref { path '
                   '"../OWN:x"; require-instance false; } }',
    "leafref-td": "leaf x { type uint8; } leaf y { type lr; } leaf z { type "
                  "x:lr; }",
    "derived": "leaf x { type identityref { base x:id; } } leaf y { type "
               "uint8; must \"derived-from(../x, 'x:id1')\"; } leaf z { "
               "when \"derived-from-or-self(../x, 'OWN:id1')\"; type uint8;"
               " }",
    "iff": "leaf x { if-feature f; type uint8; } leaf y { if-feature x:f; "
           "type uint8; } leaf z { if-feature 'not OWN:f and y:f or f2'; "
           "type uint8; }".replace("'", '"'),
    "iff-uses": "uses gg { if-feature f; } uses x:gg { if-feature x:f; }",
    "iff-enum": "leaf x { type enumeration { enum e1 { if-feature f; } enum "
                "e2 { if-feature x:f; } enum e3; } } leaf y { type bits { "
                "bit b1 { if-feature f2; } bit b2; } }",
    "nested": "grouping in { leaf q { type t; } } uses in; container k { "
              "grouping in { leaf r { type x:t; } } uses in; }",
    "gg": "uses gg;", "own-gg": "uses OWN:gg;", "imp-gg": "uses x:gg;",
    "gg-deep": "container x { uses gg; } list y { config false; uses x:gg; "
               "uses OWN:gg; }",
    "union": "leaf x { type union { type t; type x:t; type identityref { "
             "base id; } } }",
    "anydata": "anydata x { mandatory true; } anyxml y;",
    "config": "container x { config false; leaf y { type t; } list z { leaf "
              "w { type uint8; } } } leaf v { config true; type uint8; }",
    "status": "leaf x { status deprecated; type uint8; default 1; } "
              "container y { status obsolete; leaf z { type uint8; "
              "mandatory true; } }",
    "grp-status": "status deprecated; description d; reference r; leaf x { "
                  "type uint8; default 1; } container y { status deprecated;"
                  " leaf z { status current; type t; } }",
    "mandatory": "leaf x { type t; mandatory true; description d; units v; "
                 "} container y { leaf z { type uint8; mandatory true; } }",
    "local-refine": "grouping in { leaf q { type uint8; } container k { leaf "
                    "l { type t; } } } uses in { refine q { default 3; } "
                    'refine k/l { mandatory true; } augment k { leaf m { '
                    "when '../q = 1'; type t; } } }".replace("'", '"'),
}
OPITEMS = {
    "action": "container x { action y { input { leaf z { type t; } } output "
              "{ uses gg; } } }",
    "notification": "container x { notification y { leaf z { type x:t; } } }"
}
# where the grouping is defined, for a user in module a or d
DEFPLACES = ["other", "same", "own", "sub", "bsub", "third", "local",
             "chain", "mixed", "subuse", "submain"]
USEPLACES = ["top", "container", "list", "case", "rpc", "notification",
             "augment", "caseaug", "when", "twice", "outer"]


def grouping_model(item, dplace, uplace, user):
    """(texts, lib) or None if the combination is impossible."""
    bodies = {}
    text = f"grouping G {{ {item} }}\n"
    um = user                           # module where uses is written
    local = ""
    own = OWN.get(um, um)
    if dplace == "other":
        bodies["b"] = text
        ref = "p:G"
    elif dplace == "same":
        bodies[um] = text
        ref = "G"
    elif dplace == "own":
        bodies[um] = text
        ref = own + ":G"
    elif dplace == "sub":
        bodies[user + "s"] = text
        ref = "G"
    elif dplace == "bsub":
        bodies["bs"] = text
        ref = "p:G"
    elif dplace == "third":
        bodies["c"] = text
        ref = "r:G"
    elif dplace == "local":
        local = text
        ref = "G"
    elif dplace == "chain":
        bodies["c"] = text
        bodies["b"] = "grouping G { uses p:G; }\n"
        ref = "p:G"
    elif dplace == "mixed":
        bodies["c"] = text
        bodies["bs"] = "grouping G { container G { uses p:G; } }\n"
        ref = "p:G"
    elif dplace == "subuse":
        um = user + "s"
        bodies["b"] = text
        ref = "p:G"
    else:
        um = user + "s"
        bodies[user] = text
        ref = "G"
    uses = f"{local}uses {ref};"
    pfx = {"a": "a", "as": "s", "d": "m", "ds": "m"}[um]
    body = {
        "top": uses,
        "container": f"container k {{ {uses} }}",
        "list": f"list k {{ key kk; leaf kk {{ type uint8; }} {uses} }}",
        "case": f"choice ch {{ case k {{ {uses} }} leaf other {{ type "
                "uint8; } }" if not local else None,
        "rpc": f"rpc r {{ input {{ {uses} }} output {{ {uses} }} }}",
        "notification": f"notification n {{ {uses} }}",
        "augment": f'augment "/{pfx}:k0" {{ {uses} }}' if not local else
                   None,
        "caseaug": f'augment "/{pfx}:k0/{pfx}:c0" {{ case k {{ {uses} }} '
                   "container z0 { " + uses + " } }" if not local else None,
        "when": f"container k {{ leaf w {{ type uint8; }} {local} uses {ref} "
                '{ when "w = 1"; } }',
        "twice": f"container k {{ {uses} }} list l {{ config false; {uses} "
                 "}",
        "outer": f"grouping H {{ container k {{ {uses} }} }} uses H;",
    }[uplace]
    if body is None:
        return None
    bodies[um] = bodies.get(um, "") + body + "\n"
    if uplace in ("augment", "caseaug"):
        bodies["a"] = bodies.get("a", "") + (
            "container k0 { choice c0 { leaf z1 { type uint8; } } }\n")
    if user == "a":
        bodies.setdefault("a", "")
    return world(bodies)


# ------------------------------------- refinements, augments, deviations

CONTENT = """
leaf x { type t; }
leaf y { type uint8; default 3; must "../x or not(../x)"; units u; }
leaf-list ll { type uint8; default 1; default 3; must ". < 9"; }
list l { key k; unique "v w"; leaf k { type uint8; } leaf v { type t; }
         leaf w { type uint8; default 1; } }
container c { leaf z { type uint8; }
  container pc { presence p; leaf q { type t; mandatory true; } } }
choice ch { leaf c1 { type uint8; default 1; }
  case c2 { leaf c3 { type t; } leaf c4 { type uint8; default 3; } }
  container c5 { leaf c6 { type uint8; } } }
anydata ad;
leaf i { type identityref { base id; } must "derived-from(., 'b:id1') or 1"; }
leaf-list il { type identityref { base id; } default id1; default id2; }
container cf { config false; leaf f1 { type uint8; } leaf f2 { config false;
  type t; } }
uses gg;
container n2 { uses in { refine n3 { default 7; } } }
leaf-list mx { type uint8; max-elements 1; }
"""
INNER = "grouping in { leaf n3 { type uint8; } leaf n4 { type t; } }\n"

REFINE = [
    ("x", "default ab;"), ("x", "mandatory true;"), ("x", "config false;"),
    ("x", "description d;"), ("x", 'must "../y = 3";'),
    ("x", "if-feature f;"), ("x", "if-feature x:f;"),
    ("x", 'must "../a:y < 3" { error-message mm; } default "xyz";'),
    ("y", "default 7;"), ("y", 'must "../ll = 1"; must "../l";'),
    ("y", "if-feature f2; default 9;"),
    ("ll", "min-elements 1; max-elements 1;"), ("ll", "default 7;"),
    ("ll", "default 7; default 10; default 20;"), ("ll", 'must ". > 1";'),
    ("l", "min-elements 1;"), ("l", "max-elements 1;"),
    ("l", "config false;"), ("l", 'must "v or w > 1";'),
    ("l/v", "default ab;"), ("l/v", "mandatory true;"),
    ("l/w", "default 7;"),
    ("c", "presence d;"), ("c", 'must "z";'), ("c", "config false;"),
    ("c", "description d;"), ("c", "if-feature f;"),
    ("c/z", "default 20;"), ("c/z", "mandatory true;"),
    ("c/pc", 'must "q = ../z";'), ("c/pc/q", "mandatory false;"),
    ("c/pc/q", "default xy; mandatory false;"),
    ("ch", "default c1;"), ("ch", "default c2;"), ("ch", "default c5;"),
    ("ch", "mandatory true;"), ("ch", "config false;"),
    ("ch/c1/c1", "default 7;"), ("ch/c2", "if-feature f2;"),
    ("ch/c2/c3", "mandatory true;"), ("ch/c2/c4", "default 1;"),
    ("ch/c5/c5/c6", "default 1;"), ("ch/c5/c5", "presence z;"),
    ("ad", "mandatory true;"), ("in-b", "default x;"),
    ("n2/n3", "default 1;"), ("n2/n4", "mandatory true;"),
    ("n2", 'must "n3 = 1";'),
    ("i", "default p:id2;"), ("i", "default r:id1;"),
    ("i", "must \"derived-from(., 'p:id1')\";"),
    ("il", "default p:id1;"), ("il", "default y:id1; default x:id1;"),
    ("cf", "config true;"), ("cf/f2", "config false;"),
    ("cf/f1", "mandatory true;"), ("mx", "max-elements unbounded;"),
    ("mx", "max-elements 2;"), ("mx", "max-elements 0;"),
]
UAUG = [
    ("c", "leaf t1 { type t; }"), ("c", "uses gg;"),
    ("c", 'when "z = 1"; leaf t1 { type t; mandatory true; }'),
    ("c", "if-feature f2; leaf t1 { type t; }"),
    ("c/pc", "leaf t1 { type x:t; } leaf t2 { type uint8; }"),
    ("c/pc", 'when "../../y > 3"; container t1 { leaf t2 { type t; } }'),
    ("l", 'leaf t1 { type uint8; default 1; must "../w = .."; }'),
    ("l", 'when "k = 1"; leaf t1 { type uint8; default 1; }'),
    ("ch", "leaf t1 { type uint8; default 3; }"),
    ("ch", "container t1 { leaf t2 { type t; } }"),
    ("ch", 'when "y = 1"; case t1 { leaf t2 { type t; } leaf t3 { type '
           'uint8; } }'),
    ("ch", "choice t1 { leaf t2 { type uint8; } leaf t3 { type uint8; } }"),
    ("ch", 'when "x"; leaf t1 { type uint8; } list t2 { config false; leaf '
           't3 { type uint8; } }'),
    ("ch/c2", "leaf t1 { type uint8; default 1; }"),
    ("ch/c2", 'when "x"; leaf t1 { type uint8; mandatory true; }'),
    ("ch/c1", "leaf t1 { type uint8; }"),
    ("ch/c5/c5", "leaf-list t1 { type uint8; default 3; }"),
    ("n2", "anydata t1 { mandatory true; }"),
    ("c", "status obsolete; description d; leaf t1 { status current; type "
          "t; }"),
    ("ch", "status deprecated; reference r; leaf t1 { type uint8; }"),
    ("l", "status current; leaf t1 { status obsolete; type uint8; default 1;"
          " } leaf t2 { type uint8; default 3; }"),
    ("ch", "case t1 { status obsolete; leaf t2 { type uint8; default 3; } }"
           ),
    ("n2", 'leaf t1 { when "../n3 = 7"; type uint8; default 3; }'),
]
DEVIATE = [
    (p, "deviate not-supported;") for p in (
        "x", "y", "ll", "l", "c", "ch", "ch/c2", "c/pc/q", "ad", "n2/n3",
        "ch/c1/c1", "ch/c5", "l/v")
] + [
    ("x", "deviate add { default xy; }"),
    ("x", "deviate add { mandatory true; }"),
    ("x", "deviate add { config false; }"),
    ("x", 'deviate add { must "../m:y = 3"; must "../m:c"; }'),
    ("x", "deviate add { units m; }"),
    ("x", 'deviate replace { type t; }'),
    ("x", 'deviate replace { type x:t; } deviate add { default false; }'),
    ("x", 'deviate replace { type identityref { base id; } } deviate add { '
          'default id1; }'),
    ("y", "deviate replace { default 9; }"),
    ("y", "deviate delete { default 3; }"),
    ("y", "deviate delete { units u; default 3; } deviate add { mandatory "
          "true; }"),
    ("y", "deviate replace { units z; }"),
    ("y", 'deviate delete { must "../m:x or not(../m:x)"; }'),
    ("y", 'deviate replace { type uint8 { range "2..4"; } }'),
    ("ll", "deviate add { min-elements 1; max-elements 1; }"),
    ("ll", "deviate add { default 7; }"),
    ("ll", "deviate delete { default 1; }"),
    ("ll", "deviate delete { default 1; default 3; }"),
    ("ll", "deviate delete { default 3; default 1; }"),
    ("ll", 'deviate delete { must ". < 9"; } deviate add { must ". < 2"; }'),
    ("ll", "deviate replace { type t; } deviate delete { default 1; }"),
    ("l", 'deviate add { unique "m:w"; }'),
    ("l", 'deviate delete { unique "m:v m:w"; }'),
    ("l", 'deviate add { must "m:v"; max-elements 1; }'),
    ("l", "deviate add { config false; }"),
    ("l", "deviate add { min-elements 1; }"),
    ("l/v", "deviate add { mandatory true; }"),
    ("l/w", "deviate replace { default 7; }"),
    ("c", 'deviate add { must "m:z = 1"; config false; }'),
    ("c/pc/q", "deviate replace { mandatory false; }"),
    ("c/pc/q", "deviate replace { mandatory false; } deviate add { default "
               "xx; }"),
    ("c/z", "deviate add { mandatory true; }"),
    ("c/z", "deviate replace { type uint8 { range 3; } } deviate add { "
            "default 3; }"),
    ("ch", "deviate add { default m:c2; }"),
    ("ch", "deviate add { default m:c1; }"),
    ("ch", "deviate add { mandatory true; }"),
    ("ch", "deviate add { config false; }"),
    ("ch/c2/c4", "deviate delete { default 3; }"),
    ("ad", "deviate add { mandatory true; }"),
    ("n2/n3", "deviate delete { default 7; }"),
    ("n2/n3", "deviate replace { default 10; }"),
    ("i", "deviate add { default p:id2; }"),
    ("i", "deviate delete { must \"derived-from(., 'p:id1') or 1\"; }"),
    ("i", "deviate delete { must \"derived-from(.,'p:id1')or 1\"; }"),
    ("i", "deviate add { must \"derived-from(., 'p:id1')\"; }"),
    ("il", "deviate delete { default p:id1; }"),
    ("il", "deviate delete { default p:id2; } deviate add { default p:id; }"),
    ("cf", "deviate replace { config true; }"),
    ("cf/f1", "deviate add { mandatory true; }"),
    ("mx", "deviate replace { max-elements unbounded; }"),
    ("mx", "deviate replace { max-elements 0; } deviate add { units m; }"),
]
TAUG = [(p, t.replace("../../y", "../../OWNy").replace('"z', '"OWNz')
         .replace('"../w', '"../OWNw').replace('"y', '"OWNy')
         .replace('"x', '"OWNx').replace('"k', '"OWNk')
         .replace("../n3", "../OWNn3").replace("mandatory true;", ""))
        for p, t in UAUG]


def operations():
    ops = [("refine", p, t) for p, t in REFINE]
    ops += [("uaug", p, t) for p, t in UAUG]
    for m in ("a", "as", "d", "ds"):
        ops += [("aug", p, t, m) for p, t in TAUG]
    for m in ("d", "ds"):
        ops += [("dev", p, t, m) for p, t in DEVIATE]
    ops += [("uses", "", 'when "w = 1";'), ("uses", "", 'if-feature f;'),
            ("uses", "", 'if-feature x:f;'),
            ("uses", "", "status obsolete; description d; reference r;")]
    return ops


OPS = operations()


def ops_model(ops, where="k"):
    """Model in which the operations are applied to a use of CONTENT."""
    uses = ""
    bodies = {"b": f"{INNER}grouping G {{ {CONTENT} }}\n"}
    pfx = {"a": "a:", "as": "s:", "d": "m:", "ds": "m:"}
    first = [o for o in ops if o[0] == "uaug"] + [
        o for o in ops if o[0] != "uaug"]
    rest = {}
    for o in first:
        if o[0] == "refine":
            uses += f" refine {o[1]} {{ {o[2]} }}"
        elif o[0] == "uaug":
            uses += f" augment {o[1]} {{ {o[2]} }}"
        elif o[0] == "uses":
            uses += " " + o[2]
        else:
            p = pfx[o[3]]
            path = f"/{p}k/" + "/".join(p + x for x in o[1].split("/"))
            kw = "augment" if o[0] == "aug" else "deviation"
            rest.setdefault(o[3], []).append(
                f'{kw} "{path}" {{ {o[2].replace("OWN", p)} }}\n')
    bodies["a"] = ("container k { leaf w { type uint8; } "
                   f"uses p:G {{{uses} }} }}\n")
    for m, t in rest.items():
        bodies[m] = bodies.get(m, "") + "".join(t)
    return world(bodies)


# ------------------------------------------------- chains of augments

def chain_model(mods, order, kinds):
    """Augments i = 1, 2, 3 in module mods[i], each adding a node under the
    one added before; order: their order in the text."""
    pfx = {"a": {"a": "a:"}, "as": {"a": "s:"},
           "d": {"a": "m:", "d": "d:"}, "ds": {"a": "m:", "d": "s:"}}
    bodies = {"a": "container k { leaf w { type uint8; } }\n"}
    path = [("a", "k")]
    augs = []
    for i, (m, kind) in enumerate(zip(mods, kinds)):
        own = MAIN.get(m, m)
        try:
            p = "".join("/" + pfx[m][x] + n for x, n in path)
        except KeyError:
            return None
        n = f"n{i}"
        text = {"container": f"container {n} {{ leaf f{i} {{ type t; }} }}",
                "list": f"list {n} {{ key f{i}; leaf f{i} {{ type uint8; }} "
                        "}",
                "choice": f"choice {n} {{ leaf f{i} {{ type t; }} }}",
                "when": f'when "true()"; container {n} {{ presence p; }}',
                "short": f"choice {n} {{ container f{i} {{ leaf g{i} {{ "
                         "type t; } } }"}[kind]
        path.append((own, n))
        if kind == "short":
            path += [(own, f"f{i}")] * 2
        if i and kinds[i - 1] == "choice":
            if kind in ("choice", "short"):
                path.insert(len(path) - (3 if kind == "short" else 1),
                            (own, n))
            else:
                path.append((own, n))
        augs.append((m, f'augment "{p}" {{ {text} }}\n'))
    for i in order:
        m, t = augs[i]
        bodies[m] = bodies.get(m, "") + t
    return world(bodies)


KINDS = ["container", "list", "choice", "when", "short"]


def chains():
    for mods in itertools.product(("a", "as", "d", "ds"), repeat=3):
        for order in itertools.permutations(range(3)):
            yield mods, order


# ------------------------------------------- definitions in submodules

def sub_model(kind, defm, usem, qual):
    """A definition in the text of module defm used in module usem."""
    d = {"typedef": "typedef u { type t; }",
         "grouping": "grouping u { leaf q { type t; } }",
         "identity": "identity u { base id; } identity u2 { base u; }",
         "feature": "feature f; ".replace("f;", "ff;") +
         "leaf-list is-ff { if-feature ff; type uint8; }",
         "chain": "typedef u0 { type uint8 { range \"1..7\"; } default 3; }"
                  " typedef u { type u0 { range \"1..3\"; } }"}[kind]
    pre = ""
    if qual:
        pre = {("a", "a"): "a:", ("as", "a"): "s:", ("d", "a"): "m:",
               ("ds", "a"): "m:", ("d", "d"): "d:", ("ds", "d"): "s:"}.get(
                   (usem, MAIN.get(defm, defm)))
        if pre is None:
            return None
    elif MAIN.get(defm, defm) != MAIN.get(usem, usem):
        return None
    u = {"typedef": f"leaf x {{ type {pre}u; }}",
         "grouping": f"container x {{ uses {pre}u; }}",
         "identity": f"leaf x {{ type identityref {{ base {pre}u; }} default "
                     f"{pre}u2; }}",
         "feature": f"leaf x {{ if-feature {pre}ff; type uint8; }}",
         "chain": f"leaf-list x {{ type {pre}u; }}"}[kind]
    bodies = {defm: d + "\n"}
    bodies[usem] = bodies.get(usem, "") + u + "\n"
    return world(bodies)


# ------------------------------------------------------------ exploration

def groups(tier):
    res = []
    k = 1 if tier == "quick" else 2
    for it in list(ITEMS) + list(OPITEMS):
        for u in USEPLACES:
            res.append({"kind": "grouping", "item": it, "use": u, "k": k})
    for i in range(len(OPS)):
        res.append({"kind": "op", "i": i, "k": k})
        res.append({"kind": "pair", "i": i, "k": k - 1,
                    "all": tier != "quick"})
    for kinds in itertools.product(KINDS, repeat=2):
        res.append({"kind": "chain", "kinds": list(kinds), "k": k - 1})
    res.append({"kind": "sub", "k": 2})
    return res


def cases(g):
    """All cases of a group."""
    if g["kind"] == "grouping":
        for d in DEFPLACES:
            for user in "ad":
                yield dict(g, defp=d, user=user,
                           k=g["k"] + (d == "other" and user == "a"))
    elif g["kind"] == "op":
        yield dict(g)
    elif g["kind"] == "pair":
        for j in range(len(OPS)):
            if j == g["i"]:
                continue
            a, b = OPS[g["i"]], OPS[j]
            # the order matters only within the same kind of operation
            if j < g["i"] and a[0] != b[0]:
                continue
            # operations of the same kind in one main module only
            if a[0] in ("aug", "dev") and a[0] == b[0] and (
                    a[3] in ("as", "ds") and a[3] == b[3]):
                continue
            if not g["all"] and not (related(a, b) and combined(a) and
                                     combined(b)):
                continue
            yield dict(g, j=j)
    elif g["kind"] == "chain":
        for mods, order in chains():
            yield dict(g, mods=list(mods), order=list(order))
    elif g["kind"] == "sub":
        for kind in ("typedef", "grouping", "identity", "feature", "chain"):
            for dm in ("a", "as", "d", "ds"):
                for um in ("a", "as", "d", "ds"):
                    for qual in (0, 1):
                        yield dict(g, what=kind, defp=dm, usep=um,
                                   qual=qual)


def combined(op):
    """Operation combined with others in the quick tier."""
    return op[0] not in ("aug", "dev") or op[3] in ("a", "ds")


def related(a, b):
    """One target lies under the other one."""
    x, y = a[1].split("/"), b[1].split("/")
    n = min(len(x), len(y))
    return x[:n] == y[:n] or not a[1] or not b[1]


def run_group(g, rec):
    for case in cases(g):
        m = model_of(case)
        if m is None:
            continue
        rec.state(short(case))
        msg = compare(*m, FEATURES, case["k"], rec)
        if msg:
            rec.fail(case, f"{short(case)}: {msg}")


def short(case):
    if case["kind"] == "op":
        return f"op {OPS[case['i']]}"
    if case["kind"] == "pair":
        return f"pair {OPS[case['i']]} {OPS[case['j']]}"
    return " ".join(str(v) for k, v in case.items() if k != "k")


def model_of(case):
    kind = case["kind"]
    if kind == "grouping":
        it = case["item"]
        if it in OPITEMS:
            if case["use"] in ("when", "rpc", "notification"):
                return None
            return grouping_model(OPITEMS[it], case["defp"], case["use"],
                                  case["user"])
        return grouping_model(ITEMS[it], case["defp"], case["use"],
                              case["user"])
    if kind == "op":
        return ops_model([OPS[case["i"]]])
    if kind == "pair":
        return ops_model([OPS[case["i"]], OPS[case["j"]]])
    if kind == "chain":
        return chain_model(case["mods"], case["order"],
                           case["kinds"] + ["container"])
    return sub_model(case["what"], case["defp"], case["usep"], case["qual"])


def replay(case):
    m = model_of(case)
    return None if m is None else compare(*m, FEATURES, case["k"])
