"""C26: invalid modules are rejected with a documented error."""
import copy
import json
import os
import signal
import tempfile

from mc import models as M
from mc.ref import yangtext
from yangson import DataModel
from yangson.exceptions import YangsonException
from yangson.schemanode import InternalNode

PROPERTY = "C26"
ASSUMPTIONS = [
    "the library does not check that a module is valid in all respects: an "
    "edited module may be accepted unless the edit is one that must be "
    "rejected",
    "models with several data nodes of the same name, or with a condition on "
    "the condition's own node, are not used for reading data",
    "bit positions are small (the schema digest lists all positions)",
]
CPU = 60        # seconds of processor time for one model

B = """module b { yang-version 1.1; namespace "urn:b"; prefix b;
revision 2020-01-01;
feature f; identity id; identity id1 { base id; }
typedef t { type string { length "1..4"; } default x; }
grouping g { leaf gx { type t; } }
container bc { leaf bl { type uint8; } } }"""
S = """submodule s { yang-version 1.1; belongs-to a { prefix a; }
typedef st { type uint8 { range "1..7"; } default 3; } leaf sl { type st; } }"""
A = """module a { yang-version 1.1; namespace "urn:a"; prefix a;
import b { prefix b; revision-date 2020-01-01; } include s;
revision 2021-01-01;
feature g { if-feature b:f; }
identity ia { base b:id; if-feature "g or b:f"; }
typedef u { type st { range "1..3"; } default 2; units m; }
grouping gr { leaf q { type u; } container qc { leaf q2 { type b:t; } } }
container c { presence p;
  must "l = 1" { error-message m; error-app-tag t; }
  leaf l { type u; when "../k"; mandatory true; }
  leaf k { type decimal64 { fraction-digits 2; range "1.0..2.5"; }
    default 1.5; }
  leaf e { type enumeration { enum a { value 1; } enum b { if-feature g; } }
    default a; status current; }
  leaf bi { type bits { bit a { position 1; } bit b; } default "a b";
    config true; }
  leaf id { type identityref { base b:id; } default b:id1; }
  leaf lr { type leafref { path "../k"; require-instance true; } }
  leaf ii { type instance-identifier { require-instance false; } }
  leaf un { type union { type uint8; type string { pattern "[a-z]+" {
    modifier invert-match; } } } }
  leaf em { type empty; } leaf bo { type boolean; default true; }
  leaf by { type binary { length "1..3|5"; } } }
list li { key "k1 k2"; unique "v w"; min-elements 0; max-elements 3;
  ordered-by user; leaf k1 { type string; } leaf k2 { type uint8; }
  leaf v { type int8; } leaf w { type int8; }
  action act { input { leaf x { type u; } } output { leaf y { type u; } } }
  notification nf { leaf n { type u; } } }
leaf-list ll { type uint8; default 1; default 2; max-elements unbounded; }
choice ch { default c1; case c1 { leaf x1 { type u; } }
  leaf x2 { type u; } }
uses gr { if-feature g; refine q { default 1; must ". = 1"; }
  augment qc { leaf q3 { type u; } } }
augment "/b:bc" { when "b:bl = 1"; leaf au { type u; } }
deviation "/b:bc/b:bl" { deviate add { default 3; units m; }
  deviate replace { type int8; } }
rpc r { input { uses gr; } } notification no { leaf z { type u; } }
container ug { uses b:g { when "1"; } }
anydata ad; anyxml ax { mandatory false; } }"""
TEXTS = {"a": A, "b": B, "s": S}
LIB = json.dumps({"ietf-yang-library:modules-state": {
    "module-set-id": "x", "module": [
        {"name": "a", "namespace": "urn:a", "revision": "2021-01-01",
         "conformance-type": "implement", "feature": ["g"],
         "submodule": [{"name": "s", "revision": ""}]},
        {"name": "b", "namespace": "urn:b", "revision": "2020-01-01",
         "conformance-type": "implement", "feature": ["f"]}]}})
DOCS = [{}, {"a:c": {"l": 1, "k": "1.5", "e": "a", "bi": "a", "id": "b:id1",
                     "lr": "1.5", "un": 3, "bo": False},
             "a:li": [{"k1": "x", "k2": 1, "v": 1, "w": 1}], "a:ll": [1, 2],
             "a:q": 1, "b:bc": {"bl": 3, "a:au": 2}, "a:x1": 1},
        {"b:bc": {"bl": 1}, "a:c": {}}]

ARGS = ["", "nope", "b:nope", "zz:x", "a", "1", "-1", "99999999999", "1.x",
        "/", "/a:c", "/nope", "../nope", "(", ")", "not", "a or", '"', "'",
        "[", "*", "min..max", "5..1", "true", "unbounded", " ", "k1 k1", "é",
        "a:", ":a", "u", "gr", "string", "leafref", "union", "enumeration",
        "bits", "decimal64", "identityref", "binary", "instance-identifier",
        "empty", "a b", "c", "r", "li", "ch", "act", "/a:li/a:k1",
        "current()/..", "..", ".", "2021-01-01", "s", "b:g", "b:t", "ll",
        "/b:bc/b:bl", "qc", "/a:r/a:input", "/a:ch/a:c1", "delete", "add",
        "replace", "k1/..", "a/b", "1 | 2", "0", "19", "1e1", "id1", "x\ny", "1..2..3", "1|",
        "..5", "1 2"]
# arguments that must be rejected
UNKNOWN = ["nope", "b:nope", "zz:x", "a:", "é", "../nope"]
NONNUM = ["nope", "1.x", "", "(", "true", "/a:c", " ", "s", "a b", "1e1"]
SYNTAX = ["(", ")", "a or", '"', "'", "[", "", " ", "a:", "x\ny"]
REJECT = {
    "type": UNKNOWN + ["", "gr", "c", "/", "(", "b:g", "."],
    "uses": UNKNOWN + ["", "u", "c", "/", "(", "b:t", "."],
    "base": ["zz:x", "zz:"], "if-feature": ["zz:x", "a or", "(", ")", "", "[",
                                            "*", "/"],
    "key": ["nope", "zz:x", "/a:c", "../nope", "a b", "li", "act", "("],
    "unique": ["zz:x", "(", "1", "..", ".", "/", "*", "current()/..", "[",
               "/a:li/a:k1", "../nope"],
    "path": ["nope", "zz:x", "/a:c", "/nope", "../nope", "/", "..", "(", "[",
             "/a:li", "."],
    "must": SYNTAX[:6] + ["zz:x", "1 2", "a b", "1|"],
    "when": SYNTAX[:6] + ["zz:x", "1 2", "a b", "1|"],
    "fraction-digits": NONNUM + ["0", "19", "-1", "99999999999"],
    "position": NONNUM + ["-1", "99999999999"], "value": NONNUM,
    "min-elements": NONNUM, "max-elements": NONNUM,
    "augment": ["zz:x"], "deviation": ["zz:x"], "refine": ["zz:x"],
    "import": ["nope", "zz:x", "", "c"], "include": ["nope", "zz:x", "", "c"],
    "range": ["nope", "1.x", "(", "a b", "1..2..3", "1|", "..5", "1 2"],
    "length": ["nope", "1.x", "(", "a b", "1..2..3", "1|", "..5", "1 2"],
    "pattern": ["(", ")", "["],
    "module": ["nope", "", "b"], "submodule": ["nope", "", "b"],
    "revision": ["nope", ""],
}
NAMES = ["", "1", "a b", "b:nope", "zz:x", "/", "-1", "a:", ":a", "*", "a/b",
         "x\ny", "é", "(", '"', ".", "/a:c"]
for _k in ("container", "leaf", "leaf-list", "list", "choice", "case", "rpc",
           "action", "notification", "anydata", "anyxml"):
    REJECT[_k] = NAMES
NEEDED = [("import", "prefix"), ("module", "prefix"), ("belongs-to",
          "prefix"), ("submodule", "belongs-to"), ("leaf", "type"),
          ("leaf-list", "type"), ("typedef", "type"),
          ("decimal64", "fraction-digits"), ("leafref", "path")]


class Endless(BaseException):
    pass


def _vtalrm(signum, frame):
    raise Endless


def tree(text):
    ok, t = yangtext.read(text)

    def conv(s):
        return [s[0], s[1], s[2], [conv(x) for x in s[3]]]
    return conv(t)


def text_of(st):
    pref, kw, arg, subs = st
    t = (pref + ":" if pref else "") + kw
    if arg is not None:
        t += ' "' + arg.replace("\\", "\\\\").replace('"', '\\"') + '"'
    return t + (" {\n" + "".join(text_of(s) for s in subs) + "}\n" if subs
                else ";\n")


TREES = {m: tree(t) for m, t in TEXTS.items()}


def walk(st, path=()):
    for i, s in enumerate(st[3]):
        yield path + (i,), s
        yield from walk(s, path + (i,))


def at(st, path):
    for i in path:
        st = st[3][i]
    return st


def unique_names(sn):
    names = [c.iname() for c in sn.data_children()]
    return len(set(names)) == len(names) and all(
        unique_names(c) for c in sn.data_children()
        if isinstance(c, InternalNode))


def outcome(mods, lib=LIB, documents=True):
    """(kind, message if something undocumented happened)."""
    step = "building"
    old = signal.signal(signal.SIGVTALRM, _vtalrm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU)
    d = tempfile.mkdtemp(prefix="c26-")
    try:
        for n, t in mods.items():
            with open(os.path.join(d, n + ".yang"), "w",
                      encoding="utf-8") as f:
                f.write(t)
        try:
            dm = DataModel(lib, [d])
        except YangsonException as e:
            step = "printing the error of"
            str(e)
            return "rejected", None
        step = "exporting"
        dm.ascii_tree()
        dm.ascii_tree(no_types=True, val_count=True)
        dm.schema_digest()
        dm.module_set_id()
        step = "using"
        if documents and unique_names(dm.schema):
            for doc in DOCS:
                try:
                    inst = dm.from_raw(doc)
                    inst.validate()
                except YangsonException as e:
                    str(e)
                    continue
                inst.add_defaults().raw_value()
        return "accepted", None
    except Endless:
        return "endless", f"{step} the model does not end"
    except Exception as e:
        return "internal", f"{step} the model raised {e!r}"[:300]
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        M.shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ edits

def edits(mod, i):
    """All edits of the i-th statement of a module."""
    path, st = statements(mod)[i]
    yield ["del"]
    yield ["noarg"]
    yield ["dup"]
    if st[3]:
        yield ["nosub"]
        yield ["up"]
    for a in ARGS:
        if a != st[2]:
            yield ["arg", a]


def statements(mod):
    return [((), TREES[mod])] + list(walk(TREES[mod]))


def edited(mod, i, ed):
    t = copy.deepcopy(TREES[mod])
    path = statements(mod)[i][0]
    st = at(t, path)
    if ed[0] == "arg":
        st[2] = ed[1]
    elif ed[0] == "noarg":
        st[2] = None
    elif ed[0] == "nosub":
        st[3] = []
    elif path:
        sibs = at(t, path[:-1])[3]
        if ed[0] == "del":
            del sibs[path[-1]]
        elif ed[0] == "dup":
            sibs.insert(path[-1], copy.deepcopy(st))
        elif ed[0] == "up":
            sibs[path[-1]:path[-1] + 1] = st[3]
        elif ed[0] == "move":
            st[3].append(copy.deepcopy(ed[1]))
    elif ed[0] == "move":
        st[3].append(copy.deepcopy(ed[1]))
    else:
        return None
    mods = dict(TEXTS)
    mods[mod] = text_of(t)
    return mods


def must_reject(mod, i, ed):
    path, st = statements(mod)[i]
    up = at(TREES[mod], path[:-1]) if path else None
    if ed[0] == "arg":
        if st[1] == "value" and up[1] != "enum":
            return False
        if st[1] == "path" or st[1] == "type" and ed[1] == "leafref" \
                or st[1] != "type":
            return ed[1] in REJECT.get(st[1], ())
        # a type with an undefined name
        return ed[1] in REJECT["type"]
    if ed[0] == "noarg":
        return st[1] not in ("input", "output")
    if ed[0] == "del" and path:
        return (up[1], st[1]) in NEEDED or (
            up[1] == "type" and (up[2], st[1]) in NEEDED)
    return False


def kinds():
    """One statement of each kind, with what it contains."""
    seen = {}
    for mod in ("a", "b", "s"):
        for _, st in statements(mod)[1:]:
            k = st[1]
            if k == "type":
                k += str(st[2])
            seen.setdefault(k, st)
    return list(seen.values())


# ----------------------------------------------------------------- cycles

def ring(n, fmt):
    """fmt(i, next) for a cycle of n definitions."""
    return " ".join(fmt(i, (i + 1) % n) for i in range(n))


CYCLES = {
    "typedef": lambda i, j: f"typedef t{i} {{ type t{j}; }}",
    "typedef-union": lambda i, j: f"typedef t{i} {{ type union {{ type uint8;"
    f" type t{j}; }} }}",
    "typedef-mixed": lambda i, j: f"typedef t{i} {{ type t{j}; }}" if i else
    f"typedef t{i} {{ type union {{ type t{j}; type string; }} }}",
    "grouping": lambda i, j: f"grouping g{i} {{ uses g{j}; }}",
    "grouping-in": lambda i, j: f"grouping g{i} {{ container c {{ leaf x {{ "
    f"type uint8; }} uses g{j}; }} }}",
    "grouping-choice": lambda i, j: f"grouping g{i} {{ choice c{i} {{ case c "
    f"{{ uses g{j} {{ when \"1\"; }} }} }} }}",
    "grouping-list": lambda i, j: f"grouping g{i} {{ list c {{ config false; "
    f"action x {{ input {{ uses g{j}; }} }} }} }}",
    "leafref": lambda i, j: f"leaf x{i} {{ type leafref {{ path \"../x{j}\"; "
    "} }",
    "leafref-abs": lambda i, j: f"leaf-list x{i} {{ type leafref {{ path "
    f"\"/a:x{j}\"; }} }}",
    "leafref-union": lambda i, j: f"leaf x{i} {{ type union {{ type uint8; "
    f"type leafref {{ path \"../x{j}\"; }} }} }}",
    "leafref-typedef": lambda i, j: f"typedef t{i} {{ type leafref {{ path "
    f"\"/a:x{j}\"; }} }} leaf x{i} {{ type t{i}; }}",
}
USES = {
    "typedef": ["leaf x { type %s; }", "leaf-list x { type %s; }",
                "container c { list l { key k; leaf k { type %s; } } }",
                "leaf x { type union { type uint8; type %s; } }",
                "typedef w { type %s; } leaf x { type w; }",
                "rpc r { input { leaf x { type %s; } } }"],
    "grouping": ["uses %s;", "container c { uses %s; }",
                 "choice ch { uses %s; }", "notification n { uses %s; }",
                 "list l { key k; leaf k { type uint8; } uses %s; }",
                 "augment /a:k { uses %s; } container k { }",
                 "grouping w { uses %s; } uses w;"],
    "leafref": ["", "leaf w { type leafref { path \"/a:x0\"; } }",
                "container c { leaf w { type leafref { path \"/a:x0\"; } } }"],
}
# not circular
LEGAL = {
    "typedef-twice": "typedef t { type uint8; } typedef t1 { type union { "
    "type t; type t2; } } typedef t2 { type t; } leaf x { type union { type "
    "t1; type t; type t2; } }",
    "scoped-typedef": "typedef t { type uint8; } container c { typedef v { "
    "type t; } container d { typedef w { type v; } leaf x { type w; } } }",
    "grouping-twice": "grouping g { leaf x { type uint8; } } grouping h { "
    "uses g; container c { uses g; } } uses h; container c2 { uses g; "
    "container c3 { uses h; } }",
    "grouping-augment": "grouping g { container x { } } uses g { augment x {"
    " uses g { augment x { uses g; } } } }",
    "grouping-nested": "grouping g { grouping h { leaf y { type uint8; } } "
    "container x { uses h; } } container c { grouping h { uses g; } uses h; "
    "}",
    "leafref-chain": "leaf x { type leafref { path ../y; } } leaf y { type "
    "leafref { path ../z; } } leaf z { type uint8; } leaf w { type leafref {"
    " path ../x; } }",
    "leafref-shared": "typedef t { type leafref { path /a:z; } } leaf x { "
    "type t; } leaf y { type union { type t; type t; type leafref { path "
    "../x; } } } leaf z { type uint8; } leaf-list w { type t; }",
    "identity-diamond": "identity i; identity j { base i; } identity k { "
    "base i; base j; } leaf x { type identityref { base i; base j; } }",
    "when-chain": "leaf x { when ../y; type uint8; } leaf y { when ../z; "
    "type uint8; } leaf z { type uint8; }",
    "must-cycle": "leaf x { must ../y; type uint8; } leaf y { must ../x; "
    "type uint8; }",
    "augment-order": "augment /a:c/a:d/a:e { leaf f { type uint8; } } "
    "augment /a:c/a:d { container e { } } augment /a:c { container d { } } "
    "container c { }",
}
CLIB = M.libtext([{"name": "a"}])


def module(body):
    return {"a": 'module a { yang-version 1.1; namespace "urn:a"; prefix a; '
            + body + " }"}


def cycle_cases():
    for kind, fmt in CYCLES.items():
        base = kind.split("-")[0]
        for n in (1, 2, 3):
            for k in range(n):
                for u in range(len(USES[base])):
                    for side in (0, 1):
                        yield ["cycle", kind, n, k, u, side]
    for name in LEGAL:
        yield ["legal", name]


def cycle_body(case):
    if case[0] == "legal":
        return LEGAL[case[1]]
    _, kind, n, k, u, side = case
    base = kind.split("-")[0]
    use = USES[base][u]
    if "%s" in use:
        use = use.replace("%s", ("t" if base == "typedef" else "g") + str(k))
    defs = ring(n, CYCLES[kind])
    return defs + " " + use if side else use + " " + defs


# ------------------------------------------------------------ exploration

def groups(tier):
    res = []
    for mod in TEXTS:
        for i in range(len(statements(mod))):
            res.append(["edit", mod, i])
            res.append(["move", mod, i])
            if tier != "quick":
                for j in range(i + 1, len(statements(mod))):
                    res.append(["edit2", mod, i, j])
    res.append(["cycles"])
    return res


def bounds(tier):
    n = sum(len(statements(m)) for m in TEXTS)
    return {"modules": f"all edits of each of {n} statements: removal, "
            "duplication, missing argument or substatements, replacement by "
            f"its substatements, {len(ARGS)} other arguments, and each of "
            f"{len(kinds())} kinds of statements in each statement" + (
                "" if tier == "quick" else "; two removals, duplications or "
                "one of 8 arguments each, in every pair of statements"),
            "cycles": "circular definitions of length 1 to 3 of "
            f"{len(CYCLES)} kinds, and {len(LEGAL)} legal models"}


PAIR = [["del"], ["dup"], ["nosub"], ["up"], ["arg", "nope"], ["arg", "c"],
        ["arg", "1"], ["arg", "u"], ["arg", "gr"]]


def group_cases(g):
    if g[0] == "edit":
        for ed in edits(g[1], g[2]):
            if g[2] or ed[0] in ("arg", "noarg", "nosub"):
                yield g + [ed]
    elif g[0] == "move":
        for st in kinds():
            yield ["edit", g[1], g[2], ["move", st]]
    elif g[0] == "edit2":
        for e1 in PAIR:
            for e2 in PAIR:
                yield g + [e1, e2]
    else:
        yield from cycle_cases()


def try_case(case):
    """(kind, message or None)."""
    if case[0] in ("cycle", "legal"):
        kind, msg = outcome(module(cycle_body(case)), CLIB, False)
        want = "rejected" if case[0] == "cycle" else "accepted"
        if not msg and kind != want:
            msg = f"{cycle_body(case)}: {kind}, expected to be {want}"
        return kind, msg and f"{case}: {msg}"
    if case[0] == "edit":
        mod, i, ed = case[1:]
        mods = edited(mod, i, ed)
        must = must_reject(mod, i, ed)
        st = statements(mod)[i][1]
        docs = not (st[1] == "when" or ed[0] == "move" and
                    ed[1][1] in ("when", "augment", "uses"))
        what = f"{mod}: {st[1]} {st[2]}: {str(ed)[:80]}"
    else:
        mod, i, j, e1, e2 = case[1:]
        mods = edited2(mod, i, j, e1, e2)
        must = False
        docs = False
        what = f"{mod}: {case[2:]}"
    if mods is None:
        return "none", None
    kind, msg = outcome(mods, LIB, docs)
    if not msg and must and kind != "rejected":
        msg = f"{kind}, expected to be rejected"
    return kind, msg and f"{what}: {msg}"


def edited2(mod, i, j, e1, e2):
    """Edits of two statements, the later one first."""
    t = copy.deepcopy(TREES[mod])
    sts = statements(mod)
    for k, ed in ((j, e2), (i, e1)):
        path = sts[k][0]
        if not path:
            return None
        st = at(t, path)
        sibs = at(t, path[:-1])[3]
        if ed[0] == "arg":
            st[2] = ed[1]
        elif ed[0] == "nosub":
            st[3] = []
        elif ed[0] == "del":
            del sibs[path[-1]]
        elif ed[0] == "dup":
            sibs.insert(path[-1], copy.deepcopy(st))
        else:
            sibs[path[-1]:path[-1] + 1] = st[3]
    return dict(TEXTS, **{mod: text_of(t)})


def run_group(g, rec):
    for case in group_cases(g):
        rec.state()
        rec.step()
        kind, msg = try_case(case)
        rec.agree(kind)
        if msg:
            rec.fail(case, msg)


def replay(case):
    return try_case(case)[1]
