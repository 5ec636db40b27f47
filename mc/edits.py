"""Reference model of instance editing (plain tree + path) and the bounded
operation alphabet shared by C01, C02 and C20."""
import copy
import json
from decimal import Decimal

from mc.models import build, module
from yangson.exceptions import YangsonException

A = module("a", """
  container c {
    leaf a { type uint8; }
    leaf q { type decimal64 { fraction-digits 1; } }
    container d {
      leaf a { type uint8; default 7; }
      leaf-list e { type uint8; }
      leaf-list f { type uint8; default 1; default 2; }
      container g { leaf a { type uint8; default 3; } }
    }
    list l {
      key k;
      leaf k { type uint8; }
      leaf v { type string; }
      container d { leaf a { type uint8; } }
    }
    leaf-list e { type uint8; }
    list nk { config false; leaf x { type uint8; } }
  }
  leaf t { type string; }
""")
B = module("b", """
  augment "/a:c" { leaf a { type uint8; } }
  augment "/a:c/a:l" { leaf w { type uint8; } }
""", imports=[("a", "a")])

_dm = None
WIDE = True


def model():
    global _dm
    if _dm is None:
        _dm = build({"a": A, "b": B})
    return _dm


# schema: template path -> (kind, {member: template}, values to write)
SCHEMA = {
    (): ("root", ["a:c", "a:t"]),
    ("a:c",): ("obj", ["a", "q", "d", "l", "e", "nk", "b:a"]),
    ("a:t",): ("str", []),
    ("a:c", "a"): ("int", []),
    ("a:c", "b:a"): ("int", []),
    ("a:c", "q"): ("dec", []),
    ("a:c", "d"): ("obj", ["a", "e"] + (["f", "g"] if WIDE else [])),
    ("a:c", "d", "f"): ("arr", []),
    ("a:c", "d", "f", "*"): ("int", []),
    ("a:c", "d", "g"): ("obj", ["a"]),
    ("a:c", "d", "g", "a"): ("int", []),
    ("a:c", "d", "a"): ("int", []),
    ("a:c", "d", "e"): ("arr", []),
    ("a:c", "d", "e", "*"): ("int", []),
    ("a:c", "l"): ("arr", []),
    ("a:c", "l", "*"): ("obj", ["k", "v", "d", "b:w"]),
    ("a:c", "l", "*", "k"): ("int", []),
    ("a:c", "l", "*", "v"): ("str", []),
    ("a:c", "l", "*", "b:w"): ("int", []),
    ("a:c", "l", "*", "d"): ("obj", ["a"]),
    ("a:c", "l", "*", "d", "a"): ("int", []),
    ("a:c", "e"): ("arr", []),
    ("a:c", "e", "*"): ("int", []),
    ("a:c", "nk"): ("arr", []),
    ("a:c", "nk", "*"): ("obj", ["x"]),
    ("a:c", "nk", "*", "x"): ("int", []),
}
# raw replacement values per template (None: use kind default)
VALUES = {
    (): [{"a:t": "r"}],
    ("a:c",): [{"b:a": 5, "e": [8]}],
    ("a:c", "d"): [{"e": [4, 5]}],
    ("a:c", "d", "e"): [[6]],
    ("a:c", "d", "f"): [[6]],
    ("a:c", "d", "g"): [{"a": 1}],
    ("a:c", "l"): [[{"k": 8, "b:w": 1}], []],
    ("a:c", "l", "*"): [{"k": 9, "v": "n"}],
    ("a:c", "l", "*", "d"): [{}],
    ("a:c", "e"): [[3, 1]],
    ("a:c", "nk"): [[{"x": 7}]],
    ("a:c", "nk", "*"): [{"x": 6}],
}
# raw values to merge per template
MERGES = {
    (): [{"a:t": "m"}, {"a:c": {"e": [9, 1]}}, {"a:c": {"d": {}}}],
    ("a:c",): [{"e": [9]}, {"b:a": 7}, {"l": [{"k": 1, "v": "m"}, {"k": 9}]},
               {"d": {"e": [2]}, "a": 3}],
    ("a:c", "d"): [{"a": 5}, {"e": [4, 9]}, {"f": [1, 5]}],
    ("a:c", "d", "e"): [[9], [1, 4, 9]],
    ("a:c", "d", "f"): [[9]],
    ("a:c", "d", "g"): [{"a": 2}],
    ("a:c", "l"): [[{"k": 9}], [{"k": 1, "v": "m"}],
                   [{"k": 3, "b:w": 0}, {"k": 7}]],
    ("a:c", "l", "*"): [{"v": "m"}, {"d": {"a": 8}}],
    ("a:c", "l", "*", "d"): [{"a": 8}],
    ("a:c", "e"): [[9], [3, 9]],
    ("a:c", "nk"): [[{"x": 5}]],
    ("a:c", "nk", "*"): [{"x": 5}],
}
KINDVAL = {"int": [9], "str": ["z"], "dec": ["2.5"]}

DOCS = [
    {},
    {"a:c": {}},
    {"a:c": {"a": 1, "b:a": 2, "q": "1.5", "d": {"a": 0}, "e": [1, 2, 3]},
     "a:t": "x"},
    {"a:c": {"l": [{"k": 1, "v": "p"}, {"k": 2, "d": {"a": 3}, "b:w": 4},
                   {"k": 3}], "nk": [{"x": 1}, {}]}},
    {"a:t": "", "a:c": {"e": [5], "l": [{"k": 0}], "d": {"e": [1, 1]}}},
]


def tmpl(path):
    return tuple("*" if isinstance(k, int) else k for k in path)


def values(path):
    t = tmpl(path)
    return VALUES.get(t) or KINDVAL[SCHEMA[t][0]]


def get(tree, path):
    for k in path:
        tree = tree[k]
    return tree


def put(tree, path, val):
    """Copy of tree with val at path."""
    if not path:
        return val
    res = list(tree) if isinstance(tree, list) else dict(tree)
    res[path[0]] = put(tree[path[0]], path[1:], val)
    return res


class Err(Exception):
    """Expected error; args: acceptable exception class names."""


NEI = ("NonexistentInstance",)
NES = ("NonexistentSchemaNode",)
IVE = ("InstanceValueError",)


def alias(path, name):
    """Strip a redundant module prefix from a member name."""
    p, s, loc = name.partition(":")
    ns = None
    for k in path:
        if isinstance(k, str) and ":" in k:
            ns = k.partition(":")[0]
    return loc if s and p == ns else name


def apply(state, op):
    """Model transition; state = (tree, path)."""
    tree, path = state
    o = op[0]
    cur = get(tree, path)
    kind, members = SCHEMA[tmpl(path)]
    if o == "m":
        if isinstance(cur, dict):
            name = alias(path, op[1])
            if name not in members:
                raise Err(*(NEI + NES))
            if name not in cur:
                raise Err(*NEI)
            return (tree, path + (name,))
        if isinstance(cur, list):
            raise Err(*NEI)
        raise Err(*IVE)
    if o == "e":
        if isinstance(cur, list):
            i = op[1]
            if not -len(cur) <= i < len(cur):
                raise Err(*NEI)
            return (tree, path + (i % len(cur),))
        if isinstance(cur, dict):
            raise Err("NonexistentInstance", "NonexistentSchemaNode")
        raise Err(*IVE)
    if o == "up":
        if not path:
            raise Err(*NEI)
        return (tree, path[:-1])
    if o == "top":
        return (tree, ())
    if o == "sib":
        name = alias(path[:-1], op[1])
        if name not in SCHEMA[tmpl(path[:-1])][1]:
            raise Err(*NES)
        par = get(tree, path[:-1])
        if name not in par or name == path[-1]:
            raise Err(*NEI)
        return (tree, path[:-1] + (name,))
    if o in ("next", "prev"):
        par = get(tree, path[:-1])
        i = path[-1] + (1 if o == "next" else -1)
        if not 0 <= i < len(par):
            raise Err(*NEI)
        return (tree, path[:-1] + (i,))
    if o in ("insb", "insa"):
        par = list(get(tree, path[:-1]))
        i = path[-1] + (o == "insa")
        par.insert(i, op[1])
        return (put(tree, path[:-1], par), path[:-1] + (i,))
    if o == "upd":
        return (put(tree, path, op[1]), path)
    if o == "put":
        if not isinstance(cur, dict):
            raise Err(*IVE)
        name = alias(path, op[1])
        if name not in members:
            raise Err(*NES)
        new = dict(cur)
        new[name] = op[2]
        return (put(tree, path, new), path + (name,))
    if o == "del":
        k = op[1]
        if isinstance(cur, dict):
            k = alias(path, k) if isinstance(k, str) else k
            if k not in cur:
                raise Err(*NEI)
            return (put(tree, path, {x: y for x, y in cur.items()
                                     if x != k}), path)
        if isinstance(cur, list):
            if not isinstance(k, int) or not -len(cur) <= k < len(cur):
                raise Err(*NEI)
            new = list(cur)
            del new[k]
            return (put(tree, path, new), path)
        raise Err(*IVE)
    if o == "look":
        if kind != "arr" or SCHEMA[tmpl(path) + ("*",)][0] != "obj":
            raise Err(*IVE)
        for i, en in enumerate(cur):
            if all(x in en and en[x] == y for x, y in op[1].items()):
                return (tree, path + (i,))
        raise Err(*NEI)
    raise AssertionError(op)


def menu(state, full=True):
    """All operations offered in a state (also failing ones)."""
    tree, path = state
    cur = get(tree, path)
    t = tmpl(path)
    kind, members = SCHEMA[t]
    res = [["up"], ["top"]]
    if isinstance(cur, dict):
        res += [["m", m] for m in members]
        res += [["m", "zz"]]
        q = "a:" + members[0] if path and ":" not in members[0] else None
        if q:
            res.append(["m", q])
        for m in members:
            for v in values(path + (m,))[:1]:
                res.append(["put", m, v, True])
                if full:
                    res.append(["put", m, v, False])
        res += [["put", "zz", 1, False], ["del", "zz"]]
        if full and q:
            res += [["put", q, 6, True]]
        res += [["del", m] for m in cur]
    elif isinstance(cur, list):
        n = len(cur)
        res += [["e", i] for i in range(-n - 1, n + 1)]
        res += [["del", i] for i in (range(-n - 1, n + 1) if full
                                     else (0, n - 1, n))]
        res += [["m", "zz"], ["del", "zz"]]
        if SCHEMA[t + ("*",)][0] == "obj":
            key = SCHEMA[t + ("*",)][1][0]
            for v in (1, 2, 9):
                for raw in (True, False):
                    res.append(["look", {key: v}, raw])
            if full and key == "k":
                res += [["look", {"k": 2, "b:w": 4}, True],
                        ["look", {"v": "n"}, False], ["look", {}, False]]
        elif full:
            res.append(["look", {"k": 1}, False])
        if full:
            res.append(["put", "zz", 1, False])
    else:
        if full:
            res += [["m", "zz"], ["e", 0], ["put", "zz", 1, False],
                    ["del", "zz"], ["look", {"k": 1}, False]]
    for v in values(path):
        res += [["upd", v, True]]
        if full:
            res += [["upd", v, False]]
    if path:
        if isinstance(path[-1], int):
            v = values(path)[0]
            res += [["next"], ["prev"]]
            for o in ("insb", "insa"):
                res += [[o, v, True]]
                if full:
                    res += [[o, v, False]]
        else:
            sm = SCHEMA[tmpl(path[:-1])][1]
            res += [["sib", m] for m in sm]
            res += [["sib", "zz"]]
    return res


_cooked = {}


def cook(path, raw):
    """Cooked value for a template path, obtained by reading a document."""
    t = tmpl(path)
    k = (t, json.dumps(raw, sort_keys=False))
    # built anew each time: cooked values are mutable and must not be shared
    doc = raw
    for x in reversed(t):
        doc = [doc] if x == "*" else {x: doc}
    if t and t[:4] == ("a:c", "l", "*", "k"):
        pass
    v = model().from_raw(doc).value
    for x in t:
        v = v[0] if x == "*" else v[x]
    return v


def execute(node, path, op):
    """Implementation transition; path is the node's position."""
    o = op[0]
    if o in ("m", "e"):
        return node[op[1]]
    if o == "up":
        return node.up()
    if o == "top":
        return node.top()
    if o == "sib":
        return node.sibling(op[1])
    if o == "next":
        return node.next()
    if o == "prev":
        return node.previous()
    if o in ("insb", "insa"):
        v = copy.deepcopy(op[1]) if op[2] else cook(path, op[1])
        return (node.insert_before if o == "insb" else
                node.insert_after)(v, raw=op[2])
    if o == "upd":
        v = copy.deepcopy(op[1]) if op[2] else cook(path, op[1])
        return node.update(v, raw=op[2])
    if o == "put":
        if op[3]:
            v = copy.deepcopy(op[2])
        elif op[1] == "zz":
            v = op[2]
        else:
            v = cook(path + (alias(path, op[1]),), op[2])
        return node.put_member(op[1], v, raw=op[3])
    if o == "del":
        return node.delete_item(op[1])
    if o == "look":
        kw = dict(op[1])
        if op[2]:
            return node.look_up(True, **kw)
        return node.look_up(**kw)
    raise AssertionError(op)


def same(a, b):
    """Strict JSON equality (types matter, member order does not)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def raw_of(v):
    """Plain form of a cooked value of this schema."""
    if isinstance(v, dict):
        return {k: raw_of(x) for k, x in v.items()}
    if isinstance(v, list):
        return [raw_of(x) for x in v]
    if isinstance(v, Decimal):
        return str(v)
    return v


def fingerprint(node):
    """Implementation state of a node: keys and values on the whole chain."""
    res = []
    while node is not None:
        res.append((node.path[-1:] , json.dumps(raw_of(node.value))))
        node = node.parinst
    return tuple(res)


def observe_diff(node, state):
    """Compare a node with the model state; None or a message."""
    tree, path = state
    cur = get(tree, path)
    if tuple(node.path) != path:
        return f"path is {node.path!r}, expected {path!r}"
    if path and node.json_pointer() != "/" + "/".join(map(str, path)):
        return f"JSON pointer {node.json_pointer()!r}"
    if not same(raw_of(node.value), cur):
        return f"value {raw_of(node.value)!r}, expected {cur!r}"
    if path:
        names = [k for k in path if isinstance(k, str)]
        if node.name != names[-1]:
            return f"name {node.name!r}, expected {names[-1]!r}"
        ns = [k.partition(":")[0] for k in names if ":" in k][-1]
        if node.namespace != ns:
            return f"namespace {node.namespace!r}, expected {ns!r}"
        if tuple(node.qual_name) != (names[-1].rpartition(":")[2], ns):
            return f"qualified name {node.qual_name!r}"
        if isinstance(path[-1], int) and node.index != path[-1]:
            return f"index {node.index}"
    if isinstance(cur, dict):
        if sorted(node) != sorted(cur):
            return f"members {sorted(node)}, expected {sorted(cur)}"
    elif isinstance(cur, list):
        ents = [(tuple(e.path), raw_of(e.value)) for e in node]
        exp = [(path + (i,), v) for i, v in enumerate(cur)]
        if len(ents) != len(exp) or not all(
                p == q and same(v, w) for (p, v), (q, w) in zip(ents, exp)):
            return f"iteration gives {ents!r}, expected {exp!r}"
    top = node.top()
    if not same(raw_of(top.value), tree):
        return f"document {raw_of(top.value)!r}, expected {tree!r}"
    if not same(top.raw_value(), tree):
        return f"raw document {top.raw_value()!r}, expected {tree!r}"
    if path and node.is_internal() != (
            SCHEMA[tmpl(path)][0] == "obj" or
            SCHEMA[tmpl(path) + ("*",)][0] == "obj"
            if SCHEMA[tmpl(path)][0] in ("obj", "arr") else False):
        return f"is_internal() is {node.is_internal()}"
    return None


def start_paths(doc):
    """All node positions of a document."""
    res = []

    def walk(v, p):
        res.append(p)
        if isinstance(v, dict):
            for k in v:
                walk(v[k], p + (k,))
        elif isinstance(v, list):
            for i in range(len(v)):
                walk(v[i], p + (i,))
    walk(doc, ())
    return res


def start(doc, path):
    node = model().from_raw(copy.deepcopy(doc))
    for k in path:
        node = node[k]
    return node
