"""C03: merging follows the documented rules (reference merge on plain JSON)."""
import copy
import itertools
import json

from mc import edits as E
from mc.models import build, module

PROPERTY = "C03"
NO = object()

A = module("a", """
  typedef u { type union { type boolean; type uint8; type string; } }
  container c {
    leaf a { type uint8; default 7; }
    leaf b { type boolean; }
    leaf q { type decimal64 { fraction-digits 2; } }
    leaf-list e { type uint8; }
    leaf-list s { type string; ordered-by user; }
    list l {
      key "k j"; leaf k { type uint8; } leaf j { type string; }
      leaf v { type int8; }
      container d { leaf a { type uint8; } leaf z { type empty; } }
      leaf-list e { type decimal64 { fraction-digits 1; } }
      list i { key k; leaf k { type int8; } leaf v { type string; } }
    }
    list o { key k; ordered-by user; leaf k { type union {
        type uint8; type string; } } leaf v { type string; } }
    leaf-list ue { type u; }
    list ul { key "k j"; leaf k { type u; } leaf j { type uint8; }
      leaf v { type uint8; } leaf w { type uint8; } }
    list nk { config false; leaf x { type uint8; } }
    leaf-list ns { config false; type uint8; }
    container p { presence x; leaf a { type uint8; } }
    anydata ad;
  }
  leaf t { type string; }
  list tl { key k; leaf k { type string; } leaf v { type uint8; } }
""")
B = module("b", """
  augment "/a:c" { leaf a { type uint8; } container d { leaf x {
     type int8; } } }
  augment "/a:c/a:l" { leaf w { type uint8; } }
""", imports=[("a", "a")])

_dm = None


def model():
    global _dm
    if _dm is None:
        _dm = build({"a": A, "b": B})
    return _dm


LISTKEYS = {("a:c", "l"): ["k", "j"], ("a:c", "o"): ["k"],
            ("a:c", "ul"): ["k", "j"], ("a:c", "nk"): [], ("a:tl",): ["k"],
            ("a:c", "l", "*", "i"): ["k"]}
ANY = {("a:c", "ad")}


def keyval(en, keys):
    """Identity of a list entry (None if a key is missing)."""
    return json.dumps([en[k] for k in keys]) if all(
        k in en for k in keys) else None


def ref(t, recv, arg):
    """Reference merge on JSON values at template path t."""
    if t in ANY:
        return arg
    if isinstance(recv, dict) and isinstance(arg, dict):
        res = dict(recv)
        for k, v in arg.items():
            res[k] = ref(t + (k,), recv[k], v) if k in recv else v
        return res
    if isinstance(recv, list) and isinstance(arg, list):
        if t in LISTKEYS:
            keys = LISTKEYS[t]
            if not keys:
                return recv + arg
            kv = [keyval(en, keys) for en in recv]
            res = list(recv)
            for en in arg:
                k = keyval(en, keys)
                if k is not None and k in kv:
                    i = kv.index(k)
                    res[i] = ref(t + ("*",), res[i], en)
                else:
                    res.append(en)
            return res
        return recv + [x for x in arg
                       if not any(E.same(x, y) for y in recv)]
    return arg


L1 = [{"k": 1, "j": "x"}]
OPTS = {
    "a": [NO, 0, 1], "b": [NO, False, True], "q": [NO, "0.0", "1.25"],
    "e": [NO, [], [0], [1, 0], [2, 0, 3]],
    "s": [NO, [""], ["b", "a"], ["a", "c", ""]],
    "l": [NO, [], L1, [{"k": 1, "j": "x", "v": 0}],
          [{"k": 1, "j": "y", "v": -1}, {"k": 1, "j": "x", "v": 2}],
          [{"k": 0, "j": "", "b:w": 0}, {"k": 1, "j": "x", "d": {"a": 0}}],
          [{"k": 1, "j": "x", "d": {"z": [None]}, "e": ["0.5"]}],
          [{"k": 1, "j": "x", "e": ["1.0", "0.5"], "b:w": 3},
           {"k": 0, "j": ""}],
          [{"k": 1, "j": "x", "i": [{"k": -1, "v": "p"}]}],
          [{"k": 1, "j": "x", "i": [{"k": -2}, {"k": -1, "v": "q"}]}]],
    "o": [NO, [{"k": 1}], [{"k": "1x", "v": ""}, {"k": 1, "v": "r"}],
          [{"k": 2}, {"k": 0}], [{"k": 0, "v": "m"}, {"k": "", "v": "n"},
                                 {"k": 2, "v": "o"}]],
    "nk": [NO, [{"x": 1}], [{"x": 1}, {"x": 2}]],
    "ns": [NO, [1], [2, 1]],
    "p": [NO, {}, {"a": 0}, {"a": 2}],
    "ad": [NO, {}, {"x": 1, "y": {"z": [1]}}, {"x": {"q": 1}}],
    "b:a": [NO, 0, 5], "b:d": [NO, {}, {"x": -1}],
}
COMBOS_Q = [("a", "b", "q"), ("e",), ("s", "e"), ("l",), ("l", "e"), ("o",),
            ("nk",), ("ns",), ("p", "ad"), ("b:a", "b:d", "a"),
            ("o", "l"), ("p", "nk"), ("ad", "s")]
COMBOS_T = COMBOS_Q + [("l", "o", "e"), ("l", "p", "b:d"), ("a", "l", "s"),
                       ("e", "s", "o", "a"), ("l", "nk", "ad", "b:a"),
                       ("l", "e", "b", "p")]
SEQS = {  # universes of entries; all sequences without repetition
    "l": [{"k": 1, "j": "x"}, {"k": 1, "j": "y"}, {"k": 0, "j": "x"},
          {"k": 0, "j": "", "v": 0}, {"k": 2, "j": "x"}],
    "o": [{"k": 1}, {"k": "1x", "v": ""}, {"k": 0}, {"k": ""}],
    "e": [0, 1, 2, 3], "s": ["", "a", "b", "0"],
    "nk": [{"x": 0}, {"x": 1}, {}, {"x": 2}], "ns": [0, 1, 2, 3],
    "ue": [1, True, 0, False, "1 "],
    "ul": [{"k": 1, "j": 0, "v": 1}, {"k": True, "j": 0, "w": 2},
           {"k": False, "j": 1}, {"k": 0, "j": 0}, {"k": 0, "j": 1, "v": 3}],
    "pl": [{"k": 1, "v": 1}, {"j": "x", "v": 2}, {"k": 1, "j": "x"},
           {"v": 3}, {"k": 2, "j": "x", "v": 4}],
}
TOPOPTS = {"a:t": [NO, "", "x"],
           "a:tl": [NO, [{"k": ""}], [{"k": "p", "v": 0}, {"k": "", "v": 1}]],
           "a:c": [NO, {}, {"a": 0}, {"e": [1]}]}


def combos(opts, names):
    for c in itertools.product(*[opts[n] for n in names]):
        yield {n: v for n, v in zip(names, c) if v is not NO}


def docs(spec):
    if spec[0] == "seq":
        _, name, n, k = spec
        member = {"pl": "l"}.get(name, name)
        return [{"a:c": {member: list(c)}} for i in range(k + 1)
                for c in itertools.permutations(SEQS[name][:n], i)]
    if spec == "top":
        return list(combos(TOPOPTS, list(TOPOPTS)))
    return [{"a:c": d} for d in combos(OPTS, spec)]


def bounds(tier):
    return ("all ordered pairs of documents over each member combination; "
            "all pairs of lists "
            "and leaf-lists of up to 3 (4) of 4 (5) entries in any order; "
            "merged at the root, at every common inner node and at every "
            "matching entry, with raw and cooked argument, and twice")


def groups(tier):
    res = []
    seqs = [["seq", n, 4, 3 if tier == "quick" else 4] for n in SEQS]
    if tier != "quick":
        seqs.append(["seq", "l", 5, 4])
    for spec in ["top"] + seqs + [list(c) for c in
                           (COMBOS_Q if tier == "quick" else COMBOS_T)]:
        n = len(docs(spec))
        step = max(1, min(n, 1500 // n))
        res += [[spec, i, min(i + step, n)] for i in range(0, n, step)]
    return res


def stable(t, arg):
    """Is merging arg at template path t idempotent (all entries have keys)?"""
    if t in ANY:
        return True
    if isinstance(arg, dict):
        return all(stable(t + (k,), v) for k, v in arg.items())
    if isinstance(arg, list) and t in LISTKEYS:
        keys = LISTKEYS[t]
        return bool(keys) and all(
            keyval(en, keys) is not None and stable(t + ("*",), en)
            for en in arg)
    return True


def order_same(a, b):
    """E.same on documents (member order is insignificant)."""
    return E.same(a, b)


def trial(recv, arg, path, raw):
    """Merge arg's value at path into recv at path."""
    dm = model()
    root = dm.from_raw(copy.deepcopy(recv))
    node = root
    for k in path:
        node = node[k]
    rv = E.get(recv, path)
    av = arg
    exp_node = ref(tuple("*" if isinstance(k, int) else k for k in path),
                   rv, av)
    before = node.raw_value() if not isinstance(rv, list) else None
    if raw:
        given = copy.deepcopy(av)
    else:
        doc = av
        for k in reversed(path):
            doc = [doc] if isinstance(k, int) else {k: doc}
        given = dm.from_raw(copy.deepcopy(doc)).value
        for k in path:
            given = given[0] if isinstance(k, int) else given[k]
    given0 = copy.deepcopy(given)
    res = node.merge(given, raw=raw)
    if tuple(res.path) != tuple(path):
        return f"result at {res.path}"
    exp_doc = E.put(recv, tuple(path), exp_node)
    got = res.top().raw_value()
    if not order_same(got, exp_doc):
        return f"merged document {got!r}, expected {exp_doc!r}"
    if res.top().value != dm.from_raw(copy.deepcopy(exp_doc)).value:
        return "merged value differs from the cooked expected document"
    if not order_same(root.raw_value(), recv):
        return f"receiver changed to {root.raw_value()!r}"
    if node.top().value != root.value:
        return "receiver node changed"
    if given != given0 or type(given) is not type(given0):
        return f"argument changed to {given!r}"
    if stable(tuple("*" if isinstance(k, int) else k for k in path), av):
        again = res.merge(given, raw=raw).top().raw_value()
        if not order_same(again, exp_doc):
            return f"second merge gives {again!r}, expected {exp_doc!r}"
    return None


def positions(recv, arg):
    """(path, argument) pairs for all nodes present on both sides."""
    res = []

    def walk(t, path, r, a):
        res.append((path, a))
        if t in ANY:
            return
        if isinstance(r, dict) and isinstance(a, dict):
            for k in r:
                if k in a:
                    walk(t + (k,), path + [k], r[k], a[k])
        elif isinstance(r, list) and isinstance(a, list) and t in LISTKEYS:
            keys = LISTKEYS[t]
            for i, en in enumerate(r):
                for fn in a:
                    if keys and keyval(en, keys) is not None and keyval(
                            en, keys) == keyval(fn, keys):
                        walk(t + ("*",), path + [i], en, fn)
    walk((), [], recv, arg)
    return res


def run_group(group, rec):
    spec, lo, hi = group
    ds = docs(spec)
    for recv in ds[lo:hi]:
        for arg in ds:
            rec.state()
            for path, a in positions(recv, arg):
                for raw in (True, False):
                    rec.step()
                    case = {"recv": recv, "arg": a, "path": path, "raw": raw}
                    try:
                        msg = trial(recv, a, path, raw)
                    except Exception as e:
                        msg = f"merge failed: {e!r}"
                    rec.agree("at depth %d" % len(path))
                    if msg:
                        rec.fail(case, f"{case}: {msg}")
        rec.sample({"recv": recv, "arg": ds[-1]})


def replay(case):
    return trial(case["recv"], case["arg"], case["path"], case["raw"])
