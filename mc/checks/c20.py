"""C20: equality and hashing of structured values; timestamps."""
import copy
import itertools
from datetime import datetime
from decimal import Decimal

from mc import edits as E
from mc.checks import c01
from mc.models import build, module
from yangson.exceptions import YangsonException
from yangson.instvalue import ArrayValue, ObjectValue, StructuredValue

PROPERTY = "C20"

SCALARS = [0, 1, -1, -2, 2, True, False, "", "1", "a", "b", Decimal(1),
           Decimal("-1.5"), (None,), b"a", ("a", "b"), ("b", "a")]
FEW = [0, -1, -2, "", "a"]


def bounds(tier):
    return ("all pairs of arrays (length <= 2/3) and objects (<= 2 members) "
            "over the scalar alphabet, nested to depth 2/3; all edit "
            "sequences of length <= 3 (4 thorough) for timestamps")


def flat(scal, n):
    for k in range(n + 1):
        for c in itertools.product(scal, repeat=k):
            yield ["A", list(c)]
    for k in range(n + 1):
        for names in itertools.combinations(["a", "b", "c"], k):
            for c in itertools.product(scal, repeat=k):
                yield ["O", list(zip(names, c))]


def population(which):
    if which == 0:
        return list(flat(SCALARS, 1)) + [
            ["A", list(c)] for c in itertools.product(SCALARS, repeat=2)]
    if which == 1:
        return list(flat(FEW, 2)) + [
            ["A", list(c)] for c in itertools.product(FEW, repeat=3)]
    inner = list(flat([0, -1, "a"], 1)) + [["A", [0, -1]], ["A", [-1, 0]]]
    res = []
    for x in inner:
        res += [["A", [x]], ["O", [("a", x)]], ["O", [("b", x)]],
                ["A", [["A", [x]]]], ["O", [("a", ["O", [("a", x)]])]]]
    for x, y in itertools.product(inner, repeat=2):
        res += [["A", [x, y]], ["O", [("a", x), ("b", y)]]]
    return res


def mk(d, variant):
    """Build a value; variants differ in construction order and history."""
    if isinstance(d, list):
        kind, body = d
        if kind == "A":
            vals = [mk(x, variant) for x in body]
            if variant == 0:
                return ArrayValue(vals)
            res = ArrayValue(vals + [0], datetime(2020, 1, 1))
            del res[-1]
            return res.copy()
        items = [(k, mk(x, variant)) for k, x in body]
        if variant == 0:
            return ObjectValue(dict(items))
        res = ObjectValue({"zz": 1}, datetime(2020, 1, 1))
        for k, x in reversed(items):
            res[k] = x
        del res["zz"]
        return res.copy()
    return d


def refeq(a, b):
    """(equal, exact): exact is False if only scalar types differ."""
    if isinstance(a, list) != isinstance(b, list):
        return False, True
    if not isinstance(a, list):
        if type(a) is not type(b):
            return (False, False) if a == b else (False, True)
        return a == b, True
    if a[0] != b[0] or len(a[1]) != len(b[1]):
        return False, True
    if a[0] == "O":
        xs, ys = sorted(a[1]), sorted(b[1])
        if [k for k, _ in xs] != [k for k, _ in ys]:
            return False, True
        rs = [refeq(x, y) for (_, x), (_, y) in zip(xs, ys)]
    else:
        rs = [refeq(x, y) for x, y in zip(a[1], b[1])]
    if all(r[0] for r in rs):
        return True, True
    if any(not r[0] and r[1] for r in rs):
        return False, True
    return False, False


def sortable(d):
    return d


def typepair(a, b):
    if isinstance(a, list):
        xs = sorted(a[1], key=str) if a[0] == "O" else a[1]
        ys = sorted(b[1], key=str) if b[0] == "O" else b[1]
        for x, y in zip(xs, ys):
            if a[0] == "O":
                x, y = x[1], y[1]
            r = typepair(x, y)
            if r:
                return r
        return None
    if type(a) is not type(b):
        return "-".join(sorted((type(a).__name__, type(b).__name__)))
    return None


def groups(tier):
    res = [["eq", w, i, 8] for w in (0, 1, 2) for i in range(8)]
    for i, d in enumerate(E.DOCS):
        for p in E.start_paths(d):
            res.append(["ts", i, list(p), 3 if tier == "quick" else 4])
    res.append(["api"])
    return res


def pair_check(a, b, va, vb):
    exp, exact = refeq(a, b)
    got, got2, ne = va == vb, vb == va, va != vb
    if got == exp and got2 == exp and ne == (not exp):
        if exp and hash(va) != hash(vb):
            return {"a": str(a), "b": str(b)}, "equal values, unequal hashes"
        return None, None
    if not exact:
        return ({"key": "numeric-" + typepair(a, b)},
                f"{va!r} == {vb!r} although the scalar types differ")
    return ({"a": a, "b": b},
            f"{va!r} == {vb!r}: {got}/{got2}, != is {ne}, expected {exp}")


def eq_group(w, i, n, rec):
    pop = population(w)
    v0 = [mk(d, 0) for d in pop]
    v1 = [mk(d, 1) for d in pop]
    for j in range(i, len(pop), n):
        rec.state()
        for k in range(j, len(pop)):
            rec.step()
            case, msg = pair_check(pop[j], pop[k], v0[j], v1[k])
            rec.agree(refeq(pop[j], pop[k])[0])
            if msg:
                rec.fail(case, msg)
    rec.sample({"value": str(pop[i])})


def walk_up(node, op, t1, depth):
    """Message if timestamps are wrong on the way from node to the root.

    Nodes at most `depth` steps below the root were modified at t1.
    """
    prev = None
    cur = node
    while True:
        if t1 and len(cur.path) <= depth:
            if not t1 <= cur.timestamp:
                return (f"after {op} node {cur.path} reached from "
                        f"{node.path} has timestamp "
                        f"{cur.timestamp}, edit made at {t1}")
            if cur is not node and not t1 <= cur.value.timestamp:
                return (f"after {op} value at {cur.path} reached from "
                        f"{node.path} has timestamp "
                        f"{cur.value.timestamp}, edit made at {t1}")
        if prev is not None and cur.timestamp < prev:
            return f"timestamp decreases above {cur.path}"
        prev = cur.timestamp
        if not cur.path:
            return None
        cur = cur.up()


def ts_trial(doc, path, ops):
    """Message if timestamps are wrong after the last op."""
    node, state = E.start(doc, path), (doc, tuple(path))
    for op in ops[:-1]:
        node = c01.execute(node, state[1], op, [])
        state = c01.state_of(node)
    op = ops[-1]
    given = None
    if op[0] == "upd" and not op[2]:
        given = E.cook(state[1], op[1])
    old = node.top()
    t0 = datetime.now()
    while True:
        t1 = datetime.now()
        if t1 > t0:
            break
    try:
        if given is not None:
            res = node.update(given)
        else:
            res = c01.execute(node, state[1], op, [])
    except YangsonException:
        return "skip", None
    if res is None:
        return "skip", None
    edits = op[0] in ("insb", "insa", "upd", "put", "del", "merge")
    if op[0] == "merge":
        same = E.same(E.raw_of(res.top().value), E.raw_of(old.value))
        edits = edits and not same
    msg = walk_up(res, op, t1 if edits else None, len(res.path))
    if msg:
        return None, msg
    # down to every descendant and up again
    n = len(res.path)
    todo = [res]
    while todo:
        cur = todo.pop()
        if isinstance(cur.value, StructuredValue):
            kids = (cur.value if isinstance(cur.value, ObjectValue)
                    else range(len(cur.value)))
            todo += [cur[k] for k in kids]
        else:
            msg = walk_up(cur, op, t1 if edits else None, n)
            if msg:
                return None, msg
    if edits:
        # via the root, along each path that is not affected by the edit
        top = res.top()
        for p in E.start_paths(doc) + [res.path]:
            try:
                cur = top
                for k in p:
                    cur = cur[k]
            except YangsonException:
                continue
            common = 0
            for x, y in zip(p, res.path):
                if x != y:
                    break
                common += 1
            msg = walk_up(cur, op, t1, common)
            if msg:
                return None, msg
    return ("edit" if edits else "nav"), None


def ts_group(di, path, dep, rec):
    doc = E.DOCS[di]
    frontier = [[]]
    seen = set()
    for d in range(dep):
        nxt = []
        for hist in frontier:
            node, state = E.start(doc, path), (doc, tuple(path))
            for op in hist:
                node = c01.execute(node, state[1], op, [])
                state = c01.state_of(node)
            for op in c01.menu(state, "edit"):
                if op[0] == "defs":
                    continue
                oc, msg = ts_trial(doc, path, hist + [op])
                rec.step()
                rec.agree(oc)
                if msg:
                    rec.fail({"doc": di, "path": path, "ops": hist + [op]},
                             msg)
                elif oc != "skip" and d + 1 < dep:
                    new = c01.execute(node, state[1], op, [])
                    if new is not None:
                        fp = E.fingerprint(new)
                        if fp not in seen:
                            seen.add(fp)
                            rec.state()
                            nxt.append(hist + [op])
        frontier = nxt


def api_group(rec):
    """Item assignment updates the timestamp; equality via documents."""
    old = datetime(2001, 1, 1)
    for v, k in ((ArrayValue([1, 2], old), 0), (ObjectValue({"a": 1}, old),
                                                "a"),
                 (ObjectValue({}, old), "b")):
        t = datetime.now()
        v[k] = 5
        rec.check(v.timestamp >= t, {"setitem": type(v).__name__},
                  "item assignment did not update the timestamp")
        rec.step()
        rec.state()
        c = v.copy()
        rec.check(c == v and type(c) is type(v) and c.timestamp >= t,
                  {"copy": type(v).__name__}, "copy differs")
        c[k] = 6
        rec.check(c != v and v[k] == 5, {"copyset": type(v).__name__},
                  "copy shares content")
    # member order of documents
    docs = E.DOCS
    for i, d in enumerate(docs):
        def rev(x):
            if isinstance(x, dict):
                return {k: rev(x[k]) for k in reversed(list(x))}
            if isinstance(x, list):
                return [rev(y) for y in x]
            return x
        for j, e in enumerate(docs):
            a = E.model().from_raw(copy.deepcopy(d)).value
            b = E.model().from_raw(rev(copy.deepcopy(e))).value
            rec.step()
            rec.check((a == b) == (i == j) and (a != b) == (i != j),
                      {"docs": [i, j]}, f"documents {i} and {j}: ==")
            if i == j:
                rec.check(hash(a) == hash(b), {"dochash": [i, j]},
                          "hash depends on member order")


def run_group(group, rec):
    if group[0] == "eq":
        eq_group(*group[1:], rec)
    elif group[0] == "ts":
        ts_group(*group[1:], rec)
    else:
        api_group(rec)


def tup(d):
    return d


def replay(case):
    if "ops" in case:
        return ts_trial(E.DOCS[case["doc"]], case["path"], case["ops"])[1]
    if "a" in case:
        return pair_check(case["a"], case["b"], mk(case["a"], 0),
                          mk(case["b"], 1))[1]
    return None
