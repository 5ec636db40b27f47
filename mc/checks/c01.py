"""C01: no operation alters an older node or value."""
import copy
import json

from mc import edits as E
from yangson.enumerations import ContentType, ValidationScope
from yangson.exceptions import YangsonException

PROPERTY = "C01"
CT = {"c": ContentType.config, "n": ContentType.nonconfig,
      "a": ContentType.all}


def bounds(tier):
    return ("all sequences of 2 operations (full alphabet) and of 3 "
            "operations (edit alphabet), each applied to any node obtained "
            "so far, from every node of the documents; thorough: 3 full / "
            "4 edit")


def groups(tier):
    res = []
    for i, d in enumerate(E.DOCS):
        for p in E.start_paths(d):
            if tier == "quick":
                plan = [("full", 2), ("edit", 3)]
            else:
                plan = [("full", 3), ("edit", 3), ("core", 4)]
            res += [[i, list(p), alpha, dep] for alpha, dep in plan]
    return res


def menu(state, alpha):
    tree, path = state
    res = []
    for m in E.MERGES.get(E.tmpl(path), E.values(path)):
        res.append(["merge", m, True])
        if alpha != "core":
            res.append(["merge", m, False])
    res += [["defs", "a", False]]
    if alpha == "core":
        res = res[:2] + res[-1:]
    if alpha == "full":
        res += [["defs", None, False], ["defs", "a", True],
                ["defs", "c", True], ["val", "a"], ["val", "c"], ["raw"],
                ["iter"], ["hash"], ["route"], ["peek"], ["xpath"]]
        if path and not (isinstance(E.get(tree, path), list)):
            res += [["xml"]]
        res += E.menu(state)
    else:
        for op in E.menu(state, full=False):
            if op[0] in ("m", "sib") and op[1] in ("zz",):
                continue
            if op[0] in ("put", "del") and op[1] == "zz":
                continue
            if alpha == "core" and op[0] in ("top", "look", "e", "next",
                                             "prev", "sib"):
                continue
            if alpha == "core" and op[0] == "put" and op[1] not in (
                    "e", "l", "k", "a", "a:t"):
                continue
            res.append(op)
    return res


def snap(node):
    """Everything a user can see of a node, as one string."""
    return json.dumps([list(node.path), deep(node.value),
                       E.raw_of(node.top().value)], default=str)


def deep(v):
    if isinstance(v, dict):
        return [type(v).__name__, [[k, deep(x)] for k, x in v.items()]]
    if isinstance(v, list):
        return [type(v).__name__, [deep(x) for x in v]]
    return [type(v).__name__, str(v)]


def snap2(node):
    """Second, more expensive view: serialized forms."""
    res = [node.json_pointer() if node.path else ""]
    try:
        res.append(node.raw_value())
    except YangsonException as e:
        res.append(type(e).__name__)
    return json.dumps(res, default=str)


def execute(node, path, op, given):
    """Run one operation; values handed over are recorded in given."""
    o = op[0]
    if o == "merge":
        v = copy.deepcopy(op[1]) if op[2] else E.cook(path, op[1])
        given.append((v, json.dumps(deep(v))))
        return node.merge(v, raw=op[2])
    if o in ("upd", "insb", "insa") and not op[2]:
        v = E.cook(path, op[1])
        given.append((v, json.dumps(deep(v))))
        return {"upd": node.update, "insb": node.insert_before,
                "insa": node.insert_after}[o](v) if o != "upd" else \
            node.update(v)
    if o == "put" and not op[3] and op[1] != "zz":
        v = E.cook(path + (E.alias(path, op[1]),), op[2])
        given.append((v, json.dumps(deep(v))))
        return node.put_member(op[1], v)
    if o == "defs":
        return node.add_defaults(CT.get(op[1]), tag=op[2])
    if o == "val":
        node.validate(ValidationScope.all, CT[op[1]])
        return None
    if o == "raw":
        node.raw_value()
        return None
    if o == "xml":
        node.to_xml()
        return None
    if o == "iter":
        list(node)
        return None
    if o == "hash":
        if node.is_internal() or isinstance(node.value, list):
            hash(node.value)
            node.value == node.value
            node.top().value == node.value
        return None
    if o == "route":
        str(node.instance_route())
        node.top().goto(node.instance_route())
        return None
    if o == "peek":
        node.top().peek(node.instance_route())
        return None
    if o == "xpath":
        node.top().validate(ValidationScope.semantics)
        for f in ("_children", "_descendants"):
            getattr(node, f, lambda: None)()
        return None
    return E.execute(node, path, op)


def state_of(node):
    """Model state re-read from the implementation (C02 checks it)."""
    return (E.raw_of(node.top().value), tuple(node.path))


class Pool:
    def __init__(self, doc, path):
        self.raw = copy.deepcopy(doc)
        self.raw0 = json.dumps(self.raw)
        root = E.model().from_raw(self.raw)
        node = root
        self.nodes = []
        self.given = [(root.value, json.dumps(deep(root.value)))]
        self.add(root)
        for k in path:
            node = node[k]
        if path:
            self.add(node)

    def add(self, node):
        self.nodes.append((node, snap(node), snap2(node), state_of(node)))

    def verify(self):
        for i, (n, s, s2, _) in enumerate(self.nodes):
            if snap(n) != s:
                return f"node {i} changed from {s} to {snap(n)}"
        for v, s in self.given:
            if json.dumps(deep(v)) != s:
                return f"value given changed from {s} to {deep(v)!r}"
        return None

    def verify2(self):
        for i, (n, s, s2, _) in enumerate(self.nodes):
            if snap2(n) != s2:
                return f"node {i} changed from {s2} to {snap2(n)}"
        if json.dumps(self.raw) != self.raw0:
            return "raw data given by the caller changed"
        return None


def apply(pool, i, op):
    node, _, _, state = pool.nodes[i]
    try:
        res = execute(node, state[1], op, pool.given)
    except YangsonException:
        res = None
    except (AttributeError, TypeError, KeyError, ValueError):
        # robustness of rejected operations is judged elsewhere
        res = None
    msg = pool.verify()
    if msg:
        return res, f"after {op} on node {i}: {msg}"
    return res, None


def run_group(group, rec):
    di, path, alpha, dep = group
    doc = E.DOCS[di]
    fresh0 = json.dumps(deep(E.model().from_raw(
        {"a:c": {}}).add_defaults(ContentType.all).value))

    def rebuild(hist):
        pool = Pool(doc, path)
        for i, op in hist:
            res, _ = apply(pool, i, op)
            if res is not None:
                pool.add(res)
        return pool

    seen = set()

    def explore(pool, hist):
        """pool is reused by siblings: valid as long as nothing changed."""
        nlast = len(pool.nodes)
        for i in range(nlast):
            for op in menu(pool.nodes[i][3], alpha):
                g = len(pool.given)
                res, msg = apply(pool, i, op)
                rec.step()
                rec.agree(op[0])
                if msg:
                    rec.fail({"doc": di, "path": path,
                              "ops": hist + [[i, op]]}, msg)
                    pool = rebuild(hist)
                    continue
                if res is not None and len(hist) + 1 < dep:
                    key = (tuple(x[1] for x in pool.nodes), snap(res),
                           E.fingerprint(res), len(hist))
                    key = hash(key)
                    if key not in seen:
                        seen.add(key)
                        rec.state()
                        pool.add(res)
                        pool = explore(pool, hist + [[i, op]])
                        del pool.nodes[nlast:]
                del pool.given[g:]
        msg = pool.verify2()
        rec.agree("serialized")
        if msg:
            rec.fail({"doc": di, "path": path, "ops": hist, "then": "any"},
                     msg)
        if len(hist) == 1:
            rec.sample({"doc": doc, "path": path, "ops": hist})
        return pool

    explore(Pool(doc, path), [])
    fresh1 = json.dumps(deep(E.model().from_raw(
        {"a:c": {}}).add_defaults(ContentType.all).value))
    rec.check(fresh0 == fresh1, {"doc": di, "path": path, "alpha": alpha,
                                 "key": f"defaults-{di}-{path}"},
              f"default values of the schema changed: {fresh0} -> {fresh1}")


def replay(case):
    if "ops" not in case:
        return None
    pool = Pool(E.DOCS[case["doc"]], case["path"])
    for i, op in case["ops"]:
        res, msg = apply(pool, i, op)
        if msg:
            return msg
        if res is not None:
            pool.add(res)
    if "then" in case:
        for i in range(len(pool.nodes)):
            for op in menu(pool.nodes[i][3], "full"):
                _, msg = apply(pool, i, op)
                if msg:
                    return msg
        return pool.verify2()
    return None


def group_weight(g):
    return (g[3], len(str(E.DOCS[g[0]])))
