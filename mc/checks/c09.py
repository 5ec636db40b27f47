"""C09: semantic validation enforces exactly the declared constraints."""
import copy

from mc.models import build
from mc.ref import schema as R
from mc.ref.schema import (case, choice, container, group, leaf, leaflist,
                           lst)
from yangson.enumerations import ContentType, ValidationScope
from yangson.exceptions import (SchemaError, SemanticError, YangsonException)

PROPERTY = "C09"
CT = {1: ContentType.config, 2: ContentType.nonconfig, 3: ContentType.all}
W = "/a:t = 'x'"
WD = "/a:dt = 7"        # true by default
UB = "type union { type boolean; type uint8; }"
V = [1, 2]


def lref(name, path, req=True, **kw):
    n = leaf(name, type=f'type leafref {{ path "{path}";' + (
        "" if req else " require-instance false;") + " }", **kw)
    n.ref, n.need = path, req
    return n


def llref(name, path, **kw):
    n = leaflist(name, type=f'type leafref {{ path "{path}"; }}', **kw)
    n.ref, n.need = path, True
    return n


def iid(name, targets, req=True, **kw):
    """targets: text of instance identifier -> path"""
    n = leaf(name, type="type instance-identifier {" + (
        "" if req else " require-instance false;") + " }",
        vals=list(targets), **kw)
    n.iid, n.need = targets, req
    return n


def info(doc, n):
    """References of instances."""
    sn = n.sn
    if getattr(sn, "ref", None):
        def deref():
            e = R.expr(sn.ref, sn.mod)
            ns = R.X.evaluate(e, n, R.env(sn.mod))
            return [x for x in ns if x.text == n.text]
        n.info["need"], n.info["deref"] = sn.need, deref
    elif getattr(sn, "iid", None):
        def deref():
            top = n
            while top.parent is not None:
                top = top.parent
            return R.find(top, sn.iid[n.raw]) is not None
        n.info["need"], n.info["deref"] = sn.need, deref


def musts(n):
    L, o, N = f"l{n}", f"o{n}", f"n{n}"
    T, M = ("tag-x", None), ("tag-y", "a message")

    def must(x, tm=(None, None)):
        return [(x,) + tm]
    oo = lambda: leaf(o, vals=V)        # noqa
    return {
        "lv": lambda: [leaf(L, vals=V, must=". = 1")],
        "lvt": lambda: [leaf(L, vals=V, must=must(". = 1", T))],
        "lvm": lambda: [leaf(L, vals=V, must=must(
            ". = 1", (None, "only a message")))],
        "lvtm": lambda: [leaf(L, vals=V, must=must(". = 1", M))],
        "l2": lambda: [leaf(L, vals=[1, 2, 3], must=[
            (". < 3",) + T, (". > 1",) + M])],
        "lo": lambda: [leaf(L, must=f"../{o}"), oo()],
        "lno": lambda: [leaf(L, must=f"not(../{o})"), oo()],
        "lcur": lambda: [leaf(L, vals=V, must=f"current()/../{o} = ."),
                         oo()],
        "lstr": lambda: [leaf(L, must=f"string(../{o})"), oo()],
        "lnum": lambda: [leaf(L, must=f"number(../{o}) - 1"), oo()],
        "lcnt": lambda: [leaf(L, must="count(../*) < 4"), oo()],
        "ldef": lambda: [leaf(L, must=f"../{o} = 7"),
                         leaf(o, type="td", vals=[7, 1])],
        "id": lambda: [leaf(L, default=5, vals=[5, 1], must=". != 5")],
        "idt": lambda: [leaf(L, type="td", vals=[7, 1],
                             must=must(f"../{o}", M)), oo()],
        "idw": lambda: [leaf(L, default=5, vals=[5, 1], when=W,
                             must=must(". != 5", T))],
        "np": lambda: [container(N, leaf("x", vals=V), must="x = 1")],
        "npx": lambda: [container(N, leaf("x", vals=V),
                                  must=must("not(x = 2)", T))],
        "npd": lambda: [container(N, leaf("x", type="td", vals=[1, 7]),
                                  must="x = 7")],
        "npid": lambda: [container(N, leaf("x", type="td", vals=[1, 7],
                                           must=". = 1"))],
        "npp": lambda: [container(N, leaf("x"), must=f"../{o}"), oo()],
        "npnp": lambda: [container(N, container(
            "z", leaf("x"), must=must("../y", M)), leaf("y"))],
        "npw": lambda: [container(N, leaf("x"), must="x", when=W)],
        "p": lambda: [container(N, leaf("x"), must="x", presence=True)],
        "pnp": lambda: [container(N, container("z", leaf("x"), must="x"),
                                  presence=True)],
        "li": lambda: [lst(L, leaf("k"), leaf("x", vals=V),
                           must="x = k", keys=["k"])],
        "lix": lambda: [lst(L, leaf("k"), leaf("x", vals=V, must=must(
            "not(../preceding-sibling::*)", T)), keys=["k"])],
        "licnt": lambda: [lst(L, leaf("k"), must=f"count(../{L}) < 2",
                              keys=["k"])],
        "linp": lambda: [lst(L, leaf("k"), container(
            "z", leaf("x"), must="x"), keys=["k"])],
        "ll": lambda: [leaflist(L, vals=[[1], [1, 2], [2], [2, 1]],
                                must=must(". < 2", M))],
        "lld": lambda: [leaflist(L, default=[1, 2], vals=[[1], [2]],
                                 must=". < 2")],
        "llcnt": lambda: [leaflist(L, vals=[[1], [1, 2]],
                                   must=f"count(../{L}) = 1")],
        "ad": lambda: [R.S("anydata", L, must=f"../{o}"), oo()],
        "chd": lambda: [choice(f"c{n}", case("x", leaf(
            L, default=1, must="false()")), case("y", oo()), default="x")],
        "chd2": lambda: [choice(f"c{n}", case("x", leaf(L, default=1,
                                                        must=". = 2"),
                                              oo()), case("y"))],
        "wm": lambda: [leaf(L, when=W, must="false()")],
        "g": lambda: [group(f"{n}", leaf(L, vals=V, must=must(
            f"../{o} = .", T)), oo())],
        "gw": lambda: [group(f"{n}", leaf(L, default=3, vals=V,
                                          must=". < 2"), when=W)],
        "b": lambda: [leaf(L, mod="b", vals=V, must=f"../{L} = 1"),
                      leaf(o, mod="b", must=f"../a:{L} = 1"),
                      leaf(L, vals=V)],
        "ro": lambda: [leaf(L, vals=V, must=". = 1", config=False)],
        "rod": lambda: [leaf(L, default=1, vals=V, must=". = 2",
                             config=False)],
        "ronp": lambda: [container(N, leaf("x"), must="x", config=False)],
        "ronp2": lambda: [container(N, leaf("x", config=False), must="x")],
    }


def rows(*rs):
    """Value of a list, from keyword dictionaries."""
    return list(rs)


def lists(n):
    L, N = f"l{n}", f"n{n}"

    def dup(*names):
        """All lists of two entries over values 1, 2 or absent."""
        es = [{}]
        for x in names:
            es = [dict(e, **({x: v} if v else {})) for e in es
                  for v in (None, 1, 2)]
        return es

    def two(es, key="k"):
        return [[dict({key: 1}, **a), dict({key: 2}, **b)]
                for a in es for b in es]
    ks = [[{"k": a}, {"k": b}] for a in V for b in V]
    res = {
        "k": lambda: [lst(L, leaf("k"), keys=["k"], vals=ks + [
            [{"k": 1}, {"k": 2}, {"k": 1}], [{"k": 1}], []])],
        "kmiss": lambda: [lst(L, leaf("k"), leaf("x"), keys=["k"],
                              vals=[[{}], [{"k": 1}, {"x": 1}],
                                    [{"x": 1}, {"k": 1}, {"k": 1}]])],
        "k2": lambda: [lst(L, leaf("k"), leaf("m", type="s"),
                           keys=["k", "m"], vals=[
            [{"k": a, "m": b}, {"m": d, "k": c}] for a in V for c in V
            for b in ("", "1") for d in ("", "1")])],
        "ku": lambda: [lst(L, leaf("k", type=UB), keys=["k"], vals=[
            [{"k": a}, {"k": b}] for a in (True, 1, 0)
            for b in (True, False, 1, 0)])],
        "kb": lambda: [lst(L, leaf("k", mod="a", type="b"), keys=["k"],
                           vals=[[{"k": a}, {"k": b}] for a in (True, False)
                                 for b in (True, False)])],
        "kro": lambda: [lst(L, leaf("k"), keys=["k"], vals=ks,
                            config=False)],
        "nokey": lambda: [lst(L, leaf("k"), vals=ks, config=False)],
        "nest": lambda: [lst(L, leaf("k"), lst("i", leaf("k"), keys=["k"],
                                               vals=ks[:2]), keys=["k"])],
        "u": lambda: [lst(L, leaf("k"), leaf("x"), keys=["k"], unique=["x"],
                          vals=two(dup("x")))],
        "u3": lambda: [lst(L, leaf("k"), leaf("x"), keys=["k"],
                           unique=["x"], vals=[
            [{"k": i + 1, "x": x} if x else {"k": i + 1}
             for i, x in enumerate((a, b, c))]
            for a in (0, 1, 2) for b in (0, 1, 2) for c in (0, 1, 2)])],
        "u2": lambda: [lst(L, leaf("k"), leaf("x"), leaf("y"), keys=["k"],
                           unique=["x y"], vals=two(dup("x", "y")))],
        "uu": lambda: [lst(L, leaf("k"), leaf("x"), leaf("y"), keys=["k"],
                           unique=["x", "y"], vals=two(dup("x", "y")))],
        "uk": lambda: [lst(L, leaf("k"), leaf("x"), keys=["k"],
                           unique=["k x"], vals=two(dup("x")))],
        "ud": lambda: [lst(L, leaf("k"), leaf("x", default=1), keys=["k"],
                           unique=["x"], vals=two(dup("x")))],
        "ud2": lambda: [lst(L, leaf("k"), leaf("x", default=1), leaf("y"),
                            keys=["k"], unique=["x y"],
                            vals=two(dup("x", "y")))],
        "udw": lambda: [lst(L, leaf("k"), leaf("x", default=1, when=W),
                            keys=["k"], unique=["x"], vals=two([{}]))],
        "unp": lambda: [lst(L, leaf("k"), container("z", leaf("x")),
                            keys=["k"], unique=["z/x"], vals=two(
            [{}, {"z": {}}, {"z": {"x": 1}}, {"z": {"x": 2}}]))],
        "unpd": lambda: [lst(L, leaf("k"), container(
            "z", leaf("x", type="td")), keys=["k"], unique=["a:z/a:x"],
            vals=two([{}, {"z": {}}, {"z": {"x": 1}}, {"z": {"x": 7}}]))],
        "upd": lambda: [lst(L, leaf("k"), container(
            "z", leaf("x", type="td"), presence=True), keys=["k"],
            unique=["z/x"], vals=two([{}, {"z": {}}, {"z": {"x": 7}}]))],
        "uch": lambda: [lst(L, leaf("k"), choice(
            "c", case("p", leaf("x"), leaf("y")), case("q", leaf("w"))),
            keys=["k"], unique=["c/p/x"], vals=two(
                [{}, {"x": 1}, {"x": 2, "y": 1}, {"w": 1}]))],
        "uch2": lambda: [lst(L, leaf("k"), container("z", choice(
            "c", case("x", leaf("x"), short=True), case("w", leaf("w")))),
            keys=["k"], unique=["z/c/x/x k"], vals=two(
                [{}, {"z": {"x": 1}}, {"z": {"w": 1}}]))],
        "uu8": lambda: [lst(L, leaf("k"), leaf("x", type=UB), keys=["k"],
                            unique=["x"], vals=two(
            [{"x": v} for v in (True, False, 1, 0)]))],
        "uro": lambda: [lst(L, leaf("k"), leaf("x"), unique=["x"],
                            config=False, vals=two(dup("x")))],
        "ub": lambda: [lst(L, leaf("k"), leaf("x"), leaf("x", mod="b"),
                           keys=["k"], unique=["x"], vals=two(
            [{"x": 1, "b:x": 2}, {"x": 2, "b:x": 2}, {"b:x": 1}]))],
        "mi": lambda: [lst(L, leaf("k"), keys=["k"], min=2, vals=[
            [{"k": i} for i in range(j)] for j in range(4)])],
        "ma": lambda: [lst(L, leaf("k"), keys=["k"], max=2, vals=[
            [{"k": i} for i in range(j)] for j in range(5)])],
        "mima": lambda: [lst(L, leaf("k"), keys=["k"], min=1, max=1, vals=[
            [{"k": i} for i in range(j)] for j in range(3)])],
        "ma0": lambda: [lst(L, leaf("k"), keys=["k"], max=0, vals=[
            [{"k": i} for i in range(j)] for j in range(2)])],
        "mipres": lambda: [container(N, lst("x", leaf("k"), keys=["k"],
                                            min=2, vals=[
            [{"k": i} for i in range(j)] for j in range(3)]),
            presence=True)],
        "llmi": lambda: [leaflist(L, min=2, vals=[[], [1], [1, 2],
                                                  [1, 2, 3]])],
        "llma": lambda: [leaflist(L, max=2, vals=[[], [1], [1, 2],
                                                  [1, 2, 3]])],
        "llmima": lambda: [leaflist(L, min=2, max=3, vals=[
            list(range(i)) for i in range(6)])],
        "lldup": lambda: [leaflist(L, vals=[[a, b] for a in V for b in V]
                                   + [[1, 2, 1], [3, 2, 1]])],
        "lldupro": lambda: [leaflist(L, vals=[[a, b] for a in V
                                              for b in V], config=False)],
        "llduro2": lambda: [container(N, leaflist(
            L, vals=[[1, 1], [1, 2]]), config=False)],
        "lldups": lambda: [leaflist(L, type="s", vals=[
            [a, b] for a in ("", "1", "x") for b in ("", "1", " ")])],
        "llu": lambda: [leaflist(L, type=UB, vals=[
            [a, b] for a in (True, 1, 0) for b in (True, False, 1, 0)])],
    }
    return res


def refs(n, at):
    """at: path prefix (absolute) of the holder, data path names."""
    L, o, N = f"l{n}", f"o{n}", f"n{n}"
    A = "".join("/a:" + x for x in at)
    tgt = lambda **kw: leaf(o, vals=V, **kw)        # noqa

    def ip(*rest):
        p = tuple(("a:" + x if i == 0 else x) for i, x in enumerate(at))
        r = list(rest)
        if not p:
            r[0] = "a:" + r[0]
        return p + tuple(r)
    li = lambda: lst(N, leaf("k"), leaf("x", vals=V),       # noqa
                     keys=["k"])
    res = {
        "rel": lambda: [lref(L, f"../{o}", vals=V), tgt()],
        "abs": lambda: [lref(L, f"{A}/{o}", vals=V), tgt()],
        "abs2": lambda: [lref(L, f"{A}/a:{o}", vals=V), tgt()],
        "nreq": lambda: [lref(L, f"../{o}", req=False, vals=V), tgt()],
        "def": lambda: [lref(L, f"../{o}", vals=[7, 1]),
                        leaf(o, type="td", vals=[1])],
        "isdef": lambda: [lref(L, f"../{o}", default=1, vals=V), tgt()],
        "isdefn": lambda: [lref(L, f"../{o}", req=False, default=1,
                                vals=V), tgt()],
        "tow": lambda: [lref(L, f"../{o}", vals=[3]),
                        leaf(o, default=3, when=W, vals=[3])],
        "ll": lambda: [lref(L, f"../{o}", vals=[1, 2, 3]),
                       leaflist(o, vals=[[], [1], [1, 2]])],
        "lld": lambda: [lref(L, f"../{o}", vals=[1, 3]),
                        leaflist(o, default=[1, 2], vals=[[3]])],
        "llll": lambda: [llref(L, f"../{o}", vals=[[1], [1, 2], [3, 1]]),
                         leaflist(o, vals=[[1], [1, 2], [3]])],
        "li": lambda: [lref(L, f"../{N}/k", vals=[1, 2, 3]), li()],
        "lix": lambda: [lref(L, f"../{N}/x", vals=V), li()],
        "lip": lambda: [lref(L, f"../{N}[k = current()/../{o}]/x",
                             vals=V), li(), tgt()],
        "chain": lambda: [lref(L, f"../m{n}", vals=V),
                          lref(f"m{n}", f"../{o}", vals=V), tgt()],
        "np": lambda: [container(N, lref("r", f"../../{o}", vals=V)),
                       tgt()],
        "inli": lambda: [lst(N, leaf("k"), lref("x", f"../../{N}/k",
                                                vals=[1, 2, 3]),
                             keys=["k"])],
        "inli2": lambda: [lst(N, leaf("k"), lref("x", "../k",
                                                 vals=[1, 2]),
                              keys=["k"])],
        "key": lambda: [lst(N, lref("k", f"../../{o}"), keys=["k"]),
                        tgt()],
        "str": lambda: [lref(L, f"../{o}", vals=["x", ""]),
                        leaf(o, type="s", vals=["x", "", " x"])],
        "ro": lambda: [lref(L, f"../{o}", vals=V, config=False), tgt()],
        "b": lambda: [lref(L, f"../a:{o}", vals=V, mod="b"),
                      leaf(o, mod="b", vals=[1]), tgt()],
        "b2": lambda: [lref(L, f"../{o}", vals=V, mod="b"),
                       leaf(o, mod="b", vals=V), tgt()],
        "g": lambda: [group(f"{n}", lref(L, f"../{o}", vals=V), tgt())],
    }
    if "*" not in at:
        res.update({
            "iid": lambda: [iid(L, {f"{A}/a:{o}": ip(o)}), tgt()],
            "iidn": lambda: [iid(L, {f"{A}/a:{o}": ip(o)}, req=False),
                             tgt()],
            "iidd": lambda: [iid(L, {f"{A}/a:{o}": ip(o)}),
                             leaf(o, type="td", vals=[1])],
            "iidli": lambda: [iid(L, {
                f"{A}/a:{N}[a:k='1']/a:x": ip(N, 0, "x"),
                f"{A}/a:{N}[a:k='2']": ip(N, 1)}), li()],
            "iidll": lambda: [iid(L, {f"{A}/a:{o}[.='2']": ip(o, 1)}),
                              leaflist(o, vals=[[1], [1, 2]])],
            "iidpos": lambda: [iid(L, {
                f"{A}/a:{N}[1]/a:x": ip(N, 0, "x"),
                f"{A}/a:{N}[2]/a:x": ip(N, 1, "x")}, config=False),
                lst(N, leaf("x"), config=False, vals=[
                    [], [{}], [{"x": 1}], [{}, {"x": 1}]])],
            "iidc": lambda: [iid(L, {f"{A}/a:{N}/a:z/a:x": ip(
                N, "z", "x")}), container(N, container("z", leaf("x")))],
            "iidnp": lambda: [iid(L, {f"{A}/a:{N}": ip(N)}),
                              container(N, leaf("x"))],
        })
    return res


HOLDERS = {
    "top": ([], lambda ks: ks),
    "np": (["h"], lambda ks: [container("h", *ks)]),
    "p": (["h"], lambda ks: [container("h", *ks, presence=True)]),
    "li": (["h", "*"], lambda ks: [lst("h", leaf("k"), *ks, keys=["k"])]),
    "np2": (["h", "hh"], lambda ks: [container("h", container("hh", *ks))]),
    "ro": (["h"], lambda ks: [container("h", *ks, config=False)]),
}


def items(n, holder):
    r = {"m:" + k: v for k, v in musts(n).items()}
    r.update(("l:" + k, v) for k, v in lists(n).items())
    at = HOLDERS[holder][0]
    r.update(("r:" + k, v) for k, v in refs(n, at).items()
             if not (k.startswith("abs") and "*" in at))
    return r


def schema(holder, i1, i2):
    ks = []
    for n, i in ((1, i1), (2, i2)):
        if i:
            ks += items(n, holder)[i]()
    ctl = [leaf("t", type="s", vals=["x"]), leaf("dt", type="td", vals=[1])]
    if holder == "ro":
        for k in ks:
            for s in k.walk():
                s._config = None
    if not any(s.when for k in ks for s in k.walk()):
        ctl = ctl[:1]
    return R.root(*(ctl + HOLDERS[holder][1](ks)))


def legal(holder, *its):
    return not (holder == "top" and any(
        i in ("m:b", "r:b", "r:b2", "l:ub") for i in its))


def specs(tier):
    res = []
    for h in HOLDERS:
        res += [(h, i, None) for i in items(1, h) if legal(h, i)]
    small = ["m:lvtm", "m:npx", "m:li", "l:u", "l:lldup", "r:rel"]
    for h in ("np",) if tier == "quick" else HOLDERS:
        names = list(items(1, h))
        other = small[:3] if tier == "quick" else small
        res += [(h, a, b) for a in names for b in other if legal(h, a, b)]
    return res


def bounds(tier):
    return ("all schemas with one or two constraints of the grammar (must "
            "on every kind of node, present or existing by default, keys, "
            "unique, min/max-elements, leaf-list uniqueness, leafref, "
            "instance-identifier) in every holder; all documents over the "
            "value options; all content types and scopes; validation at "
            "the root and at every inner node, repeated")


STEP = 4


def groups(tier):
    n = len(specs(tier))
    return [[tier, i, min(i + STEP, n)] for i in range(0, n, STEP)]


def outcome(inst, scope, ct):
    """None or (class, path, tag, message)"""
    try:
        inst.validate(scope, CT[ct])
        return None
    except (SchemaError, SemanticError) as e:
        return (type(e).__name__, tuple(e.instance.path), e.tag, e.message)
    except Exception as e:
        return (type(e).__name__, None, repr(e), None)


def matches(got, exp):
    """Is the outcome one of the expected violations?"""
    if got is None:
        return not exp
    cls, path, tag, msg = got
    for p, t, m, _ in exp:
        if p == path and (tag == t or t == "data-not-unique" and
                          tag.startswith(t + ": entry ")):
            if t == "list-key-missing":
                if cls == "SchemaError":
                    return True
            elif cls == "SemanticError" and (m == msg or t in OWN):
                return True
    return False


OWN = ("data-not-unique", "non-unique-key", "too-few-elements",
       "too-many-elements", "repeated-leaf-list-value", "instance-required")


def goto(inst, path):
    for k in path:
        inst = inst[k]
    return inst


def one(dm, rt, doc, rec, fail):
    d = R.Doc(rt, doc, info)
    inst = dm.from_raw(copy.deepcopy(doc))
    raw = inst.raw_value()
    for ct in (1, 2, 3):
        syn = d.syntax(ct)
        if any(k != "missing-data" for _, k, _ in syn):
            continue
        exp = d.semantics(ct)
        for scope in (ValidationScope.semantics, ValidationScope.all):
            if syn and scope == ValidationScope.all:
                continue
            rec.step()
            got = outcome(inst, scope, ct)
            rec.agree(exp[0][1] if exp else "valid")
            if not matches(got, exp):
                fail(ct, f"ctype {ct} {scope.name}: {got}, expected "
                     f"{exp or 'to be accepted'}")
                continue
            if outcome(inst, scope, ct) != got:
                fail(ct, f"ctype {ct} {scope.name}: {got}, and when "
                     f"repeated {outcome(inst, scope, ct)}")
        if syn:
            continue
        rec.step()
        got = outcome(inst, ValidationScope.syntax, ct)
        if got is not None:
            fail(ct, f"ctype {ct} syntax: {got}, expected to be accepted")
        # inner nodes
        seen = set()

        def inner(x):
            todo = [x.path]
            if x.sn.kind in ("list", "leaf-list"):
                todo.append(x.path[:-1])
            for p in todo:
                if p in seen or not p:
                    continue
                seen.add(p)
                rec.step()
                n = goto(inst, p)
                sub = [v for v in exp if v[0][:len(p)] == p]
                if p == x.path:         # array properties are above
                    sub = [v for v in sub if v[:2] != (
                        p, "list-key-missing")]
                got = outcome(n, ValidationScope.semantics, ct)
                rec.agree("inner")
                if not matches(got, sub):
                    fail(list(p), f"at {p} ctype {ct}: {got}, expected "
                         f"{sub or 'to be accepted'}")
            for c in x.kids:
                if c.explicit and c.sn.ct & ct:
                    inner(c)
        inner(d.full())
    if inst.raw_value() != raw:
        fail(0, f"document changed to {inst.raw_value()}")


def run_group(group, rec):
    tier, lo, hi = group
    for sp in specs(tier)[lo:hi]:
        rt = schema(*sp)
        try:
            dm = build(R.texts(rt))
        except Exception as e:
            rec.fail({"spec": sp}, f"schema {sp} rejected: {e!r}")
            continue
        rec.state()
        n = 0
        for doc in R.objects(rt):
            n += 1
            if tier == "quick" and n > 400:
                rec.cap("400 documents of one schema")
                break

            def fail(what, msg):
                rec.fail({"spec": sp, "doc": doc, "what": what},
                         f"{sp} {doc}: {msg}")
            try:
                one(dm, rt, doc, rec, fail)
            except Exception as e:
                fail("exception", f"{e!r}")
        rec.sample({"spec": sp, "documents": n})


def replay(case):
    rt = schema(*case["spec"])
    dm = build(R.texts(rt))
    msgs = []

    class Nil:
        def __getattr__(self, n):
            return lambda *a, **k: None
    one(dm, rt, case["doc"], Nil(), lambda w, m: msgs.append(m))
    return msgs[0] if msgs else None
