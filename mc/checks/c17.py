"""C17: identity derivation is reachability over the declared bases."""
import itertools
import json

from mc.models import build, libtext, module
from yangson.exceptions import YangsonException
from yangson.schemadata import SchemaContext
from yangson.xmlparser import XMLParser
from yangson.xpathparser import XPathParser

PROPERTY = "C17"
ASSUMPTIONS = [
    "identity graphs are acyclic and every base exists (RFC 7950 sec. 7.18.2)",
    "an identityref value is an identity defined in an implemented module "
    "(RFC 7950 sec. 9.10.2)",
]

# worlds: implemented texts; the letter "b" is a submodule of a in "sub"
WORLDS = ("abc", "bx", "ax", "sub")
# prefixes used in text t for module m
PREFIXES = {
    "plain": {t: {"a": "a", "b": "b", "c": "c"} for t in "abc"},
    "swap": {"a": {"a": "p"}, "b": {"a": "c", "b": "p"},
             "c": {"a": "b", "b": "a", "c": "p"}},
    "own": {"a": {"a": "b"}, "b": {"a": "b", "b": "a"},
            "c": {"a": "c", "b": "a", "c": "b"}},
}


class World:
    """A set of identities over modules and the derivation relation."""

    def __init__(self, case):
        self.case = case
        self.n = len(case["mods"])
        self.world, self.mods = case["world"], case["mods"]
        self.pfx = PREFIXES[case["pfx"]]
        sub = self.world == "sub"
        self.ns = ["a" if sub and m == "b" else m for m in self.mods]
        cnt = {}
        self.names = []
        for i in range(self.n):
            k = cnt.setdefault(self.ns[i], 0)
            cnt[self.ns[i]] = k + 1
            # equal names in different modules
            self.names.append(f"i{k}" if case["names"] else f"i{i}")
        self.ids = list(zip(self.names, self.ns))
        self.edges = [tuple(e) for e in case["edges"]]
        self.up = {i: set() for i in range(self.n)}
        for i in range(self.n):         # bases have lower numbers
            for x, y in self.edges:
                if x == i:
                    self.up[i] |= {y} | self.up[y]
        self.impl = {"abc": "abc", "bx": "ac", "ax": "bc", "sub": "ac"}[
            self.world]
        self.leaves = []    # path, leaf module, bases
        self.texts, self.lib = self.make()

    def visible(self, t):
        if self.world == "sub":
            return [i for i in range(self.n) if t == "c" or self.ns[i] == "a"]
        return [i for i in range(self.n) if self.ns[i] <= t]

    def ref(self, i, t, form):
        own = "a" if self.world == "sub" and t == "b" else t
        if self.ns[i] == own and form:
            return self.names[i]
        p = self.pfx[t]
        if self.world == "sub" and t == "b":
            return f"{p['b']}:{self.names[i]}"
        return f"{p[self.ns[i]]}:{self.names[i]}"

    def subsets(self, t):
        v = self.visible(t)
        return [s for k in range(1, self.case.get("maxbases", 2) + 1)
                for s in itertools.combinations(v, k)]

    def make(self):
        rev = self.case["order"]
        sub = self.world == "sub"
        texts, lib = {}, []
        tds = {}
        for t in "abc":
            f = rev
            body = []
            for i in range(self.n):
                if self.mods[i] == t:
                    bs = [y for x, y in self.edges if x == i]
                    if rev:
                        bs.reverse()
                    f ^= 1
                    body.append("  identity %s { %s }" % (
                        self.names[i],
                        " ".join(f"base {self.ref(y, t, f)};" for y in bs)))
            if rev:
                body.reverse()
            leaves = []
            for k, s in enumerate(self.subsets(t)):
                f ^= 1
                bs = list(s)[::-1] if f else s
                typ = "type identityref { %s }" % " ".join(
                    f"base {self.ref(y, t, f)};" for y in bs)
                body.append(f"  typedef t{t}{k} {{ {typ} }}")
                tds[t, k] = s
                leaves.append((f"l{k}", typ, s))
            # typedefs of imported modules
            for (u, k), s in tds.items():
                if u < t and not (sub and t == "b") and len(s) <= 2:
                    p = self.pfx[t]["a" if sub else u]
                    leaves.append((f"u{u}{k}", f"type {p}:t{u}{k};", s))
            own = "a" if sub and t == "b" else t
            if own in self.impl:
                body.append("  container c%s {" % t)
                for nm, typ, s in leaves:
                    body.append(f"    leaf {nm} {{ {typ} }}")
                    self.leaves.append((own, "c" + t, nm, s))
                if t == "c" and self.n:
                    body.append("    leaf-list ll { type string; }"
                                "    leaf st { type string; }")
                    for k in range(min(2, self.n)):
                        body.append("    leaf-list m%d { type identityref { "
                                    "base %s; } }" % (k, self.ref(k, t, 0)))
                body.append("  }")
            pf = self.pfx[t]
            if sub and t == "b":
                texts["s"] = (f"submodule s {{ yang-version 1.1; belongs-to a "
                              f"{{ prefix {pf['b']}; }}\n"
                              + "\n".join(body) + "\n}\n")
                continue
            imp = [(m, pf[m]) for m in "abc"
                   if m < t and not (sub and m == "b")]
            texts[t] = module(t, "\n".join(body), prefix=pf[t], imports=imp,
                              head="  include s;\n" if sub and t == "a"
                              else "")
            e = {"name": t}
            if t not in self.impl:
                e["conformance"] = "import"
            if sub and t == "a":
                e["submodules"] = ["s"]
            lib.append(e)
        if rev:
            lib.reverse()
        return texts, libtext(lib)

    def model(self):
        return build(self.texts, self.lib)

    def derived(self, i):
        """Everything derived from identity i."""
        return {self.ids[j] for j in range(self.n) if i in self.up[j]}

    def accepted(self, bases):
        return {self.ids[j] for j in range(self.n)
                if self.ns[j] in self.impl
                and all(b in self.up[j] for b in bases)}

    def universe(self):
        return self.ids + [("i9", "a"), ("i9", "c"), ("i0", "z"), ("i0", "s")]


def verdict(f):
    try:
        f().validate()
        return True
    except YangsonException:
        return False


def xml(path, uris, value):
    mod, c, leaf = path
    return (f'<content-data xmlns="urn:ietf:params:xml:ns:yang:'
            f'ietf-yang-instance-data"><{c} xmlns="urn:{mod}"'
            + "".join(f' xmlns:{p}="{u}"' for p, u in uris.items())
            + f'><{leaf}>{value}</{leaf}></{c}></content-data>')


def graph_queries(w, dm, count):
    """Compare the queries of the schema data with reachability."""
    sd = dm.schema_data
    for x in range(w.n):
        for y in range(w.n):
            count[0] += 1
            got = sd.is_derived_from(w.ids[x], w.ids[y])
            if got is not (y in w.up[x]):
                return f"is_derived_from({w.ids[x]}, {w.ids[y]}) = {got}"
        for z in (("i9", "a"), ("i0", "z")):
            count[0] += 1
            if sd.is_derived_from(z, w.ids[x]) or \
                    sd.is_derived_from(w.ids[x], z):
                return f"{z} related with {w.ids[x]}"
        got = set(sd.derived_from(w.ids[x]))
        if got != w.derived(x):
            return f"derived_from({w.ids[x]}) = {got}"
    for k in (1, 2, 3):
        for s in itertools.permutations(range(w.n), k):
            count[0] += 1
            got = set(sd.derived_from_all([w.ids[i] for i in s]))
            exp = set.intersection(*[w.derived(i) for i in s])
            if got != exp:
                return f"derived_from_all({[w.ids[i] for i in s]}) = {got}"
    return None


def digest_query(w, dm, count):
    d = json.loads(dm.schema_digest())
    for mod, c, leaf, s in w.leaves:
        count[0] += 1
        t = d["children"][f"{mod}:{c}"]["children"][f"{mod}:{leaf}"] \
            if f"{mod}:{leaf}" in d["children"][f"{mod}:{c}"]["children"] \
            else d["children"][f"{mod}:{c}"]["children"][leaf]
        got = sorted(map(tuple, t["type"]["identities"]))
        if got != sorted(w.accepted(s)):
            return f"digest of {c}/{leaf} (bases {s}): {got}"
    return None


def value_queries(w, dm, count, with_xml, leaves=None):
    if leaves is None:
        leaves = [x for x in w.leaves if with_xml or len(x[3]) == 2
                  or x[1] == "cc" and x[2][0] == "l"]
    uris = {"q" + m: "urn:" + m for m in "abcz"}
    for mod, c, leaf, s in leaves:
        acc = w.accepted(s)
        for v in w.universe():
            forms = [f"{v[1]}:{v[0]}"]
            if v[1] == mod:
                forms.append(v[0])
            for form in forms:
                count[0] += 1
                got = verdict(
                    lambda: dm.from_raw({f"{mod}:{c}": {leaf: form}}))
                if got is not (v in acc):
                    return (f"{c}/{leaf} (bases {[w.ids[i] for i in s]}): "
                            f"{form} {'accepted' if got else 'rejected'}")
            if not with_xml:
                continue
            forms = [f"q{v[1]}:{v[0]}"]
            if v[1] == mod:
                forms.append(v[0])
            for form in forms:
                count[0] += 1
                got = verdict(lambda: dm.from_xml(
                    XMLParser(xml((mod, c, leaf), uris, form)).root))
                if got is not (v in acc):
                    return (f"{c}/{leaf} (bases {[w.ids[i] for i in s]}): "
                            f"XML {form} {'accepted' if got else 'rejected'}")
    return None


def xpath_queries(w, dm, count):
    """XPath functions at leaves, leaf-lists and other nodes."""
    sd = dm.schema_data
    sctx = SchemaContext(sd, "c", ("c", ""))

    def ev(expr, inst):
        count[0] += 1
        return XPathParser(expr, sctx).parse().evaluate(inst)

    names = {}
    for i in range(w.n):
        names[i] = [f"{w.pfx['c'][w.ns[i]]}:{w.names[i]}"]
        if w.ns[i] == "c":
            names[i].append(w.names[i])
    first = {}
    for mod, c, leaf, s in w.leaves:
        for v in w.accepted(s):
            first.setdefault((mod, c, v), (leaf, s))
    for (mod, c, v), (leaf, s) in first.items():
        x = w.ids.index(v)
        inst = dm.from_raw({f"{mod}:{c}": {leaf: f"{v[1]}:{v[0]}"},
                            "c:cc": {}}
                           if c != "cc" else
                           {"c:cc": {leaf: f"{v[1]}:{v[0]}",
                                     "st": f"{v[1]}:{v[0]}"}})
        node = inst[f"{mod}:{c}"]
        at = node[leaf]
        for i in range(w.n):
            for q in names[i]:
                for fn, exp in (("derived-from", i in w.up[x]),
                                ("derived-from-or-self",
                                 i in w.up[x] or i == x)):
                    got = ev(f"{fn}(., '{q}')", at)
                    if got is not exp:
                        return f"{fn}({v}, {q}) = {got}"
        if c == "cc":
            for i in range(w.n):
                if ev(f"derived-from(st, '{names[i][0]}')", node) or \
                        ev(f"derived-from-or-self(st, '{names[i][0]}')", node):
                    return f"derived-from of a string {v}"
    for k in range(min(2, w.n)):
        acc = sorted(w.accepted([k]))
        for vals in [()] + list(itertools.permutations(acc, 2)):
            inst = dm.from_raw({"c:cc": {
                f"m{k}": [f"{m}:{n}" for n, m in vals]}})["c:cc"]
            xs = [w.ids.index(v) for v in vals]
            for i in range(w.n):
                for fn, exp in (
                        ("derived-from", any(i in w.up[x] for x in xs)),
                        ("derived-from-or-self",
                         any(i in w.up[x] or i == x for x in xs))):
                    got = ev(f"{fn}(m{k}, '{names[i][0]}')", inst)
                    if got is not exp:
                        return f"{fn}({vals}, {names[i][0]}) = {got}"
    return None


def battery(w, dm, count, with_xml):
    return (w.n < 5 and value_queries(w, dm, count, with_xml)
            or xpath_queries(w, dm, count)
            or graph_queries(w, dm, count)
            or digest_query(w, dm, count))


def one(case, rec=None):
    w = World(case)
    count = [0]
    msg = battery(w, w.model(), count, case.get("xml", True))
    if rec:
        rec.step(count[0])
        rec.agree("battery")
    return msg


# ------------------------------------------------------------- histories

def operations(w):
    """Queries that could disturb later ones."""
    ops = []
    for i in range(w.n):
        ops.append(["down", i])
        ops += [["up", i, j] for j in range(w.n) if i != j]
    ops += [["all", list(s)] for s in itertools.permutations(range(w.n), 2)]
    ops += [["unknown"], ["digest"], ["tree"]]
    for k, (mod, c, leaf, s) in enumerate(w.leaves):
        if c == "cc" and leaf[0] == "l":
            ops += [["value", k, v] for v in range(w.n)]
    ops += [["xpath", i, j] for i in range(w.n) for j in range(w.n)]
    return ops


def perform(w, dm, op, count):
    """Run one operation and compare its own answer."""
    sd = dm.schema_data
    k = op[0]
    count[0] += 1
    if k == "down":
        got = set(sd.derived_from(w.ids[op[1]]))
        exp = w.derived(op[1])
    elif k == "up":
        got = sd.is_derived_from(w.ids[op[1]], w.ids[op[2]])
        exp = op[2] in w.up[op[1]]
    elif k == "all":
        got = set(sd.derived_from_all([w.ids[i] for i in op[1]]))
        exp = w.derived(op[1][0]) & w.derived(op[1][1])
    elif k == "unknown":
        got = (set(sd.derived_from(("i9", "c"))),
               sd.is_derived_from(("i9", "c"), w.ids[0]))
        exp = (set(), False)
    elif k == "digest":
        return digest_query(w, dm, count)
    elif k == "tree":
        dm.ascii_tree()
        return None
    elif k == "value":
        mod, c, leaf, s = w.leaves[op[1]]
        v = w.ids[op[2]]
        got = verdict(lambda: dm.from_raw(
            {f"{mod}:{c}": {leaf: f"{v[1]}:{v[0]}"}}))
        exp = v in w.accepted(s)
    else:
        _, i, j = op
        inst = dm.from_raw({"c:cc": {"m0": [f"{w.ns[i]}:{w.names[i]}"]}})
        q = f"{w.pfx['c'][w.ns[j]]}:{w.names[j]}"
        got = XPathParser(
            f"derived-from(/{w.pfx['c']['c']}:cc/{w.pfx['c']['c']}:m0, "
            f"'{q}')", SchemaContext(dm.schema_data, "c", ("c", ""))
            ).parse().evaluate(inst)
        exp = j in w.up[i]
    if got != exp:
        return f"{op}: {got}, expected {exp}"
    return None


def history(case, rec=None):
    w = World(case["world"])
    count = [0]
    dm = w.model()
    msg = None
    for op in case["ops"]:
        msg = perform(w, dm, op, count)
        if msg:
            break
    if not msg:
        msg = graph_queries(w, dm, count) or digest_query(w, dm, count) \
            or value_queries(w, dm, count, False,
                             [x for x in w.leaves if x[1] == "cc"
                              and x[2] in ("l0", "l1", "l4", "ua0")])
    if rec:
        rec.state()
        rec.step(count[0])
        rec.agree("history")
    return f"after {case['ops']}: {msg}" if msg else None


# ------------------------------------------------------------------- run

def dags(n):
    pairs = [(x, y) for x in range(n) for y in range(x)]
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        yield [list(p) for p, b in zip(pairs, bits) if b]


def assignments(n, world, edges):
    for ms in itertools.product("abc", repeat=n):
        rank = [0 if world == "sub" and m == "b" else "abc".index(m)
                for m in ms]
        if all(rank[y] <= rank[x] for x, y in edges):
            yield "".join(ms)


def connected(n, edges):
    comp = {0}
    for _ in range(n):
        for x, y in edges:
            if x in comp or y in comp:
                comp |= {x, y}
    return len(comp) == n


def cases(edges, n, full):
    for world in WORLDS if n < 5 else ("abc", "bx"):
        for ms in assignments(n, world, edges):
            base = {"edges": edges, "mods": ms, "world": world}
            if full:
                for k, pfx in enumerate(PREFIXES):
                    for names in (0, 1):
                        for order in (0, 1) if full == 2 else [
                                (k + names) % 2]:
                            yield dict(base, pfx=pfx, names=names,
                                       order=order,
                                       xml=(k == 1) == names)
            else:
                # alternate the surface forms
                k = len(edges) + sum(map(ord, ms))
                yield dict(base, pfx=list(PREFIXES)[k % 3], names=1,
                           order=k // 3 % 2, maxbases=3, xml=False)


def bounds(tier):
    return {"identities": 4 if tier == "quick" else 5,
            "identities with all surface forms":
            3 if tier == "quick" else 4,
            "modules": 3, "worlds": len(WORLDS),
            "operations before the observation": 2 if tier == "quick" else 3}


HIST = [([[1, 0], [2, 1]], "aaa"), ([[1, 0], [2, 1]], "abc"),
        ([[1, 0], [2, 0]], "aac"), ([[2, 0], [2, 1]], "acc"),
        ([[1, 0], [2, 1], [2, 0]], "abb")]
HIST4 = [([[1, 0], [2, 0], [3, 1], [3, 2]], "abcc"),
         ([[1, 0], [2, 1], [3, 2]], "aabc"),
         ([[2, 0], [2, 1], [3, 2]], "aabc")]


def world_of(edges, ms):
    return {"edges": edges, "mods": ms, "world": "abc", "pfx": "plain",
            "names": 0, "order": 0, "maxbases": 2}


def groups(tier):
    res = []
    for n in (1, 2, 3):
        res += [["one", n, 1 if tier == "quick" else 2, e] for e in dags(n)]
    if tier == "quick":
        # graphs in several parts add nothing beyond three identities here
        res += [["one", 4, 0, e] for e in dags(4) if connected(4, e)]
    else:
        res += [["one", 4, 1, e] for e in dags(4)]
        res += [["one", 5, 0, e] for e in dags(5) if connected(5, e)]
    for k in range(1, 3 if tier == "quick" else 4):
        for e, ms in HIST:
            n = len(operations(World(world_of(e, ms))))
            res += [["hist", e, ms, k, [i]] for i in range(n)]
    for e, ms in HIST4:
        n = len(operations(World(world_of(e, ms))))
        m = 1 if tier == "quick" else 2
        for k in range(1, m + 1):
            res += [["hist", e, ms, k, [i]] for i in range(n)]
    return res


def run_group(group, rec):
    if group[0] == "one":
        _, n, full, edges = group
        for c in cases(edges, n, full):
            rec.state()
            m = one(c, rec)
            if m:
                rec.fail({"kind": "one", "case": c}, m)
        rec.sample(group)
        return
    _, e, ms, k, first = group
    wd = world_of(e, ms)
    ops = operations(World(wd))
    for rest in itertools.product(range(len(ops)), repeat=k - 1):
        c = {"kind": "hist", "world": wd,
             "ops": [ops[i] for i in first + list(rest)]}
        m = history(c, rec)
        if m:
            rec.fail(c, m)
    rec.sample(group)


def replay(case):
    return one(case["case"]) if case["kind"] == "one" else history(case)
