"""C14: feature conditions are boolean logic over the supported features."""
import itertools
import re

from mc.models import build, libtext, module
from yangson.exceptions import (FeaturePrerequisiteError, ParserException,
                                UnknownPrefix, YangsonException)
from yangson.statement import Statement

PROPERTY = "C14"
NAME = re.compile(r"[A-Za-z_][A-Za-z0-9_.-]*")
WS = " \t\n\r"
KW = ("and", "or", "not")


# -------------------------------------------------- reference (RFC 7950)

class Ref:
    """All derivations of an if-feature expression by the grammar of
    RFC 7950 sec. 14: values {True, False}, or None for derivations with a
    feature named as an operator."""

    def __init__(self, text, feats):
        self.t, self.feats = text, feats
        self.memo = {}

    def values(self):
        t = self.t
        i, n = 0, len(t)
        # leading and trailing white space is left open
        while i < n and t[i] in WS:
            i += 1
        res = set()
        for e, v in self.p("expr", i):
            if t[e:].strip(WS) == "":
                res.add(v)
        return res

    def sep(self, i):
        j = i
        while j < len(self.t) and self.t[j] in WS:
            j += 1
        return j

    def p(self, rule, i):
        k = (rule, i)
        if k not in self.memo:
            self.memo[k] = list(getattr(self, rule)(i))
        return self.memo[k]

    def binary(self, i, sub, kw, this, op):
        for e, v in self.p(sub, i):
            yield e, v
            j = self.sep(e)
            if j > e and self.t.startswith(kw, j):
                k = self.sep(j + len(kw))
                if k > j + len(kw):
                    for f, w in self.p(this, k):
                        yield f, (None if v is None or w is None
                                  else op(v, w))

    def expr(self, i):
        return set(self.binary(i, "term", "or", "expr",
                               lambda a, b: a or b))

    def term(self, i):
        return set(self.binary(i, "factor", "and", "term",
                               lambda a, b: a and b))

    def factor(self, i):
        t = self.t
        res = set()
        if t.startswith("not", i):
            j = self.sep(i + 3)
            if j > i + 3:
                for e, v in self.p("factor", j):
                    res.add((e, None if v is None else not v))
        if t[i:i + 1] == "(":
            for e, v in self.p("expr", self.sep(i + 1)):
                j = self.sep(e)
                if t[j:j + 1] == ")":
                    res.add((j + 1, v))
        m = NAME.match(t, i)
        if m:
            a, e = m.group(), m.end()
            if t[e:e + 1] == ":":
                m = NAME.match(t, e + 1)
                if m:
                    res.add((m.end(), self.feature(a, m.group())))
            else:
                res.add((e, self.feature("", a)))
        return res

    def feature(self, p, n):
        if not p and n in KW:
            return None
        return (p, n) in self.feats


def verdict(text, feats):
    """True, False, "bad" or None (left open)."""
    vs = Ref(text, feats).values()
    if None in vs:
        return None
    assert len(vs) < 2, (text, vs)
    return vs.pop() if vs else "bad"


# ---------------------------------------------------------- the real code

def quoted(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


FEATS = {"a": ["f", "g", "order", "nothing", "not-x", "and", "android",
               "orx", "or-1", "_or", "a.and", "NOT", "notor"],
         "b": ["f", "h", "and.y", "ornot"]}


def texts(abody, bbody="", sub="", cbody=None):
    res = {"b": module("b", "".join(f"feature {f};\n" for f in FEATS["b"]) +
                       bbody),
           "a": module("a", "".join(f"feature {f};\n" for f in FEATS["a"]) +
                       abody, imports=[("b", "p")], prefix="own",
                       head="include as;" if sub else "")}
    if sub:
        res["as"] = ("submodule as { yang-version 1.1; belongs-to a { prefix "
                     "q; } import b { prefix bb; }\n" + sub + "}")
    if cbody is not None:
        res["c"] = module("c", cbody, imports=[("a", "x"), ("b", "p")])
    return res


def lib(t, fa, fb):
    res = []
    for n in t:
        if n == "as":
            continue
        e = {"name": n, "features": {"a": fa, "b": fb}.get(n, [])}
        if n == "a" and "as" in t:
            e["submodules"] = ["as"]
        res.append(e)
    return libtext(res)


def ref_feats(fa, fb, own="own", other="p"):
    return ({("", f) for f in fa} | {(own, f) for f in fa} |
            {(other, f) for f in fb})


# ------------------------------------------------- batches of expressions

def sets(names):
    """All sets of supported features among those named."""
    fa = [n for p, n in names if p in ("", "own")]
    fb = [n for p, n in names if p == "p"]
    fa = [f for f in dict.fromkeys(fa) if f in FEATS["a"]]
    fb = [f for f in dict.fromkeys(fb) if f in FEATS["b"]]
    for xa in itertools.product((0, 1), repeat=len(fa)):
        for xb in itertools.product((0, 1), repeat=len(fb)):
            yield ([f for f, x in zip(fa, xa) if x],
                   [f for f, x in zip(fb, xb) if x])


def valid_batch(exprs, names, rec, fail):
    """Leaves guarded by the expressions exist exactly when true."""
    body = "".join(f"leaf l{i} {{ if-feature {quoted(e)}; type string; }}\n"
                   for i, e in enumerate(exprs))
    t = texts(body)
    for fa, fb in sets(names):
        rec.step(len(exprs))
        feats = ref_feats(fa, fb)
        try:
            dm = build(t, lib(t, fa, fb))
        except Exception:
            for e in exprs:
                m = valid_one(e, fa, fb)
                if m:
                    fail({"kind": "valid", "expr": e, "fa": fa, "fb": fb}, m)
            continue
        for i, e in enumerate(exprs):
            exp = verdict(e, feats)
            got = dm.get_data_node(f"/a:l{i}") is not None
            rec.agree(f"{got}")
            if got != exp:
                fail({"kind": "valid", "expr": e, "fa": fa, "fb": fb},
                     f"{e!r} with features {fa} of a and {fb} of b: {got}")


def valid_one(e, fa, fb):
    t = texts(f"leaf l0 {{ if-feature {quoted(e)}; type string; }}")
    try:
        dm = build(t, lib(t, fa, fb))
        got = dm.get_data_node("/a:l0") is not None
    except Exception as x:
        got = repr(x)
    exp = verdict(e, ref_feats(fa, fb))
    return None if got == exp else f"{e!r} {fa} {fb}: {got}, expected {exp}"


def malformed(e):
    """The library with the expression is rejected."""
    t = texts(f"leaf l0 {{ if-feature {quoted(e)}; type string; }}")
    try:
        build(t, lib(t, ["f"], []))
        return f"malformed expression {e!r} accepted"
    except ParserException:
        return None
    except Exception as x:
        return f"{e!r}: {x!r}"


# token pools
TOKS = ["f", "g", "(", ")", "and", "or", "not"]
POOLS = {
    "prefixes": ["p:f", "own:f", "f", "p:h", "and", "or", "not", "(", ")"],
    "order": ["order", "f", "and", "or", "not", "(", ")"],
    "nothing": ["nothing", "not-x", "and", "or", "not", "(", ")"],
    "notor": ["notor", "orx", "and", "or", "not", "(", ")"],
    "android": ["android", "or-1", "and", "or", "not", "(", ")"],
    "_or": ["_or", "a.and", "and", "or", "not", "(", ")"],
    "NOT": ["NOT", "p:ornot", "and", "or", "not", "(", ")"],
    "p:and.y": ["p:and.y", "own:order", "and", "or", "not", "(", ")"],
}
GLUE = ["", " ", "\n", "\t  "]
CHARS = ["", ":f", "f:", "p:f:f", "f p:", "1f", "f!", "&", "f&g", "f and", "(",
         ")", "()", "f g", "not", "f not g", "p :f", "p: f", "-f", ".f", "f,g",
         "(f))", "((f)", "f or or g", "f and not", "f || g", "'f'", "f\\g",
         "f and(g)", "not(f)", "(f)or g", "(f) or(g)", "f andg", "fand g",
         "f OR g", "not  \n f", "(f)and(g)", "f;", "f //c", "f or /*c*/ g"]


def seps(toks, how):
    return how.join(toks)


def strings(group):
    """Texts of a group."""
    kind = group[0]
    if kind == "toks":
        _, first, n = group
        for rest in itertools.product(TOKS, repeat=n - len(first)):
            yield " ".join(list(first) + list(rest))
    elif kind == "pool":
        pool = POOLS[group[1]]
        for n in range(1, group[2] + 1):
            for toks in itertools.product(pool, repeat=n):
                yield " ".join(toks)
    elif kind == "glue":
        _, n, part = group
        for toks in itertools.product(TOKS[1:], repeat=n):
            if toks[0] != TOKS[1 + part]:
                continue
            for gl in itertools.product(GLUE[:2] if n > 3 else GLUE,
                                        repeat=n - 1):
                if all(g == " " for g in gl):
                    continue
                txt = toks[0]
                for g, x in zip(gl, toks[1:]):
                    txt += g + x
                yield txt
    elif kind == "chars":
        for c in CHARS:
            yield c
        for a in CHARS[:20]:
            yield "f or " + a
            yield a + " and f"


def names_of(group):
    if group[0] == "pool":
        return [("", x) if ":" not in x else tuple(x.split(":"))
                for x in POOLS[group[1]] if x not in KW + ("(", ")")]
    return [("", "f"), ("", "g")]


def explore_strings(group, rec, tier):
    good, seen = [], set()
    names = names_of(group)
    feats = ref_feats([n for p, n in names], [])
    for e in strings(group):
        if e in seen:
            continue
        seen.add(e)
        v = verdict(e, feats)
        if v is None:
            continue
        rec.state()
        if v != "bad":
            unknown = [x for x in re.findall(NAME, e.replace(":", " "))
                       if x not in KW and not any(
                           x in (p, n) for p, n in names)]
            if not unknown:
                good.append(e)
            continue
        m = malformed(e)
        rec.step()
        rec.agree("rejected")
        if m:
            rec.fail({"kind": "bad", "expr": e}, m)
    for i in range(0, len(good), 400):
        valid_batch(good[i:i + 400], names, rec, rec.fail)


# ----------------------------------------------- direct evaluation (long)

def long_group(group, rec):
    """Long token sequences, evaluated by SchemaData.if_features."""
    _, first, n = group
    t = texts("")
    for fa in ([], ["f"], ["g"], ["f", "g"]):
        dm = build(t, lib(t, fa, []))
        feats = ref_feats(fa, [])
        for rest in itertools.product(TOKS, repeat=n - len(first)):
            e = " ".join(list(first) + list(rest))
            exp = verdict(e, feats)
            if exp is None or exp == "bad" and fa:
                continue
            m = direct(dm, e, exp)
            rec.step()
            rec.agree(f"direct {exp}")
            if m:
                rec.fail({"kind": "direct", "expr": e, "fa": fa}, m)
    rec.state()


def direct(dm, e, exp):
    got = evaluate(dm, e)
    return None if got == exp else f"{e!r}: {got}, expected {exp}"


def evaluate(dm, e):
    leaf = Statement("leaf", "l")
    leaf.substatements = [Statement("if-feature", e)]
    try:
        return dm.schema_data.if_features(leaf, ("a", ""))
    except ParserException:
        return "bad"
    except Exception as x:
        return repr(x)


# -------------------------------------------------------- guarded places

def places(e):
    """label -> (a, b, as, c bodies, own expression prefix table, test)."""
    iff = f"if-feature {quoted(e)};"

    def node(path):
        return lambda dm: dm.get_data_node(path) is not None

    def schema(path):
        return lambda dm: dm.get_schema_node(path) is not None

    def accepts(val):
        def f(dm):
            try:
                dm.from_raw({"a:v": val}).validate()
                return True
            except YangsonException:
                return False
        return f
    res = {}
    for kind, st, path in [
            ("container", f"container n {{ {iff} }}", "/a:n"),
            ("leaf", f"leaf n {{ {iff} type string; }}", "/a:n"),
            ("leaf-list", f"leaf-list n {{ {iff} type string; }}", "/a:n"),
            ("list", f"list n {{ {iff} config false; leaf k {{ type "
             "string; } }", "/a:n"),
            ("anydata", f"anydata n {{ {iff} }}", "/a:n"),
            ("anyxml", f"anyxml n {{ {iff} }}", "/a:n"),
            ("in choice", f"choice c {{ {iff} leaf n {{ type string; }} }}",
             "/a:n"),
            ("in case", f"choice c {{ case d {{ {iff} leaf n {{ type string;"
             " } } }", "/a:n"),
            ("shorthand", f"choice c {{ container n {{ {iff} leaf x {{ type "
             "string; } } }", "/a:n"),
            ("nested", f"container o {{ container n {{ {iff} leaf x {{ type "
             "string; } } }", "/a:o/n/x"),
            ("uses", "grouping gg { leaf n { type string; } } "
             f"uses gg {{ {iff} }}", "/a:n"),
            ("in grouping", f"grouping gg {{ leaf n {{ {iff} type string; }}"
             " } container o { uses gg; }", "/a:o/n"),
            ("uses-augment", "grouping gg { container o; } uses gg { augment "
             f"o {{ {iff} leaf n {{ type string; }} }} }}", "/a:o/n"),
            ("refine", "grouping gg { container o { leaf n { type string; } "
             f"}} }} uses gg {{ refine o/n {{ {iff} }} }}", "/a:o/n"),
            ("augment", f"container o; augment /own:o {{ {iff} leaf n {{ "
             "type string; } }", "/a:o/n"),
            ("twice", f"leaf n {{ {iff} if-feature f; type string; }}",
             "/a:n"),
            ("twice before", f"leaf n {{ if-feature f; {iff} type string; }}",
             "/a:n")]:
        res[kind] = (dict(abody=st), node(path))
    for kind, st, path in [
            ("rpc", f"rpc n {{ {iff} }}", "/a:n"),
            ("action", f"container o {{ action n {{ {iff} }} }}", "/a:o/n"),
            ("notification", f"notification n {{ {iff} }}", "/a:n"),
            ("in rpc", f"rpc o {{ input {{ leaf n {{ {iff} type string; }} }}"
             " }", "/a:o/input/n"),
            ("choice", f"choice n {{ {iff} leaf x {{ type string; }} }}",
             "/a:n"),
            ("case", f"choice c {{ case n {{ {iff} leaf x {{ type string; }} "
             "} }", "/a:c/n")]:
        res[kind] = (dict(abody=st), schema(path))
    res["identity"] = (dict(
        abody=f"identity i; identity n {{ {iff} base i; }} leaf v {{ type "
        "identityref { base i; } }"), accepts("a:n"))
    res["enum"] = (dict(abody=f"leaf v {{ type enumeration {{ enum n {{ {iff}"
                        " } enum m; } }"), accepts("n"))
    res["bit"] = (dict(abody=f"leaf v {{ type bits {{ bit n {{ {iff} }} bit "
                       "m; } }"), accepts("m n"))
    res["enum restricted"] = (dict(
        abody="typedef ty { type enumeration { enum m; enum n; } } leaf v { "
        f"type ty {{ enum m; enum n {{ {iff} }} }} }}"), accepts("n"))
    res["bit restricted"] = (dict(
        abody="typedef ty { type bits { bit m; bit n; } } leaf v { "
        f"type ty {{ bit m; bit n {{ {iff} }} }} }}"), accepts("n"))
    res["enum in typedef"] = (dict(
        abody=f"typedef ty {{ type enumeration {{ enum m; enum n {{ {iff} }}"
        " } } leaf v { type ty; }"), accepts("n"))
    res["enum in union"] = (dict(
        abody=f"leaf v {{ type union {{ type int8; type enumeration {{ enum m;"
        f" enum n {{ {iff} }} }} }} }}"), accepts("n"))
    return res


def foreign(e, ea, es):
    """The same condition written in other (sub)modules: e in a, ea with
    the prefixes of module c, es with those of the submodule."""
    iff, ifc, ifs = (f"if-feature {quoted(x)};" for x in (e, ea, es))

    def node(path):
        return lambda dm: dm.get_data_node(path) is not None
    return {
        "submodule": (dict(abody="", sub=f"leaf n {{ {ifs} type string; }}"),
                      node("/a:n")),
        "submodule augment": (dict(
            abody="container o;", sub=f"augment /q:o {{ {ifs} leaf n {{ type "
            "string; } }"), node("/a:o/n")),
        "submodule grouping": (dict(
            abody="uses gg;", sub=f"grouping gg {{ leaf n {{ {ifs} type "
            "string; } }"), node("/a:n")),
        "grouping of a in c": (dict(
            abody=f"grouping gg {{ leaf n {{ {iff} type string; }} }}",
            cbody="container o { uses x:gg; }"), node("/c:o/n")),
        "refine in c": (dict(
            abody="grouping gg { leaf n { type string; } }",
            cbody=f"container o {{ uses x:gg {{ refine n {{ {ifc} }} }} }}"),
            node("/c:o/n")),
        "augment from c": (dict(
            abody="container o;", cbody=f"augment /x:o {{ {ifc} leaf n {{ "
            "type string; } }"), node("/a:o/c:n")),
        "leaf augmented from c": (dict(
            abody="container o;", cbody=f"augment /x:o {{ leaf n {{ {ifc} "
            "type string; } }"), node("/a:o/c:n")),
        "grouping of c augmented": (dict(
            abody="container o;", cbody="augment /x:o { uses gg; } grouping "
            f"gg {{ leaf n {{ {ifc} type string; }} }}"), node("/a:o/c:n")),
        "grouping of a augmented by c": (dict(
            abody=f"container o; grouping gg {{ leaf n {{ {iff} type string; "
            "} }", cbody="augment /x:o { uses x:gg; }"), node("/a:o/c:n")),
        "typedef of a in c": (dict(
            abody=f"typedef ty {{ type enumeration {{ enum m; enum n {{ {iff} "
            "} } }", cbody="leaf v { type x:ty; }"), enumv("c:v")),
        "identity in c": (dict(
            abody="identity i; leaf v { type identityref { base i; } }",
            cbody=f"identity n {{ {ifc} base x:i; }}"), identv("c:n")),
    }


def enumv(mem):
    def f(dm):
        try:
            dm.from_raw({mem: "n"}).validate()
            return True
        except YangsonException:
            return False
    return f


def identv(val):
    def f(dm):
        try:
            dm.from_raw({"a:v": val}).validate()
            return True
        except YangsonException:
            return False
    return f


# expressions in the prefixes of a, of c, of the submodule
EXPRS = [("f", "x:f", "f"), ("p:f", "p:f", "bb:f"), ("own:f", "x:f", "q:f"),
         ("not f", "not x:f", "not f"),
         ("f and p:f", "x:f and p:f", "q:f and bb:f"),
         ("f or g and p:f", "x:f or x:g and p:f", "f or g and bb:f"),
         ("(f or g) and p:f", "(x:f or x:g) and p:f", "(f or g) and bb:f"),
         ("not p:f or own:g", "not p:f or x:g", "not bb:f or q:g"),
         ("not (f or p:f)", "not (x:f or p:f)", "not (f or bb:f)"),
         ("nothing", "x:nothing", "nothing"),
         ("g and not f and not p:f", "x:g and not x:f and not p:f",
          "g and not f and not bb:f")]


def place_items():
    for i in range(len(EXPRS)):
        for lab in places("f"):
            yield ["place", i, lab]
        for lab in foreign("f", "f", "f"):
            yield ["foreign", i, lab]


def place_case(kind, i, lab):
    e = EXPRS[i]
    kw, test = (places(e[0]) if kind == "place" else foreign(*e))[lab]
    t = texts(**kw)
    n = 0
    for fa in itertools.chain.from_iterable(itertools.combinations(
            ("f", "g", "nothing"), r) for r in range(4)):
        for fb in ([], ["f"], ["h"]):
            n += 1
            exp = verdict(e[0], ref_feats(fa, fb))
            if lab.startswith("twice"):
                exp = exp and "f" in fa
            try:
                got = test(build(t, lib(t, list(fa), fb)))
            except Exception as x:
                return n, f"{lab} {e} features {fa} {fb}: {x!r}"
            if got != exp:
                return n, (f"{lab} {e} features {fa} of a, {fb} of b: "
                           f"{'present' if got else 'absent'}")
    return n, None


# --------------------------------------------- prerequisites of features

def prereq_items():
    """Feature dependence structures: f, g in a, h in b, s in submodule."""
    forms = {"f": [None, "g", "p:h", "g and p:h", "not g", "s"],
             "g": [None, "p:h", "not p:h", "f", "s or p:h"],
             "s": [None, "f", "bb:h", "not q:g"],
             "h": [None]}
    for x in itertools.product(*forms.values()):
        yield ["prereq"] + list(x)


def prereq_case(f, g, s, h):
    def feat(n, e):
        return f"feature {n} {{ if-feature {quoted(e)}; }}\n" if e else \
            f"feature {n};\n"
    t = {"b": module("b", feat("h", h)),
         "a": module("a", feat("f", f) + feat("g", g), prefix="own",
                     imports=[("b", "p")], head="include as;"),
         "as": "submodule as { yang-version 1.1; belongs-to a { prefix q; } "
               "import b { prefix bb; }\n" + feat("s", s) + "}"}
    n = 0
    for on in itertools.product((0, 1), repeat=4):
        fa = [x for x, o in zip("fgs", on) if o]
        fb = ["h"] if on[3] else []
        feats = ref_feats(fa, fb) | ref_feats(fa, fb, "q", "bb")
        ok = all(verdict(e, feats) for x, e in (("f", f), ("g", g), ("s", s))
                 if x in fa and e)
        n += 1
        for order in (1, -1):
            tt = dict(list(t.items())[::order])
            try:
                build(tt, lib(tt, fa[::order], fb))
                got = True
            except FeaturePrerequisiteError:
                got = False
            except Exception as x:
                got = repr(x)
            if got != ok:
                return n, (f"prerequisites f: {f}, g: {g}, s: {s}; supported "
                           f"{fa} {fb}: {got}, expected {ok}")
    return n, None


# ----------------------------------------------------------- other errors

def error_items():
    for second in ("f and", "(", "f g", "", "not"):
        for first in ("f", "not f"):
            for order in (0, 1):
                for fa in ([], ["f"]):
                    yield ["error", second, first, order, fa]
    for e in ("z:f", "f or z:f", "f and z:f", "not z:f", "(z:f)"):
        for fa in ([], ["f"]):
            yield ["prefix", e, fa]


def error_case(item):
    if item[0] == "error":
        _, second, first, order, fa = item
        iffs = [f"if-feature {quoted(x)};" for x in (first, second)]
        if order:
            iffs.reverse()
        body = f"leaf l {{ {' '.join(iffs)} type string; }}"
        want = ParserException
        if second == "not":
            return None
    else:
        _, e, fa = item
        body = f"leaf l {{ if-feature {quoted(e)}; type string; }}"
        want = UnknownPrefix
    t = texts(body)
    try:
        build(t, lib(t, fa, []))
    except want:
        return None
    except Exception as x:
        return f"{item}: {x!r}"
    return f"{item}: accepted"


# ------------------------------------------------------------------- run

def bounds(tier):
    return {"tokens of expressions built into schemas":
            5 if tier == "quick" else 6,
            "tokens of directly evaluated expressions":
            6 if tier == "quick" else 8,
            "name pools": len(POOLS), "places": len(places("f")) +
            len(foreign("f", "f", "f")), "feature sets": "all"}


def groups(tier):
    n = 5 if tier == "quick" else 6
    res = [["toks", [], k] for k in range(1, n)]
    res += [["toks", [a, b], n] for a in TOKS for b in TOKS]
    res += [["pool", p, 4 if tier == "quick" else 5] for p in POOLS]
    res += [["glue", k, i] for k in range(2, 5 if tier == "quick" else 6)
            for i in range(6)]
    res += [["chars"]]
    m = 6 if tier == "quick" else 8
    res += [["long", list(a), k] for k in range(n + 1, m + 1)
            for a in itertools.product(TOKS, repeat=2)]
    pl = list(place_items())
    res += [["items", pl[i:i + 12]] for i in range(0, len(pl), 12)]
    pr = list(prereq_items())
    res += [["items", pr[i:i + 15]] for i in range(0, len(pr), 15)]
    res += [["items", list(error_items())]]
    return res


def run_group(group, rec):
    if group[0] == "long":
        long_group(group, rec)
    elif group[0] == "items":
        for item in group[1]:
            rec.state()
            m = item_case(item, rec)
            if m:
                rec.fail({"kind": "item", "item": item}, m)
    else:
        explore_strings(group, rec, None)
    rec.sample(group)


def item_case(item, rec=None):
    if item[0] in ("place", "foreign"):
        n, m = place_case(*item)
    elif item[0] == "prereq":
        n, m = prereq_case(*item[1:])
    else:
        n, m = 1, error_case(item)
    if rec:
        rec.step(n)
        rec.agree(item[0])
    return m


def replay(case):
    k = case["kind"]
    if k == "valid":
        return valid_one(case["expr"], case["fa"], case["fb"])
    if k == "bad":
        return malformed(case["expr"])
    if k == "direct":
        t = texts("")
        dm = build(t, lib(t, case["fa"], []))
        return direct(dm, case["expr"],
                      verdict(case["expr"], ref_feats(case["fa"], [])))
    return item_case(case["item"])
