"""C25: the textual form of an XPath expression denotes that expression."""
import itertools
from xml.sax import saxutils

from mc import models as M
from mc.checks import c12
from mc.ref import xpath as X
from yangson.exceptions import YangsonException
from yangson.schemadata import SchemaContext
from yangson.xpathparser import XPathParser

PROPERTY = "C25"
ASSUMPTIONS = [
    "an even number of unary minus signs may be printed as none (the upstream "
    "tests pin that)",
    "the text is escaped as the value of an XML attribute, too (tests)",
    "number literals that overflow are not considered",
    "names in string literals (identities) keep their prefixes",
]

# the same names under other prefixes: "x" is a, "a" is b, "y" is c
MODS = {
    "a": M.module("a", "leaf t { type string; }", prefix="x"),
    "b": M.module("b", "leaf t { type string; }", prefix="a"),
    "c": M.module("c", "leaf t { type string; }", prefix="y",
                  imports=[("a", "x"), ("b", "a")]),
    # prefixes are module names
    "n": M.module("n", "leaf t { type string; }",
                  imports=[("a", "a"), ("b", "b"), ("c", "c")]),
}
CTX = {"c": {"x": "a", "a": "b", "y": "c"},
       "b": {"a": "b"}}
NAMES = {"a": "a", "b": "b", "c": "c", "n": "n"}

_env = {}


def env():
    if not _env:
        dm = M.build(MODS)
        _env["dm"] = dm
        for m in MODS:
            _env[m] = SchemaContext(dm.schema_data, m, (m, ""))
    return _env


def strip(e):
    """Drop pairs of unary minus signs."""
    if isinstance(e, tuple):
        if e[:1] == ("neg",) and e[1][:1] == ("neg",):
            return strip(e[1][1])
        return tuple(strip(x) for x in e)
    if isinstance(e, list):
        return [strip(x) for x in e]
    return e


TREES = {}


def try_text(text, mod):
    e = env()
    if mod == "12":             # contexts of C12: prefixes are module names
        e12 = c12.env()
        sctx, prefixes, default = e12["sctxa"], e12["enva"].prefixes, "a"
        nctx, nprefixes = sctx, prefixes
    else:
        sctx, prefixes, default = e[mod], CTX[mod], mod
        nctx, nprefixes = e["n"], NAMES
    try:
        ast = strip(X.parse(text, default, prefixes)[0])
    except (X.Bad, X.Unsupported):
        return "invalid", None
    try:
        xpp = XPathParser(text, sctx)
        ex = xpp.parse()
        if not xpp.at_end():
            return "invalid", None
    except YangsonException:
        return "rejected", None     # C12
    try:
        raw = str(ex)
        out = saxutils.unescape(raw, {
            "&quot;": '"', "&#9;": "\t", "&#10;": "\n", "&#13;": "\r"})
        tree = ex.syntax_tree()
    except Exception as err:
        return "crash", f"{text!r}: cannot be printed: {err!r}"
    # 1. the text denotes the same expression, according to the reference
    try:
        ast2 = strip(X.parse(out, "!none", nprefixes)[0])
    except (X.Bad, X.Unsupported) as err:
        return "badtext", f"{text!r} is printed as {out!r}, not XPath: {err}"
    if ast2 != ast:
        return "differs", f"{text!r} is printed as {out!r}: {ast2}, not {ast}"
    # 2. and the library
    try:
        ex2 = XPathParser(out, nctx).parse()
    except YangsonException as err:
        return "badtext", f"{text!r} is printed as {out!r}, rejected: {err!r}"
    if str(ex2) != raw:
        return "unstable", f"{raw!r}, parsed again, is printed as {str(ex2)!r}"
    # 3. the syntax tree shows the expression
    nl = not any(t[1].splitlines() not in ([], [t[1]]) for t in X.lex(text) if t[0] == "lit")
    if nl:
        if TREES.setdefault((mod, tree), ast) != ast:
            return "tree", (f"{text!r} has the same syntax tree as an "
                            f"expression {TREES[mod, tree]}")
        exp = ref_tree(ast)
        got = tree_words(tree)
        if got != exp:
            return "tree", f"{text!r}: syntax tree\n{tree}shows {got}, not {exp}"
    return "ok", None


# ------------------------------------------------ the shape of a syntax tree

def tree_words(tree):
    """Operands in the order of the syntax tree: (kind, value)"""
    res = []
    for line in tree.split("\n"):
        word, _, rest = line.strip().partition(" ")
        if word == "Step":
            res.append(("step", rest))
        elif word == "Number":
            res.append(("num", float(rest[1:-1])))
        elif word == "Literal":
            res.append(("lit", rest[1:-1] if rest else ""))
        elif word == "Root":
            res.append(("root", ""))
        elif word == "UnaryMinusExpr":
            if rest == "(-)":
                if res and res[-1][0] == "neg":
                    res.pop()
                else:
                    res.append(("neg", ""))
        elif word.startswith("Func"):
            if word == "FuncDerivedFrom":
                rest = rest.startswith("(OR-SELF,") and "(OR-SELF)"
            res.append(("fn", word + (" " + rest if rest else "")))
        elif word in ("OrExpr", "AndExpr", "UnionExpr"):
            res.append(("op", word))
        elif word in ("EqualityExpr", "RelationalExpr", "AdditiveExpr",
                      "MultiplicativeExpr"):
            res.append(("op", rest[1:-1]))
    return res


FN = {"derived-from-or-self": "FuncDerivedFrom (OR-SELF)",
      "local-name": "FuncName (LOCAL)", "name": "FuncName"}


def ref_tree(e):
    k = e[0]
    if k == "num":
        return [("num", e[1])]
    if k == "lit":
        return [("lit", e[1])]
    if k == "root":
        return [("root", "")]
    if k == "fn":
        n = FN.get(e[1]) or "Func" + "".join(
            w.capitalize() for w in e[1].split("-"))
        return [("fn", n)] + [x for a in e[2] for x in ref_tree(a)]
    if k == "neg":
        return [("neg", "")] + ref_tree(e[1])
    if k == "bin":
        op = {"or": "OrExpr", "and": "AndExpr", "|": "UnionExpr"}.get(
            e[1], e[1])
        return [("op", op)] + ref_tree(e[2]) + ref_tree(e[3])
    if k == "filter":
        return ref_tree(e[1]) + [x for p in e[2] for x in ref_tree(p)]
    if k == "steps":
        res = ref_tree(e[1]) if e[1] else []
        for axis, test, preds in e[2]:
            t = (str((test[2], test[1])) if isinstance(test, tuple) else
                 "None" if test == "node" else "False")
            res.append(("step", f"({axis.replace('-', '_')} {t})"))
            res += [x for p in preds for x in ref_tree(p)]
        return res
    raise AssertionError(k)


# ------------------------------------------------------------------ families

LEAVES = ["t", "x:t", "a:t", ".", "..", "/", "*", "1", ".5", "1000000000000000000",
          "0.00001", "'q'", "\"it's\"", "'say \"x\"'", "'<&>'", "'a\tb'",
          "true()", "current()"]
UN = ["-{}", "({})", "not({})", "string({})", "({})[1]", "({})/t", "({})//t",
      "t[{}]", ".[{}]", "..[{}]", "self::node()[{}]", "*[{}]/t",
      "descendant-or-self::node()[{}]", "ancestor::a:t[{}]", "/t[{}]/t",
      "//t[{}]", "t//.[{}]", "substring({}, 1)", "substring('a', 1, {})",
      "translate('a', {}, 'b')", "concat('a', 'b', {})", "name({})",
      "local-name({})", "deref({})/t", "count({})", "({})[1][2]", "- - {}",
      "boolean({})[t]", "derived-from({}, 'i')",
      "derived-from-or-self({}, 'i')", "re-match({}, 'a')",
      "bit-is-set({}, 'b')", "enum-value({})", "normalize-space({})",
      "string-length({})"]
BIN = ["or", "and", "=", "!=", "<", "<=", ">", ">=", "+", "-", "*", "div",
       "mod", "|"]
STEPS = ["t", "x:t", "*", "node()", ".", "..", "self::node()", "self::t",
         "self::*", "parent::node()", "parent::t", "child::node()",
         "descendant-or-self::node()", "descendant-or-self::t",
         "descendant-or-self::node()[1]", ".[1]", "..[t]", "self::node()[t]",
         "parent::node()[1]", "ancestor-or-self::*", "following-sibling::t",
         "preceding-sibling::a:t[2]", "descendant::node()", "t[1][2]",
         "*[t = 1]", "ancestor::y:t"]


def f_nest1(_):
    for a in LEAVES:
        yield a
        for u in UN:
            yield u.format(a)
        for b, o in itertools.product(LEAVES, BIN):
            yield f"{a} {o} {b}"


def f_nest2(i):
    """unary over unary and binary; binary over unary, all parenthesised too"""
    u = UN[i]
    for a in LEAVES:
        for v in UN:
            yield u.format(v.format(a))
    for o in BIN:
        for a, b in itertools.product(("t", "1", "'q'"), ("x:t", ".5", "..")):
            yield u.format(f"{a} {o} {b}")
            yield u.format(f"({a} {o} {b})")
            yield f"{u.format(a)} {o} {b}"
            yield f"{a} {o} {u.format(b)}"
            yield f"({u.format(a)}) {o} ({u.format(b)})"


def f_ops(i):
    """all shapes of three operators, with all placements of parentheses"""
    o1 = BIN[i]
    for o2 in BIN:
        yield f"t {o1} x:t {o2} a:t"
        yield f"(t {o1} x:t) {o2} a:t"
        yield f"t {o1} (x:t {o2} a:t)"
        yield f"-(t {o1} x:t) {o2} -a:t"
        for o3 in BIN:
            yield f"1 {o1} 2 {o2} 3 {o3} 4"
            yield f"(1 {o1} 2) {o2} 3 {o3} 4"
            yield f"1 {o1} (2 {o2} 3) {o3} 4"
            yield f"1 {o1} 2 {o2} (3 {o3} 4)"
            yield f"(1 {o1} 2) {o2} (3 {o3} 4)"
            yield f"(1 {o1} 2 {o2} 3) {o3} 4"
            yield f"1 {o1} (2 {o2} 3 {o3} 4)"
            yield f"((1 {o1} 2) {o2} 3) {o3} 4"
            yield f"(1 {o1} (2 {o2} 3)) {o3} 4"
            yield f"1 {o1} ((2 {o2} 3) {o3} 4)"
            yield f"1 {o1} (2 {o2} (3 {o3} 4))"


def f_steps(i):
    """all paths of up to four steps"""
    s1 = STEPS[i]
    for pre in ("", "/", "//", "(t)/", "(t)//", "current()/", "current()//",
                "deref(.)/", "(t)[1]/", "(t | x:t)//"):
        yield pre + s1
        for s2, j in itertools.product(STEPS, ("/", "//")):
            yield pre + s1 + j + s2
            if pre in ("", "/", "//", "(t)//"):
                for s3, k in itertools.product(STEPS, ("/", "//")):
                    yield pre + s1 + j + s2 + k + s3


def groups(tier):
    g = [["nest1", 0]]
    g += [["nest2", i] for i in range(len(UN))]
    g += [["ops", i] for i in range(len(BIN))]
    g += [["steps", i] for i in range(len(STEPS))]
    for h in c12.groups(tier):
        if tier != "quick" or h[0] not in ("tokens", "prec3") or (
                h[0] == "tokens" and h[2] <= 3):
            g.append(["c12", h])
    return g


CHUNK = 1


def bounds(tier):
    return ("all expressions of: two nested unary forms (%d x %d forms over "
            "%d operands), three binary operators with all placements of "
            "parentheses, paths of up to 3 of %d steps with every prefix, in "
            "two prefix contexts; all expressions of C12 (%s)"
            % (len(UN), len(UN), len(LEAVES), len(STEPS),
               "token strings up to length 3" if tier == "quick" else "all"))


def run_group(group, rec):
    TREES.clear()
    if group[0] == "c12":
        it, mods = c12.texts(group[1]), ("12",)
    else:
        it = globals()["f_" + group[0]](group[1])
        mods = ("c",) if group[0] != "nest1" else ("c", "b")
    for text in it:
        for mod in mods:
            rec.state()
            kind, msg = try_text(text, mod)
            rec.step(3)
            rec.agree(kind)
            if msg:
                rec.fail({"text": text, "mod": mod}, msg)


def replay(case):
    return try_text(case["text"], case["mod"])[1]
