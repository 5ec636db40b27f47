"""C12: XPath expressions evaluate as XPath 1.0 with YANG 1.1 functions."""
import itertools
import math

from mc import models as M
from mc.ref import xpath as X
from yangson.exceptions import XPathTypeError, YangsonException
from yangson.nodeset import NodeSet
from yangson.schemadata import SchemaContext
from yangson.xpathparser import XPathParser

PROPERTY = "C12"
ASSUMPTIONS = [
    "the order of differently named siblings is implementation-defined: an "
    "expression whose value depends on it is not compared",
    "string-values of internal nodes and number-values of boolean leaves are "
    "not compared (the upstream tests pin non-XPath results)",
]

A = M.module("a", """
  identity i0; identity i1 { base i0; } identity i2 { base i1; }
  identity o;
  container c {
    leaf i { type int8; }
    leaf d { type decimal64 { fraction-digits 2; } }
    leaf s { type string; }
    leaf bo { type boolean; }
    leaf en { type enumeration { enum one; enum five { value 5; } enum six; } }
    leaf bi { type bits { bit b0; bit b01; bit z { position 9; } } }
    leaf id { type identityref { base i0; } }
    leaf lr { type leafref { path "../l/k"; require-instance false; } }
    leaf ii { type instance-identifier { require-instance false; } }
    leaf e { type empty; }
    list l { key k;
      leaf k { type string; }
      leaf v { type int8; }
      leaf id { type identityref { base i0; } }
      list l { key k; leaf k { type string; } leaf v { type int8; } }
      leaf-list q { type string; }
    }
    leaf-list ll { type int8; ordered-by user; }
    leaf-list ls { type string; ordered-by user; }
  }
  leaf t { type string; }
  leaf v { type int8; }
""")
B = M.module("b", """
  identity i3 { base a:i1; }
  augment "/a:c" {
    leaf i { type int8; }
    container bc { leaf v { type int8; } leaf i { type string; } }
  }
  augment "/a:c/a:l" { leaf v { type string; } }
""", imports=[("a", "a")])
MODEL = {"a": A, "b": B}
PREF = {"a": "a", "b": "b"}
DERIVED = {("i1", "a"): {("i0", "a")},
           ("i2", "a"): {("i0", "a"), ("i1", "a")},
           ("i3", "b"): {("i0", "a"), ("i1", "a")}}
# reverse: identity -> set of bases; Env.derived maps identity to its bases
ENUM = {"one": 0, "five": 5, "six": 6}

DOCS = [
    {"a:c": {
        "i": 5, "d": "1.5", "s": "5", "bo": True, "en": "five", "bi": "b01 z",
        "id": "b:i3", "lr": "y", "ii": "/a:c/l[k='x']/v", "e": [None],
        "l": [{"k": "x", "v": 1, "id": "i1", "q": ["p", "1"],
               "l": [{"k": "x", "v": 7}, {"k": "w", "v": 8}]},
              {"k": "y", "v": 2, "id": "a:i0", "b:v": "z",
               "l": [{"k": "x", "v": 9}]},
              {"k": "5", "id": "b:i3", "q": ["q"]}],
        "ll": [3, 1, 5], "ls": ["a", "", "5"],
        "b:i": -3, "b:bc": {"v": 5, "i": "ab"}},
     "a:t": "y", "a:v": 0},
    {"a:c": {"i": 0, "s": "", "en": "six", "ii": "/a:c/l[k='no']/v",
             "lr": "none", "l": [{"k": "y", "v": 5, "l": [{"k": "y"}]}],
             "ls": ["b0"], "id": "i2", "bi": ""}, "a:t": " a  b "},
    {},
]
# context nodes: paths as used by the library
CTX = [[(), ("a:c",), ("a:c", "i"), ("a:c", "l", 1), ("a:c", "l", 0, "l", 1),
        ("a:c", "ll", 1), ("a:c", "b:bc", "v"), ("a:c", "ls", 2)],
       [(), ("a:c",), ("a:c", "l", 0, "k"), ("a:t",)],
       [()]]
SCTX_MOD = {("b:bc",): "b"}


def reftree(doc, rev):
    root = X.Node(None, ())

    def leaf(p, qn, path, iname, val):
        info = {"iname": iname}
        ns, loc = qn[1], qn[0]
        if val is True or val is False:
            txt = "true" if val else "false"
            info["bool"] = True
        elif val == [None]:
            txt = ""
        else:
            txt = str(val)
        if loc == "en":
            info["enum"] = ENUM[val]
        elif loc == "bi":
            info["bits"] = val.split()
        elif loc == "id":
            m, s, l = val.rpartition(":")
            info["idref"] = (l, m or "a")
            txt = (m or "a") + ":" + l
        elif loc == "lr":
            info["deref"] = lambda n, env: [
                x for li in n.parent.kids if li.qn == ("l", "a")
                for x in li.kids if x.qn == ("k", "a") and x.text == n.text]
        elif loc == "ii":
            key = val.split("'")[1]
            info["deref"] = lambda n, env: [
                x for li in n.parent.kids if li.qn == ("l", "a")
                for x in li.kids if x.qn == ("v", "a") and any(
                    y.qn == ("k", "a") and y.text == key for y in li.kids)]
        elif loc == "d":
            txt = val
        p.add(X.Node(qn, path, txt, info))

    def obj(p, val, path, ns):
        items = list(val.items())
        if rev == 1:
            items.reverse()
        elif rev == 2:
            items = items[1:] + items[:1]
        elif rev == 3:
            items.sort()
        for iname, v in items:
            m, s, l = iname.rpartition(":")
            qn = (l, m or ns)
            pth = path + (iname,)
            if isinstance(v, dict):
                n = p.add(X.Node(qn, pth, None, {"iname": iname}))
                obj(n, v, pth, qn[1])
            elif isinstance(v, list) and v != [None]:
                for i, en in enumerate(v):
                    if isinstance(en, dict):
                        n = p.add(X.Node(qn, pth + (i,), None,
                                         {"iname": iname}))
                        obj(n, en, pth + (i,), qn[1])
                    else:
                        leaf(p, qn, pth + (i,), iname, en)
            else:
                leaf(p, qn, pth, iname, v)
    # non-presence containers exist whenever their parent does
    doc = dict(doc)
    doc["a:c"] = dict(doc.get("a:c", {}))
    doc["a:c"].setdefault("b:bc", {})
    obj(root, doc, (), None)
    X.number_tree(root)
    return root


def find(root, path):
    st = [root]
    while st:
        n = st.pop()
        if n.path == path:
            return n
        st.extend(n.kids)
    raise KeyError(path)


_env = {}


def env():
    if not _env:
        dm = M.build(MODEL)
        _env["dm"] = dm
        for mod in "ab":
            _env["sctx" + mod] = SchemaContext(dm.schema_data, mod, (mod, ""))
        _env["ctx"] = []
        for di, doc in enumerate(DOCS):
            inst = dm.from_raw(doc)
            rs = [reftree(doc, k) for k in range(4)]
            for p in CTX[di]:
                n = inst
                for k in p:
                    n = n[k]
                _env["ctx"].append((di, p, n, [find(r, p) for r in rs]))
        for mod in "ab":
            _env["env" + mod] = X.Env(
                mod, {"a": "a", "b": "b"} if mod == "b" else {"a": "a"},
                DERIVED)
    return _env


def norm(v):
    if isinstance(v, X.NS):
        return ("ns", frozenset(n.path for n in v))
    if isinstance(v, NodeSet):
        ps = [tuple(n.path) for n in v]
        if len(set(ps)) != len(ps):
            return ("ns-duplicates", tuple(ps))
        return ("ns", frozenset(ps))
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, (int, float)):
        return ("num", "nan" if math.isnan(v) else float(v))
    if isinstance(v, str):
        return ("str", v)
    return ("other", repr(v))


def refval(ast, nodes, en):
    """value, or 'skip', or 'typeerr'"""
    res = []
    X.ORDER[0] = False
    for n in nodes:
        if res and not X.ORDER[0]:
            break
        try:
            res.append(norm(X.evaluate(ast, n, en)))
        except X.TypeErr:
            res.append("typeerr")
        except X.Skip:
            return "skip"
    return res[0] if all(r == res[0] for r in res) else "skip"


def try_expr(text, mod="a", only=None):
    """-> (kind, message or None); one expression at every context node"""
    e = env()
    en = e["env" + mod]
    try:
        ast, lenient = X.parse(text, mod, en.prefixes)
        bad = None
    except (X.Bad, X.Unsupported) as ex:
        ast, bad = None, ex
    try:
        xpp = XPathParser(text, e["sctx" + mod])
        pex = xpp.parse()
        err = None
        if not xpp.at_end():    # as all users of the parser in the library do
            pex, err = None, "trailing garbage"
    except YangsonException as ex:
        pex, err = None, ex
    except RecursionError:
        raise
    except Exception as ex:
        return "crash", f"{text!r}: parser raised {ex!r}"
    if bad is not None:
        if pex is not None:
            return "bad", (f"{text!r} is accepted as {str(pex)!r} although it "
                           f"is not valid ({bad})")
        return "reject", None
    for di, p, node, rnodes in e["ctx"]:
        if only is not None and (di, p) not in only:
            continue
        exp = refval(ast, rnodes, en)
        if pex is None and lenient:
            return "reject", None
        if pex is None:
            if exp != "typeerr":
                return "rejected", f"{text!r} is rejected: {err!r} {err}"
            return "typeerr", None
        if exp == "skip":
            continue
        try:
            got = norm(pex.evaluate(node))
        except XPathTypeError:
            got = "typeerr"
        except YangsonException as ex:
            got = ("exc", repr(ex), str(ex))
        except Exception as ex:
            return "crash", (f"{text!r} at doc {di} {p}: internal error "
                             f"{ex!r}, expected {exp}")
        if got != exp:
            return "value", (f"{text!r} at doc {di} {'/'.join(map(str, p))}: "
                             f"{show(got)}, expected {show(exp)}")
    return "ok", None


def show(v):
    if isinstance(v, tuple) and v[0] == "ns":
        return "{" + ", ".join(sorted("/".join(map(str, p)) or "ROOT"
                                      for p in v[1])) + "}"
    return repr(v)


# ---------------------------------------------------------------- families

NUMS = ["0", "1", "2", "2.5", "-1.5", "-0.5", "(1 div 0)", "(-1 div 0)", "(0 div 0)",
        "-0", ".5", "5", "1000000000000000000000", "0.0000001", "3."]
STRS = ["''", "'0'", "'1'", "' 1 '", "'-1'", "'- 1'", "'+1'", "'1e1'", "'a'",
        "'nan'", "'inf'", "'true'", "'1.'", "'.5'", "'1_0'", "'5'", "'y'",
        "'NaN'", "'Infinity'", "'1.50'"]
BOOLS = ["true()", "false()"]
SETS = ["a:nothing", "/a:c/i", "/a:c/d", "/a:c/s", "/a:c/ll", "/a:c/ls",
        "/a:c/l/k", "/a:c/l/v", "/a:c/en", "/a:c/id", "/a:c/bi", "/a:t",
        "//v", "/a:c/e", "/a:c/bo"]
ATOMS = NUMS + STRS + BOOLS + SETS
CMP = ["=", "!=", "<", ">", "<=", ">="]
ARITH = ["+", "-", "*", "div", "mod"]
ALLOPS = ["or", "and"] + CMP + ARITH + ["|"]
UNFUN = ["boolean", "not", "number", "string", "string-length", "count", "sum",
         "floor", "ceiling", "round", "normalize-space", "name", "local-name",
         "enum-value", "deref"]
BINFUN = ["contains", "starts-with", "substring-before", "substring-after",
          "concat"]

AXES = ["", "ancestor::", "ancestor-or-self::", "child::", "descendant::",
        "descendant-or-self::", "following-sibling::", "parent::",
        "preceding-sibling::", "self::"]
TESTS = ["*", "node()", "l", "v", "a:k", "c", "ll", "q"]
FULLTESTS = TESTS + ["i", "bc", "zzz", "l", "a:v"]
PREDS = ["", "[1]", "[2]", "[last()]", "[position() = 2]", "[. = 5]",
         "[v = 5]", "[k = 'x']", "[l]", "[position() != last()]", "[0]",
         "[1.5]", "[-1]", "['']", "['0']", "[0 div 0]", "[true()]", "[5 - 4]",
         "[count(../*) > 2]", "[k = current()/k]", "[../t]", "[.//v > 6]",
         "[position()]", "[last() - 1]"]
NAVSTEPS = [a + t for a in AXES for t in ("*", "node()", "l", "v", "k")] + [
    ".", ".."]


def f_unary(lo):
    return [f"{f}({a})" for f in UNFUN for a in ATOMS] + [
        f"-{a}" for a in ATOMS] + [f"--{a}" for a in ATOMS] + [
        f"{f}()" for f in ("string", "number", "string-length", "name",
                           "local-name", "normalize-space", "true", "last",
                           "position", "current")] + [
        f"string(number({a}))" for a in ATOMS] + [
        f"{a}" for a in ATOMS] + [
        f"string(-({a}))" for a in ATOMS] + [
        f"1 div {a}" for a in ATOMS]


def f_binary(op):
    return [f"{a} {op} {b}" for a in ATOMS for b in ATOMS]


def f_binfun(f):
    ss = STRS + NUMS[:6] + BOOLS + SETS + ["'ab'", "'b'", "'aba'", "'abcab'"]
    return [f"{f}({a}, {b})" for a in ss for b in ss]


PREC_ATOMS = ["2", "3", "0", "i"]


def f_prec2(op1):
    """two operators, all bracketings, with and without unary minus"""
    out = []
    for op2 in ALLOPS:
        for a, b, c in itertools.product(["2", "5", "i", "ll"],
                                         ["3", "0", "ll", "d"],
                                         ["4", "1", "i", "v"]):
            out.append(f"{a} {op1} {b} {op2} {c}")
            out.append(f"({a} {op1} {b}) {op2} {c}")
            out.append(f"{a} {op1} ({b} {op2} {c})")
            if op1 != "|" and op2 != "|":
                out.append(f"-{a} {op1} -{b} {op2} {c}")
    return out


def f_prec3(op1):
    out = []
    ops = ["or", "and", "=", "!=", "<", ">=", "+", "-", "*", "div", "mod"]
    for o2, o3 in itertools.product(ops, ops):
        for w, x, y, z in (("2", "3", "4", "5"), ("7", "2", "2", "0"),
                           ("0", "1", "1", "3"), ("1", "0", "0", "1")):
            out.append(f"{w} {op1} {x} {o2} {y} {o3} {z}")
            out.append(f"{w} {op1} ({x} {o2} {y}) {o3} {z}")
            out.append(f"{w} {op1} ({x} {o2} {y} {o3} {z})")
    return out


def f_steps1(ax):
    return [pre + AXES[ax] + t + p for t in FULLTESTS for p in PREDS
            for pre in ("", "/", "//", "c/", "/c/", "../", "/c/l/", "//l/",
                        "/c/l/l/", "/c/ll/", ".//", "/c/l/v/")]


def f_steps2(i):
    return [pre + NAVSTEPS[i] + sep + b for b in NAVSTEPS
            for sep in ("/", "//") for pre in ("", "//", "/c/l/", "/c/ll/")]


def f_steps3(i):
    small = ["*", "..", "l", "ancestor::*", "descendant::l",
             "following-sibling::*", "preceding-sibling::l",
             "descendant-or-self::node()", ".", "v", "k",
             "ancestor-or-self::node()", "following-sibling::l"]
    return ["/".join((a, b, c)) for a in [NAVSTEPS[i]] for b in small
            for c in small]


def f_preds2(i):
    p1 = PREDS[1:][i]
    out = []
    for base in ("l", "c/l", "/c/l", "//l", "//v", "ll", "/c/ll",
                 "preceding-sibling::*", "ancestor::node()",
                 "ancestor-or-self::*", "../l", "(//l)", "(ll | ls)",
                 "(preceding-sibling::*)", "(ancestor::node())",
                 "following-sibling::*", "descendant::*", "/c/l/l",
                 "(/c/l/l)", "(/c/l | /c/l/l)", "(/c/l[2] | /c/l[1])",
                 "preceding-sibling::l", "preceding-sibling::ll",
                 "current()", "current()/..", "deref(lr)"):
        for p2 in PREDS:
            out.append(base + p1 + p2)
            out.append(f"count({base}{p1}{p2})")
            out.append(f"{base}{p1}{p2}/v")
    for base in ("l", "/c/l", "//l"):
        out += [f"{base}[v{p1}]", f"{base}[l{p1}]", f"{base}[l{p1}/v > 6]",
                f"{base}[count(l{p1}) = 1]", f"{base}[not(l{p1})]",
                f"{base}{p1}/l{p1}", f"{base}[q{p1}]",
                f"{base}[(l | ../l){p1}/v]"]
    return out


def f_first(_):
    """order-sensitive conversions of node-sets"""
    sets = ["/c/l/v", "/c/l[2]/v | /c/l[1]/v", "preceding-sibling::*",
            "preceding-sibling::ll", "preceding-sibling::l/k",
            "ancestor::*/k", "ancestor-or-self::l/k", "//k", "//l/l/v",
            "/c/ll[3] | /c/ll[1]", "/c/ll | /c/ll", "//k | //v", "ancestor::l/v",
            "(//k)[2]", "(preceding-sibling::ll)[1]", "/c/l[last()]/k",
            "/c/l/preceding-sibling::l/k", "/c/l/following-sibling::l/k",
            "/c/ll[2]/preceding-sibling::ll | /c/ll[3]",
            "/c/ll[3]/preceding-sibling::ll", "/c/l/ancestor::*",
            "//l/ancestor-or-self::l/k", "/c/l[3]/preceding-sibling::l/k"]
    fs = ["string(%s)", "number(%s)", "name(%s)", "local-name(%s)", "%s + 0",
          "concat(%s, '')", "string-length(%s)", "(%s)[1]", "(%s)[last()]",
          "(%s)[2]/..", "count(%s)", "sum(%s)", "-(%s)", "boolean(%s)",
          "not(%s)", "(%s) = 5", "(%s) = '5'", "(%s) = true()",
          "false() = (%s)", "5 > (%s)", "(%s) >= 5", "(%s) != 5",
          "(%s)[position() < 3]", "floor(%s)", "enum-value(%s)",
          "normalize-space(%s)"]
    return [f % s for s in sets for f in fs] + [
        f"({a}) {op} ({b})" for a in sets for b in sets for op in CMP + ["|"]]


def f_substr(i):
    s = ["'12345'", "''", "'a'", "/c/s"][i]
    ns = ["0", "1", "2", "1.5", "2.5", "0.5", "-0.5", "-1", "-42", "5", "6", "3.4", "1.49",
          "(0 div 0)", "(1 div 0)", "(-1 div 0)", "'2'", "''", "true()",
          "/c/i", "/c/ll", "1.4999", "2.51", "-1.5"]
    return [f"substring({s}, {a})" for a in ns] + [
        f"substring({s}, {a}, {b})" for a in ns for b in ns]


def f_strfun(_):
    out = []
    al = ["''", "'a'", "'b'", "'ab'", "'ba'", "'aa'", "'abc'", "'aba'"]
    out += [f"translate({a}, {b}, {c})" for a in al + ["'cabbac'"] for b in al
            for c in al]
    ws = ["' '", "'  '", "' a'", "'a '", "'a  b'", "'\ta\tb '", "'\na'",
          "'\u00a0a\u00a0'", "'a\u00a0 b'", "'\u2003a'", "'\x0ba'"]
    out += [f"{f}({a})" for f in ("normalize-space", "string-length",
                                   "number", "boolean", "string") for a in ws]
    rs = ["-2.5", "-1.5", "-0.5", "-0.4", "0.4", "0.5", "0.6", "1.5", "2.5",
          "(0 div 0)", "(1 div 0)", "(-1 div 0)", "0", "2.4999", "100000000000000000000", "-0"]
    out += [f"{f}({a})" for f in ("round", "floor", "ceiling", "string")
            for a in rs] + [f"1 div {f}({a})" for f in ("round",)
                            for a in rs]
    big = ["1000000", "123456789012", "1000000000000000", "10000000000000000",
           "100000000000000000", "1000000000000000000000000", "0.1", "0.00001",
           "0.0000001", "1.5", "(1 div 3)", "(2 div 3 * 1000000)", "123456.789",
           "(0.1 + 0.2)", "-0", "-1", "-0.5", "(0 * -1)", "(1 div 0)"]
    out += [f"string({b})" for b in big] + [f"concat({b}, 'x')" for b in big]
    out += [f"{a} mod {b}" for a in rs + big for b in rs + ["2", "-2", "1.5",
                                                             "3", "-3"]]
    out += [f"{a} div {b}" for a in rs for b in rs]
    out += [f"1 div ({a} * {b})" for a in rs for b in rs]
    X.PATTERNS.update({
        "a*": ("rep", ("c", "a"), 0, None),
        "a": ("c", "a"), "a|ab": ("alt", ("c", "a"),
                                   ("cat", ("c", "a"), ("c", "b"))),
        "\\d+": ("rep", ("d",), 1, None), "": ("eps",),
        "[ab]{2}": ("rep", ("set", False, ["a", "b"]), 2, 2),
        ".": (".",)})
    for p in X.PATTERNS:
        for s in ["''", "'a'", "'ab'", "'aab'", "'5'", "'5\n'", "/c/s", "/c/i",
                  "5", "'\n'", "'a\n'", "'ba'", "'$'"]:
            out.append(f"re-match({s}, '{p}')")
    return out


def f_yang(_):
    out = []
    sets = ["/c/id", "/c/l/id", "/c/l[1]/id", "/c/l[2]/id", "//id", "/c/s", "/c/i",
            "a:nothing", "/c/s | /c/id", "//*[self::id or self::k]", "/c", "/c/l",
            "/c/l/k | /c/l/id"]
    ids = ["'i0'", "'a:i0'", "'a:i1'", "'i1'", "'a:i2'", "'a:o'", "'a:nope'",
           "'i2'"]
    for f in ("derived-from", "derived-from-or-self"):
        out += [f"{f}({s}, {i})" for s in sets for i in ids]
        out += [f"count(//l[{f}(id, {i})])" for i in ids]
        out += [f"{f}({i}, {i})" for i in ids] + [f"{f}(1, 'i0')"]
        out += [f"//*[{f}(., {i})]" for i in ids]
    out += [f"enum-value({s})" for s in ("/c/en", "//en", "/c/i", "/c/s",
                                          "a:nothing", "'five'", "/c/en | /c/zz",
                                          "/c", "5", "/c/l")]
    out += [f"enum-value(/c/en) {op} {n}" for op in CMP for n in (0, 5, 6)]
    for s in ("/c/bi", "//bi", "/c/s", "a:nothing", "'b0'", "/c/ls", "/c/i",
              "/c", "/c/l", "/c/en"):
        for b in ("'b0'", "'b01'", "'z'", "'b'", "''", "'b01 z'", "/c/ls",
                  "'0'", "'i'", "'k'"):
            out.append(f"bit-is-set({s}, {b})")
    for s in ("/c/lr", "/c/ii", "//lr", "a:nothing", "/c/s", "/c", "'x'",
              "/c/i", "/c/lr | /c/zz", "current()", ".", "/c/l/k"):
        for post in ("", "/..", "/../v", "/../v = 2", "[1]", "/following-sibling::v",
                     "/../l"):
            out.append(f"deref({s}){post}")
    out += ["count(deref(/c/ii))", "deref(/c/ii) = 1", "deref(/c/lr) = /c/lr",
            "deref(/c/lr) = 'y'", "name(deref(/c/lr))"]
    for x in ("current()", "current()/..", "current()/k", "current()/../l",
              "//l[k = current()]", "//l[k = current()/k]",
              "//l[l/k = current()/k]", "/c/l[v = current()/v]/k",
              "count(current())", "//*[. = current()]", "current() = .",
              "//v[. = current()]", "/c/l[k = current()/../../t]",
              "/c/l[l[k = current()/k]]", "count(//l[current()])",
              "current()[1]", "current()//v", "current()[v]/v", "current()/."):
        out.append(x)
    return out


def f_ns(_):
    """name resolution in another module, names of nodes, namespaces"""
    out = []
    for e in ("a:c", "/a:c/i", "/a:c/a:i", "//i", "//a:i", "//v", "//a:v", "c",
              "//a:*", "count(//*)", "name(//i)", "/a:c/bc", "/a:c/bc/i",
              "/a:c/bc/a:i", "/a:c/bc/v", "local-name(//bc)", "name(//bc)",
              "name(/a:c/bc/v)", "name(//a:k)", "/a:c/a:l/v", "/a:c/a:l/a:v",
              "/a:c/a:l/*", "x:c", "b:i", "//b:i", "/a:c/b:bc/b:v",
              "a:c/i = -3", "//self::i", "//self::a:i", "child::a:c/child::i",
              "/child::a:c/child::b:bc", "//parent::bc", "//parent::a:c",
              "//ancestor::bc", "//a:k/ancestor::a:l", "//v/parent::*",
              "/a:c/*/parent::a:c", "derived-from(/a:c/a:id, 'i3')",
              "derived-from-or-self(/a:c/a:id, 'i3')",
              "derived-from-or-self(/a:c/a:id, 'b:i3')",
              "derived-from(/a:c/a:id, 'a:i0')", "//descendant::i",
              "//v/following-sibling::i", "//bc/v/..", "parent::bc",
              "self::v", "self::a:v", "ancestor::a:c", "ancestor::c",
              "parent::c", "parent::a:c", "self::*", "self::c",
              "ancestor-or-self::v", "descendant-or-self::bc"):
        out.append(e)
        out.append(f"count({e})")
    return out


TOKENS = ["1", "l", "'s'", "(", ")", "[", "]", "/", "//", ".", "..", "*", "|",
          "+", "-", "or", "div", "=", "<", "::", "child", "count(", ",",
          "node()", "!", "a:", "@", "text()", "2.", "true()", "position()"]
TOK_MID = ["1", "l", "(", ")", "[", "]", "/", "//", "..", "*", "|", "-",
           "and", "=", "count(", "self::"]
TOK_SMALL = ["l", "1", "(", ")", "[", "]", "/", "-", "or", "*"]


def f_tokens(alpha, n, first, glue):
    for rest in itertools.product(alpha, repeat=n - 1):
        yield glue.join((alpha[first],) + rest)


WORDS = ["or", "and", "div", "mod", "order", "andy", "divide", "or-x", "l",
         "1", "'s'", "*", "-", "node", "text", "count", "self", "mod5"]


def f_words(first, glue):
    for n in (1, 2):
        for rest in itertools.product(WORDS, repeat=n):
            yield glue.join((WORDS[first],) + rest)


def f_args(_):
    """numbers and kinds of arguments, unsupported language"""
    out = []
    for f in list(X.FUNCS) + list(X.UNSUP_FUNCS) + [
            "foo", "Count", "count-", "bit_is_set", "path_expr", "node", "text",
            "comment", "processing-instruction", "matches", "two-args",
            "opt-arg", "func-count", "derived", "last()"]:
        for n in range(5):
            for a in ("l", "1", "'i0'"):
                args = ", ".join([a] * n)
                out.append(f"{f}({args})")
                out.append(f"{f} ( {args} )")
                out.append(f"{f}({args}")
                out.append(f"{f}({args},)")
                out.append(f"{f}({args} l)")
                out.append(f"{f}({args} 1)")
    for ax in X.AXES + X.OTHER_AXES + ("foo", "", "Child", "child-", "ancestor_or_self"):
        for t in ("*", "node()", "l", "a:l", "text()", "x:l", "", "1", "::l",
                  "comment()", "processing-instruction()", ".", ".."):
            out += [f"{ax}::{t}", f"{ax} :: {t}", f"{ax}::{t}/v",
                    f"{ax}:: {t}[1]", f"{ax}:{t}"]
    out += ["$x", "$ x", "", " ", "a : l", "a: l", "a :l", "l/", "/l/", "//",
            "l//", "l[", "l[]", "l]", "()", "(l", "l)", "'", "\"", "'a\"",
            "\"a'b\"", "'a\"b'", "1.2.3", "1..2", ".1", "1.", ".", "...", "l/.",
            "l/..", "l/...", "./l", "../l", "..l", "1l", "l1", "l-1", "l -1",
            "l - 1", "l+1", "l*1", "* * *", "***", "*[*]*2", "a:*", "@l", "@*",
            "l/@l", "l = = 1", "l ! = 1", "l =! 1", "l == 1", "l <> 1",
            "l > = 1", "l >= 1", "l => 1", "- l", "+1", "1 + + 1", "1 - - 1",
            "--1", "1|2", "l|1", "'a'|'b'", "l | l", "l||l", "not l", "not(l)",
            "not (l)", "not(l) and l", "l/count(l)", "count(l)/l", "'a'/l",
            "1/l", "'a'[1]", "1[1]", "(l)[1]", "(l)/v", "(l)//v", "(1)/v",
            "(1)[1]", "('a')/v", "current()/l", "current()//v", "/", "/ ",
            " / ", "/ = 1", "count(/)", "/ | l", "(/)", "(/)/c", "/[1]",
            "/ [c]", "/*", "/ * 2", "/ + 1", "/ or l", "/ and", "//.",
            "//..", "/.", "/..", "/./c", "/../c", ".[1]", "..[1]", ".[l]",
            "..[l]", "./.", "1 div", "div", "div div div", "mod mod mod",
            "or or or", "and and and", "l or", "or l", "1 or2", "1or 2",
            "1or2", "'a'or'b'", "l orl", "l or l", "lor l", "(l)or(l)",
            "2div 2", "2 div2", "2div2", "4 mod3", "4mod 3", "1and 1",
            "l[1]or l", "l[1]orl", "\tl\n", "l\r\n/\tv", "l\u00a0",
            "l #", "l;", "l{}", "{l}", "l&l", "l^l", "l%2", "~l", "\\l",
            "0x10", "1e5", "1E5", "1 e5", "١", "é", "l/é", "true", "true ()",
            "true( )", "node ( )", "node( )", "child::node ( )", "text",
            "text/x", "comment", "node", "node/l", "count", "count/l",
            "child", "child/l", "child::child", "self::self", "parent",
            "self", "ancestor", "or/and", "div/mod", "mod", "*/div"]
    return out


def groups(tier):
    g = [["unary", 0]]
    g += [["binary", op] for op in ALLOPS]
    g += [["binfun", f] for f in BINFUN]
    g += [["prec2", op] for op in ALLOPS]
    g += [["prec3", op] for op in ["or", "and", "=", "!=", "<", ">=", "+", "-",
                                   "*", "div", "mod"]]
    g += [["steps1", i, tier[0]] for i in range(len(AXES))]
    g += [["steps2", i] for i in range(len(NAVSTEPS))]
    g += [["steps3", i] for i in range(len(NAVSTEPS))]
    g += [["preds2", i] for i in range(len(PREDS) - 1)]
    g += [["first", 0], ["strfun", 0], ["yang", 0], ["ns", 0], ["args", 0]]
    g += [["substr", i] for i in range(4)]
    for i in range(len(WORDS)):
        g += [["words", i, " "], ["words", i, ""]]
    big = tier != "quick"
    for alpha, ns in (("TOKENS", (1, 2, 3) if not big else (1, 2, 3, 4)),
                      ("TOK_MID", (4,) if not big else (5,)),
                      ("TOK_SMALL", (5,) if not big else (6,))):
        for n in ns:
            for i in range(len(globals()[alpha])):
                for glue in (" ", ""):
                    g.append(["tokens", alpha, n, i, glue])
    return g


CHUNK = 1


def group_weight(g):
    return 10 if g[0] in ("steps1", "preds2") else 1


def bounds(tier):
    return ("all expressions of the listed families (unary/binary operators "
            "and functions over all atom pairs, all operator pairs and "
            "triples, all 1-3 step paths, all predicate pairs) and all token "
            "strings up to length %s, at %d context nodes of %d documents"
            % ("3 (31 tokens), 4 (16), 5 (10)" if tier == "quick" else
               "4 (31 tokens), 5 (16), 6 (10)",
               sum(map(len, CTX)), len(DOCS)))


def texts(group):
    k = group[0]
    if k == "tokens":
        return f_tokens(globals()[group[1]], group[2], group[3], group[4])
    if k == "words":
        return f_words(group[1], group[2])
    return globals()["f_" + k](group[1])


LIGHT = {(0, ()), (0, ("a:c",)), (0, ("a:c", "l", 1)), (1, ("a:c",))}


def run_group(group, rec):
    mods = ("b",) if group[0] == "ns" else ("a",)
    light = LIGHT if group[0] in ("tokens", "words", "prec3") else None
    if group[0] == "steps1" and group[-1] == "q":
        light = LIGHT | {(0, ("a:c", "l", 0, "l", 1))}
    if group[0] == "steps3":
        light = {(0, ("a:c",)), (0, ("a:c", "l", 1)),
                 (0, ("a:c", "l", 0, "l", 1)), (0, ())}
    for text in texts(group):
        for mod in mods:
            rec.state()
            kind, msg = try_expr(text, mod, light)
            rec.step(1 if kind == "reject" else 21)
            rec.agree(group[0] + ":" + kind)
            if msg:
                rec.fail({"text": text, "mod": mod}, msg)


def replay(case):
    return try_expr(case["text"], case["mod"])[1]
