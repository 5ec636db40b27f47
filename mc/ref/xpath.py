"""Reference XPath 1.0 (subset used by YANG 1.1): lexer, parser, evaluator.

Written from the XPath 1.0 recommendation and RFC 7950 section 10, on an
explicit tree of nodes.  Nothing here is shared with the library.
"""
import math
import re
from decimal import Decimal

from . import regex as RX


class Bad(Exception):
    """Not an XPath expression."""


class Unsupported(Exception):
    """Valid XPath outside of the supported language."""


class TypeErr(Exception):
    """The expression applies an operation to a value of a wrong type."""


class Skip(Exception):
    """The value is not determined (or excluded from comparison)."""


# ------------------------------------------------------------------ tree

class Node:
    __slots__ = ("qn", "kids", "parent", "text", "info", "path", "order")

    def __init__(self, qn, path, text=None, info=None):
        self.qn = qn
        self.path = path
        self.text = text
        self.info = info or {}
        self.kids = []
        self.parent = None

    def add(self, n):
        n.parent = self
        self.kids.append(n)
        return n


def number_tree(root):
    i = 0
    st = [root]
    while st:
        n = st.pop()
        n.order = i
        i += 1
        st.extend(reversed(n.kids))


# ----------------------------------------------------------------- lexer

TOK = re.compile(r"""\s*(?:
    (?P<lit>"[^"]*"|'[^']*')
  | (?P<num>[0-9]+(?:\.[0-9]*)?|\.[0-9]+)
  | (?P<op2>::|//|\.\.|!=|<=|>=)
  | (?P<op>[()\[\].@,/|+\-=<>*])
  | (?P<var>\$)
  | (?P<name>[A-Za-z_][A-Za-z0-9_.\-]*(?::(?:[A-Za-z_][A-Za-z0-9_.\-]*|\*))?)
  )""", re.X)
NC = re.compile(r"[A-Za-z_][A-Za-z0-9_.\-]*")
NODETYPES = ("comment", "text", "processing-instruction", "node")
AXES = ("ancestor", "ancestor-or-self", "child", "descendant",
        "descendant-or-self", "following-sibling", "parent",
        "preceding-sibling", "self")
OTHER_AXES = ("attribute", "following", "namespace", "preceding")
OPERATORS = {"and", "or", "mod", "div", "*", "/", "//", "|", "+", "-", "=",
             "!=", "<", "<=", ">", ">="}


def lex(text):
    """-> list of (kind, value); kinds: lit num op(erator) sym name"""
    pos = 0
    out = []
    text = text.rstrip(" \t\r\n")
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m or re.search(r"[^ \t\r\n]", text[pos:m.start(m.lastgroup)]):
            raise Bad(f"lexical error at {pos}")
        k = m.lastgroup
        v = m.group(k)
        pos = m.end()
        if k == "var":
            raise Unsupported("variable")
        if k == "name":
            # "child::x" must not lex as the QName "child:"
            nm = NC.match(v).group()
            if v != nm and text[m.start(k) + len(nm):][:2] == "::":
                v = nm
                pos = m.start(k) + len(nm)
        prev = out[-1] if out else None
        operand = prev is not None and not (
            prev[0] == "operator" or
            prev[1] in ("@", "::", "(", "[", ",") and prev[0] == "sym")
        if k == "lit":
            out.append(("lit", v[1:-1]))
        elif k == "num":
            out.append(("num", float(v)))
        elif k in ("op", "op2"):
            if v == "*":
                out.append(("operator" if operand else "name", "*"))
            elif v in OPERATORS:
                out.append(("operator", v))
            else:
                out.append(("sym", v))
        else:
            if operand:
                if v not in ("and", "or", "mod", "div"):
                    raise Bad(f"'{v}' is not an operator")
                out.append(("operator", v))
            else:
                out.append(("name", v))
    return out


# ---------------------------------------------------------------- parser
# AST: ("num",x) ("lit",s) ("fn",name,args) ("bin",op,l,r) ("neg",e)
#      ("root",) ("steps", base|None, [step...])   step=(axis,test,preds)
#      ("filter", prim, preds)
# base None = relative to the context node; test: ("name",ns,local) | "*" |
# "node"

FUNCS = {"last": (0, 0), "position": (0, 0), "count": (1, 1),
         "local-name": (0, 1), "name": (0, 1), "string": (0, 1),
         "concat": (2, 99), "starts-with": (2, 2), "contains": (2, 2),
         "substring-before": (2, 2), "substring-after": (2, 2),
         "substring": (2, 3), "string-length": (0, 1),
         "normalize-space": (0, 1), "translate": (3, 3), "boolean": (1, 1),
         "not": (1, 1), "true": (0, 0), "false": (0, 0), "number": (0, 1),
         "sum": (1, 1), "floor": (1, 1), "ceiling": (1, 1), "round": (1, 1),
         "current": (0, 0), "re-match": (2, 2), "deref": (1, 1),
         "derived-from": (2, 2), "derived-from-or-self": (2, 2),
         "enum-value": (1, 1), "bit-is-set": (2, 2)}
UNSUP_FUNCS = ("id", "lang", "namespace-uri")

LEVELS = [("or",), ("and",), ("=", "!="), ("<", ">", "<=", ">="), ("+", "-"),
          ("*", "div", "mod")]


class Parser:
    def __init__(self, text, default_ns, prefixes):
        self.t = lex(text)
        self.i = 0
        self.ns = default_ns
        self.prefixes = prefixes
        self.unsup = None
        self.lenient = False

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def at(self, kind, val):
        return self.peek() == (kind, val)

    def take(self, kind, val):
        if self.at(kind, val):
            self.i += 1
            return True
        return False

    def need(self, kind, val):
        if not self.take(kind, val):
            raise Bad(f"expected {val}")

    def top(self):
        e = self.binary(0)
        if self.i != len(self.t):
            raise Bad("trailing tokens")
        if self.unsup:
            raise Unsupported(self.unsup)
        return e

    def binary(self, lev):
        if lev == len(LEVELS):
            return self.unary()
        left = self.binary(lev + 1)
        while True:
            k, v = self.peek()
            if k == "operator" and v in LEVELS[lev]:
                self.i += 1
                left = ("bin", v, left, self.binary(lev + 1))
            else:
                return left

    def unary(self):
        if self.take("operator", "-"):
            return ("neg", self.unary())
        return self.union()

    def union(self):
        left = self.path()
        while self.take("operator", "|"):
            left = ("bin", "|", left, self.path())
        return left

    def path(self):
        k, v = self.peek()
        nxt = self.t[self.i + 1] if self.i + 1 < len(self.t) else (None, None)
        prim = None
        if k == "lit" or k == "num":
            self.i += 1
            prim = (k, v)
        elif (k, v) == ("sym", "("):
            self.i += 1
            prim = self.binary(0)
            self.need("sym", ")")
        elif k == "name" and nxt == ("sym", "(") and v not in NODETYPES:
            self.i += 2
            args = []
            if not self.take("sym", ")"):
                while True:
                    args.append(self.binary(0))
                    if self.take("sym", ","):
                        continue
                    self.need("sym", ")")
                    break
            if v in UNSUP_FUNCS:
                self.unsup = v
            elif v not in FUNCS:
                raise Bad("unknown function " + v)
            elif not FUNCS[v][0] <= len(args) <= FUNCS[v][1]:
                raise Bad("number of arguments")
            prim = ("fn", v, args)
        if prim is not None:
            preds = self.preds()
            if prim[0] in ("lit", "num") and (
                    preds or self.at("operator", "/")
                    or self.at("operator", "//")):
                self.lenient = True      # a static type error
            if preds:
                prim = ("filter", prim, preds)
            if self.at("operator", "/") or self.at("operator", "//"):
                return ("steps", prim, self.rest())
            return prim
        if self.at("operator", "/"):
            self.i += 1
            if not self.starts_step():
                return ("steps", ("root",), [])
            return ("steps", ("root",), [self.step()] + self.rest())
        if self.at("operator", "//"):
            return ("steps", ("root",), self.rest())
        return ("steps", None, [self.step()] + self.rest())

    def rest(self):
        res = []
        while True:
            if self.take("operator", "/"):
                res.append(self.step())
            elif self.take("operator", "//"):
                res.append(("descendant-or-self", "node", []))
                res.append(self.step())
            else:
                return res

    def starts_step(self):
        k, v = self.peek()
        return k == "name" or k == "sym" and v in (".", "..", "@")

    def step(self):
        if self.take("sym", "."):
            return ("self", "node", self.abbr_preds())
        if self.take("sym", ".."):
            return ("parent", "node", self.abbr_preds())
        axis = "child"
        if self.take("sym", "@"):
            self.unsup = "attribute"
        elif self.i + 1 < len(self.t) and self.t[self.i + 1] == ("sym", "::"):
            k, axis = self.peek()
            if k != "name" or axis not in AXES + OTHER_AXES:
                raise Bad("axis")
            if axis in OTHER_AXES:
                self.unsup = axis
            self.i += 2
        k, v = self.peek()
        if k != "name":
            raise Bad("node test")
        self.i += 1
        if self.at("sym", "("):
            if v not in NODETYPES:
                raise Bad("node type")
            self.i += 1
            if v == "processing-instruction" and self.peek()[0] == "lit":
                self.i += 1
            self.need("sym", ")")
            if v != "node":
                self.unsup = v
            test = "node"
        elif v == "*":
            test = "*"
        else:
            p, s, loc = v.partition(":")
            if s:
                if p not in self.prefixes:
                    raise Bad("prefix")
                if loc == "*":
                    self.unsup = "prefix:*"
                test = ("name", self.prefixes[p], loc)
            else:
                test = ("name", self.ns, p)
        return (axis, test, self.preds())

    def abbr_preds(self):
        """Predicates after . and .. are not XPath, but commonly accepted:
        both outcomes are fine."""
        res = self.preds()
        if res:
            self.lenient = True
        return res

    def preds(self):
        res = []
        while self.take("sym", "["):
            res.append(self.binary(0))
            self.need("sym", "]")
        return res


def parse(text, default_ns, prefixes):
    p = Parser(text, default_ns, prefixes)
    return p.top(), p.lenient


# ------------------------------------------------------------- evaluator

# set when the value of an evaluation depended on the order of nodes
ORDER = [False]


class NS(list):
    """Node-set in document order."""


def first(ns):
    if len(ns) > 1:
        ORDER[0] = True
    return ns[0]


def docorder(nodes):
    seen = {}
    for n in nodes:
        seen[id(n)] = n
    return NS(sorted(seen.values(), key=lambda n: n.order))


def sval(n):
    if n.text is None:
        raise Skip("string-value of an internal node")
    return n.text


def to_string(v):
    if isinstance(v, NS):
        return sval(first(v)) if v else ""
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, float):
        if math.isnan(v):
            return "NaN"
        if math.isinf(v):
            return "Infinity" if v > 0 else "-Infinity"
        if v == 0:
            return "0"
        if v == int(v):
            return str(int(v))
        s = format(Decimal(repr(v)), "f")
        if "." in s:
            s = s.rstrip("0").rstrip(".")
        return s
    return v


NUM = re.compile(r"[ \t\r\n]*-?([0-9]+(\.[0-9]*)?|\.[0-9]+)[ \t\r\n]*\Z")


def str_num(s):
    return float(s.strip(" \t\r\n")) if NUM.match(s) else math.nan


def node_num(n):
    if n.info.get("bool"):
        # the upstream test suite pins sum() over boolean leaves to count
        # true ones, contrary to XPath 1.0: excluded
        raise Skip("number-value of a boolean leaf")
    return str_num(sval(n))


def to_number(v):
    if isinstance(v, NS):
        return node_num(first(v)) if v else math.nan
    if isinstance(v, bool):
        return 1.0 if v else 0.0
    if isinstance(v, float):
        return v
    return str_num(v)


def to_bool(v):
    if isinstance(v, NS):
        return bool(v)
    if isinstance(v, float):
        return not (v == 0 or math.isnan(v))
    return bool(v)


def cmp_prim(op, a, b):
    if op in ("=", "!="):
        if isinstance(a, bool) or isinstance(b, bool):
            r = to_bool(a) == to_bool(b)
        elif isinstance(a, float) or isinstance(b, float):
            x, y = to_number(a), to_number(b)
            return x == y if op == "=" else x != y
        else:
            r = a == b
        return r if op == "=" else not r
    x, y = to_number(a), to_number(b)
    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]


def num_of(n, other, op):
    """value of a node for a comparison that is numeric"""
    return node_num(n)


def compare(op, a, b):
    if isinstance(a, NS) and isinstance(b, NS):
        eq = op in ("=", "!=")
        res = False
        skip = False
        for x in a:
            for y in b:
                try:
                    if eq:
                        r = cmp_prim(op, sval(x), sval(y))
                    else:
                        r = cmp_prim(op, node_num(x), node_num(y))
                except Skip:
                    skip = True
                    continue
                res = res or r
        if skip and not res:
            raise Skip("internal node compared")
        return res
    for (s, o, flip) in ((a, b, False), (b, a, True)):
        if isinstance(s, NS):
            if isinstance(o, bool):
                return cmp_prim(op, *((o, to_bool(s)) if flip
                                      else (to_bool(s), o)))
            skip = res = False
            for n in s:
                try:
                    if isinstance(o, float) or op not in ("=", "!="):
                        v = node_num(n)
                    else:
                        v = sval(n)
                except Skip:
                    skip = True
                    continue
                if cmp_prim(op, *((o, v) if flip else (v, o))):
                    res = True
            if skip and not res:
                raise Skip("internal node compared")
            return res
    return cmp_prim(op, a, b)


def xdiv(a, b):
    if math.isnan(a) or math.isnan(b):
        return math.nan
    if b == 0:
        if a == 0:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def xmod(a, b):
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or b == 0:
        return math.nan
    return math.fmod(a, b)


def xround(x):
    if math.isnan(x) or math.isinf(x):
        return x
    if -0.5 <= x < 0 or x == 0:
        if x == 0:
            return x
        return -0.0
    return float(math.floor(x + 0.5)) if abs(x) < 2**52 else x


WS = re.compile(r"[ \t\r\n]+")


PATTERNS = {}


class Env:
    """Schema knowledge used by the YANG functions."""

    def __init__(self, default_ns=None, prefixes=None, derived=None):
        self.default_ns = default_ns
        self.prefixes = prefixes or {}
        self.derived = derived or {}       # identity -> set of bases (strict)

    def ident(self, text):
        p, s, loc = text.partition(":")
        if not s:
            return (p, self.default_ns)
        if p not in self.prefixes:
            raise Skip("unknown identity prefix")
        return (loc, self.prefixes[p])


class Ctx:
    __slots__ = ("node", "pos", "size", "cur", "env")

    def __init__(self, node, pos, size, cur, env):
        self.node, self.pos, self.size = node, pos, size
        self.cur, self.env = cur, env


def axis_nodes(n, axis):
    if axis == "child":
        return list(n.kids)
    if axis == "self":
        return [n]
    if axis == "parent":
        return [n.parent] if n.parent else []
    if axis in ("descendant", "descendant-or-self"):
        res = [n] if axis != "descendant" else []
        st = list(reversed(n.kids))
        while st:
            x = st.pop()
            res.append(x)
            st.extend(reversed(x.kids))
        return res
    if axis in ("ancestor", "ancestor-or-self"):
        res = [n] if axis != "ancestor" else []
        while n.parent:
            n = n.parent
            res.append(n)
        return res
    # upstream tests pin the sibling axes to entries of the same list
    # (the order of other siblings is not defined)
    sib = [k for k in n.parent.kids if k.qn == n.qn] if n.parent else []
    i = next((k for k, s in enumerate(sib) if s is n), 0)
    if axis == "following-sibling":
        return sib[i + 1:]
    return list(reversed(sib[:i]))


def test_ok(n, test):
    if test == "node":
        return True
    if n.qn is None:
        return False
    if test == "*":
        return True
    return n.qn == (test[2], test[1])


def apply_preds(nodes, preds, ctx):
    for p in preds:
        keep = []
        for i, n in enumerate(nodes):
            v = ev(p, Ctx(n, i + 1, len(nodes), ctx.cur, ctx.env))
            if isinstance(v, float):
                if len(nodes) > 1:
                    ORDER[0] = True
                ok = v == i + 1
            else:
                ok = to_bool(v)
            if ok:
                keep.append(n)
        nodes = keep
    return nodes


def nodeset(v):
    if not isinstance(v, NS):
        raise TypeErr("node-set required")
    return v


def ev(e, c):
    k = e[0]
    if k in ("num", "lit"):
        return e[1]
    if k == "neg":
        return -to_number(ev(e[1], c))
    if k == "bin":
        op = e[1]
        if op == "or":
            return to_bool(ev(e[2], c)) or to_bool(ev(e[3], c))
        if op == "and":
            return to_bool(ev(e[2], c)) and to_bool(ev(e[3], c))
        a = ev(e[2], c)
        b = ev(e[3], c)
        if op == "|":
            return docorder(nodeset(a) + nodeset(b))
        if op in ("=", "!=", "<", ">", "<=", ">="):
            return compare(op, a, b)
        x, y = to_number(a), to_number(b)
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return x * y
        return xdiv(x, y) if op == "div" else xmod(x, y)
    if k == "filter":
        v = nodeset(ev(e[1], c))
        return NS(apply_preds(v, e[2], c))
    if k == "root":
        n = c.node
        while n.parent:
            n = n.parent
        return NS([n])
    if k == "steps":
        cur = NS([c.node]) if e[1] is None else nodeset(ev(e[1], c))
        for axis, test, preds in e[2]:
            res = []
            for n in cur:
                if (n.parent is None and test == "*" and
                        axis in ("self", "descendant-or-self")):
                    # upstream tests pin that the root is included
                    raise Skip("wildcard applied to the root")
                res += apply_preds([m for m in axis_nodes(n, axis)
                                    if test_ok(m, test)], preds, c)
            cur = docorder(res)
        return cur
    return call(e[1], e[2], c)


def call(f, args, c):
    if f == "true":
        return True
    if f == "false":
        return False
    if f == "last":
        return float(c.size)
    if f == "position":
        if c.size > 1:
            ORDER[0] = True
        return float(c.pos)
    if f == "current":
        return NS([c.cur])
    v = [ev(a, c) for a in args]
    if f in ("string", "number", "string-length", "normalize-space",
             "name", "local-name") and not v:
        v = [NS([c.node])]
    if f == "count":
        return float(len(nodeset(v[0])))
    if f in ("name", "local-name"):
        n = nodeset(v[0])
        if not n or first(n).qn is None:
            return ""
        if f == "local-name":
            return n[0].qn[0]
        return n[0].info.get("iname", n[0].qn[0])
    if f == "string":
        return to_string(v[0])
    if f == "concat":
        return "".join(to_string(x) for x in v)
    if f == "starts-with":
        return to_string(v[0]).startswith(to_string(v[1]))
    if f == "contains":
        return to_string(v[1]) in to_string(v[0])
    if f in ("substring-before", "substring-after"):
        s, t = to_string(v[0]), to_string(v[1])
        i = s.find(t)
        if i < 0:
            return ""
        return s[:i] if f == "substring-before" else s[i + len(t):]
    if f == "substring":
        s = to_string(v[0])
        st = xround(to_number(v[1]))
        end = st + xround(to_number(v[2])) if len(v) > 2 else None
        return "".join(ch for p, ch in enumerate(s, 1)
                       if p >= st and (end is None or p < end))
    if f == "string-length":
        return float(len(to_string(v[0])))
    if f == "normalize-space":
        return WS.sub(" ", to_string(v[0])).strip(" ")
    if f == "translate":
        s, a, b = map(to_string, v)
        m = {}
        for i, ch in enumerate(a):
            m.setdefault(ch, b[i] if i < len(b) else "")
        return "".join(m.get(ch, ch) for ch in s)
    if f == "boolean":
        return to_bool(v[0])
    if f == "not":
        return not to_bool(v[0])
    if f == "number":
        return to_number(v[0])
    if f == "sum":
        return math.fsum([]) + sum((node_num(n) for n in nodeset(v[0])), 0.0)
    if f in ("floor", "ceiling", "round"):
        x = to_number(v[0])
        if math.isnan(x) or math.isinf(x):
            return x
        if f == "round":
            return xround(x)
        return float(math.floor(x) if f == "floor" else math.ceil(x))
    if f == "re-match":
        s, p = to_string(v[0]), to_string(v[1])
        if p not in PATTERNS:
            raise Skip("pattern")
        return RX.match(PATTERNS[p], s)
    if f == "deref":
        n = nodeset(v[0])
        if not n:
            return NS()
        d = first(n).info.get("deref")
        return docorder(d(n[0], c.env) if d else [])
    if f in ("derived-from", "derived-from-or-self"):
        i = c.env.ident(to_string(v[1]))
        for n in nodeset(v[0]):
            q = n.info.get("idref")
            if q is None:
                continue
            if i in c.env.derived.get(q, ()) or f != "derived-from" and q == i:
                return True
        return False
    if f == "enum-value":
        n = nodeset(v[0])
        if n and "enum" in first(n).info:
            return float(n[0].info["enum"])
        return math.nan
    if f == "bit-is-set":
        n = nodeset(v[0])
        b = to_string(v[1])
        return bool(n) and b in first(n).info.get("bits", ())
    raise AssertionError(f)


def evaluate(ast, node, env):
    return ev(ast, Ctx(node, 1, 1, node, env))


def same(a, b):
    """compare two non-node-set values"""
    if isinstance(a, float) and isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b
    return type(a) is type(b) and a == b
