"""Independent reference semantics of YANG types (RFC 7950 sec. 9, RFC 7951).

Each type offers
  yang()        type statement text
  json(raw)     value or None        acceptance of a raw JSON value
  lex(text)     value or None        acceptance of a text (XML, path, default)
  canon(v)      canonical text       raw(v)  canonical JSON form
  tags(raw)     acceptable (tag, message part) pairs when json() is None and
                the raw value has the right JSON shape (else None)
Values are hashable, equal iff they are the same YANG value.
DONTCARE marks inputs on which the RFCs leave room.
"""
import base64
import re
from fractions import Fraction

from mc.ref import regex as RX

DONTCARE = ("dontcare",)


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace(
        "\n", "\\n").replace("\t", "\\t") + '"'


def errinfo(err):
    if not err:
        return ";"
    tag, msg = err
    res = " {"
    if msg:
        res += f" error-message {q(msg)};"
    if tag:
        res += f" error-app-tag {q(tag)};"
    return res + " }"


class Type:
    wrong_shape = None

    def shape(self, raw):
        """The JSON value has the right JSON type for reading."""
        return self.json(raw) is not None

    def xml(self, t):
        """Acceptance of XML text: surrounding white space is left open."""
        v = self.lex(t)
        if v is None and t.strip(" \t\n\r") != t:
            w = self.lex(t.strip(" \t\n\r"))
            return None if w is None else DONTCARE
        return v

    def dlex(self, t):
        """Acceptance of a default statement's argument."""
        return self.lex(t)

    def failing(self, v):
        """Error infos of restrictions that v (unrestricted value) violates."""
        return []


INTR = {"int8": (-2**7, 2**7 - 1), "int16": (-2**15, 2**15 - 1),
        "int32": (-2**31, 2**31 - 1), "int64": (-2**63, 2**63 - 1),
        "uint8": (0, 2**8 - 1), "uint16": (0, 2**16 - 1),
        "uint32": (0, 2**32 - 1), "uint64": (0, 2**64 - 1)}


def ranges_text(parts):
    """parts: list of (lo, hi) with hi None for a single boundary."""
    return " | ".join(str(a) if b is None else f"{a}..{b}" for a, b in parts)


def resolve(parts, lo, hi, conv):
    res = []
    for a, b in parts:
        x = lo if a == "min" else hi if a == "max" else conv(a)
        y = x if b is None else lo if b == "min" else hi if b == "max" \
            else conv(b)
        res.append((x, y))
    return res


class Restr:
    """A chain of range/length restrictions, each with error info."""

    def __init__(self, chain, lo, hi, conv):
        self.levels = []
        for parts, err in chain:
            iv = resolve(parts, lo, hi, conv)
            self.levels.append((iv, err))
            lo, hi = iv[0][0], iv[-1][1]

    def ok(self, v):
        return all(any(a <= v <= b for a, b in iv) for iv, _ in self.levels)

    def consistent(self, lo, hi):
        """Each level is an increasing sequence inside the previous one."""
        prev = [(lo, hi)]
        for iv, _ in self.levels:
            last = None
            for a, b in iv:
                if a > b or (last is not None and a <= last):
                    return False
                if not any(c <= a and b <= d for c, d in prev):
                    return False
                last = b
            prev = iv
        return True

    def errs(self, v):
        res = []
        inherit = None
        for iv, err in self.levels:
            inherit = err or inherit
            if not any(a <= v <= b for a, b in iv):
                res.append(err or inherit)
        return res


class Int(Type):
    def __init__(self, name, chain=()):
        """chain: list of (parts, errinfo or None), one per derivation."""
        self.name = name
        self.chain = list(chain)
        self.lo, self.hi = INTR[name]
        self.r = Restr(self.chain, self.lo, self.hi, int)

    def base(self):
        return self.name

    def sub(self, i):
        parts, err = self.chain[i]
        return f" range {q(ranges_text(parts))}{errinfo(err)}"

    def ok(self, v):
        return self.lo <= v <= self.hi and self.r.ok(v)

    def lex(self, t):
        if not re.fullmatch("[-+]?[0-9]+", t):
            return None
        v = int(t)
        return ("i", v) if self.ok(v) else None

    def dlex(self, t):
        m = re.fullmatch("([-+]?)(0x[0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)", t)
        if not m:
            return None
        d = m.group(2)
        v = int(d, 16 if d[:2] == "0x" else 8 if d[0] == "0" else 10)
        v = -v if m.group(1) == "-" else v
        return ("i", v) if self.ok(v) else None

    def json(self, raw):
        if self.name in ("int64", "uint64"):
            return self.lex(raw) if isinstance(raw, str) else None
        if isinstance(raw, float) and raw == int(raw):
            return DONTCARE
        if not isinstance(raw, int) or isinstance(raw, bool):
            return None
        return ("i", raw) if self.ok(raw) else None

    def failing(self, raw):
        try:
            v = int(raw)
        except (ValueError, TypeError):
            return None
        if isinstance(raw, str) != (self.name in ("int64", "uint64")):
            return None
        return self.r.errs(v) or None

    def canon(self, v):
        return str(v[1])

    def raw(self, v):
        return str(v[1]) if self.name in ("int64", "uint64") else v[1]

    def bounds(self):
        bs = {self.lo, self.hi, 0}
        for iv, _ in self.r.levels:
            for a, b in iv:
                bs |= {a, b}
        return sorted({x + d for x in bs for d in (-1, 0, 1)})


class Dec(Type):
    def __init__(self, fd, chain=()):
        self.fd = fd
        self.chain = list(chain)
        self.lo = Fraction(-2**63, 10**fd)
        self.hi = Fraction(2**63 - 1, 10**fd)
        self.r = Restr(self.chain, self.lo, self.hi, Fraction)

    def base(self):
        return "decimal64"

    def fixed(self):
        return f" fraction-digits {self.fd};"

    sub = Int.sub

    def lex(self, t):
        m = re.fullmatch(r"[-+]?[0-9]+(?:\.([0-9]+))?", t)
        if not m:
            return None
        v = Fraction(t)
        sig = (m.group(1) or "").rstrip("0")
        if len(sig) > self.fd:
            # rounding of excess digits is pinned by the project's tests
            return DONTCARE
        if not (self.lo <= v <= self.hi and self.r.ok(v)):
            return None
        if len(m.group(1) or "") > self.fd:
            return DONTCARE
        return ("d", v)

    def json(self, raw):
        return self.lex(raw) if isinstance(raw, str) else None

    def failing(self, raw):
        if isinstance(raw, str) and re.fullmatch(
                r"[-+]?[0-9]+(\.[0-9]+)?", raw):
            return self.r.errs(Fraction(raw)) or None
        return None

    def canon(self, v):
        f = v[1]
        n = abs(f) * 10**self.fd
        assert n.denominator == 1
        s = str(n.numerator).rjust(self.fd + 1, "0")
        ip, fp = s[:-self.fd], s[-self.fd:].rstrip("0") or "0"
        return ("-" if f < 0 else "") + ip + "." + fp

    raw = canon

    def bounds(self):
        bs = {self.lo, self.hi, Fraction(0)}
        for iv, _ in self.r.levels:
            for a, b in iv:
                bs |= {a, b}
        u = Fraction(1, 10**self.fd)
        return sorted({x + d * u for x in bs for d in (-1, 0, 1)})


class Str(Type):
    """levels: list of dicts: length (parts, err), patterns [(ast, inv, err)].
    """

    def __init__(self, levels=()):
        self.levels = list(levels)
        self.r = Restr([lv["length"] for lv in self.levels
                        if lv.get("length")], 0, 2**32, int)
        self.pats = [p for lv in self.levels for p in lv.get("patterns", ())]

    chain = property(lambda self: self.levels)

    def base(self):
        return "string"

    def sub(self, i):
        lv = self.levels[i]
        res = ""
        if lv.get("length"):
            parts, err = lv["length"]
            res += f" length {q(ranges_text(parts))}{errinfo(err)}"
        for ast, inv, err in lv.get("patterns", ()):
            pt = q(RX.text(ast))
            if inv:
                e = errinfo(err)
                e = " {" + (e[2:-1] if err else "") + \
                    " modifier invert-match; }"
            else:
                e = errinfo(err)
            res += f" pattern {pt}{e}"
        return res

    def lex(self, t):
        if not self.r.ok(len(t)):
            return None
        for ast, inv, _ in self.pats:
            if RX.match(ast, t) == inv:
                return None
        return ("s", t)

    xml = lex

    def json(self, raw):
        return self.lex(raw) if isinstance(raw, str) else None

    def failing(self, raw):
        if not isinstance(raw, str):
            return None
        res = self.r.errs(len(raw))
        for ast, inv, err in self.pats:
            if RX.match(ast, raw) == inv:
                res.append(err)
        return res

    def canon(self, v):
        return v[1]

    raw = canon


class Binary(Type):
    def __init__(self, levels=()):
        self.levels = list(levels)
        self.r = Restr([lv["length"] for lv in self.levels
                        if lv.get("length")], 0, 2**32, int)

    chain = property(lambda self: self.levels)
    sub = Str.sub

    def base(self):
        return "binary"

    def lex(self, t):
        c = "[A-Za-z0-9+/]"
        if re.fullmatch(f"({c}|=)*=", t):
            n = len(t.rstrip("="))
            if n % 4 in (0, 1) or len(t) % 4:
                # RFC 4648 sec. 3.3 lets decoders ignore excess padding
                return DONTCARE if "=" not in t[:n] and n % 4 != 1 else None
        if not re.fullmatch(f"({c}{{4}})*({c}{{2}}==|{c}{{3}}=)?", t):
            return None
        b = base64.b64decode(t)
        if base64.b64encode(b).decode() != t:
            # non-zero pad bits: RFC 4648 lets decoders choose
            return DONTCARE if self.r.ok(len(b)) else None
        return ("b", b) if self.r.ok(len(b)) else None

    def xml(self, t):
        v = self.lex(t)
        w = "".join(c for c in t if c not in " \t\r\n")
        if v is None and w != t:
            return None if self.lex(w) is None else DONTCARE
        return v

    def json(self, raw):
        return self.lex(raw) if isinstance(raw, str) else None

    def failing(self, raw):
        try:
            b = base64.b64decode(raw, validate=True)
        except Exception:
            return None
        return self.r.errs(len(b)) or None

    def canon(self, v):
        return base64.b64encode(v[1]).decode()

    raw = canon


class Bool(Type):
    chain = ()

    def base(self):
        return "boolean"

    def lex(self, t):
        return {"true": ("t", True), "false": ("t", False)}.get(t)

    def json(self, raw):
        return ("t", raw) if isinstance(raw, bool) else None

    def canon(self, v):
        return "true" if v[1] else "false"

    def raw(self, v):
        return v[1]


class Empty(Type):
    chain = ()

    def base(self):
        return "empty"

    def lex(self, t):
        return ("e",) if t == "" else None

    def json(self, raw):
        return ("e",) if isinstance(raw, list) and len(raw) == 1 \
            and raw[0] is None else None

    def canon(self, v):
        return ""

    def raw(self, v):
        return [None]


class Enum(Type):
    """items: [(name, value|None)]; subsets: per derivation, kept names."""

    def __init__(self, items, subsets=()):
        self.items = list(items)
        self.subsets = list(subsets)
        self.values = {}
        top = None
        for n, v in self.items:
            if v is None:
                v = 0 if top is None else top + 1
            self.values[n] = v
            top = v if top is None else max(top, v)
        self.names = [n for n, _ in self.items
                      if all(n in s for s in self.subsets)]

    chain = property(lambda self: self.subsets)
    stmt, valst = "enum", "value"

    def base(self):
        return "enumeration"

    def fixed(self):
        return "".join(
            f" {self.stmt} {q(n)}" + (";" if v is None else
                                      f" {{ {self.valst} {v}; }}")
            for n, v in self.items)

    def sub(self, i):
        return "".join(f" {self.stmt} {q(n)};" for n in self.subsets[i])

    def lex(self, t):
        return ("en", t) if t in self.names else None

    def json(self, raw):
        return self.lex(raw) if isinstance(raw, str) else None

    def canon(self, v):
        return v[1]

    raw = canon


class Bits(Enum):
    stmt, valst = "bit", "position"

    def base(self):
        return "bits"

    def lex(self, t):
        if t != " ".join(t.split(" ")) or t.strip(" ") != t or "  " in t:
            return DONTCARE if len(set(t.split())) == len(t.split()) and all(
                x in self.names for x in t.split()) else None
        bs = t.split(" ") if t else []
        if len(set(bs)) != len(bs) or any(b not in self.names for b in bs):
            return None if not set("\t\n\r") & set(t) else (
                DONTCARE if all(x in self.names for x in t.split()) else None)
        return ("bits", tuple(sorted(bs, key=lambda b: self.values[b])))

    def canon(self, v):
        return " ".join(v[1])

    raw = canon


class Idref(Type):
    """graph: {qname: set of base qnames}; bases: qnames; home: module."""

    def __init__(self, graph, bases, home, prefixes=None):
        self.graph = graph
        self.bases = bases
        self.home = home
        self.prefixes = prefixes or {}

    chain = ()

    def base(self):
        return "identityref"

    def fixed(self):
        res = ""
        for m, n in self.bases:
            p = self.prefixes.get(m, m)
            res += f" base {n};" if m == self.home else f" base {p}:{n};"
        return res

    def derived(self, x, b):
        todo, seen = [x], set()
        while todo:
            y = todo.pop()
            for z in self.graph.get(y, ()):
                if z == b:
                    return True
                if z not in seen:
                    seen.add(z)
                    todo.append(z)
        return False

    def lex(self, t):
        p, s, n = t.partition(":")
        x = (p, n) if s else (self.home, p)
        if x in self.graph and all(self.derived(x, b) for b in self.bases):
            return ("id", x)
        return None

    def json(self, raw):
        return self.lex(raw) if isinstance(raw, str) else None

    def canon(self, v):
        return f"{v[1][0]}:{v[1][1]}"

    raw = canon


class Union(Type):
    def __init__(self, members):
        self.members = list(members)

    chain = ()

    def base(self):
        return "union"

    def fixed(self):
        return "".join(" " + inline(m) for m in self.members)

    def _first(self, f):
        for i, m in enumerate(self.members):
            v = f(m)
            if v is DONTCARE:
                return DONTCARE
            if v is not None:
                return ("u", i, v) if not isinstance(m, Union) else \
                    ("u", (i, v[1]), v[2])
        return None

    def lex(self, t):
        return self._first(lambda m: m.lex(t))

    def xml(self, t):
        return self._first(lambda m: m.xml(t))

    def dlex(self, t):
        return self._first(lambda m: m.dlex(t))

    def json(self, raw):
        return self._first(lambda m: m.json(raw))

    def member(self, v):
        m, i = self, v[1]
        while isinstance(m, Union):
            if isinstance(i, tuple):
                m, i = m.members[i[0]], i[1]
            else:
                m = m.members[i]
        return m

    def canon(self, v):
        return self.member(v).canon(v[2])

    def raw(self, v):
        return self.member(v).raw(v[2])


class Leafref(Type):
    """Reference (not required to exist) to a leaf of type t at path."""
    chain = ()

    def __init__(self, t, path):
        self.t, self.path = t, path
        for m in ("lex", "xml", "dlex", "json", "canon", "raw"):
            setattr(self, m, getattr(t, m))

    def base(self):
        return "leafref"

    def fixed(self):
        return f" path {q(self.path)}; require-instance false;"


def ident(v):
    """Identity of a value, across the members of a union.

    RFC 7950 does not say whether, e.g., an int8 and a uint64 member's zero
    are different values of a union; they are identified here, as are equal
    names from string and enumeration members.
    """
    while v[0] == "u":
        v = v[2]
    return ("s",) + v[1:] if v[0] == "en" else v


def inline(t, level=None):
    """type statement with the whole chain collapsed (chain length <= 1)."""
    body = t.fixed() if hasattr(t, "fixed") else ""
    if len(t.chain) == 1:
        body += t.sub(0)
    assert len(t.chain) <= 1
    return f"type {t.base()}" + (f" {{{body} }}" if body else ";")


_tn = [0]


def declare(t, name):
    """(typedef statements, type statement) realizing the chain by typedefs.

    The last level of the chain is written at the use site.
    """
    n = len(t.chain)
    fixed = t.fixed() if hasattr(t, "fixed") else ""
    if n == 0:
        return "", inline(t)
    if isinstance(t, Enum):
        # base enumeration in a typedef, each subset one derivation
        tds = f"typedef {name}-0 {{ type {t.base()} {{{fixed} }} }}\n"
        prev = name + "-0"
        for i in range(n - 1):
            tds += (f"typedef {name}-{i+1} {{ type {prev} "
                    f"{{{t.sub(i)} }} }}\n")
            prev = f"{name}-{i+1}"
        return tds, f"type {prev} {{{t.sub(n-1)} }}"
    if n == 1:
        return "", f"type {t.base()} {{{fixed}{t.sub(0)} }}"
    tds = f"typedef {name}-0 {{ type {t.base()} {{{fixed}{t.sub(0)} }} }}\n"
    prev = name + "-0"
    for i in range(1, n - 1):
        tds += f"typedef {name}-{i} {{ type {prev} {{{t.sub(i)} }} }}\n"
        prev = f"{name}-{i}"
    return tds, f"type {prev} {{{t.sub(n-1)} }}"
