"""Reference expander: rewrites a set of YANG modules as a single module in
which groupings, augments, submodules, deviations and shorthands are written
out by hand.  Follows RFC 7950, independent of the library."""
import re

DATA = ("container", "list", "leaf", "leaf-list", "anydata", "anyxml",
        "choice")
TREE = ("rpc", "action", "notification")
NODES = DATA + TREE + ("case", "input", "output")
BUILTIN = ("binary", "bits", "boolean", "decimal64", "empty", "enumeration",
           "identityref", "instance-identifier", "int8", "int16", "int32",
           "int64", "leafref", "string", "uint8", "uint16", "uint32",
           "uint64", "union")
# properties with a single value, copied as they are
PROPS = ("config", "mandatory", "presence", "min-elements", "max-elements",
         "ordered-by", "status", "units", "description")


class Invalid(Exception):
    """The modular schema isn't valid YANG."""


class St:
    """YANG statement."""

    def __init__(self, kw, arg, up):
        self.kw, self.arg, self.up, self.subs = kw, arg, up, []

    def all(self, kw):
        return [s for s in self.subs if s.kw == kw]

    def one(self, kw):
        return next((s for s in self.subs if s.kw == kw), None)

    def val(self, kw):
        s = self.one(kw)
        return s.arg if s else None

    @property
    def top(self):
        s = self
        while s.up:
            s = s.up
        return s

    @property
    def mid(self):
        return self.top.arg


TOK = re.compile(r'\s*("(?:\\.|[^"\\])*"|[{};]|[^\s"{};]+)', re.S)


def parse(text):
    toks = TOK.findall(text)
    pos = 0
    cur = None
    while pos < len(toks):
        t = toks[pos]
        if t == "}":
            if cur.up is None:
                return cur
            cur = cur.up
            pos += 1
            continue
        arg = None
        pos += 1
        if toks[pos] not in "{;":
            arg = toks[pos]
            if arg[0] == '"':
                arg = arg[1:-1].replace('\\"', '"').replace("\\\\", "\\")
            pos += 1
        s = St(t, arg, cur)
        if cur is not None:
            cur.subs.append(s)
        if toks[pos] == "{":
            cur = s
        pos += 1
    raise AssertionError("unbalanced")


class N:
    """Schema node of the expanded module."""

    def __init__(self, kind, name, ns):
        self.kind, self.name, self.ns = kind, name, ns
        self.parent = None
        self.kids = []
        self.p = {}
        self.when = []
        self.must = []          # (expr, substatements text)
        self.unique = []
        self.default = []
        self.key = None         # [(name, ns)]
        self.type = None        # text
        self.base = None        # (built-in type, default translator)

    def add(self, k):
        k.parent = self
        self.kids.append(k)

    def find(self, name, ns):
        for k in self.kids:
            if k.name == name and k.ns == ns:
                return k

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()

    @property
    def data(self):
        return self.kind in DATA and self.kind != "choice"

    @property
    def dparent(self):
        n = self.parent
        while n.kind in ("choice", "case"):
            n = n.parent
        return n

    def dkids(self):
        for k in self.kids:
            if k.kind in ("choice", "case"):
                yield from k.dkids()
            elif k.data or k.kind in ("input", "output"):
                yield k


STEP = re.compile(
    r"""\s*("[^"]*"|'[^']*'|\d+(?:\.\d+)?|::|//|\.\.|!=|<=|>=|"""
    r"""[A-Za-z_][\w.-]*(?::[A-Za-z_][\w.-]*)?(?!:(?!:))|.)""", re.S)
NAME = re.compile(r"[A-Za-z_][\w.-]*(?::[A-Za-z_][\w.-]*)?\Z")


class Expander:
    def __init__(self, texts, features=(), implement=None, main="a"):
        """texts: name -> YANG text; features: set of (module, feature);
        implement: implemented main modules (default all)."""
        self.home = main
        self.mods = {n: parse(t) for n, t in texts.items()}
        self.main = {}
        self.pmap = {}
        self.subs = {}
        for n, m in self.mods.items():
            bt = m.one("belongs-to")
            self.main[n] = bt.arg if bt else n
            self.pmap[n] = {(bt or m).val("prefix"): self.main[n]}
            for i in m.all("import"):
                self.pmap[n][i.val("prefix")] = i.arg
            self.subs.setdefault(self.main[n], []).append(n)
        self.features = set(features)
        self.implement = (implement if implement is not None else
                          [n for n in self.mods if self.main[n] == n])
        self.types = {}         # hoisted typedefs: key -> (name, text)
        self.expand()

    # ------------------------------------------------------------- names
    def ren(self, name, ns):
        return name if ns == self.home else f"{ns}-{name}"

    def pn(self, mod):
        """Prefix in the plain module."""
        return self.home if mod == self.home else "m-" + mod

    def qname(self, pname, mid, ns):
        p, s, loc = pname.partition(":")
        return (loc, self.pmap[mid][p]) if s else (p, ns)

    def ident(self, pname, mid):
        name, m = self.qname(pname, mid, self.main[mid])
        return f"{self.pn(m)}:{name}"

    def xpath(self, expr, mid, ns):
        """Expression written in module mid, default namespace ns."""
        toks = STEP.findall(expr)
        res = []
        fun = []
        for i, t in enumerate(toks):
            prev = toks[i - 1] if i else None
            nxt = toks[i + 1] if i + 1 < len(toks) else None
            if t[0] in "\"'":
                if fun and fun[-1] in ("derived-from",
                                       "derived-from-or-self"):
                    t = t[0] + self.ident(t[1:-1], mid) + t[0]
            elif t == "(":
                fun.append(prev)
            elif t == ")":
                fun.pop()
            elif NAME.match(t) and nxt not in ("(", "::"):
                operand = prev is None or prev in (
                    "(", "[", ",", "/", "//", "::", "=", "!=", "<", "<=",
                    ">", ">=", "+", "-", "*", "|", "@", "and", "or", "div",
                    "mod")
                if operand:
                    name, m = self.qname(t, mid, ns)
                    t = f"{self.home}:{self.ren(name, m)}"
            res.append(t)
        out = ""
        for t in res:
            if out and (out[-1].isalnum() or out[-1] in "\"')]." ) and (
                    t[0].isalnum() or t[0] in "\"'-+*<>=!|") or (
                    t in ("-", "*", "=", "+")):
                out += " "
            out += t
            if t in ("and", "or", "div", "mod", "-", "+", "=", "*", ">", "<",
                     "!=", "<=", ">=", ","):
                out += " "
        return out

    # ---------------------------------------------------------- features
    def feats(self, st):
        return all(self.feat(s.arg, s.mid) for s in st.all("if-feature"))

    def feat(self, expr, mid):
        toks = re.findall(r"[()]|[^\s()]+", expr)
        py = []
        for t in toks:
            if t not in ("(", ")", "and", "or", "not"):
                n, m = self.qname(t, mid, self.main[mid])
                t = str((m, n) in self.features)
            py.append(t)
        return eval(" ".join(py))

    # ------------------------------------------------------- definitions
    def definition(self, kw, pname, st):
        mid = st.mid
        name, m = self.qname(pname, mid, self.main[mid])
        if m == self.main[mid]:
            s = st.up
            while s is not None:
                for d in s.all(kw):
                    if d.arg == name:
                        return d
                s = s.up
        for f in self.subs[m]:
            for d in self.mods[f].all(kw):
                if d.arg == name:
                    return d
        raise KeyError((kw, pname))

    # ------------------------------------------------------------- types
    def typ(self, st, ns):
        """(text of the type statement, base type) for a type statement."""
        mid = st.mid
        subs = ""
        nxt = 0
        if st.arg in BUILTIN:
            name = base = st.arg
        else:
            td = self.definition("typedef", st.arg, st)
            key = (id(td), ns)
            if key not in self.types:
                tt = td.one("type")
                text, base = self.typ(tt, ns)
                n = f"t{len(self.types)}-{td.arg}"
                for kw in ("units", "description", "status"):
                    if td.one(kw):
                        text += f" {kw} {q(td.val(kw))};"
                if td.one("default"):
                    text += " default " + q(self.value(
                        base, td.val("default"), td.mid, ns)) + ";"
                self.types[key] = (n, f"typedef {n} {{ {text} }}\n", base)
            name, _, base = self.types[key]
        for s in st.subs:
            if s.kw == "type":
                subs += " " + self.typ(s, ns)[0]
            elif s.kw == "path":
                subs += " path " + q(self.xpath(s.arg, mid, ns)) + ";"
            elif s.kw == "base":
                subs += f" base {self.ident(s.arg, mid)};"
            elif s.kw == "if-feature":
                continue
            elif s.kw in ("enum", "bit"):
                # values are assigned before conditions are evaluated
                kw = "value" if s.kw == "enum" else "position"
                nxt = int(s.val(kw)) if s.one(kw) else nxt
                if self.feats(s):
                    subs += f" {s.kw} {q(s.arg)} {{ {kw} {nxt}; }}"
                nxt += 1
            else:
                subs += " " + self.copy(s)
        return f"type {name} {{{subs} }}", base

    def copy(self, s):
        subs = "".join(" " + self.copy(x) for x in s.subs
                       if x.kw != "if-feature")
        arg = "" if s.arg is None else " " + q(s.arg)
        return f"{s.kw}{arg}" + (f" {{{subs} }}" if subs else ";")

    def value(self, base, text, mid, ns):
        """Default value written in module mid."""
        if base == "identityref":
            return self.ident(text, mid)
        if base == "instance-identifier":
            return self.xpath(text, mid, ns)
        return text

    # ------------------------------------------------------------- nodes
    def expand(self):
        self.root = N("root", None, None)
        order = [f for m in self.implement for f in self.subs[m]]
        for f in order:
            self.body(self.mods[f], self.main[f], self.root)
        todo = [a for f in order for a in self.mods[f].all("augment")
                if self.feats(a)]
        while todo:
            rest = []
            for a in todo:
                tgt = self.target(a.arg, a.mid, self.main[a.mid], self.root)
                if tgt is None:
                    rest.append(a)
                else:
                    self.group(a, a, self.main[a.mid], tgt, a.one("when"))
            if len(rest) == len(todo):
                break
            todo = rest
        if todo:
            raise Invalid("target of augment")
        for f in order:
            for d in self.mods[f].all("deviation"):
                tgt = self.target(d.arg, f, self.main[f], self.root)
                if tgt is None:
                    raise Invalid("target of deviation")
                for dv in d.all("deviate"):
                    self.deviate(dv, tgt)

        for n in self.root.walk():
            self.unique_names(n)
            if n.key and not all(
                    any((c.name, c.ns) == k for c in n.dkids())
                    for k in n.key):
                raise Invalid("key")
            if n.default and (n.p.get("mandatory") == "true" or
                              n.p.get("min-elements", "0") != "0"):
                raise Invalid("mandatory with default")
            if n.kind == "choice" and n.default and n.default[0] not in [
                    self.ren(k.name, k.ns) for k in n.kids]:
                raise Invalid("default case")
            for u in n.unique:
                for p in u.split():
                    t = n
                    for c in p.split("/"):
                        t = next((k for k in t.kids
                                  if self.ren(k.name, k.ns) == c), None)
                        if t is None:
                            raise Invalid("unique")

    def target(self, path, mid, ns, n):
        for p in path.strip("/").split("/"):
            n = n.find(*self.qname(p, mid, ns))
            if n is None:
                return None
        return n

    def group(self, st, defs, ns, parent, when):
        """Add nodes defined in defs with a common condition."""
        before = len(parent.kids)
        self.body(defs, ns, parent)
        return self.guard(parent.kids[before:], when, ns)

    def guard(self, kids, when, ns):
        if not when:
            return
        w = self.xpath(when.arg, when.mid, ns)
        up = w.replace("current()", "current()/..")
        for k in kids:
            assert k.kind not in TREE, "when on an operation"
            k.when.append(w if k.kind in ("choice", "case") else
                          f"boolean(..[boolean({up})])")

    def unique_names(self, n):
        """Names of all data nodes under a data node are different."""
        names = [(k.name, k.ns) for k in n.dkids()]
        if len(set(names)) < len(names):
            raise Invalid("duplicate name")
        names = [(k.name, k.ns) for k in n.kids]
        if len(set(names)) < len(names):
            raise Invalid("duplicate name")

    def body(self, st, ns, parent):
        for s in st.subs:
            if s.kw == "uses":
                self.uses(s, ns, parent)
            elif s.kw in NODES and self.feats(s):
                self.node(s, ns, parent)

    def uses(self, s, ns, parent):
        if not self.feats(s):
            return
        g = self.definition("grouping", s.arg, s)
        before = len(parent.kids)
        self.body(g, ns, parent)
        for a in s.all("augment"):
            if self.feats(a):
                tgt = self.target(a.arg, a.mid, ns, parent)
                if tgt is None:
                    raise Invalid("target of augment")
                self.group(a, a, ns, tgt, a.one("when"))
        for r in s.all("refine"):
            tgt = self.target(r.arg, r.mid, ns, parent)
            if tgt is None:
                raise Invalid("target of refine")
            if not self.feats(r):
                tgt.parent.kids.remove(tgt)
            else:
                self.refine(r, tgt, ns)
        self.guard(parent.kids[before:], s.one("when"), ns)

    def node(self, s, ns, parent):
        if s.kw in ("input", "output"):
            n = parent.find(s.kw, ns)
            self.musts(s, n, ns)
            self.body(s, ns, n)
            return
        if parent.kind == "choice" and s.kw != "case":
            c = N("case", s.arg, ns)
            parent.add(c)
            parent = c
        n = N(s.kw, s.arg, ns)
        parent.add(n)
        if s.kw in ("rpc", "action"):
            n.add(N("input", "input", ns))
            n.add(N("output", "output", ns))
        if s.one("type"):
            n.type, n.base = self.typ(s.one("type"), ns)
        for w in s.all("when"):
            n.when.append(self.xpath(w.arg, w.mid, ns))
        if s.one("key"):
            n.key = [self.qname(k, s.mid, ns) for k in s.val("key").split()]
        self.uniques(s, n, ns)
        for p in PROPS:
            if s.one(p):
                n.p[p] = s.val(p)
        self.musts(s, n, ns)
        self.defaults(s, n, ns)
        self.body(s, ns, n)

    def uniques(self, s, n, ns):
        for u in s.all("unique"):
            n.unique.append(self.uniq(u, ns))

    def uniq(self, u, ns):
        return " ".join(
            "/".join(self.ren(*self.qname(x, u.mid, ns))
                     for x in p.split("/")) for p in u.arg.split())

    def musts(self, s, n, ns):
        for m in s.all("must"):
            n.must.append((self.xpath(m.arg, m.mid, ns),
                           "".join(" " + self.copy(x) for x in m.subs)))

    def defaults(self, s, n, ns):
        for d in s.all("default"):
            n.default.append(self.defval(d, n, ns))

    def defval(self, d, n, ns):
        if n.kind == "choice":
            return self.ren(*self.qname(d.arg, d.mid, ns))
        return self.value(n.base, d.arg, d.mid, ns)

    def refine(self, r, n, ns):
        for p in PROPS:
            if r.one(p):
                n.p[p] = r.val(p)
        self.musts(r, n, ns)
        if r.one("default"):
            n.default = []
            self.defaults(r, n, ns)

    def deviate(self, dv, n):
        ns = self.main[dv.mid]
        if dv.arg == "not-supported":
            n.parent.kids.remove(n)
            return
        if dv.arg == "delete":
            for s in dv.subs:
                try:
                    if s.kw == "must":
                        e = self.xpath(s.arg, s.mid, ns)
                        del n.must[[m[0] for m in n.must].index(e)]
                    elif s.kw == "unique":
                        n.unique.remove(self.uniq(s, ns))
                    elif s.kw == "default":
                        n.default.remove(self.defval(s, n, ns))
                    else:
                        if n.p[s.kw] != s.arg:
                            raise Invalid("deleted value")
                        del n.p[s.kw]
                except (ValueError, KeyError):
                    raise Invalid("deletes missing property") from None
            return
        if dv.arg == "replace":
            if dv.one("type"):
                n.type, n.base = self.typ(dv.one("type"), n.ns)
            if dv.one("default"):
                if not n.default:
                    raise Invalid("nothing to replace")
                n.default = []
        elif n.default and dv.one("default") and n.kind != "leaf-list":
            raise Invalid("adds existing default")
        self.uniques(dv, n, ns)
        self.musts(dv, n, ns)
        self.defaults(dv, n, ns)
        for p in PROPS:
            if dv.one(p):
                if (p in n.p) != (dv.arg == "replace") and p not in (
                        "config", "mandatory"):
                    raise Invalid("adds existing or replaces missing")
                n.p[p] = dv.val(p)

    # ------------------------------------------------------------ output
    def plain(self):
        """Texts of the expanded model: the home module with all nodes and
        the other modules with identities and features only."""
        body = "".join(self.text(k, 1) for k in self.root.kids)
        types = "".join("  " + t[1] for t in self.types.values())
        res = {}
        for m in self.subs:
            if m != self.home:
                t = (f"  yang-version 1.1;\n  namespace \"urn:{m}\";\n"
                     f"  prefix {m};\n")
                imp = {i.arg for f in self.subs[m]
                       for i in self.mods[f].all("import")}
                t += "".join(f"  import {i} {{ prefix m-{i}; }}\n"
                             for i in sorted(imp) if i != self.home)
                t += self.defs(m)
                res[m] = f"module {m} {{\n{t}}}\n"
        t = (f"  yang-version 1.1;\n  namespace \"urn:{self.home}\";\n"
             f"  prefix {self.home};\n")
        t += "".join(f"  import {m} {{ prefix m-{m}; }}\n"
                     for m in sorted(res))
        res[self.home] = (f"module {self.home} {{\n{t}{self.defs(self.home)}"
                          f"{types}{body}}}\n")
        return res

    def defs(self, m):
        t = ""
        for f in self.subs[m]:
            for s in self.mods[f].all("feature"):
                t += f"  feature {s.arg};\n"
            for s in self.mods[f].all("identity"):
                if not self.feats(s):
                    continue
                t += f"  identity {s.arg} {{"
                for b in s.all("base"):
                    n, bm = self.qname(b.arg, s.mid, self.main[s.mid])
                    p = ("" if bm == m else self.pn(bm) + ":")
                    t += f" base {p}{n};"
                t += " }\n"
        return t

    def text(self, n, ind):
        sp = "  " * ind
        if n.kind in ("input", "output"):
            if not n.kids and not n.must:
                return ""
            t = f"{sp}{n.kind} {{"
        else:
            t = f"{sp}{n.kind} {self.ren(n.name, n.ns)} {{"
        if n.type:
            t += " " + n.type
        if n.key:
            t += " key " + q(" ".join(self.ren(*k) for k in n.key)) + ";"
        if n.when:
            w = n.when[0] if len(n.when) == 1 else " and ".join(
                f"boolean({x})" for x in n.when)
            t += f" when {q(w)};"
        for m, sub in n.must:
            t += f" must {q(m)}" + (f" {{{sub} }}" if sub else ";")
        for u in n.unique:
            t += f" unique {q(u)};"
        for d in n.default:
            t += f" default {q(d)};"
        for p, v in n.p.items():
            t += f" {p} {q(v)};"
        if n.kids:
            return (t + "\n" + "".join(self.text(k, ind + 1) for k in n.kids)
                    + sp + "}\n")
        return t + " }\n"


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
