"""Reference schemas: YANG text, documents, validation and defaults.

Written from RFC 7950.  A schema is a tree of S nodes; documents are plain
JSON values with member names qualified where the module changes.
"""
import itertools
import json

from . import xpath as X

CONFIG, NONCONFIG, ALL = 1, 2, 3

TYPES = {
    "u8": "type uint8;", "i8": "type int8;", "s": "type string;",
    "b": "type boolean;", "e": "type empty;",
    "td": "type td;", "ts": "type ts;",
}
TYPEDEFS = ('typedef td { type uint8; default 7; }\n'
            'typedef ts { type string; default "dd"; }\n')
TYPEDEFAULT = {"td": 7, "ts": "dd"}


PREFIXES = {"a": "a", "b": "b", "c": "c"}


class S:
    """Schema node."""

    def __init__(self, kind, name=None, kids=(), mod="a", when=None, must=(),
                 config=None, m=False, presence=False, keys=(), min=0,
                 max=None, unique=(), default=None, type="u8", vals=None,
                 short=False, iff=None, via=None, status=None, ordered=False,
                 maxdup=None, extra=""):
        self.kind = kind
        self.name = name
        self.kids = list(kids)
        self.mod = mod
        self.when = when
        self.must = [x if isinstance(x, tuple) else (x, None, None)
                     for x in ([must] if isinstance(must, str) else must)]
        self._config = config
        self.m = m
        self.presence = presence
        self.keys = list(keys)
        self.min = min
        self.max = max
        self.unique = list(unique)
        self.default = default
        self.type = type
        self.vals = vals
        self.short = short
        self.iff = iff
        self.via = via          # groups: "uses" or "augment"
        self.status = status
        self.ordered = ordered
        self.extra = extra
        self.parent = None

    # ------------------------------------------------------- properties
    def link(self):
        for k in self.kids:
            k.parent = self
            k.link()
        return self

    @property
    def data(self):
        return self.kind in ("container", "list", "leaf", "leaf-list",
                             "anydata", "anyxml")

    @property
    def internal(self):
        return self.kind in ("root", "container", "list")

    @property
    def config(self):
        n = self
        while n:
            if n._config is not None:
                return n._config
            n = n.parent
        return True

    @property
    def ct(self):
        if not self.config:
            return NONCONFIG
        return CONFIG if self.kind in ("leaf", "leaf-list", "anydata",
                                       "anyxml") else ALL

    @property
    def dparent(self):
        n = self.parent
        while n and not n.internal:
            n = n.parent
        return n

    @property
    def iname(self):
        p = self.dparent
        return (self.name if p.kind != "root" and p.mod == self.mod
                else f"{self.mod}:{self.name}")

    def dkids(self):
        """Data children, through choices, cases and groups."""
        for k in self.kids:
            if k.data:
                yield k
            else:
                yield from k.dkids()

    def chain(self):
        """Schema nodes between the parent data node and self, outermost
        first, including self."""
        res = [self]
        n = self.parent
        while not n.internal:
            res.append(n)
            n = n.parent
        return res[::-1]

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()

    def dpath(self):
        """Data path."""
        return ("" if self.dparent.kind == "root" else
                self.dparent.dpath()) + "/" + self.iname

    def spath(self, frm="b"):
        """Schema node identifier (absolute, fully prefixed)."""
        if self.kind == "root":
            return ""
        if self.kind == "group":
            return self.parent.spath()
        return self.parent.spath() + f"/{self.mod}:{self.name}"

    def find(self, name):
        for n in self.walk():
            if n.name == name and n.data:
                return n

    def __repr__(self):
        return f"{self.kind} {self.name}"


def root(*kids):
    return S("root", kids=kids).link()


def container(name, *kids, **kw):
    return S("container", name, kids, **kw)


def lst(name, *kids, **kw):
    return S("list", name, kids, **kw)


def leaf(name, **kw):
    return S("leaf", name, **kw)


def leaflist(name, **kw):
    return S("leaf-list", name, **kw)


def choice(name, *kids, **kw):
    return S("choice", name, kids, **kw)


def case(name, *kids, **kw):
    return S("case", name, kids, **kw)


def group(name, *kids, **kw):
    return S("group", name, kids, **kw)


# ---------------------------------------------------------------- YANG text

def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def yang(v):
    """Lexical form of a raw value in a default statement."""
    if isinstance(v, bool):
        return "true" if v else "false"
    return str(v)


class Writer:
    def __init__(self, root, features=()):
        self.root = root
        mods = sorted({"a", "b"} | {n.mod for n in root.walk()})
        self.groupings = {m: [] for m in mods}
        self.augments = {m: [] for m in mods}
        self.features = features

    def block(self, nodes, ind, mod):
        """Text of nodes written in module mod; others become augments."""
        return "".join(self.node(n, ind, mod) for n in nodes)

    def node(self, n, ind, mod):
        sp = "  " * ind
        if n.kind == "group":
            if n.mod != mod or n.via == "augment":
                body = self.block(n.kids, 2, n.mod)
                self.augments[n.mod].append(
                    (n.parent.spath(), n.when, n.iff, body,
                     n.kids[0].kind == "case" if n.kids else False))
                return ""
            gn = f"g-{n.name}"
            body = self.block(n.kids, 2, n.mod)
            self.groupings[mod].append(f"  grouping {gn} {{\n{body}  }}\n")
            sub = ""
            if n.when:
                sub += f" when {q(n.when)};"
            if n.iff:
                sub += f" if-feature {q(n.iff)};"
            return f"{sp}uses {gn} {{{sub} }}\n"
        if n.mod != mod:
            body = self.node(n, 2, n.mod)
            self.augments[n.mod].append((n.parent.spath(), None, None, body,
                                         False))
            return ""
        if n.kind == "case" and n.short:
            return self.block(n.kids, ind, mod)
        t = f"{sp}{n.kind} {n.name} {{"
        if n.when:
            t += f" when {q(n.when)};"
        if n.iff:
            t += f" if-feature {q(n.iff)};"
        if n.kind in ("leaf", "leaf-list"):
            t += " " + TYPES.get(n.type, n.type)
        for m, tag, msg in n.must:
            sub = ""
            if tag:
                sub += f" error-app-tag {q(tag)};"
            if msg:
                sub += f" error-message {q(msg)};"
            t += f" must {q(m)}" + (f" {{{sub} }}" if sub else ";")
        if n._config is not None:
            t += f" config {'true' if n._config else 'false'};"
        if n.m:
            t += " mandatory true;"
        if n.presence:
            t += " presence p;"
        if n.keys:
            t += f" key {q(' '.join(n.keys))};"
        for u in n.unique:
            t += f" unique {q(u)};"
        if n.min:
            t += f" min-elements {n.min};"
        if n.max is not None:
            t += f" max-elements {n.max};"
        if n.ordered:
            t += " ordered-by user;"
        if n.status:
            t += f" status {n.status};"
        if n.kind == "choice":
            if n.default:
                t += f" default {n.default};"
        elif n.default is not None:
            for d in (n.default if isinstance(n.default, list)
                      else [n.default]):
                t += f" default {q(yang(d))};"
        t += n.extra
        if n.kids:
            return t + "\n" + self.block(n.kids, ind + 1, mod) + sp + "}\n"
        return t + " }\n"


def texts(rt, head="", features=(), prefixed=False):
    """Module name -> body text."""
    w = Writer(rt)
    body = w.block(rt.kids, 1, "a")
    res = {}
    used = {n.mod for n in rt.walk()}
    used.add("a")
    for mod in sorted(used):
        t = "  yang-version 1.1;\n" f'  namespace "urn:{mod}";\n' \
            f"  prefix {mod};\n"
        for m in sorted(used):
            if m < mod:
                t += f"  import {m} {{ prefix {m}; }}\n"
        for f in features:
            if mod == "a":
                t += f"  feature {f};\n"
        t += "".join("  " + x + "\n" for x in TYPEDEFS.strip().split("\n"))
        t += head if mod == "a" and isinstance(head, str) else (
            head.get(mod, "") if isinstance(head, dict) else "")
        t += "".join(w.groupings[mod])
        if mod == "a":
            t += body
        else:
            # top-level nodes of module b are written directly
            pass
        # an augment of a node defined by another augment comes after it;
        # the list is in reverse nesting order
        for path, when, iff, text, _ in sorted(w.augments[mod],
                                               key=lambda x: x[0].count("/")):
            if path == "" and not when and not iff:
                t += text
                continue
            sub = (f" when {q(when)};" if when else "") + (
                f" if-feature {q(iff)};" if iff else "")
            t += f"  augment {q(path)} {{{sub}\n{text}  }}\n"
        res[mod] = f"module {mod} {{\n{t}}}\n"
    return res


# ---------------------------------------------------------------- documents

VALS = {"u8": [1, 2], "i8": [1, -1], "s": ["x", ""], "b": [True, False],
        "e": [[None]], "td": [7, 1], "ts": ["dd", "x"]}
NO = object()


def options(n, few=False):
    """Possible values of data node n in a document, NO included."""
    if n.kind == "leaf":
        v = n.vals if n.vals is not None else VALS[n.type][:1]
        return [NO] + list(v)
    if n.kind == "leaf-list":
        v = n.vals if n.vals is not None else [[1]]
        return [NO] + list(v)
    if n.kind == "container":
        return [NO] + list(objects(n))
    if n.kind == "list":
        if n.vals is not None:
            return [NO] + list(n.vals)
        es = list(objects(n, n.keys))
        res = [NO]
        for e in es:
            res.append([with_keys(n, e, 1)])
        res += [[with_keys(n, a, 1), with_keys(n, b, 2)]
                for a, b in itertools.product(es, repeat=2)]
        return res
    return [NO] + list(n.vals or [{"z": 1}])


def with_keys(n, e, i):
    res = {k: i for k in n.keys}
    res.update(e)
    return res


def objects(n, without=()):
    ks = [k for k in n.dkids() if k.name not in without]
    for c in itertools.product(*[options(k) for k in ks]):
        yield {k.iname: v for k, v in zip(ks, c) if v is not NO}


# ------------------------------------------------------- instances, XPath

class Inst(X.Node):
    __slots__ = ("sn", "explicit", "raw", "names")


def text_of(sn, raw):
    if isinstance(raw, bool):
        return "true" if raw else "false"
    if raw == [None]:
        return ""
    return str(raw)


def info_of(sn, raw):
    i = {"iname": sn.iname}
    if isinstance(raw, bool):
        i["bool"] = raw
    return i


class Doc:
    """A document over a schema; answers what holds for it."""

    def __init__(self, rt, doc, info=None, ctx=ALL):
        self.rt = rt
        self.doc = doc
        self.whens = {}
        self.info = info
        self._full = None

    # -------------------------------------------------- explicit instances
    def build(self, dummy=None, skip=frozenset(), defaults=True):
        """Tree of the document; dummy: (parent path, S) of a node whose
        instances are replaced by a dummy."""
        r = Inst(None, ())
        r.sn, r.explicit, r.raw = self.rt, True, self.doc
        found = []
        pend = [r]
        self.fill(r, dummy, found)
        if defaults:
            self.add_def(r, skip, r)
        X.number_tree(r)
        return r, (found[0] if found else None)

    def fill(self, obj, dummy, found):
        """Add explicit children (and the dummy)."""
        obj.names = set()
        by = {k.iname: k for k in obj.sn.dkids()}
        if dummy and dummy[0] == obj.path:
            k = dummy[1]
            n = Inst((k.name, k.mod), obj.path + (k.iname,), "",
                     {"iname": k.iname})
            n.sn, n.explicit, n.raw, n.names = k, True, None, set()
            obj.add(n)
            obj.names.add(k.iname)
            found.append(n)
        for name, v in obj.raw.items():
            k = by[name]
            if dummy and dummy[0] == obj.path and k is dummy[1]:
                continue
            obj.names.add(name)
            self.inst(obj, k, v, True, dummy, found)

    def inst(self, obj, k, v, explicit, dummy=None, found=None):
        p = obj.path + (k.iname,)
        qn = (k.name, k.mod)
        if k.kind in ("list", "leaf-list"):
            items = [(p + (i,), x) for i, x in enumerate(v)]
        else:
            items = [(p, v)]
        for path, x in items:
            if k.internal:
                n = Inst(qn, path, None, {"iname": k.iname})
                n.sn, n.explicit, n.raw = k, explicit, x
                obj.add(n)
                self.fill(n, dummy, found)
            elif k.kind in ("anydata", "anyxml"):
                n = Inst(qn, path, "", {"iname": k.iname})
                n.sn, n.explicit, n.raw, n.names = k, explicit, x, set()
                obj.add(n)
            else:
                inf = info_of(k, x)
                n = Inst(qn, path, text_of(k, x), inf)
                n.sn, n.explicit, n.raw, n.names = k, explicit, x, set()
                if self.info:
                    self.info(self, n)
                obj.add(n)

    # ------------------------------------------------------------ defaults
    def case_of(self, ch, obj):
        """Active case of a choice (explicit nodes only)."""
        for c in cases(ch):
            if any(k.iname in obj.names_explicit for k in c.dkids()):
                return c

    def in_use(self, sn, names, path, skip):
        """Data children of sn that exist by default in an object with the
        explicit names, as list of S."""
        out = []

        def rec(kids):
            for c in kids:
                if gone(c):
                    continue
                if c.data:
                    if c.iname in names:
                        continue
                    if c.kind == "container":
                        if c.presence:
                            continue
                    elif default_of(c) is None:
                        continue
                    if self.when(c, path, skip):
                        out.append(c)
                elif c.kind == "choice":
                    if not self.when(c, path, skip):
                        continue
                    act = active_case(c, names)
                    if act is None and c.default:
                        act = [x for x in cases(c)
                               if x.name == c.default][0]
                    if act is None:
                        continue
                    if all(self.when(x, path, skip)
                           for x in upto(act, c)):
                        rec(act.kids)
                else:
                    if self.when(c, path, skip):
                        rec(c.kids)
        rec(sn.kids)
        return out

    def add_def(self, obj, skip, top):
        names = set(obj.names)
        for k in self.in_use(obj.sn, names, obj.path, skip):
            self.inst(obj, k, {} if k.kind == "container" else
                      default_of(k), False)
        for c in obj.kids:
            if c.sn.internal and c.raw is not None:
                self.add_def(c, skip, top)

    # ------------------------------------------------------------- when
    def when(self, sn, path, skip=frozenset()):
        """Truth of the when of sn under the object at path."""
        if not sn.when:
            return True
        key = (path, id(sn))
        if key in skip:
            return False
        mk = (key, skip)
        if mk in self.whens:
            return self.whens[mk]
        if sn.data:
            tree, node = self.build((path, sn), skip | {key})
        else:
            tree, _ = self.build(None, skip | {key})
            node = find(tree, path)
        if node is None:
            # the parent itself exists only by default
            tree, node = self.build_virtual(path, sn, skip | {key})
        res = X.to_bool(X.evaluate(expr(sn.when, sn.mod), node, env(sn.mod)))
        self.whens[mk] = res
        return res

    def build_virtual(self, path, sn, skip):
        """As build, where the object at path exists by default only."""
        tree, _ = self.build(None, skip)
        par = find(tree, path)
        if par is None:
            # objects that are skipped or being decided: add them
            par = tree
            for i, k in enumerate(path):
                nx = find(tree, path[:i + 1])
                if nx is None:
                    if isinstance(k, int):
                        raise KeyError(path)
                    ks = [x for x in par.sn.dkids() if x.iname == k][0]
                    if ks.kind != "container":
                        continue
                    nx = Inst((ks.name, ks.mod), path[:i + 1], None,
                              {"iname": ks.iname})
                    nx.sn, nx.explicit, nx.raw = ks, False, {}
                    nx.names = set()
                    par.add(nx)
                par = nx
        if not sn.data:
            X.number_tree(tree)
            return tree, par
        par.kids = [c for c in par.kids if c.sn is not sn]
        n = Inst((sn.name, sn.mod), path + (sn.iname,), "",
                 {"iname": sn.iname})
        n.sn, n.explicit, n.raw, n.names = sn, True, None, set()
        par.add(n)
        X.number_tree(tree)
        return tree, n

    def whens_hold(self, sn, path):
        return all(self.when(x, path) for x in sn.chain())

    # ------------------------------------------------------- validation
    def syntax(self, ctype):
        """Structural violations: list of (path, kind, names)."""
        res = []
        tree, _ = self.build(None, defaults=False)

        def obj(node):
            sn, path = node.sn, node.path
            present = {c.sn.iname: c.sn for c in node.kids}
            for name in node.raw:
                k = [x for x in sn.dkids() if x.iname == name][0]
                if not (k.ct & ctype) or not self.whens_hold(k, path) \
                        or gone(k):
                    res.append((path, "member-not-allowed", name))
            for k in sn.walk_choices():
                act = [c for c in cases(k) if any(
                    x.iname in node.raw for x in c.dkids())]
                if len(act) > 1:
                    res.append((path, "member-not-allowed", k.name))
            for names in self.missing(sn, set(node.raw), path, ctype):
                res.append((path, "missing-data", names))
            for c in node.kids:
                if c.sn.internal:
                    obj(c)
        obj(tree)
        return res

    def missing(self, sn, names, path, ctype):
        """Missing mandatory items of an object of sn."""
        res = []

        def relevant(c):
            return ctype & (CONFIG if c.config else NONCONFIG)

        def rec(kids):
            for c in kids:
                if gone(c) or c.status == "deprecated":
                    continue
                if c.data:
                    if c.iname in names:
                        continue
                    if c.kind == "container" and not c.presence:
                        if c.ct & ctype and self.when(c, path):
                            sub = self.missing(c, set(),
                                               path + (c.iname,), ctype)
                            if sub:
                                res.append(c.iname)
                    elif (c.m or c.min > 0 or c.kind == "leaf" and
                          c.parent.kind == "list" and c.name in
                          c.parent.keys):
                        if relevant(c) and self.when(c, path):
                            res.append(c.iname)
                elif c.kind == "choice":
                    if not self.when(c, path):
                        continue
                    act = active_case(c, names)
                    if act is None:
                        if c.m and relevant(c):
                            res.append(c.name)
                    else:
                        if all(self.when(x, path) for x in upto(act, c)):
                            rec(act.kids)
                elif self.when(c, path):
                    rec(c.kids)
        rec(sn.kids)
        return res

    def full(self):
        if self._full is None:
            self._full = self.build()[0]
        return self._full

    def semantics(self, ctype):
        """Semantic violations: (path, tag, message, note)."""
        res = []
        tree = self.full()

        def node(n):
            sn = n.sn
            if n is not tree and not (sn.ct & ctype):
                return
            for expression, tag, msg in sn.must:
                v = X.evaluate(expr(expression, sn.mod), n, env(sn.mod))
                if not X.to_bool(v):
                    res.append((n.path, tag or "must-violation", msg,
                                "" if n.explicit else "absent"))
            if sn.internal:
                seqs = {}
                for c in n.kids:
                    if c.sn.kind in ("list", "leaf-list"):
                        seqs.setdefault(c.sn.iname, []).append(c)
                for k in sn.dkids():
                    ents = seqs.get(k.iname)
                    if k.kind not in ("list", "leaf-list"):
                        continue
                    if ents is None:
                        ents = []
                        if k.iname not in n.raw:
                            continue
                    self.seq(k, n.path + (k.iname,), ents, res)
                for c in n.kids:
                    node(c)
            if self.info and n.info.get("need") and not n.info["deref"]():
                res.append((n.path, "instance-required", None, ""))
        node(tree)
        return res

    def seq(self, k, path, ents, res):
        note = "" if all(e.explicit for e in ents) else "absent"
        if len(ents) < k.min:
            res.append((path, "too-few-elements", None, note))
        if k.max is not None and len(ents) > k.max:
            res.append((path, "too-many-elements", None, note))
        if k.kind == "leaf-list":
            if k.config and len({e.text for e in ents}) < len(ents):
                res.append((path, "repeated-leaf-list-value", None, note))
            return
        if k.keys:
            kv = []
            for e in ents:
                ch = [child(e, x) for x in k.keys]
                if None in ch:
                    res.append((e.path, "list-key-missing", None, note))
                else:
                    kv.append(tuple(c.text for c in ch))
            if len(set(kv)) < len(kv):
                res.append((path, "non-unique-key", None, note))
        for u in k.unique:
            vals = []
            for e in ents:
                t = []
                for p in u.split():
                    n = e
                    s = e.sn
                    for step in p.split("/"):
                        pm, _, loc = step.rpartition(":")
                        s = [x for x in schema_kids(s)
                             if x.name == loc][0]
                        if s.data and n is not None:
                            cs = [c for c in n.kids if c.sn is s]
                            n = cs[0] if cs else None
                    t.append(None if n is None else n.text)
                if None not in t:
                    vals.append(tuple(t))
            if len(set(vals)) < len(vals):
                res.append((path, "data-not-unique", None, note))

    # ------------------------------------------------------- with defaults
    def with_defaults(self, ctype=ALL, at=()):
        """The document with the defaults in use added (from path at on)."""
        tree = self.full()
        n = find(tree, at)

        def conv(n):
            res = {}
            for c in n.kids:
                if not (c.sn.ct & ctype) and not c.explicit:
                    continue
                if c.sn.internal:
                    v = conv(c)
                else:
                    v = c.raw
                if c.sn.kind == "list":
                    res.setdefault(c.sn.iname, []).append(v)
                elif c.sn.kind == "leaf-list":
                    res.setdefault(c.sn.iname, []).append(c.raw)
                else:
                    res[c.sn.iname] = v
            for name, v in n.raw.items():
                res.setdefault(name, v)     # empty arrays
            return res
        return conv(n)


def child(n, name):
    for c in n.kids:
        if c.qn[0] == name:
            return c


def schema_kids(s):
    for k in s.kids:
        if k.kind == "group":
            yield from schema_kids(k)
        else:
            yield k


def _walk_choices(self):
    for k in self.kids:
        if k.kind == "choice":
            yield k
        if not k.data:
            yield from _walk_choices(k)


S.walk_choices = _walk_choices


def gone(sn):
    n = sn
    while n and not n.internal:
        if n.status == "obsolete":
            return True
        n = n.parent
        if n is None or n.internal:
            break
    return sn.status == "obsolete"


def cases(ch):
    """Cases of a choice, also those in groups (augments)."""
    for k in ch.kids:
        if k.kind == "group":
            yield from cases(k)
        else:
            yield k


def upto(n, ch):
    """n and the groups between n and its choice, outermost first."""
    res = []
    while n is not ch:
        res.append(n)
        n = n.parent
    return res[::-1]


def active_case(ch, names):
    for c in cases(ch):
        if any(k.iname in names for k in c.dkids()):
            return c


def default_of(c):
    """Raw default value of a leaf or leaf-list (entries), or None."""
    if c.kind == "leaf":
        if c.m or (c.parent.kind == "list" and c.name in c.parent.keys):
            return None
        if c.default is not None:
            return c.default
        return TYPEDEFAULT.get(c.type)
    if c.kind == "leaf-list":
        if c.min > 0:
            return None
        if c.default is not None:
            return c.default if isinstance(c.default, list) else [c.default]
        d = TYPEDEFAULT.get(c.type)
        return None if d is None else [d]
    return None


def find(tree, path):
    n = tree
    while n.path != path:
        for c in n.kids:
            if c.path == path[:len(c.path)]:
                n = c
                break
        else:
            return None
    return n


_exprs = {}


def expr(text, mod):
    if (text, mod) not in _exprs:
        _exprs[text, mod] = X.parse(text, mod, PREFIXES)[0]
    return _exprs[text, mod]


_envs = {}


def env(mod):
    if mod not in _envs:
        _envs[mod] = X.Env(mod, PREFIXES)
    return _envs[mod]


def canon(doc):
    return json.dumps(doc, sort_keys=True)
