"""Reference reading and writing of documents in JSON and XML.

Schema trees are those of mc.ref.schema; leaves carry a type of mc.ref.types
in the attribute t.  Written from RFC 7951 and RFC 7950 (sec. 7 and 9).
"""
import re
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape

from . import schema as R
from . import types as T

IDGRAPH = {("a", "base"): set(), ("a", "i1"): {("a", "base")},
           ("a", "i2"): {("a", "i1")}, ("b", "i1"): {("a", "base")},
           ("b", "i3"): {("a", "i1")}}
HEAD = {"a": "  identity base;\n  identity i1 { base base; }\n"
             "  identity i2 { base i1; }\n"
             "  typedef idt { type identityref { base base; } }\n",
        "b": "  identity i1 { base a:base; }\n"
             "  identity i3 { base a:i1; }\n"}


def typed(kind, name, t, raws, mod="a", **kw):
    """Leaf or leaf-list of a reference type with sample raw values."""
    n = R.S(kind, name, mod=mod, type=T.inline(t), **kw)
    n.t, n.raws = t, raws
    return n


class Iid(T.Type):
    """instance-identifier; accepted texts are listed with canonical form."""
    chain = ()

    def __init__(self, forms, full=None):
        self.forms = forms
        self.full = full or {}      # canonical JSON -> all names qualified

    def other(self, text):
        """XML texts (with module names as prefixes) not in full."""
        return LENIENT

    def base(self):
        return "instance-identifier { require-instance false; }"

    def json(self, raw):
        c = self.forms.get(raw) if isinstance(raw, str) else None
        return None if c is None else ("iid", c)

    lex = json

    def raw(self, v):
        return v[1]

    canon = raw


def inline_iid():
    return "type instance-identifier { require-instance false; }"


class Reader:
    """Result of reading a raw JSON document."""

    def __init__(self, rt, doc):
        self.errors = []        # (path, kind)
        self.lenient = []       # paths of over-qualified names
        self.dup = False
        self.doc = self.obj(rt, doc, ())

    def obj(self, sn, raw, path):
        if not isinstance(raw, dict):
            self.errors.append((path, "type"))
            return None
        res = {}
        for name, v in raw.items():
            p = path + (name,)
            pre, sep, loc = name.partition(":")
            if sep:
                mod = pre
            else:
                mod, loc = (None if sn.kind == "root" else sn.mod), name
            ch = [k for k in sn.dkids() if (k.mod, k.name) == (mod, loc)]
            if not ch:
                self.errors.append((p, "member"))
                continue
            ch = ch[0]
            if name != ch.iname:
                self.lenient.append(p)
            if ch.iname in res:
                self.dup = True
            res[ch.iname] = self.node(ch, v, p)
        if sn.kind == "list" and sn.config and any(
                k not in res for k in sn.keys):
            self.errors.append((path, "key"))
        return res

    def node(self, sn, raw, path):
        if sn.kind == "container":
            return self.obj(sn, raw, path)
        if sn.kind in ("anydata", "anyxml"):
            return raw
        if sn.kind == "leaf":
            return self.leaf(sn, raw, path)
        if not isinstance(raw, list):
            self.errors.append((path, "type"))
            return None
        f = self.obj if sn.kind == "list" else self.leaf
        return [f(sn, x, path + (i,)) for i, x in enumerate(raw)]

    def leaf(self, sn, raw, path):
        try:
            v = sn.t.json(raw)
        except TypeError:
            v = None
        if v is None:
            self.errors.append((path, "value"))
            return None
        if v is T.DONTCARE:
            self.dup = True
            return raw
        return sn.t.raw(v)


def pointers(doc, path, rt):
    """Acceptable texts of a path in errors about raw data."""
    res = [""]
    cur, sn = doc, rt
    for k in path:
        if isinstance(k, int):
            alts = [f"/{k}"]
            if sn is not None and sn.kind == "list" and isinstance(
                    cur[k], dict):
                alts.append("=" + ",".join(
                    str(cur[k].get(x, "<missing>")) for x in sn.keys))
        else:
            alts = ["/" + k]
            loc = k.rpartition(":")[2]
            if sn is not None:
                mod = (k.rpartition(":")[0] if ":" in k else
                       sn.mod if sn.kind != "root" else None)
                sn = ([x for x in sn.dkids()
                       if (x.mod, x.name) == (mod, loc)] or [None])[0] \
                    if sn.internal else None
        try:
            cur = cur[k]
        except (KeyError, IndexError, TypeError):
            cur = None
        res = [r + a for r in res for a in alts]
    return [r or "/" for r in res] + res


def places(sn, raw, path=()):
    """All (schema node, value, path) of a document, arrays included."""
    if sn.internal:
        if path:
            yield sn, raw, path
        for k in sn.dkids():
            if k.iname not in raw:
                continue
            v, p = raw[k.iname], path + (k.iname,)
            if k.kind == "list":
                yield k, v, p
                for i, e in enumerate(v):
                    yield from places(k, e, p + (i,))
            elif k.kind == "leaf-list":
                yield k, v, p
                for i, e in enumerate(v):
                    yield k, e, p + (i,)
            elif k.kind == "container":
                yield from places(k, v, p)
            else:
                yield k, v, p


def at(doc, path):
    for k in path:
        doc = doc[k]
    return doc


def replace(doc, path, f):
    """Copy of doc with the item at path replaced by f(item)."""
    if not path:
        return f(doc)
    if isinstance(doc, list):
        return [replace(x, path[1:], f) if i == path[0] else x
                for i, x in enumerate(doc)]
    return {k: replace(x, path[1:], f) if k == path[0] else x
            for k, x in doc.items()}


# --------------------------------------------------------------------- XML

NS = {"a": "urn:a", "b": "urn:b", "c": "urn:c"}
MOD = {u: m for m, u in NS.items()}
STYLES = ["default", "prefix", "mixed", "outer"]
PRE = {"prefix": {"a": "pa", "b": "pb", "c": "pc"},
       "mixed": {"a": "b", "b": "c", "c": "a"},
       "outer": {"b": "a", "c": "b"}}


class X:
    """XML element; a leaf has text or a value (type, value, module)."""

    def __init__(self, uri, name, kids=None, val=None, text=None):
        self.uri, self.name, self.kids = uri, name, kids
        self.val, self.text = val, text
        self.scope = None

    def copy(self):
        r = X(self.uri, self.name, None if self.kids is None else
              [k.copy() for k in self.kids], self.val, self.text)
        return r

    def walk(self, path=()):
        yield path, self
        for i, k in enumerate(self.kids or ()):
            yield from k.walk(path + (i,))

    def at(self, path):
        x = self
        for i in path:
            x = x.kids[i]
        return x


def tree(sn, obj):
    """Elements of the members of an object."""
    res = []
    for name, v in obj.items():
        k = [x for x in sn.dkids() if x.iname == name][0]
        for x in v if k.kind in ("list", "leaf-list") else [v]:
            if k.internal:
                res.append(X(NS[k.mod], k.name, tree(k, x)))
            else:
                res.append(X(NS[k.mod], k.name,
                             val=(k.t, k.t.json(x), k.mod)))
    return res


class Render:
    """Text of an element tree; sets scope and text of the elements.

    style: "default" - xmlns on every element whose namespace differs;
    "prefix" - prefixes other than module names declared at the root;
    "mixed" - module names of other modules as prefixes (cyclically);
    "outer" - default namespace a, the other modules by misleading prefixes.
    """

    def __init__(self, style):
        self.style = style
        self.pre = PRE.get(style, {})

    def root(self, x):
        scope = {p: NS[m] for m, p in self.pre.items()}
        decl = dict(scope)
        if self.style == "outer":
            scope[""] = decl[""] = NS["a"]
        return self.elem(x, scope, decl)

    def elem(self, x, scope, decl=()):
        decl = dict(decl)
        scope = dict(scope)
        if x.uri is None:
            tag = x.name
            if scope.get(""):
                decl[""] = ""
        elif self.style == "default" or MOD.get(x.uri) not in self.pre and \
                x.uri == scope.get(""):
            tag = x.name
            if scope.get("") != x.uri:
                decl[""] = x.uri
        elif MOD.get(x.uri) in self.pre:
            tag = f"{self.pre[MOD[x.uri]]}:{x.name}"
        else:
            tag = f"u:{x.name}"
            decl["u"] = x.uri
        scope.update(decl)
        if x.val is not None:
            x.text = self.text(*x.val, scope, decl)
        scope.update(decl)
        x.scope = scope
        at = "".join(f' xmlns{":" + p if p else ""}="{u}"'
                     for p, u in decl.items())
        body = escape(x.text or "") + "".join(
            self.elem(k, scope) for k in x.kids or ())
        return f"<{tag}{at}>{body}</{tag}>"

    def text(self, t, v, mod, scope, decl):
        if isinstance(t, T.Leafref):
            return self.text(t.t, v, mod, scope, decl)
        if isinstance(t, T.Union):
            return self.text(t.member(v), v[2], mod, scope, decl)
        if isinstance(t, T.Idref):
            m, n = v[1]
            if scope.get("") == NS[m] and m not in self.pre:
                return n
            return f"{self.prefix(m, decl)}:{n}"
        if isinstance(t, Iid):
            def sub(mo):
                return mo[1] + self.prefix(mo[2], decl) + ":"
            return re.sub(r"([/\[])(\w):", sub, t.full[v[1]])
        return t.canon(v)

    def prefix(self, m, decl):
        if m in self.pre:
            return self.pre[m]
        decl["z" + m] = NS[m]
        return "z" + m


LENIENT = T.DONTCARE


def lexical(t, text, scope):
    """Value of XML text, None if invalid, LENIENT if not decided."""
    if isinstance(t, T.Leafref):
        return lexical(t.t, text, scope)
    if isinstance(t, T.Union):
        return t._first(lambda m: lexical(m, text, scope))
    if isinstance(t, T.Idref):
        pre, sep, loc = text.partition(":")
        if not sep:
            pre, loc = "", text
        if not scope.get(pre):
            return LENIENT if not sep or pre == t.home else None
        if scope[pre] not in MOD:
            return None
        return t.lex(f"{MOD[scope[pre]]}:{loc}")
    if isinstance(t, Iid):
        def sub(mo):
            u = scope.get(mo[2])
            return mo[1] + (MOD.get(u, "?") if u else "!") + ":"
        text = re.sub(r"([/\[])([\w.-]+):", sub, text)
        if "!" in text:
            return LENIENT
        for c, f in t.full.items():
            if f == text:
                return ("iid", c)
        return t.other(text)
    return t.xml(text)


class XReader(Reader):
    """Result of reading XML elements."""

    def __init__(self, rt, elems, top=None):
        self.top = top
        self.errors, self.lenient, self.dup = [], [], False
        self.doc = self.xobj(rt, elems, ())

    def xobj(self, sn, elems, path):
        res = {}
        for i, e in enumerate(elems):
            p = path + (i,)
            if e.uri is None:
                self.lenient.append(p)
                mod = sn.mod if sn.kind != "root" else self.top
            else:
                mod = MOD.get(e.uri)
            ch = [k for k in sn.dkids() if (k.mod, k.name) == (mod, e.name)]
            if not ch:
                self.errors.append((p, "member"))
                continue
            ch = ch[0]
            v = self.xnode(ch, e, p)
            if ch.kind in ("list", "leaf-list"):
                res.setdefault(ch.iname, []).append(v)
            else:
                if ch.iname in res:
                    self.dup = True
                res[ch.iname] = v
        if sn.kind == "list" and sn.config and any(
                k not in res for k in sn.keys):
            self.errors.append((path, "key"))
        return res

    def xnode(self, sn, e, path):
        if sn.internal:
            if e.kids is None and e.text:
                self.dup = True
            return self.xobj(sn, e.kids or [], path)
        if e.kids:
            self.errors.append((path, "value"))
            return None
        v = lexical(sn.t, e.text or "", e.scope)
        if v is LENIENT:
            self.dup = True
            return None
        if v is None:
            self.errors.append((path, "value"))
            return None
        return sn.t.raw(v)


def parse_xml(text):
    """Element tree of a text (namespaces resolved, scopes kept)."""
    p = ET.XMLPullParser(["start", "start-ns", "end"])
    p.feed(text)
    p.close()
    stack, root, new = [], None, {}
    for ev, d in p.read_events():
        if ev == "start-ns":
            new[d[0]] = d[1]
        elif ev == "start":
            uri, _, name = d.tag.rpartition("}")
            x = X(uri[1:] or None, name, [])
            x.scope = dict(stack[-1].scope if stack else {}, **new)
            new = {}
            if stack:
                stack[-1].kids.append(x)
            else:
                root = x
            stack.append(x)
        else:
            x = stack.pop()
            x.text = d.text
            if not x.kids:
                x.kids = None
    return root
