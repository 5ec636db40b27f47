"""C11: instance paths round-trip, all ways of following them agree."""
import base64
import itertools
import json
import re
from urllib.parse import unquote_to_bytes

from mc import edits
from mc.models import build
from mc.ref import encode as E
from mc.ref import schema as R
from mc.ref import types as T
from mc.ref.schema import container
from mc.checks.c04 import idref, PAT
import yangson.exceptions as X

PROPERTY = "C11"

# ------------------------------------------------------------------ schema

IIDS = {t: t for t in (
    "/a:tgt", '/a:h/w[.="x"]', "/a:h/w[.='\"']", '/a:h/w[.="a\\\\"]',
    '/a:h/l[k="x"]/v', "/a:h/w[1]")}


def types(home):
    """label -> (type, valid raw values)"""
    return {
        "u8": (T.Int("uint8"), [0, 7, 255]),
        "i64": (T.Int("int64"), ["1", "-5", "9223372036854775807"]),
        "dec": (T.Dec(2), ["1.0", "1.5", "-0.01"]),
        "str": (T.Str(), ["", "x", "true", "1", "a/b", "a]b"]),
        "bool": (T.Bool(), [True, False]),
        "enum": (T.Enum([("a", None), ("1", None), ("b c", None),
                         ("q'", None)]), ["a", "1", "b c", "q'"]),
        "bits": (T.Bits([("b", 1), ("a", 0)]), ["", "a", "a b"]),
        "bin": (T.Binary(), ["", "AQ==", "//8="]),
        "id": (idref(home), ["a:i1", "b:i1", "b:i3"]),
        "lref": (T.Leafref(T.Int("int64"), "/a:tgt"), ["1", "7"]),
        "un": (T.Union([T.Bool(), T.Int("uint8"), T.Dec(2), idref(home),
                        T.Str(PAT)]), [True, 5, "5.5", "a:i1", "ab"]),
        "un2": (T.Union([T.Dec(1), T.Int("int64"), T.Str()]),
                ["1.0", "10000000000000000000000", "1e5", "x"]),
        "un3": (T.Union([T.Str(PAT), T.Bool()]), ["a", True]),
        "iid": (E.Iid(IIDS), ["/a:tgt", '/a:h/w[.="x"]',
                              "/a:h/w[.='\"']"]),
    }


HEAD = {"a": E.HEAD["a"] +
        "  rpc op { input { leaf x { type string; } } }\n"
        "  notification nt { leaf n { type string; } }\n"
        "  augment /h { action act { input { leaf y { type string; } } } }\n",
        "b": E.HEAD["b"]}


def schema(t, raws, home):
    """All kinds of nodes with keys and values of the type."""
    def mk(kind, name, **kw):
        return E.typed(kind, name, t, raws, mod=home, **kw)
    st = T.Str()
    ks = [mk("leaf", "v"), mk("leaf-list", "w"),
          R.S("list", "l", [
              mk("leaf", "k"), mk("leaf", "v"), mk("leaf-list", "w"),
              E.typed("leaf", "x", st, ["1"],
                                        mod="c" if home == "b" else "b")],
              mod=home, keys=["k"]),
          R.S("list", "p", [mk("leaf", "k"), E.typed(
              "leaf", "j", st, ["x"], mod=home), mk("leaf", "v")],
              mod=home, keys=["j", "k"]),
          container("s", mk("leaf-list", "w"), R.S(
              "list", "m", [mk("leaf", "v"), mk("leaf-list", "w")],
              mod=home), mod=home, config=False)]
    h = container("h", *(ks if home == "a" else [
        container("g", *ks, mod="b")]))
    return R.root(E.typed("leaf", "tgt", T.Int("int64"), ["1"]),
                  E.typed("leaf-list", "tw", t, raws),
                  R.S("list", "tl", [E.typed("leaf", "k", t, raws)],
                      keys=["k"]),
                  R.S("anydata", "ad"), h)


def unxml(rt):
    for n in rt.walk():
        if isinstance(getattr(n, "t", None), E.Iid):
            n.type = E.inline_iid()
    return rt


def document(home, raws):
    """Document with all values in all roles."""
    z = raws[0]
    g = {"v": z, "w": list(raws),
         "l": [{"k": v, "v": z, "w": [z, v] if v != z else [v],
                ("b:x" if home == "a" else "c:x"): "1"} for v in raws],
         "p": [{"j": j, "k": v, "v": v} for v in raws
               for j in ("", "x,y")],
         "s": {"w": [z, raws[-1], z],
               "m": [{"v": v, "w": [v, v]} for v in raws] + [{}]}}
    return {"a:tgt": "1", "a:tw": list(reversed(raws)),
            "a:tl": [{"k": v} for v in raws],
            "a:ad": {"z:q": {"x": [1, {"y": "2"}]}, "p": [5]},
            "a:h": g if home == "a" else {"b:g": g}}


# ----------------------------------------------------------- reference paths

IDENT = r"[A-Za-z_][A-Za-z0-9_.-]*"
NAME = re.compile(rf"(?:({IDENT}):)?({IDENT})")
WS = r"[ \t\r\n]*"
PRED = re.compile(
    rf"\[{WS}(?:(?P<pos>[0-9]+)|(?:(?P<dot>\.)|(?:(?P<pre>{IDENT}):)?"
    rf"(?P<loc>{IDENT})){WS}={WS}(?:\"(?P<dq>[^\"]*)\"|'(?P<sq>[^']*)'))"
    rf"{WS}\]")


class Invalid(Exception):
    pass


class Undecided(Exception):
    pass


def loose(t, text):
    """Texts whose acceptance is not decided (C06 covers types)."""
    if isinstance(t, T.Union):
        return any(loose(m, text) for m in t.members)
    if isinstance(t, T.Leafref):
        return loose(t.t, text)
    if isinstance(t, T.Bits):
        return text != " ".join(text.split(" ")).strip(" ")
    if isinstance(t, T.Binary):
        try:
            return base64.b64encode(
                base64.b64decode(text)).decode() != text
        except ValueError:
            return False
    return t.lex(text) is T.DONTCARE if isinstance(t, T.Dec) else False


class Ref:
    """Denotation of a path: path of the node or None, lenient flag."""

    def __init__(self, rt, doc):
        self.rt, self.doc = rt, doc
        self.lenient = False
        self.sn, self.val, self.path = rt, doc, ()
        self.missing = False
        self.mod = None
        self.arr = False            # at an array

    def member(self, pre, loc):
        if self.arr or not self.sn.internal:
            raise Invalid
        if pre is None and self.sn.kind == "root":
            raise Invalid
        mod = pre if pre is not None else self.sn.mod
        ch = [k for k in self.sn.dkids() if (k.mod, k.name) == (mod, loc)]
        if not ch:
            raise Invalid
        self.sn = ch[0]
        if pre is not None and ":" not in self.sn.iname:
            self.lenient = True
        self.arr = self.sn.kind in ("list", "leaf-list")
        if not self.missing:
            if self.sn.iname in self.val:
                self.val = self.val[self.sn.iname]
                self.path += (self.sn.iname,)
            else:
                self.missing = True

    def entry(self, f):
        """Go to the first entry that matches."""
        self.arr = False
        if self.missing:
            return
        for i, v in enumerate(self.val):
            if f(i, v):
                self.val = v
                self.path += (i,)
                return
        self.missing = True

    def lex(self, sn, text):
        v = sn.t.lex(text) if not isinstance(sn.t, E.Iid) else \
            T.DONTCARE if text not in IIDS else ("iid", text)
        if v is T.DONTCARE or loose(sn.t, text):
            raise Undecided
        if v is None:
            raise Invalid
        return v

    def matches(self, preds):
        """preds: (leaf schema node, typed value)"""
        return lambda i, e: all(
            s.iname in e and s.t.json(e[s.iname]) == v for s, v in preds)


def iid(rt, doc, text):
    """Denotation of an instance identifier in JSON form (RFC 7951)."""
    r = Ref(rt, doc)
    if text == "/":
        return r
    pos = 0
    if not text:
        raise Invalid
    while pos < len(text):
        if text[pos] != "/":
            raise Invalid
        mo = NAME.match(text, pos + 1)
        if not mo:
            raise Invalid
        r.member(mo[1], mo[2])
        pos = mo.end()
        preds = []
        while pos < len(text) and text[pos] == "[":
            mo = PRED.match(text, pos)
            if not mo:
                raise Invalid
            preds.append(mo)
            pos = mo.end()
        if not preds:
            continue
        if not r.arr:
            raise Invalid
        m = preds[0]
        if m["pos"] or m["dot"]:
            if len(preds) > 1:
                raise Invalid
            if m["pos"]:
                n = int(m["pos"])
                if n == 0:
                    raise Invalid
                if m["pos"][0] == "0" or r.sn.config:
                    r.lenient = True
                r.entry(lambda i, v: i == n - 1)
                continue
            if r.sn.kind != "leaf-list":
                raise Invalid
            v = r.lex(r.sn, m["dq"] if m["sq"] is None else m["sq"])
            t = r.sn.t
            r.entry(lambda i, e: t.json(e) == v)
            continue
        ps = []
        for m in preds:
            if not m["loc"] or r.sn.kind != "list":
                raise Invalid
            mod = m["pre"] or r.sn.mod
            if m["pre"] == r.sn.mod:
                r.lenient = True
            ch = [k for k in r.sn.dkids()
                  if (k.mod, k.name) == (mod, m["loc"])]
            if not ch:
                raise Invalid
            if ch[0].kind != "leaf":
                raise Invalid
            ps.append((ch[0], r.lex(
                ch[0], m["dq"] if m["sq"] is None else m["sq"])))
        if {s.iname for s, _ in ps} != set(r.sn.keys or ()):
            r.lenient = True
        if len({s.iname for s, _ in ps}) < len(ps):
            r.lenient = True
        r.entry(r.matches(ps))
    return r


def rid(rt, doc, text):
    """Denotation of a resource identifier (RFC 8040)."""
    r = Ref(rt, doc)
    if text.startswith("/"):
        text = text[1:]
    if not text:
        return r
    if text.endswith("/"):
        r.lenient = True
        text = text[:-1]
    for seg in text.split("/"):
        name, eq, vals = seg.partition("=")
        mo = NAME.fullmatch(name)
        if not mo:
            raise Invalid
        r.member(mo[1], mo[2])
        if not eq:
            continue
        if not r.arr:
            raise Invalid
        parts = vals.split(",")
        if r.sn.kind == "leaf-list":
            if len(parts) > 1:
                r.lenient = True
            parts = [vals]
        elif len(parts) != len(r.sn.keys or ()):
            raise Invalid
        tx = []
        for p in parts:
            if re.search("%(?![0-9A-Fa-f]{2})", p) or re.search(
                    "[^A-Za-z0-9._~!$&'()*+;=:@%,-]", p):
                r.lenient = True
            try:
                tx.append(unquote_to_bytes(p).decode())
            except UnicodeDecodeError:
                raise Invalid
        if r.sn.kind == "leaf-list":
            v, t = r.lex(r.sn, tx[0]), r.sn.t
            r.entry(lambda i, e: t.json(e) == v)
        else:
            ps = []
            for k, x in zip(r.sn.keys, tx):
                s = [c for c in r.sn.dkids() if c.iname == k][0]
                ps.append((s, r.lex(s, x)))
            r.entry(r.matches(ps))
    return r


def denote(f, rt, doc, text):
    """(path | None | "invalid", lenient)"""
    try:
        r = f(rt, doc, text)
    except Invalid:
        return "invalid", False
    except Undecided:
        return "undecided", True
    return (None if r.missing else r.path), r.lenient


# ----------------------------------------------------- texts of a given node

def percent(s):
    return "".join(c if re.fullmatch("[A-Za-z0-9._~-]", c) else "".join(
        f"%{b:02X}" for b in c.encode()) for c in s)


def quoted(s, pref):
    q = pref if pref not in s else ("'" if pref == '"' else '"')
    return None if q in s else q + s + q


def steps(rt, doc, path):
    """(schema node, value before, index or None) of a path"""
    sn, val = rt, doc
    res = []
    i = 0
    while i < len(path):
        sn = [k for k in sn.dkids() if k.iname == path[i]][0]
        arr = val[path[i]]
        if i + 1 < len(path) and isinstance(path[i + 1], int):
            res.append((sn, arr, path[i + 1]))
            val = arr[path[i + 1]]
            i += 2
        else:
            res.append((sn, arr, None))
            val = arr
            i += 1
    return res


def canon(t, raw):
    return raw if isinstance(t, E.Iid) else t.canon(t.json(raw))


def iid_texts(rt, doc, path):
    """Instance identifiers of a node: quoting, spacing, key order."""
    if not path:
        return ["/"]
    res = []
    for pref, sp, rev in ((a, b, c) for a in "\"'" for b in ("", " ", "\n\t")
                          for c in (False, True)):
        out = ""
        for sn, arr, i in steps(rt, doc, path):
            out += "/" + sn.iname
            if i is None:
                continue
            if sn.kind == "leaf-list":
                q = quoted(canon(sn.t, arr[i]), pref)
                if q is None or arr.index(arr[i]) < i:
                    q = None
                else:
                    out += f"[{sp}.{sp}={sp}{q}{sp}]"
            elif sn.keys:
                ps = []
                for k in sn.keys:
                    s = [c for c in sn.dkids() if c.iname == k][0]
                    q = quoted(canon(s.t, arr[i][k]), pref)
                    if q is None:
                        break
                    ps.append(f"[{sp}{k}{sp}={sp}{q}{sp}]")
                out += "".join(reversed(ps) if rev else ps)
            else:
                q = None
            if i is not None and q is None:
                if sn.config:
                    out = None
                    break
                out += f"[{sp}{i + 1}{sp}]"
        if out is not None and out not in res:
            res.append(out)
    return res


def rid_texts(rt, doc, path):
    """Resource identifiers of a node."""
    out = ""
    for sn, arr, i in steps(rt, doc, path):
        out += "/" + sn.iname
        if i is None:
            continue
        if sn.kind == "leaf-list":
            if arr.index(arr[i]) < i:
                return []
            out += "=" + percent(canon(sn.t, arr[i]))
        elif sn.keys:
            ks = [[c for c in sn.dkids() if c.iname == k][0]
                  for k in sn.keys]
            out += "=" + ",".join(percent(canon(s.t, arr[i][s.iname]))
                                  for s in ks)
        else:
            return []
    return [out, out[1:]] if out else ["", "/"]


def all_paths(sn, doc, path=()):
    """Paths of all nodes, arrays included."""
    yield path
    for k in sn.dkids():
        if k.iname not in doc or k.kind == "anydata":
            if k.iname in doc:
                yield path + (k.iname,)
            continue
        v, p = doc[k.iname], path + (k.iname,)
        if k.kind in ("list", "leaf-list"):
            yield p
            for i, e in enumerate(v):
                if k.kind == "list":
                    yield from all_paths(k, e, p + (i,))
                else:
                    yield p + (i,)
        elif k.internal:
            yield from all_paths(k, v, p)
        else:
            yield p


# ------------------------------------------------------------------ deciding

class Model:
    def __init__(self, dm, rt, doc):
        self.dm, self.rt, self.doc = dm, rt, doc
        self.root = dm.from_raw(json.loads(json.dumps(doc)))


def walk(node, path):
    for k in path:
        node = node[k]
    return node


def follow(start, route):
    """Outcome of goto and of peek: path, None (absent) or "invalid"."""
    try:
        n = start.goto(route)
        g = n.path
    except X.NonexistentInstance:
        n, g = None, None
    except X.YangsonException:
        n, g = None, "invalid"
    try:
        v = start.peek(route)
    except X.YangsonException as e:
        if g != "invalid":
            return g, f"goto leads to {g}, peek raises {e!r}"
        return g, None
    if n is None:
        if v is not None:
            return g, f"goto fails ({g}), peek gives {v!r}"
    elif type(v) is not type(n.value) or v != n.value:
        return g, f"goto gives {n.value!r}, peek gives {v!r}"
    elif len(g) < 40 and n.value != walk(start, g[len(start.path):]).value:
        return g, f"goto gives the value {n.value!r} at {g}"
    return g, None


def judge(m, form, text):
    """Compare a textual path with its denotation: (outcome, message)."""
    f = iid if form == "iid" else rid
    want, lenient = denote(f, m.rt, m.doc, text)
    parse = (m.dm.parse_instance_id if form == "iid" else
             m.dm.parse_resource_id)
    try:
        route = parse(text)
    except X.YangsonException:
        got, msg = "invalid", None
    except Exception as e:
        return "", f"parsing raised {e!r}"
    else:
        try:
            got, msg = follow(m.root, route)
        except Exception as e:
            return "", f"following raised {e!r}"
    if msg:
        return "", msg
    if want == "undecided":
        return want, None
    ok = got == want or want == "invalid" and got is None or lenient and (
        got in ("invalid", None))
    if not ok:
        return "", f"leads to {got}, denotes {want}"
    return ("node" if isinstance(got, tuple) else str(got)), None


def derived(m, path, others=()):
    """Check the paths derived for a node; message or None."""
    try:
        n = walk(m.root, path)
        return derived_of(m, n, path, m.root)
    except X.YangsonException as e:
        return f"raised {e!r}"
    except Exception as e:
        return f"raised {e!r}"


def derived_of(m, n, path, top):
    if n.path != path:
        return f"path of the node is {n.path}"
    ptr = "/" + "/".join(str(k) for k in path)
    if n.json_pointer() != ptr:
        return f"JSON pointer {n.json_pointer()}"
    route = n.instance_route()
    g, msg = follow(top, route)
    if msg or g != path:
        return f"derived route {route} leads to {g} ({msg})"
    text = str(route)
    again = m.dm.parse_instance_id(text)
    if again != route or hash(again) != hash(route):
        return f"derived route {text} is parsed as {again}"
    g, msg = follow(top, again)
    if msg or g != path:
        return f"written route {text} leads to {g} ({msg})"
    want, _ = denote(iid, m.rt, m.doc, text)
    if want != path:
        return f"written route {text} denotes {want}"
    msg = split_of(m, n, path, top, route)
    if msg:
        return msg
    # from every ancestor
    a = n
    while a is not None:
        if isinstance(a.path, tuple) and a.path == path[:len(a.path)]:
            r = route[len(a.instance_route()):]
            b = walk(top, a.path)
            g, msg = follow(b, r)
            if msg or g != path:
                return f"route {r} from {a.path} leads to {g} ({msg})"
        a = a.parinst
    return None


def data_nodes(sn):
    for c in sn.data_children():
        yield c
        if hasattr(c, "data_children"):
            yield from data_nodes(c)


def split_of(m, n, path, top, route):
    """Split a route that leads to the node at every data node."""
    on = []                     # data nodes on the route, with the paths
    sn = m.dm.schema
    for i, k in enumerate(path):
        if isinstance(k, str):
            sn = walk(top, path[:i + 1]).schema_node
            on.append((sn, path[:i + 1]))
        else:
            on[-1] = (sn, path[:i + 1])
    on = {id(s): p for s, p in on}
    if not hasattr(m, "data_nodes"):
        m.data_nodes = list(data_nodes(m.dm.schema))
    for sn in m.data_nodes:
        try:
            res = sn.split_instance_route(route)
        except Exception as e:
            return f"splitting {route} at {sn.data_path()} raised {e!r}"
        if id(sn) not in on:
            if res is not None:
                return f"{route} is split at {sn.data_path()}"
            continue
        if res is None:
            return f"{route} isn't split at {sn.data_path()}"
        pre, post = res
        if list(pre) + list(post) != list(route):
            return f"{route} is split to {pre} and {post}"
        p = on[id(sn)]
        g, msg = follow(top, pre)
        if msg or g != p:
            return f"{route} split at {sn.data_path()}: {pre} leads to {g}"
        g, msg = follow(walk(top, p), post)
        if msg or g != path:
            return f"{route} split at {sn.data_path()}: {post} leads to {g}"
    return None


def check_node(m, path, rec, case):
    rec.step()
    msg = derived(m, path)
    rec.agree("derived")
    if msg:
        rec.fail(dict(case, path=list(path)), f"{case} node {path}: {msg}")
    for form, f in (("iid", iid_texts), ("rid", rid_texts)):
        for text in f(m.rt, m.doc, path):
            rec.step()
            oc, msg = judge(m, form, text)
            rec.agree(f"{form} {oc}")
            want, _ = denote(iid if form == "iid" else rid, m.rt, m.doc,
                             text)
            if want != path:
                raise AssertionError((text, want, path))
            if msg is None:
                parse = (m.dm.parse_instance_id if form == "iid" else
                         m.dm.parse_resource_id)
                msg = split_of(m, None, path, m.root, parse(text))
            if msg:
                rec.fail(dict(case, form=form, text=text),
                         f"{case} {form} {text!r}: {msg}")


CHARS = {"iid": "/[]='\". 10axk:\\b", "rid": "/=,%:ax10k;2.b +"}


def edits_of(text, chars):
    seen = {text}
    for i in range(len(text) + 1):
        c = [text[:i] + x + text[i:] for x in chars]
        if i < len(text):
            c.append(text[:i] + text[i + 1:])
            c += [text[:i] + x + text[i + 1:] for x in chars]
        for t in c:
            if t not in seen:
                seen.add(t)
                yield t


def small(raws):
    return raws[:2]


STR = "'\"\\]/,%= aé\n+?&"


def strings(n):
    return ["".join(c) for k in range(n + 1)
            for c in itertools.product(STR, repeat=k)]


def bounds(tier):
    n = 2 if tier == "quick" else 3
    return (f"15 types as keys, leaf-list values and leaves in two modules; "
            f"keys and leaf-list values of all strings of length <= {n} over "
            f"{len(STR)} characters; all single-character mutations of all "
            f"canonical instance and resource identifiers of a document; "
            f"all step sequences of length <= 3 over a menu; all edit "
            f"sequences of length <= "
            f"{2 if tier == 'quick' else 3} with the "
            f"derived paths of all nodes after them; default instance "
            f"identifiers in five kinds of places")


def groups(tier):
    res = []
    for home in "ab":
        for lab in types(home):
            res.append(["nodes", home, lab])
            res.append(["mut", home, lab, "iid", tier])
            res.append(["mut", home, lab, "rid", tier])
    n = len(strings(2))
    res += [["str", 2, i, min(n, i + 40)] for i in range(0, n, 40)]
    if tier == "thorough":
        n = len(strings(3))
        res += [["str", 3, i, min(n, i + 90)] for i in range(0, n, 90)]
    res += [["steps", form, i] for form in ("iid", "rid")
            for i in range(len(menu(form)))]
    res += [["default", p] for p in ("leaf", "leaf-list", "typedef", "union",
                                     "foreign")]
    return res + [["hist", i, list(p), 2 if tier == "quick" else 3]
                  for i, d in enumerate(edits.DOCS)
                  for p in edits.start_paths(d)]


def setting(case):
    """Model and document of a case."""
    if case[0] == "str":
        t, raws = T.Str(), strings(case[1])[case[2]:case[3]]
        home = "a"
    elif case[0] == "steps":
        home = "a"
        t, raws = T.Str(), ["x", "1"]
    else:
        home = case[1]
        t, raws = types(home)[case[2]]
        if case[0] == "mut":
            raws = small(raws)
    rt = unxml(schema(t, raws, home))
    dm = build(R.texts(rt, head=HEAD))
    return Model(dm, rt, document(home, raws))


def menu(form):
    """Path steps."""
    names = ["a:h", "h", "b:h", "l", "a:l", "w", "k", "v", "b:x", "x", "s",
             "m", "p", "a:tgt", "a:ad", "z:q", "a:op", "act", "a:nt"]
    if form == "iid":
        sel = ["", "[1]", "[2]", "[9]", "[.='x']", "[.='z']", "[k='x']",
               "[k='z']", "[v='x']", "[j=''][k='x']", "[k='x'][j='']",
               "[k='x'][k='1']", "[b:x='1']", "[a:k='x']", "[zz='']",
               "[.='x'][1]", "[w='x']", "[1][k='x']"]
    else:
        sel = ["", "=x", "=1", "=z", "=", ",", "=,x", "=x%2Cy,1", "=x,x",
               "=x%2cy,x", "=%zz", "=%ff"]
    return ["/" + n + s for n in names for s in sel]


def run_group(group, rec):
    if group[0] == "hist":
        return run_hist(group, rec)
    if group[0] == "default":
        for text in DEFAULTS:
            rec.state()
            rec.step()
            msg = default_message(text, group[1])
            rec.agree("default")
            if msg:
                rec.fail({"default": text, "place": group[1]},
                         f"default {text} of {group[1]}: {msg}")
        return
    m = setting(group)
    case = {"case": group}
    rec.state()
    if group[0] in ("nodes", "str"):
        n = 0
        for p in all_paths(m.rt, m.doc):
            n += 1
            rec.state()
            check_node(m, p, rec, case)
        rec.sample({"case": group, "nodes": n})
        return
    if group[0] == "mut":
        form = group[3]
        f = iid_texts if form == "iid" else rid_texts
        base = []
        for p in all_paths(m.rt, m.doc):
            base += f(m.rt, m.doc, p)[:1]
        if group[4] == "quick":
            base = [b for b in base if "/v" not in b[-2:]]
        texts = {t for b in base for t in edits_of(b, CHARS[form])}
        it = sorted(texts)
    else:
        form = group[1]
        mn = menu(form)
        first = mn[group[2]]
        it = [first] + [first + b for b in mn]
        if first.startswith("/a:h") or group[2] % 12 == 0:
            k = [x for x in mn if x.split("[")[0].split("=")[0] in (
                "/l", "/w", "/k", "/v", "/b:x", "/s", "/m", "/z:q")]
            it += [first + b + c for b in mn for c in k]
    for t in it:
        rec.step()
        oc, msg = judge(m, form, t)
        rec.agree(f"{form} {oc}")
        if msg:
            rec.fail(dict(case, form=form, text=t),
                     f"{group} {form} {t!r}: {msg}")
    rec.sample({"case": group, "texts": len(it)})


# ------------------------------------------------------------------ defaults

# text with module prefixes pa (module a) and a (module b) -> JSON form
DEFAULTS = {
    "/pa:h/pa:w[.='x']": "/a:h/w[.='x']",
    "/pa:h/pa:w[1]": "/a:h/w[1]",
    "/pa:h/pa:w[ 3 ]": "/a:h/w[3]",
    "/pa:h/a:z": "/a:h/b:z",
    "/pa:tl[pa:k='1']": "/a:tl[k='1']",
    '/pa:tl[ pa:k = "1" ]/pa:v': "/a:tl[k='1']/v",
    "/pa:tl[pa:k='2']/a:y": "/a:tl[k='2']/b:y",
    "/pa:p[pa:k='1'][pa:j='2']": "/a:p[k='1'][j='2']",
    "/pa:p[pa:k='9'][pa:j='2']/pa:k": "/a:p[k='9'][j='2']/k",
    "/a:q": "/b:q", "/": "/",
    # errors
    "/pa:h/..": None, "pa:h": None, "x": None, "/zz:h": None, "": None,
    "/pa:h |/pa:tl": None, "3": None, "/pa:tl[pa:k=pa:v]": None,
    "//pa:h": None, "/pa:h/*": None, "/pa:h/pa:w[": None, "/b:q": None,
    "/pa:h/pa:w[position()=1]": None, "/pa:h/pa:w[.='x'] ": None,
    "/pa:h/pa:w[0]": None, "/pa:tl[pa:k='1'][pa:k='2']": None,
}
DEFDOC = {"a:h": {"w": ["y", "x"], "b:z": "1"},
          "a:tl": [{"k": "2", "b:y": "3"}, {"k": "1", "v": "5"}],
          "a:p": [{"k": "1", "j": "2"}, {"k": "9", "j": "2"}], "b:q": "2"}


def default_model(text, place):
    """Data model with a default instance identifier."""
    arg = '"' + text.replace('"', '\\"') + '"'
    ii = "type instance-identifier { require-instance false; }"
    st = "type string;"
    body = {
        "leaf": f"leaf i {{ {ii} default {arg}; }}",
        "leaf-list": f"leaf-list i {{ {ii} default {arg}; }}",
        "typedef": f"leaf i {{ type t; }} typedef t {{ {ii} "
                   f"default {arg}; }}",
        "union": f"leaf i {{ type union {{ type uint8; {ii} }} "
                 f"default {arg}; }}",
        "foreign": "",
    }[place]
    far = (f"typedef ft {{ {ii} default {arg}; }}"
           if place == "foreign" else "")
    return build({
        "a": "module a { yang-version 1.1; namespace urn:a; prefix pa; "
        "import b { prefix a; }"
        f"container h {{ leaf-list w {{ {st} }} }} "
        f"list tl {{ key k; leaf k {{ {st} }} leaf v {{ {st} }} }} "
        f"list p {{ key 'k j'; leaf k {{ {st} }} leaf j {{ {st} }} }} "
        f"{body} {far} }}",
        "b": f"module b {{ yang-version 1.1; namespace urn:b; prefix b; "
        f"leaf q {{ {st} }} }}",
        "c": "module c { yang-version 1.1; namespace urn:c; prefix a; "
        "import a { prefix c; } "
        + ("leaf i { type c:ft; } " if place == "foreign" else "") + "}"})


def default_message(text, place):
    """Check the value of a default instance identifier."""
    form = DEFAULTS[text]
    # nodes of module b below nodes of a come from an augment in module b,
    # which a imports; leave them out of the schema and of the lookup
    try:
        dm = default_model(text, place)
    except X.InvalidArgument:
        return None if form is None else "rejected"
    except Exception as e:
        return f"loading raised {e!r}"
    if form is None:
        if place == "union" and text == "3":
            return None
        return "accepted"
    doc = json.loads(json.dumps(DEFDOC))
    del doc["a:h"]["b:z"], doc["a:tl"][0]["b:y"]
    name = "c:i" if place == "foreign" else "a:i"
    inst = dm.from_raw(doc).add_defaults()
    n = inst[name]
    if place == "leaf-list":
        n = n[0]
    want = dm.parse_instance_id(form)
    if n.value != want or n.raw_value() != str(want):
        return f"value {n.value}, expected {want}"
    if "b:z" in form or "b:y" in form:
        return None
    try:
        if inst.goto(n.value).path != inst.goto(want).path:
            return "leads to another node"
    except X.NonexistentInstance:
        return None if "w[3]" in form else "the node is not found"
    return None


# ----------------------------------------------------------------- histories

def ambiguous(state):
    """The path runs through an entry with keys of an earlier entry."""
    tree, path = state
    for i, k in enumerate(path):
        t = edits.tmpl(path[:i])
        if isinstance(k, int) and t == ("a:c", "l"):
            ks = [e.get("k") for e in tree[:k + 1]]
            if ks[k] is not None and ks[k] in ks[:k]:
                return True
        tree = tree[k]
    return False


def after(node, state):
    """Check the derived path of an edited node; message or None."""
    path = state[1]
    if ambiguous(state):
        return None
    try:
        top = node.top()
        route = node.instance_route()
        text = str(route)
        again = edits.model().parse_instance_id(text)
        for r in (route, again):
            g, msg = follow(top, r)
            if msg or g != path:
                return f"route {r} leads to {g} ({msg})"
        if again != route:
            return f"route {text} is parsed as {again}"
        if top.peek(route) != node.value:
            return f"route {route} leads to another value"
    except Exception as e:
        return f"raised {e!r}"
    return None


def run_hist(group, rec):
    _, di, path, dep = group
    path = tuple(path)
    doc = edits.DOCS[di]
    frontier = [(edits.start(doc, path), (doc, path), [])]
    seen = set()
    for d in range(dep + 1):
        nxt = []
        for node, state, hist in frontier:
            rec.state()
            rec.step()
            msg = after(node, state)
            rec.agree("history")
            if msg:
                rec.fail({"hist": hist, "doc": di, "path": list(path)},
                         f"{doc} at {path} after {hist}: {msg}")
            if d == dep:
                continue
            for op in edits.menu(state, False):
                try:
                    exp = edits.apply(state, op)
                except edits.Err:
                    continue
                try:
                    new = edits.execute(node, state[1], op)
                except X.YangsonException:
                    continue
                fp = edits.fingerprint(new)
                if fp not in seen:
                    seen.add(fp)
                    nxt.append((new, exp, hist + [op]))
        frontier = nxt


def hist_message(case):
    doc = edits.DOCS[case["doc"]]
    path = tuple(case["path"])
    node, state = edits.start(doc, path), (doc, path)
    for op in case["hist"]:
        node, state = (edits.execute(node, state[1], op),
                       edits.apply(state, op))
    return after(node, state)


def replay(case):
    if "default" in case:
        return default_message(case["default"], case["place"])
    if "hist" in case:
        return hist_message(case)
    m = setting(case["case"])
    if "path" in case:
        return derived(m, tuple(case["path"]))
    return judge(m, case["form"], case["text"])[1]
