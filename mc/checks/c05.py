"""C05: JSON and XML encodings of the same data are interchangeable."""
import itertools
import json
import xml.etree.ElementTree as ET

from mc.models import build
from mc.ref import encode as E
from mc.ref import schema as R
from mc.ref import types as T
from mc.ref.schema import container
from mc.checks import c04
from yangson.enumerations import ContentType, ValidationScope
from yangson.exceptions import YangsonException
from yangson.xmlparser import XMLParser

PROPERTY = "C05"
canon = c04.canon

FULL = {"/a:tgt": "/a:tgt", "/a:h/v": "/a:h/a:v",
        '/a:h/w[.="x"]': '/a:h/a:w[.="x"]', "/a:h/w[2]": "/a:h/a:w[2]",
        '/a:h/l[k="x"]/v': '/a:h/a:l[a:k="x"]/a:v',
        "/a:h/b:z": "/a:h/b:z", "/a:h/b:z/y": "/a:h/b:z/b:y",
        '/a:h/b:z[k="1"][c:j="2"]/y': '/a:h/b:z[b:k="1"][c:j="2"]/b:y',
        "/b:z/a:z": "/b:z/a:z"}
TEXTS = ["", "x", "1", "-5", "300", "1.5", "true", "i1", "a:i1", "b:i1",
         "pa:i1", "pb:i1", "z:i1", "za:i2", "AQ==", "a", "a b", "ab", "zz",
         "a:base", "b:i3", "i3", "/a:tgt", "ü<&>\"'", "c:i1", ":"]
DOCUMENTED = YangsonException


def schema(case):
    if case[0] == "scalar":
        _, home, lab, td = case
        t, raws = c04.types(home)[lab]
        return c04.scalar_positions(t, raws, home, td), raws
    if case[0] == "struct":
        rt = c04.structure(*case[1:3])
        for n in rt.walk():
            n.kids = [k for k in n.kids if k.kind != "anydata"]
        return rt.link(), None
    if case[0] == "iid":
        t = E.Iid({f: f for f in FULL}, FULL)
        rt = R.root(E.typed("leaf", "tgt", T.Str(), []), container(
            "h", E.typed("leaf", "v", t, []), E.typed(
                "leaf-list", "w", t, []), R.S("list", "l", [E.typed(
                    "leaf", "k", t, [])], keys=["k"])),
            container("o", E.typed("leaf", "v", t, [], mod="b"), mod="b"),
            R.leaf("zc", mod="c"))
        for n in rt.walk():
            if isinstance(getattr(n, "t", None), E.Iid):
                n.type = E.inline_iid()
        return rt, list(FULL)
    u8 = T.Int("uint8")
    rid = c04.idref("a")
    inner = [E.typed("leaf", "v", u8, [1]),
             E.typed("leaf", "v", u8, [1], mod="b"),
             E.typed("leaf-list", "w", u8, [1]),
             E.typed("leaf", "i", rid, ["a:i1"])]
    if case[0] == "rpc":
        return R.root(container("input", *inner)), None
    if case[0] == "output":
        return R.root(container("output", *inner)), None
    return R.root(*inner), None


def docs(case, rt, raws):
    if case[0] == "scalar":
        return c04.scalar_docs(rt, case[1], raws)
    if case[0] == "struct":
        return c04.docs_of(rt)
    if case[0] == "iid":
        return ({"a:h": {"v": v} if p == 0 else {"w": [v, u]} if p == 1 else
                 {"l": [{"k": v}, {"k": u}]}, "b:o": {"v": v}}
                for v, u in itertools.permutations(raws, 2)
                for p in range(3))
    return c04.docs_of(rt)


IDHEAD = E.HEAD
RPC = """  grouping gg {
    leaf v { type uint8; } leaf-list w { type uint8; }
    leaf i { type idt; }
  }
  rpc r { input { uses gg; } output { uses gg; } }
  notification n { uses gg; }
"""
RPCB = "".join(f"  augment {p} {{ leaf v {{ type uint8; }} }}\n"
               for p in ("/a:r/a:input", "/a:r/a:output", "/a:n"))


class Sub:
    """Data model with a fixed subschema."""

    def __init__(self, dm, sub):
        self.dm, self.sub = dm, sub

    def from_raw(self, raw):
        return self.dm.from_raw(raw, self.sub)

    def from_xml(self, x):
        return self.dm.from_xml(x, self.sub)


def model(case, rt):
    if case[0] in ("rpc", "output", "notification"):
        tx = R.texts(R.root(container("p", R.leaf("q", mod="b"))),
                     head={"a": E.HEAD["a"] + RPC, "b": E.HEAD["b"] + RPCB})
        return Sub(build(tx), "a:n" if case[0] == "notification" else "a:r")
    return build(R.texts(rt, head=E.HEAD))


def wrap(case, elems):
    """Document element given to from_xml for the top-level elements."""
    if case[0] in ("rpc", "output"):
        return elems[0] if elems else None
    if case[0] == "notification":
        return E.X("urn:a", "n", elems)
    return E.X("urn:data", "data", elems)


def top(case, x):
    """Inverse of wrap."""
    return [x] if case[0] in ("rpc", "output") else x.kids or []


def read(dm, text):
    inst = dm.from_xml(XMLParser(text).root)
    inst.validate(ValidationScope.syntax, ContentType.all)
    return inst.raw_value()


def same_types(rt, doc):
    """Values whose XML text denotes the same value (unions may differ)."""
    for sn, v, p in E.places(rt, doc):
        if not hasattr(sn, "t") or isinstance(v, list) and \
                sn.kind == "leaf-list":
            continue
        w = sn.t.json(v)
        if isinstance(sn.t, E.Iid):
            continue
        if sn.t.xml(sn.t.canon(w)) != w:
            return False
    return True


def equivalent(case, dm, rt, doc, style):
    """(outcome, message): both directions for one document."""
    r = E.Reader(rt, doc)
    if r.errors or r.dup or r.lenient or not same_types(rt, r.doc):
        return "skipped", None
    exp = {k: v for k, v in r.doc.items() if v != []}
    exp = noempty(exp)
    x = wrap(case, E.tree(rt, exp))
    if style == "out":
        return written(case, dm, rt, doc, exp)
    if x is None:
        return "skipped", None
    text = E.Render(style).root(x)
    try:
        got = read(dm, text)
    except Exception as e:
        return "", f"{text} rejected with {e!r}"
    if canon(got) != canon(exp):
        return "", f"{text} is read as {got}, expected {exp}"
    return "equal", None


def noempty(doc):
    """Without empty arrays (they do not exist in XML)."""
    if isinstance(doc, dict):
        return {k: noempty(v) for k, v in doc.items() if v != []}
    if isinstance(doc, list):
        return [noempty(x) for x in doc]
    return doc


def written(case, dm, rt, doc, exp):
    try:
        el = dm.from_raw(doc).to_xml()
        if el is None:
            return ("equal", None) if exp == {} else ("", "no XML")
        text = ET.tostring(el, encoding="unicode")
    except Exception as e:
        return "", f"writing raised {e!r}"
    x = E.parse_xml(text)
    if case[0] == "notification" and (x.uri, x.name) != ("urn:a", "n"):
        return "", f"wrong top element: {text}"
    r = E.XReader(rt, top(case, x), case[0] == "notification" and "a")
    if r.errors or r.lenient or r.dup:
        return "", f"written as {text}: errors {r.errors or r.lenient}"
    if canon(r.doc) != canon(exp):
        return "", f"written as {text}, which means {r.doc}"
    try:
        got = read(dm, text)
    except Exception as e:
        return "", f"own output {text} rejected with {e!r}"
    if canon(got) != canon(exp):
        return "", f"own output {text} read as {got}"
    return "equal", None


def mutants(rt, x, mode):
    """Single-point mutations of an element tree."""
    names = ["v", "w", "xn", "yn", "k", "nope", "i", "input"]
    uris = ["urn:a", "urn:b", "urn:c", "urn:zz", None]
    for path, e in list(x.walk()):
        if mode == "struct":
            if path:
                for uri, name in itertools.product(uris, [e.name, "nope"]):
                    if (uri, name) != (e.uri, e.name):
                        y = x.copy()
                        z = y.at(path)
                        z.uri, z.name = uri, name
                        yield y
                # swapped with the next sibling
                i = path[-1]
                y = x.copy()
                z = y.at(path[:-1])
                if i + 1 < len(z.kids):
                    z.kids[i], z.kids[i + 1] = z.kids[i + 1], z.kids[i]
                    yield y
                # removed
                y = x.copy()
                del y.at(path[:-1]).kids[i]
                yield y
            for uri, name in itertools.product(uris, names):
                for shape in range(3):
                    y = x.copy()
                    z = y.at(path)
                    new = E.X(uri, name)
                    if shape == 1:
                        new.text = "1"
                    elif shape == 2:
                        new.kids = [E.X(uri, "k", text="1")]
                    if z.kids is None:
                        if shape:
                            continue
                        z.kids = []
                    z.kids.append(new)
                    yield y
        elif e.val is not None or e.kids is None:
            for t in TEXTS:
                y = x.copy()
                z = y.at(path)
                z.val, z.text = None, t
                yield y
            y = x.copy()
            z = y.at(path)
            z.kids = [E.X(e.uri, e.name, text="1")]
            yield y


def verdict(case, dm, rt, x, style):
    """Reading of a mutated tree."""
    text = E.Render(style).root(x)
    r = E.XReader(rt, top(case, x), case[0] == "notification" and "a")
    if r.dup:
        return "skipped", None
    try:
        got = read(dm, text)
    except DOCUMENTED as e:
        if r.errors or r.lenient:
            try:
                str(e)
            except Exception as f:
                return "", f"{text}: the message of the error raised {f!r}"
            return "rejected", None
        return "", f"{text} rejected with {e!r}"
    except Exception as e:
        return "", f"{text}: reading raised {e!r}"
    if r.errors:
        return "", f"{text} accepted as {got}, expected errors {r.errors}"
    if canon(got) != canon(r.doc):
        return "", f"{text} is read as {got}, expected {r.doc}"
    return "accepted", None


def space(case, tier):
    """(case, kind) pairs of one schema: documents and mutants."""
    rt, raws = schema(case)
    ds = [json.loads(json.dumps(d)) for d in docs(case, rt, raws)]
    for i, d in enumerate(ds):
        for style in E.STYLES + ["out"]:
            yield ("doc", d, style)
    good = [d for d in ds if not (lambda r: r.errors or r.dup or r.lenient)(
        E.Reader(rt, d))]
    if case[0] in ("struct", "rpc", "output", "notification"):
        sel = good if tier == "thorough" else \
            good[::max(1, len(good) // 10)] + good[-1:]
        modes = ["struct"] + (["text"] if case[0] != "struct" else [])
    else:
        sel = good[:1] + good[1::max(1, len(good) // 12)]
        modes = ["text"]
    for d in sel:
        x = wrap(case, E.tree(rt, noempty(E.Reader(rt, d).doc)))
        if x is None:
            continue
        for mode in modes:
            for i, y in enumerate(mutants(rt, x, mode)):
                for style in E.STYLES if tier == "thorough" or mode == \
                        "text" else [E.STYLES[i % 4]]:
                    yield ("mutant", (d, mode, i), style, y)


def decide(case, dm, rt, item):
    if item[0] == "doc":
        return equivalent(case, dm, rt, item[1], item[2])
    return verdict(case, dm, rt, item[3], item[2])


def bounds(tier):
    return ("the documents of C04 (without anydata) read from XML in four "
            "styles of namespace declarations and written as XML; all "
            "single-point mutations (renamed, moved to another namespace, "
            "swapped, removed, added elements; replaced texts) of "
            + ("all" if tier == "thorough" else "selected") + " documents; "
            "operations and notifications")


def groups(tier):
    n = len(c04.structures())
    return c04.scalar_groups() + [["struct", tier, i, i + 3] for i in range(
        0, n, 3)] + [["iid"], ["rpc"], ["output"], ["notification"]]


def run_group(group, rec):
    tier = group[1] if group[0] == "struct" else "quick"
    for cs in c04.expand(group):
        rt, raws = schema(cs)
        try:
            dm = model(cs, rt)
        except Exception as e:
            rec.fail({"case": cs}, f"schema {cs} rejected: {e!r}")
            continue
        rec.state()
        n = 0
        for item in space(cs, tier):
            n += 1
            rec.step()
            oc, msg = decide(cs, dm, rt, item)
            rec.agree(oc)
            if msg:
                rec.fail({"case": cs, "item": item[:3], "tier": tier},
                         f"{cs} {item[1]}: {msg}")
        rec.sample({"case": cs, "items": n})


def replay(case):
    cs = case["case"]
    rt, _ = schema(cs)
    dm = model(cs, rt)
    for item in space(cs, case.get("tier", "quick")):
        if json.dumps(item[:3]) == json.dumps(case["item"]):
            return decide(cs, dm, rt, item)[1]
    return "item not found"
