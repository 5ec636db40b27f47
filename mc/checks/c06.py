"""C06: acceptance of scalar values in JSON, XML and path text."""
import json
import urllib.parse

from mc.models import build
from mc.ref import types as T
from mc.ref import typesets as TS
import yangson.exceptions as X
from yangson.enumerations import ContentType, ValidationScope
from yangson.xmlparser import XMLParser

PROPERTY = "C06"
SIZE = 40
LEVEL = "model_checking"


def bounds(tier):
    return ("all types of the families int (ranges of up to 3 parts over 5 "
            "points, derivation chains of length up to 3), decimal64, string "
            "and binary lengths, patterns (all expressions of a bounded "
            "grammar), enumeration, bits, identityref, unions of up to 3 "
            "members, leafref; for each all candidate values (boundaries +-1, "
            "all JSON shapes, all strings up to length 3-4 over the family's "
            "alphabet) in JSON, XML and key text")


def groups(tier):
    res = []
    for f, fn in TS.FAMS.items():
        n = len(fn(tier))
        step = 15 if f == "pat" else SIZE
        for i in range(0, n, step):
            res.append([tier, f, i, min(n, i + step)])
    return res


_cache = {}


def family(tier, f):
    if (tier, f) not in _cache:
        _cache[tier, f] = TS.FAMS[f](tier)
    return _cache[tier, f]


def read(dm, name, raw, ll=False):
    """('ok', cooked) | ('rej', exc): reading + type validation."""
    try:
        inst = dm.from_raw({f"m:{name}": [raw] if ll else raw})
        inst.validate(ValidationScope.syntax, ContentType.all)
        return "ok", inst
    except (X.RawDataError, X.ValidationError) as e:
        return "rej", e


XESC = {"&": "&amp;", "<": "&lt;", ">": "&gt;"}


def xmltext(t):
    return "".join(XESC.get(c, c) for c in t)


def xml_ok(t):
    return all(c >= " " or c in "\t\n" for c in t)


def readxml(dm, name, t):
    doc = (f'<d xmlns:m="urn:m" xmlns:n="urn:n" xmlns:k="urn:k"><{name} xmlns="urn:m">'
           f'{xmltext(t)}</{name}></d>')
    root = XMLParser(doc).root
    try:
        inst = dm.from_xml(root)
        inst.validate(ValidationScope.syntax, ContentType.all)
        return "ok", inst
    except (X.RawDataError, X.ValidationError,
            X.MissingModuleNamespace) as e:
        return "rej", e


def case(ch, t, v):
    body = T.declare(t, "t")
    return {"channel": ch, "type": body[0] + body[1], "value": repr(v)}


def run_group(group, rec):
    tier, f, lo, hi = group
    types = family(tier, f)[lo:hi]
    dm = build(TS.model_texts(types, "leaf"))
    dml = build(TS.model_texts(types, "list"))
    for i, t in enumerate(types):
        name = f"l{i}"
        valid = []
        for raw in TS.raws(t, tier):
            exp = t.json(raw)
            if exp is T.DONTCARE:
                continue
            rec.state()
            rec.step()
            got, info = read(dm, name, raw)
            want = "ok" if exp is not None else "rej"
            rec.check(got == want, lambda: case("json", t, raw),
                      lambda: f"JSON {raw!r} for {case('', t, 0)['type']}: "
                              f"expected {want}, got {got} {info!r}",
                      ("json", f, want))
            if got == want == "rej":
                errors(t, raw, info, rec)
                if isinstance(raw, (str, int)):
                    # the same rejection at another place of a document
                    g2, e2 = read(dml, f"e{i}", raw, True)
                    rec.check(g2 == "rej", lambda: case("ll", t, raw),
                              lambda: f"leaf-list entry {raw!r} of "
                                      f"{case('', t, 0)['type']} accepted")
            elif exp is not None and exp not in valid:
                valid.append(exp)
        for txt in TS.texts(t, tier):
            if not xml_ok(txt):
                continue
            exp = t.xml(txt)
            if exp is T.DONTCARE:
                continue
            rec.state()
            rec.step()
            got, info = readxml(dm, name, txt)
            want = "ok" if exp is not None else "rej"
            rec.check(got == want, lambda: case("xml", t, txt),
                      lambda: f"XML {txt!r} for {case('', t, 0)['type']}: "
                              f"expected {want}, got {got} {info!r}",
                      ("xml", f, want))
        paths(dml, i, t, valid, tier, rec)
    rec.sample({"family": f, "type": T.declare(types[0], "t")[1]})


def errors(t, raw, e, rec):
    if not isinstance(e, X.YangTypeError):
        return
    errs = t.failing(raw)
    if not errs:
        return
    ok = any(er is None or (
        (er[0] is None or e.tag == er[0]) and
        (er[1] is None or (e.message or "").startswith(er[1])))
        for er in errs)
    rec.check(ok, lambda: case("error", t, raw),
              lambda: f"{raw!r} for {case('', t, 0)['type']}: error tag/"
                      f"message {e.tag!r}/{e.message!r}, expected one of "
                      f"{errs}")


def paths(dm, i, t, valid, tier, rec):
    """Key text in resource identifiers selects the entry with that value."""
    if not valid or isinstance(t, T.Empty) or has_empty(t):
        return
    vs = []
    for v in valid:
        if T.ident(v) not in [T.ident(w) for w in vs]:
            vs.append(v)
    vs = vs[:6]
    doc = {f"m:l{i}": [{"k": t.raw(v)} for v in vs]}
    inst = dm.from_raw(doc)
    for txt in TS.texts(t, tier)[:60]:
        exp = t.lex(txt)
        if exp is T.DONTCARE:
            continue
        rec.step()
        want = next((j for j, v in enumerate(vs)
                     if T.ident(v) == T.ident(exp)), None) \
            if exp is not None else None
        try:
            route = dm.parse_resource_id(
                f"/m:l{i}=" + urllib.parse.quote(txt, safe=""))
            found = inst.goto(route).index
        except (X.InvalidKeyValue, X.NonexistentInstance, X.UnexpectedInput,
                X.EndOfInput):
            found = None
        rec.check(found == want, lambda: case("path", t, txt),
                  lambda: f"key text {txt!r} of {case('', t, 0)['type']} in "
                          f"{doc}: expected entry {want}, got {found}",
                  ("path", want is not None))


def has_empty(t):
    return isinstance(t, T.Union) and any(
        isinstance(m, T.Empty) or has_empty(m) for m in t.members)


ASSUMPTIONS = [
    "rounding of excess decimal64 fraction digits is allowed (pinned by the "
    "project's tests)", "white space around non-string XML values is "
    "unspecified"]
