"""C07: canonical text forms, round trips and equality of scalar values."""
from mc.checks import c06
from mc.checks.c06 import family, has_empty, read, readxml, xml_ok
from mc.models import build
from mc.ref import types as T
from mc.ref import typesets as TS
import yangson.exceptions as X

PROPERTY = "C07"


def bounds(tier):
    return ("the type families of C06; every accepted JSON value, XML text "
            "and default text of each type: canonical text, JSON form, "
            "re-reading of both, equality against canonical text on all "
            "pairs, order of union members")


def groups(tier):
    res = []
    for f, fn in TS.FAMS.items():
        n = len(fn(tier))
        step = 15 if f == "pat" else 40
        for i in range(0, n, step):
            res.append([tier, f, i, min(n, i + step)])
    return res


def skind(x):
    """Type-strict image of a JSON value."""
    if isinstance(x, list):
        return [skind(y) for y in x]
    return (type(x).__name__, x)


def same(a, b):
    return type(a) is type(b) and a == b


def defaults(t, tier):
    res = []
    for txt in TS.texts(t, tier):
        if txt in ("0x1",) or t.dlex(txt) not in (None, T.DONTCARE):
            if t.dlex(txt) is not None and not set("\t\n\r") & set(txt):
                res.append(txt)
    if isinstance(t, T.Int):
        res += [x for x in ("0x7", "-0x3", "010", "+07")
                if t.dlex(x) is not None]
    if isinstance(t, T.Union):
        return [x for x in ("0x3", "010", "0x9") if t.dlex(x)
                not in (None, T.DONTCARE)] + res[:12]
    return res[:12]


def case(ch, t, v):
    return c06.case(ch, t, v)


def run_group(group, rec):
    tier, f, lo, hi = group
    types = family(tier, f)[lo:hi]
    dm = build(TS.model_texts(types, "leaf"))
    for i, t in enumerate(types):
        name = f"l{i}"
        union = isinstance(t, T.Union)
        ty = T.declare(t, "t")[1]
        seen = {}
        src = [("json", r, t.json(r)) for r in TS.raws(t, tier)]
        src += [("xml", s, t.xml(s)) for s in TS.texts(t, tier) if xml_ok(s)]
        for ch, x, v in src:
            if v is None or v is T.DONTCARE:
                continue
            rec.state()
            rec.step()
            got, inst = (read if ch == "json" else readxml)(dm, name, x)
            if got != "ok":
                continue          # acceptance is the business of C06
            node = inst[f"m:{name}"]
            canon = t.canon(v)
            s = str(node)
            rec.check(s == canon, lambda: case(ch, t, x),
                      lambda: f"{ch} {x!r} of {ty}: canonical text {s!r}, "
                              f"expected {canon!r}", (f, "canon"))
            raw = node.raw_value()
            stable = True
            if union:
                # forms that YANG itself makes ambiguous, such as "+5" of
                # union {string "5"; uint64}
                w = t.json(t.raw(v))
                stable = w is not None and w is not T.DONTCARE and \
                    T.ident(w) == T.ident(v)
            if not stable:
                ok = skind(raw) == skind(t.raw(v))
            elif union:
                w = t.json(raw)
                ok = w is not None and (w is T.DONTCARE or
                                        T.ident(w) == T.ident(v))
                if t.member(v).__class__ not in (T.Int, T.Leafref):
                    ok = ok and skind(raw) == skind(t.raw(v))
            else:
                ok = skind(raw) == skind(t.raw(v))
            rec.check(ok, lambda: case(ch + "-raw", t, x),
                      lambda: f"{ch} {x!r} of {ty}: JSON form {raw!r}, "
                              f"expected {t.raw(v)!r}", (f, "raw"))
            # re-reading what was written
            rec.step()
            g2, i2 = read(dm, name, raw)
            rec.check(not stable or g2 == "ok" and same(i2[f"m:{name}"].value, node.value),
                      lambda: case(ch + "-reread", t, x),
                      lambda: f"{ch} {x!r} of {ty}: written as {raw!r}, "
                              f"re-read gives {g2} {i2!r}", (f, "reread"))
            if xml_ok(s) and not isinstance(t, T.Idref) and (
                    not union or t.xml(s) is not T.DONTCARE):
                rec.step()
                g3, i3 = readxml(dm, name, s)
                if union:
                    want = t.lex(s)
                    ok = g3 == "ok" and (T.ident(want) != T.ident(v) or same(
                        i3[f"m:{name}"].value, node.value))
                else:
                    ok = g3 == "ok" and same(i3[f"m:{name}"].value, node.value)
                rec.check(ok, lambda: case(ch + "-parse", t, x),
                          lambda: f"{ch} {x!r} of {ty}: canonical text {s!r} "
                                  f"parses to {g3} {i3!r}", (f, "parse"))
            k = T.ident(v)
            if k not in seen:
                seen[k] = (node.value, s, x)
            else:
                pv = seen[k][0]
                rec.check(same(pv, node.value) and hash(pv) == hash(node.value),
                          lambda: case(ch + "-same", t, x),
                          lambda: f"{x!r} and {seen[k][2]!r} of {ty} denote "
                                  f"the same value but are cooked as "
                                  f"{node.value!r} and {pv!r}", (f, "same"))
        vals = list(seen.items())
        for a in range(len(vals)):
            for b in range(a):
                (_, (va, sa, xa)), (_, (vb, sb, xb)) = vals[a], vals[b]
                rec.check(not same(va, vb) and (union or sa != sb),
                          lambda: case("distinct", t, (xa, xb)),
                          lambda: f"{xa!r} and {xb!r} of {ty} are different "
                                  f"values but cooked as {va!r}, {vb!r}, "
                                  f"text {sa!r}, {sb!r}", (f, "distinct"))
    # defaults given in the schema
    dts = [defaults(t, tier) for t in types]
    dmd = build(TS.model_texts(types, dts))
    inst = dmd.from_raw({}).add_defaults()
    for i, t in enumerate(types):
        for j, d in enumerate(dts[i]):
            v = t.dlex(d)
            if v is T.DONTCARE:
                continue
            rec.state()
            rec.step()
            nm = f"m:l{i}-{j}"
            got = inst.raw_value().get(nm)
            want = t.raw(v)
            ok = skind(got) == skind(want)
            if isinstance(t, T.Union) and not ok:
                w = t.json(got)
                ok = w is not None and w is not T.DONTCARE and \
                    T.ident(w) == T.ident(v)
            rec.check(ok, lambda: case("default", t, d),
                      lambda: f"default {d!r} of {T.declare(t, 't')[1]}: "
                              f"{got!r}, expected {want!r}", (f, "default"))
    rec.sample({"family": f, "type": T.declare(types[0], "t")[1]})
