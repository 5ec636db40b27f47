"""C10: default values are added exactly where YANG says they are in use."""
import copy
import json

from mc.models import build
from mc.ref import schema as R
from mc.ref.schema import (case, choice, container, group, leaf, leaflist,
                           lst)
from yangson.enumerations import ContentType

PROPERTY = "C10"
CT = {0: None, 1: ContentType.config, 2: ContentType.nonconfig,
      3: ContentType.all}
W = "/a:t = 'x'"
OB, DP = "obsolete", "deprecated"
WD = "/a:dt = 7"        # true by default


def bodies(n):
    """Case and container bodies with defaults."""
    return {
        "d": lambda c: [leaf(f"{c}d{n}", default=3)],
        "od": lambda c: [leaf(f"{c}o{n}"), leaf(f"{c}d{n}", default=0)],
        "dd": lambda c: [leaf(f"{c}d{n}", default=3),
                         leaf(f"{c}e{n}", type="s", default="")],
        "np": lambda c: [container(f"{c}n{n}", leaf("d", default=1),
                                   leaf("o")), leaf(f"{c}o{n}")],
        "p": lambda c: [container(f"{c}p{n}", leaf("d", default=1),
                                  presence=True)],
        "ch": lambda c: [choice(f"{c}c{n}", case("x", leaf(f"{c}x{n}",
                                                           default=1)),
                                case("y", leaf(f"{c}y{n}", default=2)),
                                default="x"), leaf(f"{c}o{n}")],
        "chn": lambda c: [choice(f"{c}c{n}", case("x", leaf(f"{c}x{n}",
                                                            default=1)),
                                 case("y", leaf(f"{c}y{n}"),
                                      leaf(f"{c}z{n}", default=2)))],
        "w": lambda c: [leaf(f"{c}d{n}", default=3, when=W),
                        leaf(f"{c}o{n}")],
        "g": lambda c: [group(f"{c}{n}", leaf(f"{c}d{n}", default=3),
                              leaf(f"{c}o{n}"), when=W)],
        "o": lambda c: [leaf(f"{c}o{n}")],
        "npnp": lambda c: [container(f"{c}n{n}", container("z", leaf(
            "d", default=1)))],
    }


def choices(n):
    res = {}
    sh = bodies(n)

    def mk(cs, dflt, kw, cw=(), short=False, gr=None):
        def f():
            ks = []
            for i, c in enumerate(cs):
                body = sh[c]("uvw"[i])
                if short and len(body) == 1 and body[0].data:
                    k = case(body[0].name, *body, short=True)
                else:
                    k = case(f"k{i}", *body)
                if i in cw:
                    k.when = W
                ks.append(k)
            kk = dict(kw)
            if dflt is not None:
                kk["default"] = ks[dflt].name
            if gr:
                mod, when = gr
                ks = [ks[0], group(f"gr{n}", *ks[1:], via="augment",
                                   when=when, mod=mod)]
                for k in ks[1].walk():
                    k.mod = mod
            return [choice(f"ch{n}", *ks, **kk)]
        return f
    sets = [("d", "od"), ("od", "dd"), ("np", "d"), ("p", "d"), ("ch", "d"),
            ("chn", "od"), ("w", "d"), ("g", "d"), ("d",), ("npnp", "o"),
            ("od", "dd", "np"), ("ch", "chn"), ("o", "od")]
    for cs in sets:
        lab = "+".join(cs)
        res[f"ch({lab})"] = mk(cs, None, {})
        for i in range(len(cs)):
            res[f"ch({lab})={i}"] = mk(cs, i, {})
    for cs in (("d", "od"), ("np", "d"), ("ch", "od")):
        lab = "+".join(cs)
        for i in range(len(cs)):
            res[f"ch({lab})w={i}"] = mk(cs, i, {"when": W})
            res[f"ch({lab})c{i}w={i}"] = mk(cs, i, {}, (i,))
            res[f"ch({lab})c01w={i}"] = mk(cs, i, {}, (0, 1))
            res[f"ch({lab})ro={i}"] = mk(cs, i, {"config": False})
            res[f"ch({lab})short={i}"] = mk(cs, i, {}, short=True)
    for cs in (("d", "od", "np"), ("od", "dd", "d")):
        lab = "+".join(cs)
        for mod in "ab":
            for when in (None, W):
                # the default case has to be known in the choice's module
                for i in ((0, 1) if mod == "a" else (0, None)):
                    res[f"ch({lab})aug{mod}{'w' if when else ''}={i}"] = mk(
                        cs, i, {}, gr=(mod, when))
    return res


def simple(n):
    L, N = f"l{n}", f"n{n}"

    def np(*k, **kw):
        return container(N, *k, **kw)
    return {
        "o": lambda: [leaf(L)],
        "d": lambda: [leaf(L, default=3)],
        "d0": lambda: [leaf(L, default=0)],
        "ds": lambda: [leaf(L, type="s", default="")],
        "db": lambda: [leaf(L, type="b", default=False)],
        "td": lambda: [leaf(L, type="td")],
        "td5": lambda: [leaf(L, type="td", default=5)],
        "tdm": lambda: [leaf(L, type="td", m=True)],
        "ro": lambda: [leaf(L, config=False, default=3)],
        "dw": lambda: [leaf(L, when=W, default=3)],
        "dwd": lambda: [leaf(L, when=WD, default=3)],
        "bd": lambda: [leaf(L, mod="b", default=3)],
        "bdw": lambda: [leaf(L, mod="b", default=3, when="/a:t = 'x'")],
        "ll": lambda: [leaflist(L, default=[1, 2])],
        "ll0": lambda: [leaflist(L, default=[0])],
        "lltd": lambda: [leaflist(L, type="td")],
        "lltd1": lambda: [leaflist(L, type="td", min=1)],
        "llro": lambda: [leaflist(L, default=[1, 1], config=False)],
        "np(d)": lambda: [np(leaf("d", default=1), leaf("o"))],
        "np(o)": lambda: [np(leaf("o"))],
        "np(d)w": lambda: [np(leaf("d", default=1), when=W)],
        "np(np(dw))": lambda: [np(container("z", leaf("d", default=1,
                                                      when=W)))],
        "np(ro)": lambda: [np(leaf("r", default=1, config=False),
                              leaf("d", default=1))],
        "npro(d)": lambda: [np(leaf("d", default=1), config=False)],
        "np(bd)": lambda: [np(leaf("o"), leaf("d", mod="b", default=1))],
        "p(d)": lambda: [np(leaf("d", default=1), presence=True)],
        "p(np(d))": lambda: [np(container("z", leaf("d", default=1)),
                                presence=True)],
        "np(p(d))": lambda: [np(container("z", leaf("d", default=1),
                                          presence=True))],
        "li": lambda: [lst(L, leaf("k", type="td"), leaf("d", default=1),
                           keys=["k"])],
        "li(np)": lambda: [lst(L, leaf("k"), container(
            "z", leaf("d", default=1)), leaf("e", when="../k = 2",
                                             default=4), keys=["k"])],
        "liro": lambda: [lst(L, leaf("d", default=1), config=False,
                             vals=[[{}], [{"d": 5}, {}]])],
        "ad": lambda: [R.S("anydata", L), leaf(f"d{n}", default=1)],
        "g(d)": lambda: [group(f"{n}", leaf(L, default=1))],
        "g(d)w": lambda: [group(f"{n}", leaf(L, default=1), when=W)],
        "g(np)w": lambda: [group(f"{n}", np(leaf("d", default=1)),
                                 leaf(f"o{n}"), when=W)],
        "g(dw)wd": lambda: [group(f"{n}", leaf(L, default=1, when=W),
                                  when=WD)],
        "g(g(d)w)wd": lambda: [group(f"{n}", group(
            f"{n}i", leaf(L, default=1), when=W), leaf(f"d{n}", default=2),
            when=WD)],
        "g(ch)w": lambda: [group(f"{n}", choice(
            "c", case("x", leaf(L, default=1)), case("y", leaf(f"y{n}")),
            default="x"), when=W)],
        "augb(d)w": lambda: [group(f"{n}", leaf(L, mod="b", default=1),
                                   via="augment", mod="b",
                                   when="/a:t='x'")],
        "chain": lambda: [leaf(L, default=1),
                          leaf(f"x{n}", default=2, when=f"../{L} = 1"),
                          leaf(f"y{n}", default=3, when=f"../x{n} = 2")],
        "chain2": lambda: [container(N, leaf("e", default=1), leaf("o")),
                           leaf(f"x{n}", default=2,
                                when=f"../{N}/e = 1 and not(../{N}/o)")],
        "obs(d)": lambda: [leaf(L, default=3, status=OB),
                           leaf(f"d{n}", default=1)],
        "obs(ll)": lambda: [leaflist(L, default=[1], status=OB)],
        "obs(np)": lambda: [container(N, leaf("d", default=1), status=OB)],
        "np(obs)": lambda: [np(leaf("d", default=1, status=OB), leaf("o"))],
        "g(obs)": lambda: [group(f"{n}", leaf(L, default=1, status=OB),
                                 leaf(f"d{n}", default=1), when=W)],
        "ch(obs)": lambda: [choice(f"c{n}", case("x", leaf("x", default=1),
                                                 status=OB),
                                   case("y", leaf("y", default=1)))],
        "ch(obs)=y": lambda: [choice(f"c{n}", case(
            "x", leaf("x", default=1), status=OB),
            case("y", leaf("y", default=1)), default="y")],
        "obs(ch)": lambda: [choice(f"c{n}", case("x", leaf("x", default=1)),
                                   case("y", leaf("y")), default="x",
                                   status=OB)],
        "ch(d,obs)": lambda: [choice(f"c{n}", case(
            "x", leaf("x", default=1, status=OB), leaf("y", default=1)),
            case("z", leaf("z")), default="x")],
        "ch(np(obs))": lambda: [choice(f"c{n}", case(
            "x", np(leaf("x", default=1, status=OB)), leaf("y")),
            case("z", leaf("z")), default="x")],
        "dep(d)": lambda: [leaf(L, default=3, status=DP)],
        "dep(np)": lambda: [container(N, leaf("d", default=1), status=DP)],
        "dep(ch)": lambda: [choice(f"c{n}", case("x", leaf("x", default=1)),
                                   case("y", leaf("y")), default="x",
                                   status=DP)],
    }


def items(n):
    r = simple(n)
    r.update(choices(n))
    return r


HOLDERS = {
    "top": lambda ks: ks,
    "np": lambda ks: [container("h", *ks)],
    "p": lambda ks: [container("h", *ks, presence=True)],
    "li": lambda ks: [lst("h", leaf("k"), *ks, keys=["k"])],
    "ro": lambda ks: [container("h", *ks, config=False)],
}


def schema(holder, i1, i2):
    ks = []
    for n, i in ((1, i1), (2, i2)):
        if i:
            ks += items(n)[i]()
    ctl = [leaf("t", type="s", vals=["x"]), leaf("dt", type="td", vals=[1])]
    if holder == "ro":
        for k in ks:
            for s in k.walk():
                s._config = None
    return R.root(*(ctl + HOLDERS[holder](ks)))


def legal(holder, i1, i2):
    def aug(i):
        return i and i[:2] != "ch" and ("aug" in i or i in ("bd", "bdw"))
    return not (holder == "top" and (aug(i1) or aug(i2)))


def specs(tier):
    Sn, C = list(simple(1)), list(choices(1))
    res = [(h, i, None) for h in HOLDERS for i in Sn + C
           if legal(h, i, None)]
    small = ["d", "dw", "np(d)", "g(d)w", "chain"]
    csmall = ["ch(d+od)=0", "ch(np+d)=1", "ch(ch+d)=0"]
    if tier == "quick":
        pairs = [(a, b) for a in C for b in ("d", "np(d)")] + [
            (a, b) for a in Sn for b in ("dw", "np(d)", "ch(d+od)=0")]
        hs = ("np",)
    else:
        pairs = [(a, b) for a in Sn + C for b in small + csmall] + [
            (a, b) for a in Sn for b in Sn]
        hs = HOLDERS
    res += [(h, a, b) for h in hs for a, b in pairs if legal(h, a, b)]
    return res


def bounds(tier):
    return ("all schemas with one or two default-bearing items of the "
            "grammar in every holder; for each all structurally valid "
            "documents (lists up to two entries); defaults added for every "
            "content type, at the root and at every inner node, twice, and "
            "observed by XPath at every node")


STEP = 6


def groups(tier):
    n = len(specs(tier))
    return [[tier, i, min(i + STEP, n)] for i in range(0, n, STEP)]


def one(dm, rt, doc, rec, fail):
    d = R.Doc(rt, doc)
    if d.syntax(3):
        return
    base = dm.from_raw(copy.deepcopy(doc))
    for ct in (0, 1, 2, 3):
        rec.step()
        exp = d.with_defaults(ct or 3)
        res = base.add_defaults(CT[ct])
        got = res.raw_value()
        ok = R.canon(got) == R.canon(exp)
        rec.agree("added" if R.canon(exp) != R.canon(doc) else "none")
        if not ok:
            fail(ct, f"defaults for ctype {ct}: {got}, expected {exp}")
        again = res.add_defaults(CT[ct]).raw_value()
        if ok and R.canon(again) != R.canon(got):
            fail(ct, f"second application gives {again}, not {got}")
        if base.raw_value() != doc:
            fail(ct, f"document changed to {base.raw_value()}")
    # at inner nodes
    tree = d.full()

    def inner(x):
        if x.sn.internal and x.explicit and x.path:
            rec.step()
            n = base
            for k in x.path:
                n = n[k]
            got = n.add_defaults(ContentType.all).raw_value()
            exp = d.with_defaults(3, x.path)
            rec.agree("inner")
            if R.canon(got) != R.canon(exp):
                fail(list(x.path), f"defaults at {x.path}: {got}, "
                     f"expected {exp}")
            up = n.add_defaults(ContentType.all).top().raw_value()
            if x.path and R.canon(strip(up, x.path)) != R.canon(
                    strip(doc, x.path)):
                fail(list(x.path), f"defaults at {x.path} changed the rest "
                     f"of the document: {up}")
        for c in x.kids:
            inner(c)
    inner(tree)


def strip(doc, path):
    d = json.loads(json.dumps(doc))
    n = d
    for k in path[:-1]:
        n = n[k]
    n[path[-1]] = None
    return d


def xpath_group(dm, rt, doc, exprs, rec, fail):
    """Values of XPath expressions, with and without added defaults."""
    from yangson.schemadata import SchemaContext
    from yangson.xpathparser import XPathParser
    d = R.Doc(rt, doc)
    if d.syntax(3):
        return
    mod = "b" if any(n.mod == "b" for n in rt.walk()) else "a"
    base = dm.from_raw(copy.deepcopy(doc))
    full = base.add_defaults()
    for text in exprs:
        rec.step()
        if text not in _parsed:
            sctx = SchemaContext(dm.schema_data, mod, (mod, ""))
            p = XPathParser(text, sctx)
            _parsed[text] = p.parse()
        ast = _parsed[text]
        try:
            v1 = ast.evaluate(base)
            v2 = ast.evaluate(full)
        except Exception as e:
            fail(text, f"{text}: {e!r}")
            continue
        exp = R.X.evaluate(R.expr(text, mod), d.full(), R.env(mod))
        rec.agree("xpath")
        if float(v1) != exp:
            fail(text, f"{text} = {v1} without added defaults, expected "
                 f"{exp}")
        elif float(v2) != exp:
            fail(text, f"{text} = {v2} with added defaults, expected {exp}")


_parsed = {}


def expressions(rt):
    """Counting expressions over all schema nodes and their wildcards."""
    res = []

    def rec(n, path):
        for k in n.dkids():
            p = f"{path}/{k.mod}:{k.name}"
            res.append(f"count({p})")
            if k.kind == "leaf":
                res.append(f"string-length({p})")
                res.append(f"number({p})" if k.type in ("u8", "td")
                           else f"count({p}[. = 'x'])")
            if k.internal:
                res.append(f"count({p}/*)")
                res.append(f"count({p}//*)")
                rec(k, p)
    rec(rt, "")
    res.append("count(/*)")
    return [e for e in res if not e.startswith("number(")]


def run_group(group, rec):
    tier, lo, hi = group
    for sp in specs(tier)[lo:hi]:
        rt = schema(*sp)
        _parsed.clear()
        try:
            dm = build(R.texts(rt))
        except Exception as e:
            rec.fail({"spec": sp}, f"schema {sp} rejected: {e!r}")
            continue
        rec.state()
        ex = expressions(rt)
        n = 0
        for doc in R.objects(rt):
            n += 1
            if tier == "quick" and n > 300:
                rec.cap("300 documents of one schema")
                break

            def fail(what, msg):
                rec.fail({"spec": sp, "doc": doc, "what": what},
                         f"{sp} {doc}: {msg}")
            try:
                one(dm, rt, doc, rec, fail)
                xpath_group(dm, rt, doc, ex, rec, fail)
            except Exception as e:
                fail("exception", f"{e!r}")
        rec.sample({"spec": sp, "documents": n})


def replay(case):
    rt = schema(*case["spec"])
    dm = build(R.texts(rt))
    msgs = []

    class Nil:
        def __getattr__(self, n):
            return lambda *a, **k: None
    _parsed.clear()
    one(dm, rt, case["doc"], Nil(), lambda w, m: msgs.append(m))
    xpath_group(dm, rt, case["doc"], expressions(rt), Nil(),
                lambda w, m: msgs.append(m))
    return msgs[0] if msgs else None
