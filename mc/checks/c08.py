"""C08: structural validation accepts exactly what the schema allows."""
import copy
import itertools

from mc.models import build
from mc.ref import schema as R
from mc.ref.schema import (case, choice, container, group, leaf, leaflist,
                           lst)
from yangson.enumerations import ContentType, ValidationScope
from yangson.exceptions import SchemaError, YangsonException

PROPERTY = "C08"
CT = {1: ContentType.config, 2: ContentType.nonconfig, 3: ContentType.all}
W = "/a:t = 'x'"
OB, DP = "obsolete", "deprecated"
WD = "/a:dt = 7"        # true by default


def case_shapes(n):
    """Case bodies; n makes names unique."""
    return {
        "o": lambda c: [leaf(f"{c}o{n}")],
        "mo": lambda c: [leaf(f"{c}m{n}", m=True), leaf(f"{c}o{n}")],
        "npm": lambda c: [container(f"{c}n{n}", leaf("m", m=True)),
                          leaf(f"{c}o{n}")],
        "npo": lambda c: [container(f"{c}n{n}", leaf("o"))],
        "p": lambda c: [container(f"{c}p{n}", leaf("m", m=True),
                                  presence=True), leaf(f"{c}o{n}")],
        "ch": lambda c: [choice(f"{c}c{n}", case("x", leaf(f"{c}x{n}")),
                                case("y", leaf(f"{c}y{n}")), m=True),
                         leaf(f"{c}o{n}")],
        "cho": lambda c: [choice(f"{c}c{n}", case("x", leaf(f"{c}x{n}"),
                                                  leaf(f"{c}xx{n}", m=True)),
                                 case("y", leaf(f"{c}y{n}")))],
        "ll": lambda c: [leaflist(f"{c}l{n}", min=1), leaf(f"{c}o{n}")],
        "wm": lambda c: [leaf(f"{c}m{n}", m=True, when=W), leaf(f"{c}o{n}")],
        "g": lambda c: [group(f"{c}{n}", leaf(f"{c}m{n}", m=True), when=W),
                        leaf(f"{c}o{n}")],
    }


CASESETS = [("o", "o"), ("o", "mo"), ("mo", "mo"), ("npm", "o"),
            ("npo", "mo"), ("p", "o"), ("ch", "o"), ("cho", "mo"),
            ("ll", "o"), ("wm", "o"), ("g", "o"), ("o",), ("mo",),
            ("o", "o", "mo"), ("ch", "cho")]


def choices(n):
    """label -> factory of choice items."""
    res = {}
    sh = case_shapes(n)

    def mk(cs, kw, cw=(), short=False, gr=None):
        def f():
            ks = []
            for i, c in enumerate(cs):
                body = sh[c]("uvw"[i])
                if short and len(body) == 1 and body[0].data:
                    k = case(body[0].name, *body, short=True)
                else:
                    k = case(f"k{i}", *body)
                if cw and i in cw:
                    k.when = W
                ks.append(k)
            if gr:
                kind, when = gr
                ks = [ks[0], group(f"gr{n}", *ks[1:], via="augment",
                                   when=when, mod=kind)]
                if kind == "b":
                    for k in ks[1].walk():
                        k.mod = "b"
            return [choice(f"ch{n}", *ks, **kw)]
        return f
    for cs in CASESETS:
        lab = "+".join(cs)
        res[f"ch({lab})"] = mk(cs, {})
        res[f"ch({lab})m"] = mk(cs, {"m": True})
    for cs in (("o", "mo"), ("o", "o"), ("npm", "o")):
        lab = "+".join(cs)
        res[f"ch({lab})w"] = mk(cs, {"when": W})
        res[f"ch({lab})wm"] = mk(cs, {"when": W, "m": True})
        res[f"ch({lab})c0w"] = mk(cs, {}, (0,))
        res[f"ch({lab})c01wm"] = mk(cs, {"m": True}, (0, 1))
        res[f"ch({lab})ro"] = mk(cs, {"config": False})
        res[f"ch({lab})rom"] = mk(cs, {"config": False, "m": True})
        res[f"ch({lab})d"] = mk(cs, {"default": "k0"} if cs[0] == "o"
                                else {"default": "k1"})
        res[f"ch({lab})short"] = mk(cs, {"m": True}, short=True)
    for cs in (("o", "o", "mo"), ("mo", "o", "o"), ("o", "mo")):
        lab = "+".join(cs)
        for mod in "ab":
            for when in (None, W):
                if mod == "b" and "mo" in cs[1:] and not when:
                    continue
                for m in (False, True):
                    res[f"ch({lab})aug{mod}{'w' if when else ''}"
                        f"{'m' if m else ''}"] = mk(
                        cs, {"m": m}, gr=(mod, when))
    return res


def simple(n):
    L = f"l{n}"
    N = f"n{n}"

    def np(*k, **kw):
        return container(N, *k, **kw)
    return {
        "o": lambda: [leaf(L)],
        "m": lambda: [leaf(L, m=True)],
        "d": lambda: [leaf(L, default=3)],
        "ro": lambda: [leaf(L, config=False)],
        "rom": lambda: [leaf(L, config=False, m=True)],
        "ow": lambda: [leaf(L, when=W)],
        "mw": lambda: [leaf(L, when=W, m=True)],
        "mwd": lambda: [leaf(L, when=WD, m=True)],
        "bo": lambda: [leaf(L, mod="b")],
        "bw": lambda: [leaf(L, mod="b", when="/a:t='x'")],
        "ll1": lambda: [leaflist(L, min=1)],
        "ll": lambda: [leaflist(L)],
        "llro1": lambda: [leaflist(L, min=1, config=False)],
        "np(o)": lambda: [np(leaf("x"))],
        "np(m)": lambda: [np(leaf("x", m=True), leaf("y"))],
        "np(mw)": lambda: [np(leaf("x", m=True, when=W))],
        "np(m)w": lambda: [np(leaf("x", m=True), when=W)],
        "np(np(m))": lambda: [np(container("z", leaf("x", m=True)))],
        "np(np(mw))w": lambda: [np(container("z", leaf("x", m=True, when=W)),
                                   when=WD)],
        "np(rom)": lambda: [np(leaf("x", m=True, config=False), leaf("y"))],
        "np(m,rom)": lambda: [np(leaf("x", m=True, config=False),
                                 leaf("y", m=True))],
        "np(np(rom))": lambda: [np(container("z", leaf(
            "x", m=True, config=False)))],
        "npro(m)": lambda: [np(leaf("x", m=True), config=False)],
        "np(chm)": lambda: [np(choice("c", case("p", leaf("x")),
                                      case("q", leaf("y")), m=True))],
        "np(chwm)": lambda: [np(choice("c", case("p", leaf("x")),
                                       case("q", leaf("y")), m=True,
                                       when=W))],
        "np(gm)": lambda: [np(group(f"{n}", leaf("x", m=True)), leaf("y"))],
        "np(gwm)": lambda: [np(group(f"{n}", leaf("x", m=True), when=W),
                               leaf("y"))],
        "np(ll1)": lambda: [np(leaflist("x", min=1))],
        "np(bwm)": lambda: [np(leaf("x"), leaf("x", mod="b", m=True,
                                               when="/a:t='x'"))],
        "p(m)": lambda: [np(leaf("x", m=True), presence=True)],
        "p(o)w": lambda: [np(leaf("x"), presence=True, when=W)],
        "p(np(m))": lambda: [np(container("z", leaf("x", m=True)),
                                presence=True)],
        "li": lambda: [lst(L, leaf("k"), leaf("x", m=True), keys=["k"])],
        "li1": lambda: [lst(L, leaf("k"), keys=["k"], min=1)],
        "li(np(m))": lambda: [lst(L, leaf("k"), container(
            "z", leaf("x", m=True)), keys=["k"])],
        "liw": lambda: [lst(L, leaf("k"), leaf("x", when="../k = 2",
                                               m=True), keys=["k"])],
        "liro": lambda: [lst(L, leaf("x", m=True), config=False,
                             vals=[[{}], [{"x": 1}], [{"x": 1}, {}]])],
        "ad": lambda: [R.S("anydata", L, m=True)],
        "adw": lambda: [R.S("anydata", L, when=W)],
        "adro": lambda: [R.S("anydata", L, config=False, m=True)],
        "g(m)": lambda: [group(f"{n}", leaf(L, m=True))],
        "g(m)w": lambda: [group(f"{n}", leaf(L, m=True), leaf(f"y{n}"),
                                when=W)],
        "g(mw)w": lambda: [group(f"{n}", leaf(L, m=True, when=W),
                                 leaf(f"y{n}"), when=WD)],
        "g(np(m))w": lambda: [group(f"{n}", np(leaf("x", m=True)), when=W)],
        "g(chm)w": lambda: [group(f"{n}", choice(
            "c", case("p", leaf(L)), case("q", leaf(f"y{n}")), m=True),
            when=W)],
        "g(g(m)w)w": lambda: [group(f"{n}", group(
            f"{n}i", leaf(L, m=True), when=W), leaf(f"y{n}"), when=WD)],
        "augb(mo)w": lambda: [group(f"{n}", leaf(L, mod="b", m=True),
                                    leaf(f"y{n}", mod="b"), via="augment",
                                    mod="b", when="/a:t='x'")],
        "augb(np)w": lambda: [group(f"{n}", container(
            N, leaf("x", mod="b", m=True), mod="b"), via="augment",
            mod="b", when="/a:t='x'")],
        "obs(m)": lambda: [leaf(L, m=True, status=OB)],
        "obs(d)": lambda: [leaf(L, default=3, status=OB)],
        "obs(ll1)": lambda: [leaflist(L, min=1, status=OB)],
        "obs(np(m))": lambda: [container(N, leaf("x", m=True), leaf("y"),
                                         status=OB)],
        "np(obs(m))": lambda: [np(leaf("x", m=True, status=OB), leaf("y"))],
        "np(obs(m),m)": lambda: [np(leaf("x", m=True, status=OB),
                                    leaf("y", m=True))],
        "obs(li1)": lambda: [lst(L, leaf("k"), keys=["k"], min=1,
                                 status=OB)],
        "obs(chm)": lambda: [choice(f"oc{n}", case("p", leaf("x")),
                                    case("q", leaf("y")), m=True,
                                    status=OB)],
        "ch(obs)m": lambda: [choice(f"oc{n}", case("p", leaf("x"),
                                                   status=OB),
                                    case("q", leaf("y")), m=True)],
        "ch(obs,m)": lambda: [choice(f"oc{n}", case(
            "p", leaf("x", m=True, status=OB), leaf("z")),
            case("q", leaf("y")))],
        "g(obs(m))w": lambda: [group(f"{n}", leaf(L, m=True, status=OB),
                                     leaf(f"y{n}"), when=W)],
        "np(g(obs(m)))": lambda: [np(group(f"{n}", leaf(
            "x", m=True, status=OB), leaf("y"), when=W))],
        "dep(m)": lambda: [leaf(L, m=True, status=DP)],
        "np(dep(m))": lambda: [np(leaf("x", m=True, status=DP), leaf("y"))],
        "dep(np(m))": lambda: [container(N, leaf("x", m=True), leaf("y"),
                                         status=DP)],
        "dep(li1)": lambda: [lst(L, leaf("k"), leaf("x", m=True),
                                 keys=["k"], min=1, status=DP)],
        "depadm": lambda: [R.S("anydata", L, m=True, status=DP)],
    }


def items(n):
    r = simple(n)
    r.update(choices(n))
    return r


HOLDERS = {
    "top": lambda ks: ks,
    "np": lambda ks: [container("h", *ks)],
    "p": lambda ks: [container("h", *ks, presence=True)],
    "li": lambda ks: [lst("h", leaf("k"), *ks, keys=["k"])],
    "ro": lambda ks: [container("h", *ks, config=False)],
    "np2": lambda ks: [container("h", container("hh", *ks))],
}


def schema(holder, i1, i2):
    ks = []
    for n, i in ((1, i1), (2, i2)):
        if i:
            ks += items(n)[i]()
    ctl = [leaf("t", type="s", vals=["x"]), leaf("dt", type="td", vals=[1])]
    if holder == "ro":
        for k in ks:        # config true is not allowed below config false
            for s in k.walk():
                s._config = None
    return R.root(*(ctl + HOLDERS[holder](ks)))


def legal(holder, i1, i2):
    def aug(i):
        return i and ("aug" in i or i in ("bo", "bw"))
    if holder == "top" and (aug(i1) and i1[:2] != "ch" or aug(i2)
                            and i2[:2] != "ch"):
        return False        # top level of module b; no when possible
    return True


def specs(tier):
    names = list(items(1))
    S = list(simple(1))
    C = list(choices(1))
    res = []
    for h in HOLDERS:
        for i in names:
            if legal(h, i, None):
                res.append((h, i, None))
    small = ["o", "m", "mw", "np(m)", "np(rom)", "np(gwm)", "g(m)w", "ll1",
             "p(m)", "rom"]
    csmall = ["ch(o+mo)", "ch(o+mo)m", "ch(npm+o)m", "ch(ch+o)",
              "ch(o+mo)wm", "ch(o+o+mo)augaw"]
    if tier == "quick":
        pairs = [(a, b) for a in S for b in small] + [
            (a, b) for a in C for b in ("o", "mw", "np(m)", "ch(o+mo)m")]
        hs = ("np", "top")
    else:
        pairs = [(a, b) for a in S for b in S] + [
            (a, b) for a in C for b in small + csmall]
        hs = HOLDERS
    for h in hs:
        for a, b in pairs:
            if legal(h, a, b):
                res.append((h, a, b))
    return res


def bounds(tier):
    return ("all schemas with one or two items of the item grammar in every "
            "holder; for each all documents over the value options (lists "
            "up to two entries) in two member orders, and all three content "
            "types")


STEP = 12


def groups(tier):
    n = len(specs(tier))
    return [[tier, i, min(i + STEP, n)] for i in range(0, n, STEP)]


def outcome(inst, ct):
    try:
        inst.validate(ValidationScope.syntax, CT[ct])
        return None
    except SchemaError as e:
        return (tuple(e.instance.path), e.tag, e.message)


def reverse(x):
    if isinstance(x, dict):
        return {k: reverse(x[k]) for k in reversed(list(x))}
    if isinstance(x, list) and x and isinstance(x[0], dict):
        return [reverse(y) for y in x]
    return x


def verdict(dm, rt, doc, ct, rev):
    """(expected kind, message)"""
    d = R.Doc(rt, doc)
    exp = d.syntax(ct)
    inst = dm.from_raw(reverse(copy.deepcopy(doc)) if rev
                       else copy.deepcopy(doc))
    try:
        got = outcome(inst, ct)
    except YangsonException as e:
        return "", f"validation raised {e!r}"
    except Exception as e:
        return "", f"validation failed: {e!r}"
    if not exp:
        return "valid", (None if got is None else
                         f"rejected with {got}, expected to be accepted")
    if got is None:
        return "invalid", f"accepted, expected one of {exp}"
    path, tag, msg = got
    if not any(p == path and tag.endswith(k) for p, k, _ in exp):
        return "invalid", f"rejected with {got}, expected one of {exp}"
    return exp[0][1], None


def run_group(group, rec):
    tier, lo, hi = group
    for sp in specs(tier)[lo:hi]:
        rt = schema(*sp)
        tx = R.texts(rt)
        try:
            dm = build(tx)
        except Exception as e:
            rec.fail({"spec": sp}, f"schema {sp} rejected: {e!r}")
            continue
        rec.state()
        n = 0
        for doc in R.objects(rt):
            n += 1
            if tier == "quick" and n > 900:
                rec.cap("900 documents of one schema")
                break
            for ct in (1, 2, 3):
                for rev in (False, True):
                    rec.step()
                    oc, msg = verdict(dm, rt, doc, ct, rev)
                    rec.agree(oc)
                    if msg:
                        rec.fail({"spec": sp, "doc": doc, "ct": ct,
                                  "rev": rev}, f"{sp} {doc} ctype={ct}: "
                                 f"{msg}")
        rec.sample({"spec": sp, "documents": n})


def replay(case):
    rt = schema(*case["spec"])
    dm = build(R.texts(rt))
    return verdict(dm, rt, case["doc"], case["ct"], case["rev"])[1]
