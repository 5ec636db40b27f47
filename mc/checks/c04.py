"""C04: JSON data are read and written back faithfully."""
import copy
import itertools
import json

from mc.models import build
from mc.ref import encode as E
from mc.ref import schema as R
from mc.ref import types as T
from mc.ref.schema import case, choice, container
import yangson.exceptions as X
from yangson.enumerations import ContentType, ValidationScope
from yangson.instvalue import ArrayValue, ObjectValue

PROPERTY = "C04"
BAD = (X.RawDataError, X.ValidationError)

# ------------------------------------------------------------ scalar types

PAT = [{"patterns": [(("rep", ("set", False, (("a", "b"),)), 1, 2), False,
                      None)]}]


def idref(home):
    return T.Idref(E.IDGRAPH, [("a", "base")], home)


def types(home):
    """label -> (type, valid and invalid raw values)"""
    u8 = T.Int("uint8")
    res = {
        "u8": (u8, [0, 7, 255]),
        "i8r": (T.Int("int8", [((("-2", "3"),), None)]), [-2, 3, 4, -3]),
        "u32": (T.Int("uint32"), [0, 4294967295, 4294967296]),
        "i64": (T.Int("int64"), ["1", "-5", "+5", "007", "-0", "x", "",
                                 "9223372036854775807",
                                 "9223372036854775808"]),
        "u64": (T.Int("uint64"), ["0", "18446744073709551615", "-1"]),
        "dec": (T.Dec(2), ["1", "1.50", "-0.00", "+3.1", "0.01", "x",
                           "-92233720368547758.08"]),
        "str": (T.Str(), ["", "x", " ü\n\t", "1", "true", "a\"'<&>"]),
        "pat": (T.Str(PAT), ["a", "ab", "", "c"]),
        "bool": (T.Bool(), [True, False]),
        "empty": (T.Empty(), [[None]]),
        "enum": (T.Enum([("a", None), ("1", None), ("true", None),
                         ("b c", None)]), ["a", "1", "true", "b c", "z"]),
        "bits": (T.Bits([("b", 1), ("a", 0)]), ["", "a", "b", "b a", "a b",
                                                "z", "a a"]),
        "bin": (T.Binary(), ["", "AQ==", "AQI=", "A", "!"]),
        "id": (idref(home), ["i1", "a:i1", "b:i1", "i3", "b:i3", "a:base",
                             "a:i2", "i2", "c:i1", "z:i1", "", ":"]),
        "lref": (T.Leafref(T.Int("int64"), "/a:tgt"), ["1", "07", "x"]),
        "un": (T.Union([T.Bool(), u8, idref(home), T.Str(PAT)]),
               [True, 5, 256, "a:i1", "ab", "i1", "zzz", "true"]),
        "un2": (T.Union([T.Empty(), T.Dec(1), T.Enum([("a", None)])]),
                [[None], "1.50", "a", "b", 3]),
        "unlr": (T.Union([T.Leafref(T.Int("int64"), "/a:tgt"),
                          T.Str(PAT)]), ["7", "b", 7]),
        "un3": (T.Union([T.Empty(), T.Str()]), [[None], "x", ""]),
        "un4": (T.Union([T.Bits([("a", 0)]), T.Union([
            T.Bool(), T.Binary()])]), ["", "a", True, "AQ=="]),
    }
    return res


SHAPES = [None, True, 0, -1, 1.5, 1e30, "", "x", [], {}, [None], [[]],
          [{}], ["x"], [0], {"k": 1}, {"zz": 1}, [1, "x"]]


def scalar_positions(t, raws, home, td):
    """Schema with a leaf of the type at several positions."""
    def mk(kind, name, **kw):
        return E.typed(kind, name, t, raws, mod=home, **kw)
    ks = [container("h", mk("leaf", "v"), mk("leaf-list", "w",
                                             config=False),
                    choice("ch", case("ca", mk("leaf", "cv"), mod=home),
                           mod=home), mod=home),
          R.S("list", "l", [mk("leaf", "k"), mk("leaf", "v")], mod=home,
              keys=["k"])]
    if isinstance(t, T.Empty) or isinstance(t, T.Union) and any(
            isinstance(m, T.Empty) for m in t.members):
        ks.pop()
    if home == "a":
        top = ks
    else:
        top = [container("o", *ks)]
    if td:
        for k in top:
            for s in k.walk():
                if hasattr(s, "t"):
                    s.type = "type " + ("idt;" if home == "a" else "a:idt;")
    tgt = E.typed("leaf", "tgt", T.Int("int64"), [])
    # module b provides identities
    return R.root(tgt, R.leaf("zb", mod="b"), *top)


def scalar_groups():
    res = []
    for home in ("a", "b"):
        res += [["scalar", home, lab, False] for lab in types(home)]
        res += [["scalar", home, "id", True]]
    return res


# ------------------------------------------------------------- structures

def structures():
    """(modules of levels, kinds of levels)"""
    chains = [c for c in itertools.product("abc", repeat=3)
              if list(c) == sorted(c)]
    return [(c, k) for c in chains
            for k in itertools.product(("container", "list", "choice"),
                                       repeat=2)]


def structure(chain, kinds):
    """Two levels of inner nodes with leaves of all modules in each."""
    st = T.Int("uint8")

    def terminals(mod, i):
        res = []
        for m in "abc":
            if m >= mod:
                res.append(E.typed("leaf", "v", st, [1], mod=m))
        res.append(E.typed("leaf-list", "w", st, [1], mod=chain[i + 1]))
        if i:
            res.append(R.S("anydata", "y", mod=chain[2]))
        return res

    def level(i):
        mod = chain[i]
        if i == 2:
            return []
        ks = terminals(mod, i) + level(i + 1)
        name = "xy"[i]
        if kinds[i] == "list":
            ks = [E.typed("leaf", "k", st, [1], mod=mod)] + ks
            return [R.S("list", name + "n", ks, mod=mod, keys=["k"])]
        c = container(name + "n", *ks, mod=mod)
        if kinds[i] == "choice":
            res = [choice(name + "ch", case(name + "ca", c, mod=mod),
                          mod=mod)]
            m = chain[2]
            if i == 1 and m != chain[1]:
                # a case added by another module
                res.append(choice("fch", case("fca", E.typed(
                    "leaf-list", "f", st, [1], mod=m), R.S("list", "g", [
                        E.typed("leaf", "k", st, [1], mod=m)], mod=m,
                        keys=["k"]), mod=m), mod=chain[1]))
            return res
        return [c]
    top = [E.typed("leaf", "v", st, [1], mod=m) for m in "abc"]
    return R.root(*(top + level(0)))


def docs_of(n, depth=0):
    """Sample documents: all subsets of leaves, structures of <= 2 entries."""
    opts = []
    for k in n.dkids():
        if k.kind == "leaf":
            o = [1] if k.name in n.keys else [R.NO, 1]
        elif k.kind == "leaf-list":
            o = [R.NO, [2, 1]]
        elif k.kind == "anydata":
            o = [R.NO, {"zz:q": [1, {"v": None}], "v": "x"}]
        elif k.kind == "container":
            sub = list(docs_of(k, depth + 1))
            o = [R.NO] + (sub if len(sub) < 9 else [sub[0], sub[-1]])
        else:
            sub = list(docs_of(k, depth + 1))
            es = sub if len(sub) < 5 else [sub[0], sub[-1]]
            o = [R.NO, [dict(es[-1], k=2), dict(es[0], k=1)]] + [
                [e] for e in es]
        opts.append(o)
    for c in itertools.product(*opts):
        yield {k.iname: v for k, v in zip(n.dkids(), c) if v is not R.NO}


NAMES = ["v", "w", "xn", "yn", "y", "k", "nope"]
ODD = ["", ":", "a:", ":v", "a:b:v", "A:v", "v:", " v", "xch", "a:xca"]


def mutants(rt, doc, full):
    """(document, ) with one structural mutation."""
    inner = [((), rt, doc)]
    for sn, v, p in E.places(rt, doc):
        if sn.internal and isinstance(v, dict):
            inner.append((p, sn, v))
    for p, sn, v in inner:
        universe = [pre + n for n in NAMES
                    for pre in ("", "a:", "b:", "c:", "zz:")] + ODD
        for name in universe:
            if name in v:
                continue
            pre, sep, loc = name.partition(":")
            mod = pre if sep else (None if sn.kind == "root" else sn.mod)
            ch = [k for k in sn.dkids()
                  if (k.mod, k.name) == (mod, loc if sep else name)]
            val = sample(ch[0]) if ch else 1
            yield E.replace(doc, p, lambda o: dict(o, **{name: val}))
            if full:
                # renamed members
                for old in v:
                    if old.rpartition(":")[2] == name.rpartition(":")[2]:
                        yield E.replace(doc, p, lambda o: {
                            (name if m == old else m): x
                            for m, x in o.items()})
    for sn, v, p in E.places(rt, doc):
        if sn.kind in ("anydata",):
            continue
        for s in SHAPES:
            if json.dumps(s) != json.dumps(v):
                yield E.replace(doc, p, lambda o: s)


def sample(n):
    if n.kind == "leaf":
        return n.raws[0]
    if n.kind == "leaf-list":
        return n.raws[:1]
    if n.kind == "list":
        return [{"k": 1}]
    return {}


# ----------------------------------------------------------------- deciding

def canon(x):
    return json.dumps(x, sort_keys=True)


def order(x):
    """Document with the order of entries only (members sorted)."""
    return canon(x)


def verdict(dm, rt, doc):
    """(outcome label, message or None)"""
    r = E.Reader(rt, doc)
    if r.dup:
        return "skipped", None
    before = canon(doc)
    try:
        inst = dm.from_raw(doc)
        inst.validate(ValidationScope.syntax, ContentType.all)
        out = inst.raw_value()
    except BAD as e:
        if canon(doc) != before:
            return "", "the raw data given by the caller changed"
        if r.errors or r.lenient:
            bad = [p for p, _ in r.errors] + r.lenient
            if isinstance(e, X.ValidationError):
                if not r.errors:
                    return "", f"rejected with {e!r}"
                # instance paths have canonical names
                ok = any(len(p) == len(e.instance.path) and all(
                    x == y or isinstance(x, str) and isinstance(y, str) and
                    x.rpartition(":")[2] == y.rpartition(":")[2]
                    for x, y in zip(p, e.instance.path)) for p in bad)
                where = e.instance.path
            else:
                ok = any(e.path in E.pointers(doc, p, rt) for p in bad)
                where = e.path
                kinds = {k for p, k in r.errors
                         if e.path in E.pointers(doc, p, rt)}
                if ok and kinds and not any(
                        (k == "member") == isinstance(e, X.RawMemberError)
                        for k in kinds):
                    return "", f"{e!r} for errors {r.errors}"
            if ok:
                return "rejected", None
            return "", (f"error {e!r} at {where}, expected one of "
                        f"{r.errors or r.lenient}")
        return "", f"rejected with {type(e).__name__} {e}"
    except Exception as e:
        return "", f"reading raised {e!r}"
    if canon(doc) != before:
        return "", "the raw data given by the caller changed"
    if r.errors:
        return "", f"accepted, expected errors {r.errors}"
    if canon(out) != canon(r.doc):
        return "", f"written back as {out}, expected {r.doc}"
    try:
        again = dm.from_raw(copy.deepcopy(out)).raw_value()
    except Exception as e:
        return "", f"reading the output {out} raised {e!r}"
    if canon(again) != canon(out):
        return "", f"output {out} is read and written as {again}"
    try:
        msg = orphans(inst, canon(out))
    except Exception as e:
        msg = f"orphans of {out} raised {e!r}"
    return ("", msg) if msg else ("accepted", None)


def nodes_below(n):
    """Instance nodes with data schema nodes."""
    sn = n.schema_node
    if isinstance(n.value, ObjectValue):
        if not sn.__class__.__name__.startswith("Any"):
            for k in n.value:
                yield n[k], None
                yield from nodes_below(n[k])
    elif isinstance(n.value, ArrayValue):
        for i in range(len(n.value)):
            yield n[i], n
            yield from nodes_below(n[i])


def orphans(inst, whole):
    """Isolated nodes made of the raw value of every node."""
    for n, lst in nodes_below(inst):
        raw = n.raw_value()
        sn = n.schema_node
        if lst is None:
            o = sn.orphan_instance(raw)
            if o.name != sn.iname() or o.siblings != {}:
                return f"orphan {o.name} {o.siblings} of {n.path}"
        elif sn.__class__.__name__ == "ListNode":
            o = sn.orphan_entry(raw)
            if list(o.before) or list(o.after):
                return f"orphan entry with neighbours, of {n.path}"
        else:
            continue
        if o.parinst is not None or o.schema_node is not sn:
            return f"orphan of {n.path} has a parent or a wrong schema node"
        if o.value != n.value or canon(o.raw_value()) != canon(raw):
            return f"orphan of {n.path} is {o.raw_value()}, expected {raw}"
        o.validate(ValidationScope.syntax, ContentType.all)
        if canon(n.raw_value()) != canon(raw):
            return f"making an orphan of {n.path} changed the node"
    if canon(inst.raw_value()) != whole:
        return "making orphans changed the document"
    return None


def bounds(tier):
    return ("two levels of containers, lists and choices over all monotone "
            "chains of three modules with equally named nodes of every "
            "module at each level: all documents with up to two entries, "
            "and all single mutations (any name of the universe with any "
            "prefix added or substituted at any object, any JSON shape at "
            "any node); all scalar types at five positions in two modules "
            "with all sample values and shapes")


def groups(tier):
    n = len(structures())
    return scalar_groups() + [["struct", tier, i, i + 3]
                              for i in range(0, n, 3)] + [["iid"], ["rpc"]]


def scalar_docs(rt, home, raws):
    """Documents with every raw value at every position."""
    def wrap(d):
        if home == "a":
            return {f"a:{k}": v for k, v in d.items()}
        return {"a:o": {f"b:{k}": v for k, v in d.items()}}
    has_list = any(n.kind == "list" for n in rt.walk())
    for v in raws:
        yield wrap({"h": {"v": v}})
        yield wrap({"h": {"cv": v}})
        yield wrap({"h": {"w": [v]}})
        if has_list:
            yield wrap({"l": [{"k": v}]})
            yield wrap({"l": [{"k": v, "v": v}]})
        for u in raws[:12]:
            yield wrap({"h": {"w": [u, v], "v": u}})
            if has_list and isinstance(u, (int, str)):
                yield wrap({"l": [{"k": u}, {"k": v, "v": u}]})
    yield wrap({"h": {}})
    yield wrap({"h": {"w": []}})


def run(case, rec):
    """All documents of a group; case: schema label."""
    if case[0] == "scalar":
        _, home, lab, td = case
        t, raws = types(home)[lab]
        rt = scalar_positions(t, raws, home, td)
        docs = scalar_docs(rt, home, raws + [
            s for s in SHAPES if canon(s) not in map(canon, raws)])
        return rt, None, docs
    if case[0] == "struct":
        rt = structure(*case[1:3])
        full = case[3] == "thorough"

        def docs():
            ds = list(docs_of(rt))
            yield from ds
            for d in ds if full else ds[::max(1, len(ds) // 12)] + ds[-1:]:
                yield from mutants(rt, d, True)
        return rt, None, docs()
    if case[0] == "iid":
        t = E.Iid(IIDX)
        rt = R.root(E.typed("leaf", "tgt", T.Str(), []), container(
            "h", E.typed("leaf", "v", t, []), E.typed(
                "leaf-list", "w", t, []), R.S("list", "l", [E.typed(
                    "leaf", "k", t, [])], keys=["k"])))
        for n in rt.walk():
            if isinstance(getattr(n, "t", None), E.Iid):
                n.type = E.inline_iid()
        raws = list(IIDX) + [s for s in SHAPES if s != ""]
        return rt, None, ({"a:h": {"v": v} if p == 0 else
                           {"w": [v]} if p == 1 else {"l": [{"k": v}]}}
                          for v in raws for p in range(3))
    # rpc and notification
    u8 = T.Int("uint8")
    rt = R.root(container("input", E.typed("leaf", "v", u8, [1]),
                          E.typed("leaf", "v", u8, [1], mod="b"),
                          E.typed("leaf-list", "w", u8, [1])),
                container("output", container("z", E.typed(
                    "leaf", "v", u8, [1]))))
    ds = [d for d in docs_of(rt)]

    def docs():
        yield from ds
        for d in ds:
            yield from mutants(rt, d, True)
    return rt, "a:r", docs()


IIDX = {
    "/a:tgt": "/a:tgt", "/a:h/v": "/a:h/v",
    "/a:h/w[.='x']": '/a:h/w[.="x"]', "/a:h/w[1]": "/a:h/w[1]",
    '/a:h/l[k="x"]': '/a:h/l[k="x"]', '/a:h/w[ 2 ]': '/a:h/w[2]',
    "/a:h/l[k='x']/k": '/a:h/l[k="x"]/k', "/a:h/b:z": "/a:h/b:z",
    "/a:h/l[ b:k = 'x' ][k='y']/c:z": '/a:h/l[b:k="x"][k="y"]/c:z',
    "/tgt": None, "": None, "a:tgt": None, "/a:": None, "/a:tgt[": None,
    "/a:tgt]": None, "/a:tgt/": None, "/a:h[0]": None, "x": None,
    " /a:tgt": None, "/a:h/a:w[.=1]": None, "/a:tgt ": None,
    "/a:h/a:w[.='x'": None, "/a:h/w[-1]": None, "//a:tgt": None,
}

RPC = """  rpc r {
    input { leaf v { type uint8; } leaf-list w { type uint8; } }
    output { container z { leaf v { type uint8; } } }
  }
"""
RPCB = "  augment /a:r/a:input { leaf v { type uint8; } }\n"


class Sub:
    """Data model with a fixed subschema."""

    def __init__(self, dm, sub):
        self.dm, self.sub = dm, sub

    def from_raw(self, raw):
        return self.dm.from_raw(raw, self.sub)


def model(case, rt, sub):
    if sub:
        tx = R.texts(R.root(E.typed("leaf", "q", T.Int("uint8"), []),
                            container("p", R.leaf("q", mod="b"))),
                     head={"a": RPC, "b": RPCB})
        return Sub(build(tx), sub)
    return build(R.texts(rt, head=E.HEAD))


def expand(group):
    if group[0] == "struct":
        return [["struct", list(c), list(k), group[1]]
                for c, k in structures()[group[2]:group[3]]]
    return [group]


def run_group(group, rec):
    for cs in expand(group):
        rt, sub, docs = run(cs, rec)
        try:
            dm = model(cs, rt, sub)
        except Exception as e:
            rec.fail({"case": cs}, f"schema {cs} rejected: {e!r}")
            continue
        rec.state()
        n = 0
        for doc in docs:
            n += 1
            rec.step()
            doc = json.loads(json.dumps(doc))
            oc, msg = verdict(dm, rt, doc)
            rec.agree(oc)
            if msg:
                rec.fail({"case": cs, "doc": doc}, f"{cs} {doc}: {msg}")
        rec.sample({"case": cs, "documents": n})


def replay(case):
    rt, sub, _ = run(case["case"], None)
    return verdict(model(case["case"], rt, sub), rt, case["doc"])[1]
