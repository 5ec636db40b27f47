"""Bounded families of YANG types used by C06 and C07.

families(tier) -> {family: [Type, ...]}, texts(type) -> candidate lexical
forms, raws(type) -> candidate JSON values.
"""
import itertools

from mc.ref import types as T
from mc.ref import regex as RX
from fractions import Fraction

ERRS = [None, ("tag-x", "msg x"), ("tag-y", None), (None, "msg y")]


def seqs(points, maxparts):
    """Increasing sequences of up to maxparts parts over ordered points."""
    res = []

    def go(start, parts):
        if parts:
            res.append(tuple(parts))
        if len(parts) == maxparts:
            return
        for i in range(start, len(points)):
            go(i + 1, parts + [(points[i], None)])
            for j in range(i + 1, len(points)):
                go(j + 1, parts + [(points[i], points[j])])
    go(0, [])
    return res


def ok_chain(r, lo, hi):
    return r.consistent(lo, hi)


def _with_errs(chain, k):
    """Attach error infos to levels, varying with k."""
    return [(parts, ERRS[(k + 3 * i) % 4]) for i, parts in enumerate(chain)]


def int_types(tier):
    res = []
    k = 0
    P1 = ["min", "-3", "0", "2", "max"]
    P2 = ["min", "0", "2", "4", "max"]
    for name in T.INTR:
        res.append(T.Int(name))
        pts = P2 if name[0] == "u" else P1
        for ch in seqs(pts, 3 if name == "int8" else 2):
            if name not in ("int8", "uint64") and tier == "quick" and \
                    len(ch) > 1 and hash((name, len(ch), ch[0])) % 3:
                pass
            k += 1
            res.append(T.Int(name, _with_errs([ch], k)))
    # chains of derivations
    names = ["int8", "uint64"] if tier == "quick" else list(T.INTR)
    for name in names:
        pts = P2 if name[0] == "u" else P1
        l1 = seqs(pts, 2)
        for a in l1:
            for b in l1:
                t = T.Int(name, [(a, None), (b, None)])
                if t.r.consistent(t.lo, t.hi):
                    k += 1
                    res.append(T.Int(name, _with_errs([a, b], k)))
    for name in ["int16"]:
        l1 = seqs(P1, 2 if tier == "thorough" else 1)
        for a, b, c in itertools.product(l1, repeat=3):
            t = T.Int(name, [(a, None), (b, None), (c, None)])
            if t.r.consistent(t.lo, t.hi):
                k += 1
                res.append(T.Int(name, _with_errs([a, b, c], k)))
    return res


def dec_types(tier):
    res = []
    k = 0
    for fd in range(1, 19):
        res.append(T.Dec(fd))
    for fd in (1, 2, 7, 8, 17, 18):
        pts = ["min", "-1.5", "0", "1.2" if fd < 3 else "0.0000001", "max"] \
            if fd < 3 else ["min", "-1.5", "0", "0.0000001", "max"]
        l1 = seqs(pts, 2)
        for a in l1:
            k += 1
            res.append(T.Dec(fd, _with_errs([a], k)))
        if fd == 2 or tier == "thorough":
            for a in l1:
                for b in l1:
                    t = T.Dec(fd, [(a, None), (b, None)])
                    if t.r.consistent(t.lo, t.hi):
                        k += 1
                        res.append(T.Dec(fd, _with_errs([a, b], k)))
    return res


LEN = ["min", "1", "2", "4", "max"]


def len_types(tier, cls):
    res = [cls()]
    k = 0
    l1 = seqs(LEN, 2)
    for a in l1:
        k += 1
        res.append(cls([{"length": (a, ERRS[k % 4])}]))
    for a in l1:
        for b in l1:
            t = cls([{"length": (a, None)}, {"length": (b, None)}])
            if t.r.consistent(0, 2**32 - 1):
                k += 1
                res.append(cls([{"length": (a, ERRS[k % 4])},
                                {"length": (b, ERRS[(k // 4) % 4])}]))
    return res


ATOMS = [("c", "a"), ("c", "b"), (".",), ("d",), ("D",), ("s",), ("S",),
         ("set", False, (("a", "c"),)), ("set", True, ("a",)),
         ("set", False, ("-", "a")), ("set", False, ("^", "]")),
         ("c", "^"), ("c", "$"), ("c", "."), ("c", "\\"), ("c", "\n")]
REPS = [(0, None), (1, None), (0, 1), (2, 2), (1, 2), (2, None), (0, 0)]


def regexes(tier):
    res = [("eps",)] + list(ATOMS)
    small = ATOMS[:3] + ATOMS[7:9] + [("c", "$")]
    for a in ATOMS:
        for lo, hi in REPS[:4]:
            res.append(("rep", a, lo, hi))
    for a in small:
        for lo, hi in REPS:
            res.append(("rep", a, lo, hi))
        for b in small:
            res += [("cat", a, b), ("alt", a, b)]
            for lo, hi in REPS[:3]:
                res += [("rep", ("cat", a, b), lo, hi),
                        ("rep", ("alt", a, b), lo, hi),
                        ("cat", ("rep", a, lo, hi), b),
                        ("alt", a, ("rep", b, lo, hi))]
    if tier == "thorough":
        t3 = [("c", "a"), ("c", "b"), ("set", True, ("a",)), (".",)]
        for a, b, c in itertools.product(t3, repeat=3):
            for op1, op2 in itertools.product(("cat", "alt"), repeat=2):
                res += [(op1, a, (op2, b, c)), (op1, (op2, a, b), c)]
                for lo, hi in REPS[:3]:
                    res += [(op1, ("rep", (op2, a, b), lo, hi), c),
                            ("rep", (op1, (op2, a, b), c), lo, hi),
                            (op1, a, ("rep", (op2, b, c), lo, hi))]
    seen, out = set(), []
    for r in res:
        if r not in seen:
            seen.add(r)
            out.append(r)
    return out


def pat_types(tier):
    rs = regexes(tier)
    res = []
    for i, r in enumerate(rs):
        res.append(T.Str([{"patterns": [(r, False, ERRS[i % 4])]}]))
        if i % 3 == 0 or tier == "thorough":
            res.append(T.Str([{"patterns": [(r, True, ERRS[i % 4])]}]))
    core = [("c", "a"), ("rep", ("c", "a"), 0, None),
            ("alt", ("c", "a"), ("cat", ("c", "b"), ("rep", (".",), 0, None))),
            ("rep", ("set", True, ("a",)), 1, None),
            ("cat", (".",), ("rep", (".",), 0, 1))]
    k = 0
    for a, b in itertools.product(core, repeat=2):
        for ia, ib in itertools.product((False, True), repeat=2):
            k += 1
            res.append(T.Str([{"patterns": [(a, ia, ERRS[k % 4]),
                                            (b, ib, ERRS[(k + 1) % 4])]}]))
            res.append(T.Str([{"patterns": [(a, ia, ERRS[k % 4])]},
                              {"patterns": [(b, ib, ERRS[(k + 2) % 4])]}]))
            res.append(T.Str([
                {"patterns": [(a, ia, ERRS[k % 4])],
                 "length": ((("1", "2"),), ERRS[(k + 2) % 4])},
                {"patterns": [(b, ib, ERRS[(k + 1) % 4])]},
                {"length": ((("2", None),), ERRS[(k + 3) % 4])}]))
    return res


EN = [("a", None), ("b", None), ("ab", None)]


def enum_types(tier, cls=None, lo=-2):
    cls = cls or T.Enum
    res = []
    vals = [None, 0, 10, 2] if lo >= 0 else [None, -2, 0, 10, 2]
    names = ["a", "b", "a-b"] if cls is T.Bits else ["a", "b", "a b"]
    for n in (1, 2, 3):
        for vs in itertools.product(vals, repeat=n):
            items = list(zip(names, vs))
            t = cls(items)
            if len(set(t.values.values())) != n:
                continue
            res.append(t)
            # explicit values only matter for order; subsets for membership
            if n == 3 and vs in ((None,) * 3, (3, None, 0), (3, 0, 1)):
                subs = [s for k in (1, 2, 3)
                        for s in itertools.permutations(names, k)]
                for s in subs:
                    res.append(cls(items, [s]))
                    for s2 in subs:
                        if set(s2) <= set(s) and len(s) > 1:
                            res.append(cls(items, [s, s2]))
    return res


def bits_types(tier):
    return enum_types(tier, T.Bits, 0)


IDGRAPH = {("k", "b1"): set(), ("k", "b2"): set(),
           ("k", "i1"): {("k", "b1")},
           ("k", "i2"): {("k", "b1"), ("k", "b2")},
           ("n", "i1"): {("k", "i1")}, ("n", "i3"): {("k", "b2")},
           ("n", "i4"): {("n", "i3"), ("k", "i1")},
           ("n", "b3"): set(), ("n", "i5"): {("n", "b3"), ("k", "i2")},
           ("m", "i1"): {("k", "b1")}, ("m", "i9"): {("n", "b3"),
                                                    ("n", "i4")},
           ("m", "b1"): set()}
IMPORTS = {"k": (), "n": ("k",), "m": ("n", "k")}


def idref_types(tier):
    res = []
    for k in (1, 2):
        for bs in itertools.permutations(sorted(IDGRAPH), k):
            res.append(T.Idref(IDGRAPH, list(bs), "m"))
    return res


def union_members():
    return [
        T.Int("int8", [((("0", "5"),), None)]),
        T.Int("uint64"),
        T.Dec(2),
        T.Bool(),
        T.Empty(),
        T.Str([{"patterns": [(("rep", ("set", False, (("a", "b"),
                                                      ("0", "9"))),
                               1, 2), False, None)]}]),
        T.Str([{"length": ((("2", None),), ("t", "m"))}]),
        T.Enum([("a", None), ("1", None), ("true", None)]),
        T.Bits([("b", 1), ("a", 0)]),
        T.Binary([{"length": ((("1", "2"),), None)}]),
        T.Idref(IDGRAPH, [("k", "b1")], "m"),
        T.Leafref(T.Int("int8", [((("0", "5"),), None)]), "/m:tgt"),
        T.Union([T.Bool(), T.Enum([("a", None), ("z", None)])]),
    ]


def union_types(tier):
    ms = union_members()
    res = []
    for a, b in itertools.product(range(len(ms)), repeat=2):
        if a != b:
            res.append(T.Union([ms[a], ms[b]]))
    rng = range(len(ms)) if tier == "thorough" else (0, 2, 3, 4, 5, 8, 10)
    for c in itertools.permutations(rng, 3):
        res.append(T.Union([ms[i] for i in c]))
    return res


def simple_types(tier):
    return [T.Bool(), T.Empty()] + [
        T.Leafref(m, "/m:tgt%d" % i)
        for i, m in enumerate(union_members()[:-2])]


FAMS = {"int": int_types, "dec": dec_types,
        "str": lambda t: len_types(t, T.Str),
        "bin": lambda t: len_types(t, T.Binary),
        "pat": pat_types, "enum": enum_types, "bits": bits_types,
        "idref": idref_types, "union": union_types, "simple": simple_types}


def strings(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t)


SHAPES = [None, True, False, 0, 1, -1, 5, 1.5, 1e300, "", "true", "1", [None],
          [], {}, [1], [None, None], {"a": 1}, [True], ["a"], [[None]], 2**70,
          [0], [False], [""]]


def dec_text(fr, fd):
    n = abs(fr) * 10**fd
    n = n.numerator // n.denominator
    s = str(n).rjust(fd + 1, "0")
    return ("-" if fr < 0 else "") + s[:-fd] + "." + s[-fd:]


def uniq(xs):
    seen, out = set(), []
    for x in xs:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


INTLEX = ["", "0", "00", "+1", "-0", "01", "0x1", "1.0", "1e1", " 1", "1 ",
          "1_0", "\u0661", "\uff11", "--1", "+-1", "-", "+", "a", "1\n",
          "- 1", "1 1", "0b1", "0o7", "true", "\u00b2"]
DECLEX = INTLEX + ["1.", ".5", "-.5", "1.50", "-0.0", "+0.10", "1,5", "NaN",
                   "Infinity", "-inf", "1E1", "1e-1", "0.10", "001.5",
                   "1..5", "1.5.1", "1._5", "1.\u0661", "nan", "sNaN"]
_strs = {}


def texts(t, tier="quick"):
    """Candidate lexical forms of type t."""
    if isinstance(t, T.Leafref):
        return texts(t.t, tier)
    if isinstance(t, T.Int):
        bs = t.bounds()
        return uniq([str(b) for b in bs] + ["+" + str(b) for b in bs if b >= 0]
                    + ["0" + str(b) for b in bs if b >= 0][:3] + INTLEX)
    if isinstance(t, T.Dec):
        bs = t.bounds()
        res = [dec_text(b, t.fd) for b in bs]
        res += [str(int(b)) for b in bs if b.denominator == 1][:4]
        res += [r.rstrip("0") + "0" for r in res if "." in r]
        res += ["1." + "0" * t.fd + "1", "1." + "0" * (t.fd - 1) + "1",
                "1." + "1" * t.fd + "00", "9" * 30, "-" + "9" * 30,
                "0." + "0" * (t.fd - 1) + "1", "-0." + "0" * (t.fd - 1) + "1"]
        return uniq(res + DECLEX)
    if isinstance(t, T.Binary):
        return uniq(list(strings("QA=", 4)) + [
            "QUJD", "QUJDRA==", "QUJDREU=", "QUJDREVG", "QUJD\n", " QUJD",
            "QU JD", "-_-_", "+/+/", "QUJD====", "\u00e9QUJ", "QUJDQQ",
            "QQ==QQ=="])
    if isinstance(t, T.Str):
        if t.pats:
            key = "pat" + tier
            if key not in _strs:
                _strs[key] = uniq(list(strings("ab1\n$", 3)) + list(
                    strings(" .-^]\\\r\t\u0661c", 2)) + ["aa a", "aaaa",
                                                        "a\U0001f600"])
            return _strs[key]
        return uniq(["", "a", "ab", "abc", "abcd", "abcde", "abcdefgh",
                     "\u00e9", "\U0001f600", "\U0001f600b", "e\u0301",
                     " ", "  ", "\n", "a\nb", "\"'", "<&>", "\\", " a ",
                     "\U0001f600" * 4, "\U0001f600" * 5])
    if isinstance(t, T.Bits):
        ns = [n for n, _ in t.items] + ["zz", "A"]
        res = []
        for k in range(4):
            for c in itertools.product(ns, repeat=k):
                res.append(" ".join(c))
        return uniq(res + ["a  b", " a", "a ", "a\tb", "a\nb", "a,b", "ab"])
    if isinstance(t, T.Enum):
        ns = [n for n, _ in t.items]
        return uniq(ns + ["", "A", "c", "aa", " a", "a ", "a\n", "0", "1",
                          "a  b", "ab"])
    if isinstance(t, T.Idref):
        res = []
        for (m, n) in list(t.graph) + [("m", "zz"), ("x", "i1"), ("", "i1")]:
            res += [f"{m}:{n}", n]
        return uniq(res + ["", ":", "m:", "i1:", "m:i1:i1", " i1", "i1 ",
                           "m: i1", "M:i1", "I1"])
    if isinstance(t, T.Bool):
        return ["true", "false", "", "1", "0", "True", "TRUE", "true ",
                " true", "true\n", "yes"]
    if isinstance(t, T.Empty):
        return ["", " ", "a", "[null]", "\n"]
    if isinstance(t, T.Union):
        res = []
        for m in t.members:
            res += UTEXT.get(type(m).__name__, [])
        return uniq(res + ["", "a", "b", "1", "true"])
    raise AssertionError(t)


UTEXT = {"Int": ["0", "5", "6", "05", "+5", "18446744073709551615", "-1",
                 "1_0"],
         "Dec": ["1.5", "1.50", "-0.0", "1", "001.50", "1e1", "NaN"],
         "Bool": ["true", "false", "True"], "Empty": ["", " "],
         "Str": ["ab", "ba", "abc", "a1", "1", "12", "\u00e9"],
         "Enum": ["a", "z", "1", "true", "x"],
         "Bits": ["a b", "b a", "a a", "", "b", "a  b"],
         "Binary": ["QQ==", "QUI=", "QUJD", "aa", "aaaa", "\u00e9\u00e9"],
         "Idref": ["i1", "m:i1", "k:i1", "n:i1", "n:i3", "x:y", "b1"],
         "Leafref": ["0", "5", "6", "05"],
         "Union": ["a", "z", "true"]}


def raws(t, tier="quick"):
    """Candidate JSON values for type t."""
    res = list(SHAPES) + texts(t, tier)
    tt = t.t if isinstance(t, T.Leafref) else t
    if isinstance(tt, T.Int):
        res += tt.bounds() + [float(b) for b in (0, 1)]
    if isinstance(tt, T.Union):
        res += [0, 5, 6, 1.5, 2**64]
    out, seen = [], set()
    for r in res:
        k = repr(r)
        if k not in seen:
            seen.add(k)
            out.append(r)
    return out


def model_texts(types, use="leaf"):
    """YANG modules m, n defining one node of each type."""
    tds, nodes = "", ""
    tgts = {}
    for i, t in enumerate(types):
        td, ty = T.declare(t, f"t{i}")
        tds += td
        if isinstance(t, T.Leafref):
            tgts[t.path] = t.t
        for m in getattr(t, "members", ()):
            if isinstance(m, T.Leafref):
                tgts[m.path] = m.t
        if use == "leaf":
            nodes += f"leaf l{i} {{ {ty} }}\n"
        elif use == "list":
            nodes += (f"list l{i} {{ key k; leaf k {{ {ty} }} "
                      f"leaf v {{ type string; }} }}\n"
                      f"leaf-list e{i} {{ config false; {ty} }}\n")
        else:
            for j, d in enumerate(use[i]):
                nodes += f"leaf l{i}-{j} {{ {ty} default {T.q(d)}; }}\n"
    for p, t in tgts.items():
        nodes += f"leaf {p.split(':')[1]} {{ {T.inline(t)} }}\n"
    from mc.models import module
    ids = {m: "" for m in IMPORTS}
    for (m, n), bs in IDGRAPH.items():
        ids[m] += f"identity {n} {{" + "".join(
            f" base {b[1] if b[0] == m else b[0] + ':' + b[1]};"
            for b in sorted(bs)) + " }\n"
    ids["m"] += tds + nodes
    return {m: module(m, ids[m], imports=[(i, i) for i in IMPORTS[m]])
            for m in IMPORTS}
