"""C13: module texts parse into the statement trees that they denote."""
import itertools
import time

from mc import models
from mc.models import libtext, module
from mc.ref import yangtext
from yangson.datamodel import DataModel
from yangson.exceptions import (EndOfInput, ParserException, UnexpectedInput,
                                YangsonException)
from yangson.statement import ModuleParser

PROPERTY = "C13"
ASSUMPTIONS = [
    "quotes within an unquoted string (not at its start) may be rejected "
    "(YANG 1.1) or taken literally (YANG 1)",
    "a comment may or may not separate a keyword from its argument",
    "a tab counts for eight columns",
    "a line comment may end with the text",
    "which statements, and how many, are allowed where isn't part of this "
    "property",
]

# name -> (prefix, alphabet, tail that is appended to every string, bounds)
CONTEXTS = {
    "argument": ("module m{k ", "'\"\\na/*+ \n;{}", "", (5, 7)),
    "argument-end": ("module m{k ", "'\"\\na/*+ \n;{", ";}", (5, 6)),
    "concat": ("module m{k \"a\"", "'\"+ a/*\n;{}\\", "", (5, 7)),
    "concat2": ("module m{k ''+\"\"", "'\"+ a/*;{", ";}", (5, 6)),
    "layout": ("module m{k \"", "a \t\n\r\\nt\"", "\";}", (5, 6)),
    "layout1": ("module m{\n k \"b", "a \t\n\r\\\"", "\";}", (6, 7)),
    "layout-tab": ("module m{\n\tk \"", " \t\na", "\";}", (7, 8)),
    "layout-col1": ("module m{k\n\"", " \t\na\r", "\";}", (6, 7)),
    "layout-far": ("module m{ /*.....*/ k \"", " \t\na", "\n\t\t\ta\";}",
                   (6, 7)),
    "layout-second": ("module m{k \"a\n \"\n + \"", "\t \na\"+", "\";}",
                      (6, 7)),
    "between": ("module m{k a;", "/* \n\rk:;{}\"a", "", (5, 6)),
    "between-end": ("module m{k a;", "/* \n\rk;{", "}", (5, 6)),
    "comment": ("module m{/*", "/*\nk;\"'} ", ";}", (5, 7)),
    "line-comment": ("module m{//", "/*\nk;\"'} \r", "\n}", (5, 7)),
    "keyword": ("module m{", "k:-.1_ /;{}\"", "", (5, 6)),
    "keyword-end": ("module m{", "k:-.1_ /\n\té", " a;}", (5, 6)),
    "start": ("", "/* \n\rxm;", "module m{}", (5, 6)),
    "end": ("module m{}", "/* \n\tm;\r}", "", (6, 7)),
    "whole": ("", "module ;{} /", "", (4, 5)),
    "head": ("", ["module", "sub", "p:", "m", " ", ";", "{", "}", "\"m\"",
                  "/**/"], "", (5, 6)),
}
CLOSERS = [";}", "\";}", "';}", "*/;}", "\n;}", "}", "\"", "a;}"]
CHARS = [chr(i) for i in range(0x21)] + [
    "\x7f", "\x80", "\x85", "\xa0", "\u2028", "\ud7ff", "\ud800", "\udfff",
    "\ue000", "\ufdcf", "\ufdd0", "\ufdef", "\ufdf0", "\ufeff", "\ufffd",
    "\ufffe", "\uffff", "\U00010000", "\U0001fffe", "\U0001ffff",
    "\U0010fffd", "\U0010ffff", "é", "\u0130", "\u3000"]
SPOTS = ["{}module m{{k a;}}", "module{}m{{k a;}}", "module m{}{{k a;}}",
         "module m{{{}k a;}}", "module m{{k{}a;}}", "module m{{k a{};}}",
         "module m{{k b{}c;}}", "module m{{k '{}';}}", "module m{{k \"{}\";}}",
         "module m{{k 'a'{};}}", "module m{{k 'a'{}+ 'b';}}",
         "module m{{k a;{}}}", "module m{{k a;}}{}", "module m{{k{}:l a;}}",
         "module m{{//{}\n}}", "module m{{/*{}*/}}", "module m{{k{} a;}}",
         "module m{{k \"\\{}\";}}", "module m{{k \"a\n{} b\";}}"]


def tree(st):
    return (st.prefix, st.keyword, st.argument,
            [tree(s) for s in st.substatements])


def linked(st):
    for s in st.substatements:
        if s.superstmt is not st or not linked(s):
            return False
    return True


def observe(text):
    p = ModuleParser(text)
    try:
        st = p.parse()
    except EndOfInput as e:
        return ("eof", p.offset, str(e))
    except UnexpectedInput as e:
        return ("err", p.offset, str(e))
    except Exception as e:
        return ("exc", type(e).__name__, str(e)[:80])
    if st.superstmt is not None or not linked(st):
        return ("exc", "links", "superstatements are wrong")
    return ("ok", tree(st))


def position(text, off, msg):
    if not 0 <= off <= len(text):
        return f"offset {off} is outside of the text"
    if "\n" in text:
        ln = text.count("\n", 0, off) + 1
        col = off - (text.rfind("\n", 0, off) + 1)
        want = f"line {ln}, column {col}"
    else:
        want = text[:off] + "§" + text[off:]
    if not (msg == want or msg.startswith(want + ": ")):
        return f"message {msg!r} doesn't give the position {want!r}"
    return None


def judge(text, exp, got):
    if got[0] == "exc":
        return f"{got[1]}: {got[2]}"
    if exp[0] == "eof" and got[0] == "err" and got[1] == len(text):
        return position(text, got[1], got[2])
    if exp[0] != got[0]:
        return f"{got} instead of {exp}"
    if exp[0] == "ok":
        return None if exp == got else f"{got[1]} instead of {exp[1]}"
    if exp[0] == "err" and not exp[1] <= got[1] <= exp[2]:
        return f"error at {got[1]} instead of {exp[1:]}"
    return position(text, got[1], got[2])


def check(text):
    """(reading, message or None)."""
    got = observe(text)
    exp = yangtext.read(text)
    bad = judge(text, exp, got)
    if bad and any(not judge(text, e, got)
                   for e in yangtext.readings(text)):
        bad = None
    # a wrong keyword at the top: the error may come early or late
    if bad and exp[0] == "err" and exp[2] == len(text) and got[0] == "err":
        bad = position(text, got[1], got[2])
    return exp, bad


def words(g, rec):
    prefix, alphabet, tail, ns = CONTEXTS[g["context"]]
    depth = ns[g["deep"]]
    stack = [(g["first"],)]
    while stack:
        w = stack.pop()
        text = prefix + "".join(w) + tail
        exp, bad = check(text)
        rec.state()
        rec.step()
        rec.outcomes[exp[0]] = rec.outcomes.get(exp[0], 0) + 1
        if bad:
            rec.fail({"text": text}, f"{text!r}: {bad}")
        else:
            rec.agreed += 1
        dead = False
        if tail:
            e = yangtext.read(prefix + "".join(w))
            dead = e[0] == "err" and e[2] < len(prefix) + len("".join(w))
        else:
            dead = exp[0] == "err" and exp[2] < len(text)
        if dead:
            # no continuation is correct: some of them, to see that the error
            # isn't forgotten
            for c in CLOSERS:
                text = prefix + "".join(w) + c
                e2, bad = check(text)
                rec.step()
                if bad:
                    rec.fail({"text": text}, f"{text!r}: {bad}")
                else:
                    rec.agreed += 1
            continue
        if len(w) < depth:
            stack.extend(w + (a,) for a in alphabet)


# -- every way to write a string -------------------------------------------

STRINGS = ["", "a", "a b", "'", "\"", "'\"", "\\", "\\n", "a\\", "\n", "\t",
           "a\n  b", " a", "a ", "a \n b", "//", "/* x */", "a//b", "x*/",
           "/", "a/", "+", "a+b", ";", "{", "}", "a;b", "é\u3000",
           "https://a.b/c", "a'b\"c\\d", "^[a-z]+\\.$", "a" * 5, "\\\"",
           "\n\n", "k 'x';", "-1..10 | 20", "\r\n", "a\r\nb", "/a:b/c"]
GLUE = ["+", " + ", "\n+\n", " /* + */ + // '\n "]


def unquoted(s):
    return (s and not any(c in s for c in " \t\r\n'\";{}") and
            not any(q in s for q in ("//", "/*", "*/")))


def dq(s, style):
    """A double-quoted string; style 0: escapes for line ends and tabs,
    1: literal tabs, literal line ends where possible."""
    out = []
    for i, c in enumerate(s):
        if c in "\"\\":
            out.append("\\" + c)
        elif c == "\n" and (style == 0 or i and s[i - 1] in " \t\r" or
                            s[i + 1:i + 2] in (" ", "\t")):
            out.append("\\n")
        elif c == "\t" and style == 0:
            out.append("\\t")
        else:
            out.append(c)
    return '"' + "".join(out) + '"'


def quotings(s):
    if "'" not in s:
        yield f"'{s}'"
    yield dq(s, 0)
    if "\n" in s or "\t" in s:
        yield dq(s, 1)


def writings(s, parts):
    if unquoted(s):
        yield s
    for n in range(1, parts + 1):
        for cuts in itertools.combinations_with_replacement(
                range(len(s) + 1), n - 1):
            bs = (0,) + cuts + (len(s),)
            ps = [list(quotings(s[a:b])) for a, b in zip(bs, bs[1:])]
            for ws in itertools.product(*ps):
                for g in GLUE if n > 1 else GLUE[:1]:
                    yield g.join(ws)


def strings(g, rec):
    s = STRINGS[g["string"]]
    for w in writings(s, g["parts"]):
        for pre, post in (("module m{k ", ";}"), ("module m{\n  x:k\t", " {}}"),
                          ("module m{k\n", "\r\n/**/;//\n}")):
            text = pre + w + post
            pref = "x" if "x:k" in pre else None
            want = ("ok", (None, "module", "m", [(pref, "k", s, [])]))
            got = observe(text)
            rec.state()
            rec.step()
            if got == want:
                rec.agreed += 1
            else:
                rec.fail({"text": text, "want": s}, f"{text!r}: {got} instead "
                         f"of the argument {s!r}")


# -- separators in every pair of gaps ---------------------------------------

SHAPE = ["", "module", " ", "m", "", "{", "", "k", " ", "'a'", "", "+", "",
         "\"b\"", "", "{", "", "x:l", " ", "c/d", "", ";", "", "z", "", ";",
         "", "}", "", "n", " ", "q", "", "{", "", "}", "", "}", ""]
GAPS = [" ", "\n", "\r\n", "\t", "/**/", "/* k '\" */ ", "// ; }\n", " //\n ",
        "/***/\n", "/*/*/ ", "\n/* \n */\t"]
SHAPETREE = (None, "module", "m", [
    (None, "k", "ab", [("x", "l", "c/d", []), (None, "z", None, [])]),
    (None, "n", "q", [])])


def gaps(g, rec):
    idx = [i for i in range(0, len(SHAPE), 2)]
    i = g["gap"]
    for j in [k for k in idx if k > i] or [i]:
        for a in GAPS:
            for b in GAPS:
                parts = list(SHAPE)
                for k, s in ((i, a), (j, b)):
                    need = SHAPE[k] == " "
                    parts[k] = s if not need or s[0] in " \n\r\t" \
                        else " " + s
                    # a slash would join the comment
                    if k and SHAPE[k - 1] == "c/d" and s[0] == "/":
                        parts[k] = " " + s
                text = "".join(parts)
                got = observe(text)
                rec.state()
                rec.step()
                if got == ("ok", SHAPETREE):
                    rec.agreed += 1
                else:
                    rec.fail({"text": text}, f"{text!r}: {got}")


def chars(g, rec):
    spot = SPOTS[g["spot"]]
    for c in CHARS:
        for c2 in ("", "a", " ", c):
            text = spot.format(c + c2)
            exp, bad = check(text)
            rec.state()
            rec.step()
            if bad:
                rec.fail({"text": text}, f"{text!r}: {bad}")
            else:
                rec.agreed += 1


# -- truncation and single-character faults ----------------------------------

TEXT = """module m {
  namespace "urn:m"; // first
  prefix 'm';
  leaf l { /* c * / */
    type string { pattern "a\\\\.b" + '[\\d]'
      + "\n        x\\n" { x:y; } }
    description "two
                 lines";
  }
}
// end
"""


def faults(g, rec):
    for i in range(g["part"], len(TEXT) + 1, g["parts"]):
        for cut in range(g["cuts"] + 1):
            for ins in ([""] if cut else []) + list("'\"\\/*+;{} \n\ra") + [
                    "//", "/*", "*/"]:
                text = TEXT[:i] + ins + TEXT[i + cut:]
                exp, bad = check(text)
                rec.state()
                rec.step()
                if bad:
                    rec.fail({"text": text}, f"{text!r}: {bad}")
                else:
                    rec.agreed += 1
        for text in (TEXT[:i], TEXT[i:]):
            exp, bad = check(text)
            rec.step()
            if bad:
                rec.fail({"text": text}, f"{text!r}: {bad}")
            else:
                rec.agreed += 1


# -- size ---------------------------------------------------------------------

def big(name, n):
    return {
        "escapes": ("module m{k \"" + "\\\"" * n + "\";}", "\"" * n),
        "backslashes": ("module m{k \"" + "\\\\" * n + "\";}", "\\" * n),
        "parts": ("module m{k 'a'" + " + 'a'" * n + ";}", "a" * (n + 1)),
        "empty-parts": ("module m{k ''" + "+\"\"" * n + ";}", ""),
        "lines": ("module m{k \"" + "a  \n   " * n + "\";}",
                  "a\n" * n),
        "string": ("module m{k '" + "a" * n + "';}", "a" * n),
        "comment": ("module m{/*" + "* " * n + "*/k b;}", "b"),
        "comments": ("module m{" + "/**/" * n + "//\n" * n + "k b;}", "b"),
        "final": ("module m{k b;}" + "/* x */" * n + "//\n" * n, "b"),
        "final-comment": ("module m{k b;}/*" + "x*" * n + "*/", "b"),
        "stars": ("module m{k b;}/*" + "*" * n + "/", "b"),
        "spaces": ("module m{" + " \n" * n + "k b;}", "b"),
        "siblings": ("module m{" + "k b;" * n + "}", None),
    }[name]


BIG = ["escapes", "backslashes", "parts", "empty-parts", "lines", "string",
       "comment", "comments", "final", "final-comment", "stars", "spaces",
       "siblings"]


def size(g, rec):
    for n in g["sizes"]:
        text, want = big(g["what"], n)
        t0 = time.time()
        got = observe(text)
        dt = time.time() - t0
        rec.state()
        rec.step()
        case = {"big": g["what"], "size": n}
        if got[0] != "ok":
            rec.fail(case, f"{g['what']} {n}: {str(got)[:100]}")
        elif want is None and len(got[1][3]) != n or (
                want is not None and got[1][3] != [(None, "k", want, [])]):
            rec.fail(case, f"{g['what']} {n}: wrong tree")
        elif dt > 20:
            rec.fail(case, f"{g['what']} {n}: takes {dt:.0f} s")
        else:
            rec.agreed += 1
    if g["what"] == "siblings":
        for n in range(1, g["nest"] + 1):
            text = "module m{" + "k a{" * n + "}" * n + "}"
            got = observe(text)
            rec.state()
            rec.step()
            if got != yangtext.read(text):
                rec.fail({"text": text}, f"{n} nested statements: "
                         f"{str(got)[:100]}")
            else:
                rec.agreed += 1


# -- through files and data models --------------------------------------------

def files(g, rec):
    end = g["end"]
    for s in STRINGS:
        if "\r" in s:
            continue
        for w in writings(s, 2):
            text = module("a", f'leaf l {{ description\n  {w}; '
                          f'type string; default {w}; }}')
            text = text.replace("\n", end) if "\n" not in s else text
            d = models.moddir({"a": text})
            rec.state()
            rec.step()
            case = {"file": text, "want": s}
            bad = filecheck(text, s, d)
            if bad:
                rec.fail(case, bad)
            else:
                rec.agreed += 1


def filecheck(text, s, d):
    try:
        dm = DataModel(libtext([{"name": "a"}]), [d])
    except YangsonException as e:
        return f"{text!r}: {type(e).__name__}: {e}"
    n = dm.get_data_node("/a:l")
    if n.default != s or n.description != s:
        return (f"{text!r}: default {n.default!r}, description "
                f"{n.description!r} instead of {s!r}")
    return None


KINDS = {"words": words, "strings": strings, "gaps": gaps, "chars": chars,
         "faults": faults, "size": size, "files": files}


def run_group(g, rec):
    KINDS[g["kind"]](g, rec)


def bounds(tier):
    d = tier == "thorough"
    return {"contexts": {k: {"alphabet": list(v[1]), "length": v[3][d]}
                         for k, v in CONTEXTS.items()},
            "strings": f"{len(STRINGS)} strings in every writing with up to "
            f"{3 if d else 2} parts",
            "separators": f"{len(GAPS)} separators in every pair of gaps",
            "characters": f"{len(CHARS)} characters in {len(SPOTS)} places",
            "faults": f"every replacement of up to {2 if d else 1} characters "
            "of a module by one token, every truncation"}


def groups(tier):
    d = tier == "thorough"
    res = [{"kind": "words", "context": c, "first": a, "deep": int(d)}
           for c, v in CONTEXTS.items() for a in v[1]]
    res += [{"kind": "strings", "string": i, "parts": 3 if d else 2}
            for i in range(len(STRINGS))]
    res += [{"kind": "gaps", "gap": i} for i in range(0, len(SHAPE), 2)]
    res += [{"kind": "chars", "spot": i} for i in range(len(SPOTS))]
    res += [{"kind": "faults", "part": i, "parts": 16, "cuts": 1 + d}
            for i in range(16)]
    res += [{"kind": "size", "what": b, "nest": 150,
             "sizes": [10, 2000, 20000]} for b in BIG]
    res += [{"kind": "files", "end": e} for e in ("\n", "\r\n")]
    return res


def replay(case):
    if "big" in case:
        text, want = big(case["big"], case["size"])
        got = observe(text)
        return None if got[0] == "ok" else str(got)[:200]
    if "file" in case:
        return filecheck(case["file"], case["want"],
                         models.moddir({"a": case["file"]}))
    if "want" in case:
        got = observe(case["text"])
        return None if got[0] == "ok" and got[1][3][0][2] == case["want"] \
            else str(got)
    return check(case["text"])[1]
