"""XSD regular expressions: abstract syntax, text form, reference matcher.

AST: ("c", ch) literal, (".",), ("set", neg, items) with items single chars or
(lo, hi), ("d",) ("D",) ("s",) ("S",) ("w",) escapes, ("cat", a, b, ...),
("alt", a, b, ...), ("rep", a, lo, hi|None), ("eps",)
"""
META = set(".\\?*+{}()[]|-^$")   # ^ and $ are ordinary characters in XSD


def text(r, quote_ordinary=False):
    k = r[0]
    if k == "c":
        ch = r[1]
        if ch in ".\\?*+{}()[]|":
            return "\\" + ch
        if ch == "\n":
            return "\\n"
        return ch
    if k == ".":
        return "."
    if k in ("d", "D", "s", "S"):
        return "\\" + k
    if k == "set":
        s = ""
        for it in r[2]:
            if isinstance(it, tuple):
                s += f"{it[0]}-{it[1]}"
            else:
                s += "\\" + it if it in "\\[]-^" else it
        return "[" + ("^" if r[1] else "") + s + "]"
    if k == "eps":
        return ""
    if k == "cat":
        return "".join(f"({text(x)})" if x[0] == "alt" else text(x)
                       for x in r[1:])
    if k == "alt":
        return "|".join(text(x) for x in r[1:])
    if k == "rep":
        a = r[1]
        t = text(a)
        if a[0] in ("cat", "alt", "rep", "eps"):
            t = f"({t})"
        lo, hi = r[2], r[3]
        q = {(0, None): "*", (1, None): "+", (0, 1): "?"}.get((lo, hi))
        if q is None:
            q = "{%d}" % lo if lo == hi else (
                "{%d,}" % lo if hi is None else "{%d,%d}" % (lo, hi))
        return t + q
    raise AssertionError(r)


def one(r, ch):
    k = r[0]
    if k == "c":
        return ch == r[1]
    if k == ".":
        return ch not in "\n\r"
    if k == "d":
        return ch.isdecimal()
    if k == "D":
        return not ch.isdecimal()
    if k == "s":
        return ch in " \t\n\r"
    if k == "S":
        return ch not in " \t\n\r"
    if k == "set":
        hit = any(it[0] <= ch <= it[1] if isinstance(it, tuple) else ch == it
                  for it in r[2])
        return hit != r[1]
    raise AssertionError(r)


def ends(r, s, i):
    """Set of end positions of matches of r in s starting at i."""
    k = r[0]
    if k == "eps":
        return {i}
    if k == "cat":
        cur = {i}
        for x in r[1:]:
            cur = set().union(*[ends(x, s, j) for j in cur]) if cur else cur
        return cur
    if k == "alt":
        return set().union(*[ends(x, s, i) for x in r[1:]])
    if k == "rep":
        res, cur, n = set(), {i}, 0
        seen = set()
        if r[2] == 0:
            res |= cur
        while cur and (r[3] is None or n < r[3]):
            nxt = set()
            for j in cur:
                nxt |= ends(r[1], s, j)
            n += 1
            if n >= r[2]:
                res |= nxt
                nxt -= seen
                seen |= nxt
            cur = nxt
            if n > len(s) + r[2] + 2:
                break
        return res
    return {i + 1} if i < len(s) and one(r, s[i]) else set()


def match(r, s):
    return len(s) in ends(r, s, 0)
