"""Reference reader of YANG module texts (RFC 7950, sections 6.1, 6.3 and 14).

read(text) gives ("ok", tree), ("eof",) if the text is a proper prefix of a
correct text, or ("err", lo, hi): no correct text starts with text[:hi + 1],
and lo is where the token at fault starts.
Statements are (prefix, keyword, argument, [substatements]).
"""
import re

IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_.\-]*")
WS = " \t\n"
ESC = {"n": "\n", "t": "\t", '"': '"', "\\": "\\"}


class Err(Exception):
    pass


class Eof(Exception):
    pass


def legal(c):
    o = ord(c)
    if o < 0x20:
        return c in "\t\n\r"
    return not (0xd800 <= o <= 0xdfff or 0xfdd0 <= o <= 0xfdef or
                o & 0xfffe == 0xfffe)


def denoted(raw, column):
    """String denoted by the raw content of a double-quoted string whose
    initial quote is in the given column (counted from one)."""
    out = []
    i = 0
    while i < len(raw):
        c = raw[i]
        if c == "\n":
            cr = bool(out) and out[-1] == "\r"
            if cr:
                out.pop()
            while out and out[-1] in (" ", "\t"):
                out.pop()
            out += ["\r", "\n"] if cr else ["\n"]
            i += 1
            col = 0
            while i < len(raw) and raw[i] in " \t" and col < column:
                if raw[i] == "\t":
                    for _ in range(8):
                        if col >= column:
                            out.append(" ")
                        col += 1
                else:
                    col += 1
                i += 1
        elif c == "\\":
            out.append("\\" + raw[i + 1])
            i += 2
        else:
            out.append(c)
            i += 1
    return "".join(ESC[p[1]] if p[0] == "\\" else p for p in out)


class Reader:
    """quotes: unquoted strings may contain quotes (YANG version 1);
    comments: a comment separates a keyword from its argument."""

    def __init__(self, text, quotes=False, comments=False):
        self.t = text
        self.i = 0
        self.quotes = quotes
        self.comments = comments

    def at(self, k=0):
        if self.i + k >= len(self.t):
            raise Eof
        return self.t[self.i + k]

    def skip(self, final=False):
        """Skip separators; return (any, whitespace)."""
        start, ws = self.i, False
        while True:
            if final and self.i == len(self.t):
                return True, ws
            c = self.at()
            if c in WS:
                ws = True
                self.i += 1
            elif c == "\r":
                if self.at(1) != "\n":
                    raise Err(self.i, self.i + 1)
                ws = True
                self.i += 2
            elif c == "/" and self.t[self.i + 1:self.i + 2] in ("/", "*", ""):
                if self.at(1) == "/":
                    e = self.t.find("\n", self.i)
                    if e < 0:
                        if final:
                            self.i = len(self.t)
                            continue
                        raise Eof
                    self.i = e + 1
                    ws = True
                else:
                    e = self.t.find("*/", self.i + 2)
                    if e < 0:
                        raise Eof
                    self.i = e + 2
            else:
                return self.i > start, ws

    def ident(self):
        c = self.at()
        m = IDENT.match(self.t, self.i)
        if not m:
            lo = self.i
            # "/" that doesn't start a comment
            raise Err(lo, lo + 1 if c == "/" else lo)
        self.i = m.end()
        self.at()
        return m.group()

    def statement(self):
        pref, kw = None, self.ident()
        if self.at() == ":":
            self.i += 1
            pref, kw = kw, self.ident()
        lo = self.i
        sep, ws = self.skip()
        c = self.at()
        arg = None
        if c not in ";{":
            if not (ws or self.comments and sep):
                raise Err(lo, self.i + (c == "/"))
            arg = self.argument()
        if self.at() == ";":
            self.i += 1
            return (pref, kw, arg, [])
        self.i += 1
        subs = []
        while True:
            self.skip()
            if self.at() == "}":
                self.i += 1
                return (pref, kw, arg, subs)
            subs.append(self.statement())

    def argument(self):
        c = self.at()
        if c in "'\"":
            res = self.quoted()
            while True:
                self.skip()
                c = self.at()
                if c in ";{":
                    return res
                if c != "+":
                    raise Err(self.i, self.i + (c == "/"))
                self.i += 1
                self.skip()
                c = self.at()
                if c not in "'\"":
                    raise Err(self.i, self.i + (c == "/"))
                res += self.quoted()
        lo = self.i
        while True:
            c = self.at()
            if c in "; \t\r\n{}":
                break
            if c in "'\"" and not self.quotes:
                raise Err(lo, self.i)
            if c == "/":
                n = self.at(1)
                if n in "/*":
                    break
            if c == "*" and self.at(1) == "/":
                raise Err(lo, self.i + 1)
            self.i += 1
        res = self.t[lo:self.i]
        if not res:
            raise Err(lo, self.i)
        self.skip()
        c = self.at()
        if c not in ";{":
            raise Err(lo, self.i + (c == "/"))
        return res

    def quoted(self):
        q = self.at()
        lo = self.i
        self.i += 1
        start = self.i
        while True:
            c = self.at()
            if c == q:
                break
            if c == "\\" and q == '"':
                if self.at(1) not in ESC:
                    raise Err(lo, self.i + 1)
                self.i += 1
            self.i += 1
        raw = self.t[start:self.i]
        self.i += 1
        if q == "'":
            return raw
        line = self.t[self.t.rfind("\n", 0, lo) + 1:lo]
        return denoted(raw, sum(8 if c == "\t" else 1 for c in line) + 1)

    def read(self):
        bad = next((k for k, c in enumerate(self.t) if not legal(c)), None)
        try:
            try:
                self.skip()
                start = self.i
                res = self.statement()
                if res[0] or res[1] not in ("module", "submodule"):
                    raise Err(start, len(self.t))
                self.skip(True)
                if self.i < len(self.t):
                    c = self.at()
                    raise Err(self.i, self.i + (c == "/"))
                if bad is None:
                    return ("ok", res)
            except Err as e:
                if bad is None or e.args[1] < bad:
                    return ("err", *e.args)
        except Eof:
            pass
        if bad is not None:
            return ("err", 0, bad)
        return ("eof",)


def readings(text):
    """The correct readings: where the standard leaves a choice, several."""
    for q in (False, True):
        for c in (False, True):
            yield Reader(text, q, c).read()


def read(text):
    return Reader(text).read()
