"""Regular languages: the syntax of the `regex` crate (the part in use), NFA, DFA, equivalence."""

ALL = frozenset(range(129))       # 0..127 ASCII, 128 = any other character
POSIX = {
    "alpha": frozenset(list(range(65, 91)) + list(range(97, 123))),
    "digit": frozenset(range(48, 58)), "upper": frozenset(range(65, 91)), "lower": frozenset(range(97, 123)),
    "space": frozenset([9, 10, 11, 12, 13, 32]), "word": None, "alnum": None, "ascii": frozenset(range(128)),
    "blank": frozenset([9, 32]), "xdigit": frozenset(list(range(48, 58)) + list(range(65, 71)) + list(range(97, 103))),
    "punct": frozenset([c for c in range(33, 127) if not chr(c).isalnum()]),
}
POSIX["alnum"] = POSIX["alpha"] | POSIX["digit"]
POSIX["word"] = POSIX["alnum"] | {95}


class Unsupported(Exception):
    pass


class Parser:
    def __init__(self, s):
        self.s = s
        self.i = 0
        self.x = False
        self.ic = False
        self.ng = 0

    def peek(self):
        self.skip()
        return self.s[self.i] if self.i < len(self.s) else None

    def skip(self):
        while self.x and self.i < len(self.s):
            if self.s[self.i].isspace():
                self.i += 1
            elif self.s[self.i] == "#":
                while self.i < len(self.s) and self.s[self.i] != "\n":
                    self.i += 1
            else:
                break

    def parse(self):
        r = self.alt()
        if self.i != len(self.s):
            raise Unsupported(f"trailing `{self.s[self.i:]}`")
        return r

    def alt(self):
        x0 = (self.x, self.ic)
        bs = [self.seq()]
        while self.peek() == "|":
            self.i += 1
            bs.append(self.seq())
        self.x, self.ic = x0 if False else (self.x, self.ic)
        return bs[0] if len(bs) == 1 else ("alt", bs)

    def seq(self):
        out = []
        while True:
            c = self.peek()
            if c is None or c in "|)":
                break
            a = self.atom()
            if a is None:
                continue
            while True:
                q = self.peek()
                if q == "*":
                    a = ("rep", a, 0, None)
                elif q == "+":
                    a = ("rep", a, 1, None)
                elif q == "?":
                    a = ("rep", a, 0, 1)
                elif q == "{":
                    j = self.s.index("}", self.i)
                    body = self.s[self.i + 1:j]
                    if "," in body:
                        lo, hi = body.split(",")
                        a = ("rep", a, int(lo), int(hi) if hi.strip() else None)
                    else:
                        a = ("rep", a, int(body), int(body))
                    self.i = j
                else:
                    break
                self.i += 1
                if self.peek() == "?":      # lazy: same language
                    self.i += 1
            out.append(a)
        return ("seq", out)

    def atom(self):
        c = self.peek()
        self.i += 1
        if c == "(":
            cap = None
            keep = (self.x, self.ic)
            if self.s.startswith("?", self.i):
                j = self.i + 1
                fl = ""
                if self.s.startswith("P<", j) or (self.s.startswith("<", j)):
                    self.i = self.s.index(">", j) + 1
                    self.ng += 1
                    cap = self.ng
                else:
                    while self.s[j] not in ":)":
                        fl += self.s[j]
                        j += 1
                    on, _, off = fl.partition("-")
                    if set(on + off) - set("xiu"):
                        raise Unsupported(f"flags {fl}")
                    if "x" in on:
                        self.x = True
                    if "i" in on:
                        self.ic = True
                    if "x" in off:
                        self.x = False
                    if "i" in off:
                        self.ic = False
                    self.i = j + 1
                    if self.s[j] == ")":
                        return None
            else:
                self.ng += 1
                cap = self.ng
            r = self.alt()
            if self.peek() != ")":
                raise Unsupported("unbalanced (")
            self.i += 1
            self.x, self.ic = keep
            return ("grp", cap, r)
        if c == "[":
            return ("set", self.cls())
        if c == "\\":
            return self.esc()
        if c == ".":
            return ("set", ALL - {10})
        if c == "^":
            return ("bol",)
        if c == "$":
            return ("eol",)
        return ("set", self.chars(c))

    def chars(self, c):
        o = min(ord(c), 128)
        if self.ic and c.isalpha():
            return frozenset([min(ord(c.lower()), 128), min(ord(c.upper()), 128)])
        return frozenset([o])

    def esc(self):
        c = self.s[self.i]
        self.i += 1
        if c == "A":
            return ("bol",)
        if c == "z":
            return ("eol",)
        s = self.escset(c)
        return ("set", s)

    def escset(self, c):
        if c == "d":
            return POSIX["digit"]
        if c == "w":
            return POSIX["word"] | {128}
        if c == "s":
            return POSIX["space"]
        if c in "DWS":
            return ALL - self.escset(c.lower())
        m = {"n": 10, "t": 9, "r": 13, "f": 12, "v": 11}
        if c in m:
            return frozenset([m[c]])
        if c == "x":
            h = self.s[self.i:self.i + 2]
            self.i += 2
            return frozenset([min(int(h, 16), 128)])
        if c.isalnum():
            raise Unsupported(f"escape \\{c}")
        return frozenset([ord(c)])

    def cls(self):
        neg = False
        if self.s[self.i] == "^":
            neg = True
            self.i += 1
        out = set()
        first = True
        while True:
            c = self.s[self.i]
            if c == "]" and not first:
                self.i += 1
                break
            first = False
            if c == "[":
                if self.s.startswith("[:", self.i):
                    j = self.s.index(":]", self.i)
                    n = self.s[self.i + 2:j]
                    ng = n.startswith("^")
                    v = POSIX[n.lstrip("^")]
                    out |= (ALL - v) if ng else v
                    self.i = j + 2
                else:
                    self.i += 1
                    out |= self.cls()
                continue
            if self.s.startswith("&&", self.i) or self.s.startswith("--", self.i) or self.s.startswith("~~", self.i):
                raise Unsupported("set operations")
            self.i += 1
            if c == "\\":
                c2 = self.s[self.i]
                self.i += 1
                lo = self.escset(c2)
            else:
                if self.x and c.isspace():
                    continue
                lo = self.chars(c)
            if self.s[self.i] == "-" and self.s[self.i + 1] != "]" and len(lo) == 1:
                self.i += 1
                c = self.s[self.i]
                self.i += 1
                if c == "\\":
                    hi = self.escset(self.s[self.i])
                    self.i += 1
                else:
                    hi = frozenset([min(ord(c), 128)])
                out |= set(range(min(lo), max(hi) + 1))
            else:
                out |= lo
        r = frozenset(out)
        return ALL - r if neg else r


def parse(pat):
    return Parser(pat).parse()


def groups(ast):
    """{group: (sub-AST, always matched when the whole matches)}"""
    out = {}

    def go(n, must):
        if n[0] == "grp":
            if n[1] is not None:
                out[n[1]] = (n[2], must)
            go(n[2], must)
        elif n[0] == "seq":
            for x in n[1]:
                go(x, must)
        elif n[0] == "alt":
            for x in n[1]:
                go(x, False)
        elif n[0] == "rep":
            go(n[1], must and n[2] > 0)
    go(ast, True)
    return out


class NFA:
    def __init__(self):
        self.eps = []
        self.tr = []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def build(self, n):
        k = n[0]
        if k == "set":
            a, b = self.new(), self.new()
            self.tr[a].append((n[1], b))
            return a, b
        if k == "seq":
            a = b = self.new()
            for x in n[1]:
                c, d = self.build(x)
                self.eps[b].append(c)
                b = d
            return a, b
        if k == "alt":
            a, b = self.new(), self.new()
            for x in n[1]:
                c, d = self.build(x)
                self.eps[a].append(c)
                self.eps[d].append(b)
            return a, b
        if k == "grp":
            return self.build(n[2])
        if k == "rep":
            _, x, lo, hi = n
            parts = [x] * lo
            a = b = self.new()
            for y in parts:
                c, d = self.build(y)
                self.eps[b].append(c)
                b = d
            if hi is None:
                c, d = self.build(x)
                e = self.new()
                self.eps[b].append(e)
                self.eps[e].append(c)
                self.eps[d].append(e)
                return a, e
            e = self.new()
            self.eps[b].append(e)
            for _ in range(hi - lo):
                c, d = self.build(x)
                self.eps[b].append(c)
                self.eps[d].append(e)
                b = d
            return a, e
        raise Unsupported(k)


def strip_anchors(ast):
    """Whole-match language of an is_match pattern: a leading ^ / trailing $ are dropped, missing ones become .*"""
    if ast[0] == "alt":
        return ("alt", [strip_anchors(x) for x in ast[1]])
    xs = list(ast[1]) if ast[0] == "seq" else [ast]
    any_ = ("rep", ("set", ALL), 0, None)
    if len(xs) == 1 and xs[0][0] == "grp" and has_anchor(xs[0]):
        return strip_anchors(xs[0][2])
    if xs and xs[0] == ("bol",):
        xs = xs[1:]
    else:
        xs = [any_] + xs
    if xs and xs[-1] == ("eol",):
        xs = xs[:-1]
    else:
        xs = xs + [any_]
    for x in xs:
        if has_anchor(x):
            raise Unsupported("inner anchor")
    return ("seq", xs)


def has_anchor(n):
    if n[0] in ("bol", "eol"):
        return True
    if n[0] in ("seq", "alt"):
        return any(has_anchor(x) for x in n[1])
    if n[0] == "grp":
        return has_anchor(n[2])
    if n[0] == "rep":
        return has_anchor(n[1])
    return False


class DFA:
    def __init__(self, ast):
        n = NFA()
        s, f = n.build(ast)

        def close(st):
            st = set(st)
            w = list(st)
            while w:
                x = w.pop()
                for y in n.eps[x]:
                    if y not in st:
                        st.add(y)
                        w.append(y)
            return frozenset(st)
        self.start = close([s])
        self.fin = f
        self.n = n
        self.close = close
        self.memo = {}

    def step(self, st, c):
        k = (st, c)
        r = self.memo.get(k)
        if r is None:
            r = self.close([b for a in st for cs, b in self.n.tr[a] if c in cs])
            self.memo[k] = r
        return r

    def acc(self, st):
        return self.fin in st

    def accepts(self, s):
        st = self.start
        for ch in s:
            st = self.step(st, min(ord(ch), 128))
        return self.acc(st)


def show(c):
    return "\u00e9" if c == 128 else chr(c)


def differ(a, b):
    """None when the two ASTs have the same language, else a word in exactly one of them."""
    A, B = DFA(a), DFA(b)
    seen = {(A.start, B.start): ""}
    w = [(A.start, B.start)]
    while w:
        nw = []
        for p, q in w:
            if A.acc(p) != B.acc(q):
                return seen[(p, q)], A.acc(p)
            cls = {}
            for c in sorted(ALL, key=lambda c: (not (97 <= c < 123), c)):
                k = (A.step(p, c), B.step(q, c))
                if k not in seen:
                    seen[k] = seen[(p, q)] + show(c)
                    nw.append(k)
        w = nw
    return None


def included(a, b):
    """None when L(a) is within L(b), else a word of a outside b."""
    A, B = DFA(a), DFA(b)
    seen = {(A.start, B.start): ""}
    w = [(A.start, B.start)]
    while w:
        nw = []
        for p, q in w:
            if A.acc(p) and not B.acc(q):
                return seen[(p, q)]
            for c in sorted(ALL, key=lambda c: (not (97 <= c < 123), c)):
                k = (A.step(p, c), B.step(q, c))
                if k not in seen:
                    seen[k] = seen[(p, q)] + show(c)
                    nw.append(k)
        w = nw
    return None


ID = r"_*[A-Za-z][A-Za-z0-9_]*"
NS = ID + r"(\." + ID + ")*"
SHAPE = NS + "#" + ID + r"(\$" + ID + ")?"
