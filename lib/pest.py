"""The pest grammars of the repository: parsed, and read as regular languages where they are."""
import re

TOK = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|(?P<lit>\^?"(?:\\.|[^"\\])*")|(?P<ch>'(?:\\u\{[0-9a-fA-F]+\}|\\.|[^'\\])')"""
                 r"""|(?P<id>[A-Za-z_]\w*)|(?P<rep>\{\d*\s*,?\s*\d*\})|(?P<op>\.\.|[={}()~|*+?!&_@$^#.-])""", re.S)
BUILTIN = {"ASCII_ALPHA": [("a", "z"), ("A", "Z")], "ASCII_DIGIT": [("0", "9")], "ASCII_NONZERO_DIGIT": [("1", "9")],
           "ASCII_HEX_DIGIT": [("0", "9"), ("a", "f"), ("A", "F")], "ASCII_ALPHANUMERIC": [("a", "z"), ("A", "Z"), ("0", "9")]}


class Bad(Exception):
    pass


def unesc(s):
    def one(m):
        x = m.group(1)
        if x[0] == "u":
            return chr(int(x[2:-1], 16))
        if x[0] == "x":
            return chr(int(x[1:], 16))
        return {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(x, x)
    return re.sub(r"\\(u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)", one, s, flags=re.S)


def tokens(text):
    i, out = 0, []
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise Bad(f"grammar not understood at {text[i:i + 20]!r}")
        if m.lastgroup:
            out.append((m.lastgroup, m.group(0), text.count("\n", 0, i) + 1))
        i = m.end()
    return out


class Grammar:
    """rules: {name: (modifier, node, line)}; nodes: ('lit', s) ('cls', [(a, b)]) ('ref', n) ('seq', [..]) ('alt', [..])
    ('rep', node, min, max) ('not', node) ('and', node)"""

    def __init__(self, path):
        self.path = path
        self.t, self.i = tokens(open(path, encoding="utf-8").read()), 0
        self.rules = {}
        while self.i < len(self.t):
            ln = self.t[self.i][2]
            n = self.take("id")
            self.op("=")
            mod = ""
            k, s, _ = self.t[self.i]
            if k == "op" and s in "@$!":
                mod, self.i = s, self.i + 1
            elif k == "id" and s == "_":
                mod, self.i = "_", self.i + 1
            self.op("{")
            node = self.alt()
            self.op("}")
            self.rules[n] = (mod, node, ln)

    def peek(self):
        return self.t[self.i][:2] if self.i < len(self.t) else (None, None)

    def take(self, kind):
        k, s, _ = self.t[self.i]
        if k != kind:
            raise Bad(f"grammar: {kind} expected, {s!r} found")
        self.i += 1
        return s

    def op(self, o):
        if self.peek() != ("op", o):
            raise Bad(f"grammar: {o!r} expected, {self.peek()[1]!r} found")
        self.i += 1

    def alt(self):
        if self.peek() == ("op", "|"):
            self.i += 1
        xs = [self.seq()]
        while self.peek() == ("op", "|"):
            self.i += 1
            xs.append(self.seq())
        return xs[0] if len(xs) == 1 else ("alt", xs)

    def seq(self):
        xs = [self.term()]
        while self.peek() == ("op", "~"):
            self.i += 1
            xs.append(self.term())
        return xs[0] if len(xs) == 1 else ("seq", xs)

    def term(self):
        k, s = self.peek()
        if (k, s) in (("op", "!"), ("op", "&")):
            self.i += 1
            return ("not" if s == "!" else "and", self.term())
        if (k, s) == ("op", "("):
            self.i += 1
            n = self.alt()
            self.op(")")
        elif k == "lit":
            self.i += 1
            n = ("lit", unesc(s[s.index('"') + 1:-1]))
        elif k == "ch":
            self.i += 1
            a = unesc(s[1:-1])
            b = a
            if self.peek() == ("op", ".."):
                self.i += 1
                b = unesc(self.take("ch")[1:-1])
            n = ("cls", [(a, b)])
        elif k == "id":
            self.i += 1
            n = ("ref", s)
        else:
            raise Bad(f"grammar: unexpected {s!r}")
        while True:
            k, s = self.peek()
            if k == "op" and s in "*+?":
                self.i += 1
                n = ("rep", n, 1 if s == "+" else 0, 1 if s == "?" else None)
            elif k == "rep" and len(s) > 2:
                self.i += 1
                a, c, b = s[1:-1].replace(" ", "").partition(",")
                lo = int(a or 0)
                n = ("rep", n, lo, (int(b) if b else None) if c else lo)
            else:
                return n

    def children(self, rule):
        """Names of the rules whose pairs may appear directly below a pair of this rule."""
        out = set()
        if self.rules[rule][0] == "@":
            return out
        seen = set()

        def go(n):
            k = n[0]
            if k == "ref":
                r = n[1]
                if r in self.rules:
                    if self.rules[r][0] == "_":
                        if r not in seen:
                            seen.add(r)
                            go(self.rules[r][1])
                    else:
                        out.add(r)
                elif r == "EOI":
                    out.add(r)
            elif k in ("seq", "alt"):
                for x in n[1]:
                    go(x)
            elif k == "rep":
                go(n[1])
        go(self.rules[rule][1])
        return out

    def reachable(self, top):
        out, work = set(), [top]
        while work:
            r = work.pop()
            if r in out or r not in self.rules:
                continue
            out.add(r)
            work += list(self.refs(self.rules[r][1]))
        return out

    def refs(self, n):
        k = n[0]
        if k == "ref":
            return {n[1]}
        if k in ("seq", "alt"):
            return set().union(*[self.refs(x) for x in n[1]])
        if k in ("rep", "not", "and"):
            return self.refs(n[1])
        return set()

    def literals(self, n, depth=0):
        """The finite set of words of a node, or None."""
        k = n[0]
        if k == "lit":
            return {n[1]}
        if k == "ref" and n[1] in self.rules and depth < 12:
            return self.literals(self.rules[n[1]][1], depth + 1)
        if k == "alt":
            out = set()
            for x in n[1]:
                w = self.literals(x, depth + 1)
                if w is None:
                    return None
                out |= w
            return out
        if k == "seq":
            out = {""}
            for x in n[1]:
                w = self.literals(x, depth + 1)
                if w is None or len(w) > 40:
                    return None
                out = {a + b for a in out for b in w}
            return out
        return None

    def alternatives(self):
        """Every ordered choice: (rule, line, [alternatives])."""
        out = []

        def go(r, ln, n):
            k = n[0]
            if k == "alt":
                out.append((r, ln, n[1]))
            if k in ("seq", "alt"):
                for x in n[1]:
                    go(r, ln, x)
            elif k in ("rep", "not", "and"):
                go(r, ln, n[1])
        for r, (m, n, ln) in self.rules.items():
            go(r, ln, n)
        return out

    def language(self, n, depth=0):
        """The node as an expression of lib/lang (order of choice and predicates left out: a superset), or None."""
        import lang
        k = n[0]
        if k == "lit":
            return ("seq", [("set", frozenset([min(ord(c), 128)])) for c in n[1]])
        if k == "cls":
            out = set()
            for a, b in n[1]:
                out |= set(range(ord(a), min(ord(b), 127) + 1)) | ({128} if ord(b) > 127 else set())
            return ("set", frozenset(out))
        if k in ("not", "and"):
            return ("seq", [])
        if k == "ref":
            if n[1] in BUILTIN:
                return self.language(("cls", BUILTIN[n[1]]), depth)
            if n[1] == "ANY":
                return ("set", lang.ALL)
            if n[1] in ("SOI", "EOI"):
                return ("seq", [])
            if n[1] in self.rules and depth < 12:
                return self.language(self.rules[n[1]][1], depth + 1)
            return None
        if k in ("seq", "alt"):
            xs = [self.language(x, depth) for x in n[1]]
            return None if None in xs else (k, xs)
        if k == "rep":
            x = self.language(n[1], depth)
            return None if x is None else ("rep", x, n[2], n[3])
        return None
