"""Parse trees as the grammar makes them: a typestate analysis of pest cursors.

Every rule of the grammar gives an automaton of the rules of its direct children.  A `Pair` is abstracted by the rules it
may be of, a `Pairs` iterator by the states of those automata, and the readers are followed path by path (rustc MIR,
through calls and closures) over every tree the grammar can produce."""
from cfg import CFG

CAP = 600
TOP = None


class Automata:
    def __init__(self, g):
        self.g = g
        self.eps, self.step_ = [], []
        self.start, self.final = {}, {}
        for r, (mod, node, _) in g.rules.items():
            s = self.new()
            self.start[r] = s
            self.final[r] = self.build(node, s, (), False) if mod != "@" else s

    def new(self):
        self.eps.append(set())
        self.step_.append({})
        return len(self.eps) - 1

    def nullable(self, n, seen=()):
        k = n[0]
        if k == "lit":
            return n[1] == ""
        if k == "cls":
            return False
        if k == "ref":
            if n[1] in seen:
                return False
            if n[1] in self.g.rules:
                return self.nullable(self.g.rules[n[1]][1], seen + (n[1],))
            return n[1] in ("SOI", "EOI")
        if k == "seq":
            return all(self.nullable(x, seen) for x in n[1])
        if k == "alt":
            return any(self.nullable(x, seen) for x in n[1])
        if k == "rep":
            return n[2] == 0 or self.nullable(n[1], seen)
        return True

    def surely(self, n, seen=()):
        """Always matches (perhaps nothing)."""
        k = n[0]
        if k == "lit":
            return n[1] == ""
        if k == "ref":
            return n[1] in self.g.rules and n[1] not in seen and self.surely(self.g.rules[n[1]][1], seen + (n[1],))
        if k == "seq":
            return all(self.surely(x, seen) for x in n[1])
        if k == "alt":
            return any(self.surely(x, seen) for x in n[1])
        return k == "rep" and (n[2] == 0 or self.surely(n[1], seen))

    def build(self, n, s, inl, more):
        """`more`: what follows takes at least one character, so the end of the text cannot come before it."""
        k = n[0]
        if k in ("lit", "cls", "not", "and"):
            return s
        if k == "ref":
            r = n[1]
            if r in self.g.rules:
                mod = self.g.rules[r][0]
                if mod == "_":
                    if r in inl:
                        return s                  # a recursive silent rule: not expressible, read as nothing
                    return self.build(self.g.rules[r][1], s, inl + (r,), more)
                e = self.new()
                self.step_[s].setdefault(r, set()).add(e)
                return e
            if r == "EOI":
                e = self.new()
                if more:
                    return e
                self.step_[s].setdefault(r, set()).add(e)
                return e
            return s
        if k == "seq":
            for i, x in enumerate(n[1]):
                s = self.build(x, s, inl, more or not all(self.nullable(y) for y in n[1][i + 1:]))
            return s
        if k == "alt":
            e = self.new()
            for x in n[1]:
                a = self.new()
                self.eps[s].add(a)
                self.eps[self.build(x, a, inl, more)].add(e)
            return e
        if k == "rep":
            if n[2] == 0 and n[3] == 1 and self.surely(n[1]):
                return self.build(n[1], s, inl, more)        # what always matches is not optional
            for _ in range(min(n[2], 4)):
                s = self.build(n[1], s, inl, more)
            if n[3] is None:
                a = self.new()
                self.eps[s].add(a)
                self.eps[self.build(n[1], a, inl, more)].add(a)
                e = self.new()
                self.eps[a].add(e)
                return e
            e = self.new()
            self.eps[s].add(e)
            for _ in range(min(n[3] - n[2], 4)):
                a = self.new()
                self.eps[s].add(a)
                s = self.build(n[1], a, inl, more)
                self.eps[s].add(e)
            return e
        raise AssertionError(k)

    def close(self, ss):
        out, work = set(ss), list(ss)
        while work:
            for t in self.eps[work.pop()]:
                if t not in out:
                    out.add(t)
                    work.append(t)
        return frozenset(out)

    def begin(self, rule):
        if rule not in self.start:
            return (rule, frozenset())
        return (rule, self.close({self.start[rule]}))

    def top(self, rule):
        """What parsing a text as `rule` yields: one pair of that rule."""
        n = "<" + rule + ">"
        if n not in self.start:
            s = self.new()
            e = self.new()
            self.step_[s][rule] = {e}
            self.start[n], self.final[n] = s, e
        return self.begin(n)

    def can_end(self, st):
        return st[0] not in self.final or self.final[st[0]] in st[1] or not st[1]

    def moves(self, st):
        out = {}
        for x in st[1]:
            for r, ts in self.step_[x].items():
                out.setdefault(r, set()).update(ts)
        return {r: (st[0], self.close(ts)) for r, ts in out.items()}

    def rest(self, st):
        """Every rule that may still come."""
        out, seen, work = set(), {st}, [st]
        while work:
            for r, t in self.moves(work.pop()).items():
                out.add(r)
                if t not in seen:
                    seen.add(t)
                    work.append(t)
        return out


def live(blocks, cfg):
    """The locals that may still be read, at the entry of each block."""
    use, kill = [], []

    def places(x, out):
        if isinstance(x, dict):
            if "p" in x and isinstance(x["p"], list):
                out.add(x["p"][0])
            return
        if isinstance(x, list):
            if x and isinstance(x[0], int) and all(y == "*" or isinstance(y, list) for y in x[1:]):
                out.add(x[0])
            for y in x:
                places(y, out)
    for bl in blocks:
        u, k = set(), set()
        for s in bl["s"]:
            if not isinstance(s[0], list) or not isinstance(s[1], list):
                continue
            r = set()
            places(s[1], r)
            if len(s[0]) > 1:
                r.add(s[0][0])
            u |= r - k
            if len(s[0]) == 1:
                k.add(s[0][0])
        t = bl["t"]
        if t[0] in ("call", "switch"):
            r = set()
            places(t[2] if t[0] == "call" else t[1], r)
            if t[0] == "call":
                places(t[1], r)
                if len(t[3]) > 1:
                    r.add(t[3][0])
            u |= r - k
        elif t[0] == "ret":
            u |= {0} - k
        use.append(u)
        kill.append(k | ({t[3][0]} if t[0] == "call" and len(t[3]) == 1 else set()))
    ins = [set(u) for u in use]
    changed = True
    while changed:
        changed = False
        for b in range(len(blocks) - 1, -1, -1):
            out = set()
            for _, tgt in cfg.succ[b]:
                out |= ins[tgt]
            new = use[b] | (out - kill[b])
            if new != ins[b]:
                ins[b] = new
                changed = True
    return ins


WRAP = {"Some": "Ok", "None": "Err", "Ok": "Ok", "Err": "Err", "Continue": "Ok", "Break": "Err"}
NAMES = {"Option": ("Some", "None"), "Result": ("Ok", "Err"), "ControlFlow": ("Continue", "Break")}
DISCR = {"Option": {"0": "Err", "1": "Ok"}, "Result": {"0": "Ok", "1": "Err"}, "ControlFlow": {"0": "Ok", "1": "Err"}}
SAME = {"as_ref", "as_mut", "clone", "cloned", "copied", "into_iter", "iter", "by_ref", "borrow", "borrow_mut", "deref",
        "deref_mut", "into", "from", "to_owned", "peekable", "fuse", "by_ref", "as_deref", "as_deref_mut"}


def ev(*vs):
    return ("E", frozenset(vs))


BOTH = ev(("Ok", TOP), ("Err", TOP))


class Cursor:
    """events: {(kind, fn key, line, detail)}; kind: 'missing' (a value taken that may not be there), 'refused' (an error
    made for a tree the grammar produces), 'panic' (an explicit panic), 'parsed' (a text read by a function and unwrapped)"""

    def __init__(self, db, autos, rule_adt, refuse, in_scope):
        self.db, self.a, self.rule_adt, self.refuse, self.in_scope = db, autos, rule_adt, refuse, in_scope
        self.events, self.memo, self.cfgs = {}, {}, {}
        self.sites = set()          # cursor operations followed
        self.visited = set()
        self.short_cut = False
        self.tops = set()
        self.steady, self.moved = {}, {}
        self.reached = set()
        vs = db.adts[rule_adt]["v"]
        self.rname = {str(v["d"]): v["n"] for v in vs}

    # ---- states: dict place -> value, frozen as a sorted tuple
    def run(self, fkey, args):
        """[(returned value, {index: value of what a reference argument points at})]"""
        key = (fkey, args)
        if key in self.memo:
            return self.memo[key] if self.memo[key] is not None else [(TOP, {i: TOP for i in range(len(args))})]
        self.memo[key] = None
        out = self.analyse(self.db.fns[fkey], args)
        self.memo[key] = out
        return out

    def analyse(self, f, args):
        self.visited.add(f.key)
        if f.key not in self.cfgs:
            c = CFG(f.blocks)
            self.steady[f.key] = self.tracked(f)
            self.cfgs[f.key] = (CFG(f.blocks, self.error_exits(f, c)), {}, live(f.blocks, c), c)
        sure, cds, alive, cfg = self.cfgs[f.key]
        st = {}
        for i, v in enumerate(args):
            if v is not TOP:
                if v[0] == "byref":
                    st[("$", i)] = v[1]
                    st[(i + 1,)] = ("&", ("$", i))
                else:
                    st[(i + 1,)] = v
        outs, seen, work = [], {}, [(0, self.freeze(st))]
        outset = set()
        while work:
            b, fs = work.pop()
            fs = self.prune(fs, alive[b])
            ss = seen.setdefault(b, set())
            if fs in ss:
                continue
            if len(ss) > CAP:
                # too many cases: forget what they differ in
                self.short_cut = True
                common = set(fs)
                for o in ss:
                    common &= set(o)
                fs = tuple(sorted(common, key=repr))
                if fs in ss:
                    continue
            ss.add(fs)
            st = dict(fs)
            bl = f.blocks[b]
            for s in bl["s"]:
                self.stmt(f, st, s)
            t = bl["t"]
            if t[0] == "ret":
                refs = {i: st.get(("$", i)) for i in range(len(args)) if args[i] is not TOP and args[i][0] == "byref"}
                self.returned(f, st.get((0,)))
                k = (st.get((0,)), tuple(sorted(refs.items(), key=repr)))
                if k not in outset:
                    outset.add(k)
                    outs.append((st.get((0,)), refs))
                continue
            if t[0] == "call":
                for st2 in self.call(f, sure, cds, b, st, t, bl):
                    if t[4] is not None:
                        work.append((t[4], self.freeze(st2)))
                continue
            if t[0] == "switch":
                for tgt, st2 in self.switch(b, st, t):
                    work.append((tgt, self.freeze(st2)))
                continue
            for _, tgt in cfg.succ[b]:
                work.append((tgt, self.freeze(dict(st))))
        return outs or [(TOP, {})]

    @staticmethod
    def prune(fs, alive):
        """Without what nothing reads any more."""
        held = set()
        for k, v in fs:
            for x in v[1:]:
                if isinstance(x, tuple) and x and isinstance(x[0], int):
                    held.add(x[0])
        return tuple((k, v) for k, v in fs if not isinstance(k[0], int) or k[0] in alive or k[0] in held)

    @staticmethod
    def freeze(st):
        return tuple(sorted(((k, v) for k, v in st.items() if v is not TOP), key=repr))

    # ---- places
    def read(self, st, p):
        """(value, home) of a place."""
        cur, v, var = (p[0],), st.get((p[0],)), None
        for x in p[1:]:
            if x == "*":
                if v is not TOP and v[0] == "&":
                    cur = v[1]
                    v = st.get(cur)
                # a shared view keeps the value itself
                continue
            if isinstance(x, list) and x[0] == "d":
                var = WRAP.get(x[1])
                continue
            if isinstance(x, list) and x[0] == "f" and v is not TOP and v[0] == "E" and var:
                got = {pl for n, pl in v[1] if n == var}
                v = got.pop() if len(got) == 1 else TOP
                cur, var = cur + (("pay", x[2]),), None
                if v is not TOP and v[0] == "&":
                    pass
                continue
            if isinstance(x, list) and x[0] in ("t", "f"):
                cur = cur + ((x[0], str(x[-1])),)
                v = st.get(cur)
                continue
            return TOP, None
        return v, cur

    def write(self, st, p, v):
        if len(p) == 1:
            for k in [k for k in st if k[0] == p[0]]:
                del st[k]
            if v is not TOP:
                st[(p[0],)] = v
            return
        _, home = self.read(st, p)
        if home is not None:
            st[home] = v
            if v is TOP:
                st.pop(home, None)

    def operand(self, st, o):
        if isinstance(o, dict) and o.get("c") in ("mv", "cp"):
            v, home = self.read(st, o["p"])
            if o["c"] == "mv" and len(o["p"]) == 1 and (v is TOP or v[0] not in ("D", "B")):
                for k in [k for k in st if k[0] == o["p"][0]]:
                    del st[k]
            return v
        if isinstance(o, dict) and o.get("promoted") in self.db.fns:
            # a constant rule: `&Rule::x`
            rs = {s[1][1][2] for bl in self.db.fns[o["promoted"]].blocks for s in bl["s"]
                  if isinstance(s[1], list) and s[1][0] == "agg" and s[1][1][0] == "adt" and s[1][1][1] == self.rule_adt}
            return ("R", frozenset(rs), None) if len(rs) == 1 else TOP
        if isinstance(o, dict) and o.get("t", {}).get("k") in ("closure", "fndef"):
            return ("F", o["t"]["id"])
        if isinstance(o, dict) and o.get("c") == "fn":
            return ("F", o.get("r") or o.get("id"))
        if isinstance(o, dict) and "int" in o:
            return ("C", str(o["int"]))
        return TOP

    def stmt(self, f, st, s):
        if not isinstance(s[0], list) or not isinstance(s[1], list):
            return
        p, r = s[0], s[1]
        k = r[0]
        v = TOP
        if k == "use":
            o = r[1]
            if isinstance(o, dict) and o.get("c") in ("mv", "cp") and len(o["p"]) == 1 and len(p) == 1:
                # moving a struct or tuple takes its parts along
                parts = {kk: vv for kk, vv in st.items() if kk[0] == o["p"][0] and len(kk) > 1}
                v = self.operand(st, o)
                self.write(st, p, v)
                for kk, vv in parts.items():
                    st[(p[0],) + kk[1:]] = vv
                return
            v = self.operand(st, o)
        elif k == "ref":
            pv, home = self.read(st, r[2])
            if home is not None and pv is not TOP and pv[0] in ("S", "P", "E", "R", "T", "F", "ERR"):
                v = ("&", home)
            elif pv is not TOP and pv[0] == "&":
                v = pv
            elif home is not None and len(home) > 1 and home[0] == "$":
                v = ("&", home)
        elif k == "discr":
            pv, home = self.read(st, r[1])
            if pv is not TOP and pv[0] in ("E", "R"):
                adt = self.db.adt_short(r[2]) if len(r) > 2 and r[2] else ""
                v = ("D", home, adt)
        elif k == "agg":
            a = r[1]
            ops = [self.operand(st, o) for o in r[2]]
            if a[0] == "adt":
                nm = self.db.adt_short(a[1]) or ""
                if nm in NAMES:
                    v = ev((WRAP[a[2]], ops[0] if ops else ("N",)))
                elif a[1] == self.rule_adt:
                    v = ("R", frozenset([a[2]]), None)
                elif nm in ("Range", "RangeFrom", "RangeInclusive") and ops and ops[0] is not TOP and ops[0][0] == "C":
                    v = ("G", ops[0][1])
            elif a[0] == "closure":
                v = ("F", a[1])
            elif a[0] == "tuple":
                self.write(st, p, TOP)
                for i, o in enumerate(ops):
                    if o is not TOP:
                        st[(p[0],) + (("t", str(i)),)] = o
                return
        elif k == "un" and r[1] == "Not":
            x = self.operand(st, r[2])
            if x is not TOP and x[0] in ("B", "EB"):
                v = x[:-1] + (not x[-1],)
            elif x is not TOP and x[0] == "C" and x[1] in ("0", "1"):
                v = ("C", "1" if x[1] == "0" else "0")
        elif k in ("copyderef",):
            v = self.read(st, r[1])[0]
        self.write(st, p, v)

    def deref(self, st, v):
        n = 0
        while v is not TOP and v[0] == "&" and n < 4:
            v = st.get(v[1])
            n += 1
        return v

    # ---- branches
    def switch(self, b, st, t):
        o = t[1]
        v, _ = self.read(st, o["p"]) if o.get("c") in ("mv", "cp") else (TOP, None)
        arms = [(x, tg) for x, tg in t[2]]
        out = []
        if v is not TOP and v[0] == "C":
            return [(next((tg for x, tg in arms if str(x) == v[1]), t[3]), dict(st))]
        if v is not TOP and v[0] == "D":
            tv = st.get(v[1])
            taken = set()
            for x, tg in arms + ([("else", t[3])] if t[3] is not None else []):
                st2 = dict(st)
                if tv is not TOP and tv[0] == "E":
                    w = DISCR.get(v[2], {}).get(x)
                    if w is None and x == "else":
                        left = {n for n, _ in tv[1]} - taken
                        keep = frozenset(e for e in tv[1] if e[0] in left)
                    else:
                        taken.add(w)
                        keep = frozenset(e for e in tv[1] if e[0] == w)
                    if not keep:
                        continue
                    st2[v[1]] = ("E", keep)
                elif tv is not TOP and tv[0] == "R":
                    if x == "else":
                        keep = frozenset(tv[1] - taken)
                    else:
                        nm = self.rname.get(x)
                        taken.add(nm)
                        keep = frozenset({nm} & tv[1])
                    if not keep:
                        continue
                    st2[v[1]] = ("R", keep, tv[2])
                    if tv[2] is not None and st2.get(tv[2]) is not TOP and st2[tv[2]][0] == "P":
                        st2[tv[2]] = ("P", keep)
                else:
                    self.unsure(st2, b)
                out.append((tg, st2))
            return out
        if v is not TOP and v[0] in ("B", "EB"):
            for x, tg in arms + ([("else", t[3])] if t[3] is not None else []):
                truth = (x != "0") == v[-1]
                st2 = dict(st)
                pv = st2.get(v[1])
                if v[0] == "B" and pv is not TOP and pv[0] == "P":
                    keep = frozenset(pv[1] & v[2]) if truth else frozenset(pv[1] - v[2])
                    if not keep:
                        continue
                    st2[v[1]] = ("P", keep)
                elif v[0] == "EB" and pv is not TOP and pv[0] == "E":
                    keep = frozenset(e for e in pv[1] if (e[0] == v[2]) == truth)
                    if not keep:
                        continue
                    st2[v[1]] = ("E", keep)
                else:
                    self.unsure(st2, b)
                out.append((tg, st2))
            return out
        for tg in [x for _, x in arms] + ([t[3]] if t[3] is not None else []):
            st2 = dict(st)
            self.unsure(st2, b)
            out.append((tg, st2))
        return out

    @staticmethod
    def unsure(st, b):
        st[("?",)] = ("U", (st[("?",)][1] if st.get(("?",)) else frozenset()) | {b})

    def error_exits(self, f, cfg):
        """The blocks that begin the early return of a `?`: whether they are taken is not the tree's doing."""
        out = set()
        for b in cfg.rpo:
            t = f.blocks[b]["t"]
            if t[0] == "call" and isinstance(t[1], dict) and t[1].get("c") == "fn" \
                    and self.db.short(t[1]["id"]).endswith("from_residual"):
                x = b
                while len(cfg.pred[x]) == 1 and len(cfg.succ[cfg.pred[x][0][0]]) == 1:
                    x = cfg.pred[x][0][0]
                out.add(x)
        return out

    def certain(self, fkey, cfg, cds, b, st):
        """No branch that decides whether b runs was one we know nothing of."""
        if st.get(("?up",)):
            return False
        if b not in cfg.index:
            return False
        if b not in cds:
            cds[b] = set(cfg.closure_cd(b))
        u = st.get(("?",))
        return not u or not any(x in cds[b] or self.moving(fkey, cfg, x) for x in u[1])

    def tracked(self, f):
        """The locals that hold what is followed: pairs, iterators over them, and options and results."""
        return {i for i, l in enumerate(f.locals) if l["s"].startswith(("pest::iterators::", "core::option::", "core::result::",
                                                                         "core::iter::"))}

    def moving(self, fkey, cfg, u):
        """Whether the arms of a branch differ in what they do to something followed that is used after them."""
        if (fkey, u) in self.moved:
            return self.moved[(fkey, u)]
        f, (_, _, alive, _) = self.db.fns[fkey], self.cfgs[fkey]
        stop, seen = cfg.ipd.get(u), set()
        work = [t for _, t in cfg.succ[u]] if u in cfg.index else []
        kept = self.steady[fkey] & (alive[stop] if isinstance(stop, int) and 0 <= stop < len(alive) else set())
        out = u not in cfg.index
        while work and not out:
            b = work.pop()
            if b in seen or b == stop or b not in cfg.index:
                continue
            seen.add(b)
            for s in f.blocks[b]["s"]:
                if isinstance(s[0], list) and s[0][0] in kept:
                    out = True
                # a mutable borrow hands it out to be changed
                if isinstance(s[1], list) and s[1][0] == "ref" and s[1][1] and isinstance(s[1][2], list) \
                        and s[1][2][0] in kept and len(s[1][2]) == 1:
                    out = True
            t = f.blocks[b]["t"]
            if t[0] == "call" and t[3] and t[3][0] in kept:
                out = True
            work += [t2 for _, t2 in cfg.succ[b]]
        self.moved[(fkey, u)] = out
        return out

    def returned(self, f, v):
        """An error made for a tree, on its way out."""
        for e in [v] if v is not TOP and v[0] == "ERR" else [p for _, p in v[1]] if v is not TOP and v[0] == "E" else []:
            if e is not TOP and e[0] == "ERR":
                self.note("refused", f, e[1], "", e[2], e[3])

    def note(self, kind, f, line, detail, sure, why=""):
        self.reached.add((f.key, line))
        if sure:
            self.events.setdefault((kind, f.key, line, detail), why)

    # ---- calls
    def call(self, f, cfg, cds, b, st, t, bl):
        c, argops, dest = t[1], t[2], t[3]
        line = bl["l"]
        sure = self.certain(f.key, cfg, cds, b, st)
        tup = []
        if len(argops) == 2 and argops[1].get("c") in ("mv", "cp") and len(argops[1]["p"]) == 1:
            l = argops[1]["p"][0]                    # the parts of an argument tuple
            got = {int(k[1][1]): v for k, v in st.items() if len(k) == 2 and k[0] == l and k[1][0] == "t" and k[1][1].isdigit()}
            tup = [got.get(i, TOP) for i in range(max(got) + 1)] if got else []
        avs = [self.operand(st, o) for o in argops]
        key = (c.get("r") or c.get("id")) if isinstance(c, dict) and c.get("c") == "fn" else None
        short = self.db.short(key) if key else ""
        gen = self.db.short(c["id"]) if key and c.get("id") else short
        seg = short.rsplit("::", 1)[-1].split("#")[0]
        gseg = gen.rsplit("::", 1)[-1]
        a0 = avs[0] if avs else TOP
        d0 = self.deref(st, a0)

        def done(v, s=None):
            s = dict(st) if s is None else s
            self.write(s, dest, v)
            return [s]
        if gen == "Parser::parse":
            r = next((v for v in avs if v is not TOP and v[0] == "R" and len(v[1]) == 1), None)
            if r is None:
                return done(TOP)
            self.tops.add(next(iter(r[1])))
            return done(ev(("Ok", ("S", self.a.top(next(iter(r[1]))))), ("Err", TOP)))
        # errors for a tree
        if self.refuse(short) or self.refuse(gen):
            return done(("ERR", line, sure, self.context(st)))
        if short.startswith("panicking::") or gen.startswith("panicking::"):
            self.note("panic", f, line, short, sure, self.context(st))
            return []
        home0 = a0[1] if a0 is not TOP and a0[0] == "&" else None
        # functions of the readers
        if key in self.db.fns and self.in_scope(self.db.fns[key]) and "{closure" not in short and gseg not in ("eq", "ne"):
            g = self.db.fns[key]
            args, homes = [], {}
            for i, v in enumerate(avs):
                dv = self.deref(st, v)
                if v is not TOP and v[0] == "&":
                    if dv is TOP:
                        args.append(TOP)
                    else:
                        args.append(("byref", dv))
                        homes[i] = v[1]
                elif v is not TOP and v[0] in ("P", "S", "E", "T", "R", "F"):
                    args.append(v if v[0] != "R" else ("R", v[1], None))
                else:
                    args.append(TOP)
            if any(a is not TOP for a in args) and (sure or any(self.about(a) for a in args)):
                outs = []
                if sure:
                    outs = self.run(key, tuple(args))
                else:
                    keep = dict(self.events)
                    memo = dict(self.memo)
                    outs = self.run(key, tuple(args))
                    self.events, self.memo = keep, memo
                res = []
                for r, refs in outs:
                    s = dict(st)
                    for i, hv in refs.items():
                        if i in homes:
                            if hv is TOP:
                                s.pop(homes[i], None)
                            else:
                                s[homes[i]] = hv
                    self.write(s, dest, r if r is TOP or r[0] != "&" else TOP)
                    if r is not TOP and r[0] == "R" and r[2] is not None:
                        src = homes.get(r[2][1]) if r[2][0] == "$" else None
                        self.write(s, dest, ("R", r[1], src))
                    res.append(s)
                return res
        # pairs
        if d0 is not TOP and d0[0] == "P":
            if seg == "as_rule":
                self.sites.add((f.key, b))
                return done(("R", d0[1], home0))
            if seg == "into_inner":
                self.sites.add((f.key, b))
                out = []
                for r in sorted(d0[1]):
                    s = dict(st)
                    self.write(s, dest, ("S", self.a.begin(r)))
                    out.append(s)
                return out
            if seg == "as_str" or seg == "to_string" or gseg in ("to_string",):
                return done(("T", d0[1]))
        if d0 is not TOP and d0[0] == "T" and (seg in SAME or gseg in SAME or gseg in ("to_string", "trim", "as_str", "to_owned")):
            return done(d0 if gseg != "trim" else TOP)
        if d0 is not TOP and d0[0] == "T" and gseg == "index":
            g = self.deref(st, avs[1]) if len(avs) > 1 else TOP
            self.note("sliced", f, line, (g[1] if g is not TOP and g[0] == "G" else None, d0[1]), True)
        if d0 is not TOP and d0[0] == "T" and (gseg in ("from_str", "parse")):
            return done(("E", frozenset([("Ok", TOP), ("Err", ("X", key if gseg == "from_str" else c.get("via") or key, d0[1]))])))
        # iterators over pairs
        if d0 is not TOP and d0[0] == "S":
            if gseg in ("next", "peek") or seg in ("next", "peek"):
                self.sites.add((f.key, b))
                out = []
                mv = self.a.moves(d0[1])
                look = "peek" in (seg, gseg)
                for r, nx in sorted(mv.items()):
                    if len(d0) > 2 and d0[2] != r:
                        continue            # seen before: it is another
                    s = dict(st)
                    if home0 is not None:
                        s[home0] = ("S", d0[1], r) if look else ("S", nx)
                    self.write(s, dest, ev(("Ok", ("P", frozenset([r])))))
                    out.append(s)
                if self.a.can_end(d0[1]) and (len(d0) < 3 or d0[2] is None):
                    s = dict(st)
                    if home0 is not None:
                        s[home0] = ("S", d0[1], None) if look else ("S", (d0[1][0], frozenset()))
                    self.write(s, dest, ev(("Err", ("W", d0[1][0]))))
                    out.append(s)
                return out
            if gseg in SAME or seg in SAME:
                return done(("&", home0) if gseg in ("by_ref",) and home0 else d0)
            rest = sorted(self.a.rest(d0[1]))
            for v in avs[1:]:
                if v is not TOP and v[0] == "F" and self.known(v[1]):
                    for r in rest:
                        self.enter(f, v[1], [("P", frozenset([r]))], sure)
            self.sites.add((f.key, b))
            if home0 is not None:
                st.pop(home0, None)
            return done(TOP)
        # comparisons of rules
        if gseg in ("eq", "ne") and len(avs) == 2:
            x, y = d0, self.deref(st, avs[1])
            for p_, q_ in ((x, y), (y, x)):
                if p_ is not TOP and q_ is not TOP and p_[0] == "R" and q_[0] == "R" and p_[2] is not None and q_[2] is None:
                    return done(("B", p_[2], q_[1], gseg == "eq"))
            return done(TOP)
        # options and results
        if d0 is not TOP and d0[0] == "E":
            names = {n for n, _ in d0[1]}
            pay = {p for n, p in d0[1] if n == "Ok"}
            pv = pay.pop() if len(pay) == 1 else TOP
            lost = [p for n, p in d0[1] if n == "Err"]
            if seg in ("unwrap", "expect", "unwrap_unchecked"):
                if "Err" in names:
                    for p in lost:
                        if p is not TOP and p[0] == "X":
                            self.note("parsed", f, line, (p[1], p[2]), True)
                        elif p is not TOP and p[0] == "N":
                            self.note("missing", f, line, "", sure, self.context(st))
                        elif p is not TOP and p[0] == "W":
                            self.note("missing", f, line, p[1], sure, self.context(st))
                if "Ok" not in names:
                    return []
                return done(pv)
            if seg in ("is_some", "is_ok") and home0 is not None:
                return done(("EB", home0, "Ok", True))
            if seg in ("is_none", "is_err") and home0 is not None:
                return done(("EB", home0, "Ok", False))
            if seg in ("ok_or", "ok_or_else", "ok", "map_err", "chain_err") or gseg in ("branch", "chain_err", "map_err"):
                keep = seg in ("ok_or", "ok_or_else", "ok", "map_err", "chain_err")
                if seg in ("ok_or_else",) and "Err" in names:
                    for v in avs[1:]:
                        if v is not TOP and v[0] == "F" and self.known(v[1]):
                            self.enter(f, v[1], [], sure)
                own = avs[1] if seg == "ok_or" and len(avs) > 1 and avs[1] is not TOP and avs[1][0] == "ERR" else TOP
                return done(("E", frozenset((n, p if n == "Ok" else p if p is not TOP and p[0] == "ERR" else own)
                                            for n, p in d0[1])))
            if gseg in SAME or seg in SAME:
                return done(d0)
            if seg in ("unwrap_or", "map_or", "is_some_and", "is_ok_and", "is_none_or"):
                fn = next((v[1] for v in avs[1:] if v is not TOP and v[0] == "F"), None)
                alt = {"unwrap_or": avs[1] if len(avs) > 1 else TOP, "map_or": avs[1] if len(avs) > 1 else TOP,
                       "is_none_or": ("C", "1")}.get(seg, ("C", "0"))
                res = set()
                if "Ok" in names:
                    if seg == "unwrap_or":
                        res.add(pv)
                    elif fn and self.known(fn):
                        res |= set(self.enter(f, fn, [pv], sure))
                    else:
                        res.add(TOP)
                if "Err" in names:
                    res.add(alt)
                out = []
                for r in res:
                    s = dict(st)
                    self.write(s, dest, r)
                    out.append(s)
                return out
            if seg in ("map", "and_then", "map_or", "map_or_else", "unwrap_or_else", "or_else", "unwrap_or", "for_each", "filter"):
                fn = next((v[1] for v in reversed(avs[1:]) if v is not TOP and v[0] == "F"), None)
                if fn and self.known(fn) and seg in ("map", "and_then", "map_or", "map_or_else") and "Ok" in names:
                    rs = self.enter(f, fn, [pv], sure)
                    if seg == "map":
                        return done(("E", frozenset({("Ok", r) for r in rs} | {("Err", TOP) for _ in lost})))
                    if seg == "and_then":
                        es = set()
                        for r in rs:
                            es |= set(r[1]) if r is not TOP and r[0] == "E" else set(BOTH[1])
                        return done(("E", frozenset(es | {("Err", TOP) for _ in lost})))
                if seg in ("map_or_else", "unwrap_or_else", "or_else") and "Err" in names:
                    v = avs[1]
                    if v is not TOP and v[0] == "F" and self.known(v[1]):
                        self.enter(f, v[1], [], sure)
                return done(TOP)
        if gseg == "branch" and d0 is TOP:
            return done(BOTH)
        if gseg in ("from_residual",):
            v = d0 if d0 is not TOP and d0[0] == "ERR" else TOP
            if d0 is not TOP and d0[0] == "E":
                v = next((p for n, p in d0[1] if n == "Err" and p is not TOP and p[0] == "ERR"), TOP)
            return done(ev(("Err", v)))
        # closures called directly
        fn = d0[1] if d0 is not TOP and d0[0] == "F" else key
        if gseg in ("call", "call_mut", "call_once") and fn and self.known(fn):
            rs = self.enter(f, fn, tup, sure)
            out = []
            for r in rs:
                s = dict(st)
                self.write(s, dest, r)
                out.append(s)
            return out
        if d0 is not TOP and d0[0] == "ERR":
            return done(d0)                 # the error, told more of or made into another
        # whatever else gets hold of a cursor may move it
        for v in avs:
            if v is not TOP and v[0] == "&" and (st.get(v[1]) or ("",))[0] == "S" and not seg.startswith(("fmt", "new_")):
                st.pop(v[1], None)
        # closures handed to something unknown run with unknown arguments
        return done(TOP)

    @staticmethod
    def about(a):
        return a is not TOP

    def known(self, k):
        return k in self.db.fns and self.in_scope(self.db.fns[k])

    def enter(self, f, fn, vals, sure):
        """The values a closure or function returns for these arguments."""
        g = self.db.fns[fn]
        off = 1 if "{closure" in g.short else 0
        args = [TOP] * g.argc
        for i, v in enumerate(vals):
            if off + i < g.argc:
                args[off + i] = v
        keep = dict(self.events)
        outs = self.run(fn, tuple(args))
        if not sure:
            self.events = keep
        return [r for r, _ in outs] or [TOP]

    def context(self, st):
        ps = sorted({"/".join(sorted(v[1])) for k, v in st.items() if v is not TOP and v[0] == "P" and len(v[1]) <= 3})
        ss = sorted({v[1][0] for k, v in st.items() if v is not TOP and v[0] == "S"})
        return ", ".join([f"at a {p}" for p in ps] + [f"in a {s}" for s in ss])
