"""Control-flow graph of a MIR body: reverse postorder, post-dominators, control dependence."""


def succs(t):
    """Normal (non-unwind) successors of a terminator as [(edge label, target)]."""
    k = t[0]
    if k == "goto":
        return [(None, t[1])]
    if k == "switch":
        out = [(v, b) for v, b in t[2]]
        if t[3] is not None:
            out.append(("else", t[3]))
        return out
    if k == "drop":
        return [(None, t[2])]
    if k == "call":
        return [] if t[4] is None else [(None, t[4])]
    if k == "assert":
        return [(None, t[4])]
    return []


class CFG:
    def __init__(self, blocks, cut=()):
        self.blocks = blocks
        n = len(blocks)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(blocks):
            if not b.get("u"):
                self.succ[i] = [(e, t) for e, t in succs(b["t"])
                                if t is not None and t < n and not blocks[t].get("u")]
        # drop edges into blocks that are just `unreachable`
        dead = {i for i, b in enumerate(blocks) if b["t"][0] == "unreachable"}
        for i in range(n):
            self.succ[i] = [(e, t) for e, t in self.succ[i] if t not in dead and t not in cut]
        seen = set()
        post = []
        stack = [(0, iter([t for _, t in self.succ[0]]))]
        seen.add(0)
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    stack.append((v, iter([t for _, t in self.succ[v]])))
                    break
            else:
                post.append(u)
                stack.pop()
        self.rpo = post[::-1]
        self.plans = {}
        self._loops = None
        self.reach = seen
        self.index = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for u in self.rpo:
            for e, v in self.succ[u]:
                self.pred[v].append((u, e))
        self.loop_heads = {v for u in self.rpo for _, v in self.succ[u] if self.index[v] <= self.index[u]}
        self._postdom()
        self._cd()

    def _postdom(self):
        # iterative post-dominators over a virtual exit (-1); diverging ends are exits as well,
        # except that a block which can only diverge (panic) is ignored as a join point
        EXIT = -1
        nodes = self.rpo
        rets = [b for b in nodes if self.blocks[b]["t"][0] == "ret"]
        ends = [b for b in nodes if not self.succ[b]]
        # which blocks can reach a return
        can = set(rets)
        work = list(rets)
        while work:
            v = work.pop()
            for u, _ in self.pred[v]:
                if u not in can:
                    can.add(u)
                    work.append(u)
        self.can_return = can
        succ = {b: {t for _, t in self.succ[b]} for b in nodes}
        # infinite loops: connect loop heads that cannot reach an end to EXIT
        canend = set(ends)
        work = list(ends)
        while work:
            v = work.pop()
            for u, _ in self.pred[v]:
                if u not in canend:
                    canend.add(u)
                    work.append(u)
        for b in ends:
            succ[b] = {EXIT}
        for b in nodes:
            if b not in canend and b in self.loop_heads:
                succ[b] = succ[b] | {EXIT}
        # immediate post-dominator via reverse graph dominators (Cooper-Harvey-Kennedy)
        rsucc = {b: [] for b in nodes}
        rsucc[EXIT] = []
        for b in nodes:
            for t in succ[b]:
                rsucc.setdefault(t, []).append(b)
        order = []
        seen = {EXIT}
        stack = [(EXIT, iter(rsucc[EXIT]))]
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    stack.append((v, iter(rsucc[v])))
                    break
            else:
                order.append(u)
                stack.pop()
        num = {b: i for i, b in enumerate(order)}
        ipd = {EXIT: EXIT}
        changed = True
        ro = order[::-1]
        while changed:
            changed = False
            for b in ro:
                if b == EXIT:
                    continue
                new = None
                for s in succ[b]:
                    if s in ipd:
                        if new is None:
                            new = s
                        else:
                            x, y = new, s
                            while x != y:
                                while num[x] < num[y]:
                                    x = ipd[x]
                                while num[y] < num[x]:
                                    y = ipd[y]
                            new = x
                if new is not None and ipd.get(b) != new:
                    ipd[b] = new
                    changed = True
        self.ipd = ipd

    def _cd(self):
        """cd[b] = set of (c, edge labels tuple) blocks c with the edges under which b runs."""
        cd = {b: {} for b in self.rpo}
        for c in self.rpo:
            if len({t for _, t in self.succ[c]}) < 2:
                continue
            for e, t in self.succ[c]:
                x = t
                stop = self.ipd.get(c)
                k = 0
                while x != stop and x != -1 and x is not None and k < 10000:
                    cd[x].setdefault(c, set()).add(e)
                    if x == self.ipd.get(x):
                        break
                    x = self.ipd.get(x)
                    k += 1
        self.cd = {b: {c: frozenset(v) for c, v in d.items()} for b, d in cd.items()}

    def closure_cd(self, b):
        """Transitive control dependences of b as {(c, edges)}."""
        out = {}
        work = [b]
        seen = set()
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            for c, es in self.cd.get(x, {}).items():
                out[c] = out.get(c, frozenset()) | es
                work.append(c)
        return out

    def loops(self):
        """[(head, latches, body)]"""
        if self._loops is None:
            by = {}
            for u in self.rpo:
                for _, v in self.succ[u]:
                    if self.index[v] <= self.index[u]:
                        by.setdefault(v, set()).add(u)
            out = []
            for h, us in by.items():
                body = {h}
                work = list(us)
                while work:
                    x = work.pop()
                    if x in body:
                        continue
                    body.add(x)
                    work += [p for p, _ in self.pred[x]]
                out.append((h, us, body))
            self._loops = out
        return self._loops

    def fwd_plan(self, b):
        """([(block, [(c, edges)])] in execution order: b, the latches of the loops around or before it that
        decide it and what they depend on, [latches of each such loop], what decides b itself)"""
        r = self.plans.get(b)
        if r is not None:
            return r
        ix = self.index
        latches = []
        todo = list(self.loops())
        V = {}
        work = [b]
        own = None
        while work:
            while work:
                x = work.pop()
                if x in V:
                    continue
                V[x] = []
                for c, es in self.cd.get(x, {}).items():
                    if ix[c] < ix[x]:
                        V[x].append((c, es))
                        work.append(c)
            own = own or frozenset(V)
            rest = []
            for h, us, body in todo:
                if body.isdisjoint(V):
                    rest.append((h, us, body))
                else:
                    latches.append(us)
                    work += us
            todo = rest
        order = [(x, V[x]) for x in sorted(V, key=lambda y: ix[y])]
        r = self.plans[b] = (order, latches, own)
        return r
