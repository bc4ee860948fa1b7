"""M05: no failure is silently ignored."""
from core import *

# a Result handed to one of these is gone, and its error with it
DISCARD = S("drop ok unwrap_or unwrap_or_default unwrap_or_else into_iter iter iter_mut map_or is_ok_and forget")


def places(x):
    out = []

    def w(y):
        if isinstance(y, dict):
            if "p" in y and isinstance(y["p"], list):
                out.append(y["p"])
        elif isinstance(y, list):
            for z in y:
                w(z)
    w(x)
    return out


def rv_places(r):
    """(place, how) of everything an rvalue reads"""
    k = r[0]
    if k == "ref":
        return [(r[2], "ref")]
    if k == "discr":
        return [(r[1], "discr")]
    out = []
    for p in places(r[1:]):
        out.append((p, k))
    if k in ("rawptr", "addr", "len", "copyderef"):
        for y in r[1:]:
            if isinstance(y, list) and y and isinstance(y[0], int):
                out.append((y, "ref"))
    return out


def is_result(ts):
    return ts.startswith("core::result::Result<")


def uses_of(f, L):
    out = []
    for j, b in enumerate(f.blocks):
        if b.get("u"):
            continue
        for s in b["s"]:
            for p, how in rv_places(s[1]):
                if p and p[0] == L:
                    out.append((how, p[1:], j, s[0], s[1]))
        t = b["t"]
        if t[0] == "drop":
            continue
        if t[0] == "call":
            for k, o in enumerate(t[2]):
                for p in places([o]):
                    if p[0] == L:
                        out.append(("arg", p[1:], j, k, t))
            for p in places([t[1]]):
                if p[0] == L:
                    out.append(("callee", p[1:], j, 0, t))
        elif t[0] not in ("goto", "ret", "resume", "unreachable"):
            for p in places(t[1:]):
                if p[0] == L:
                    out.append(("term", p[1:], j, 0, t))
    return out


def callee(db, t):
    c = t[1]
    if isinstance(c, dict) and c.get("c") == "fn":
        return db.short(c.get("r") or c.get("id"))
    return "a function value"


def trivial(b):
    """A block that does nothing: only flags, units and drops."""
    for s in b["s"]:
        r = s[1]
        if r[0] == "use" and isinstance(r[1], dict) and r[1].get("c") == "const":
            ty = r[1].get("t", {})
            if ty.get("s") == "bool" or ty.get("k") == "tuple":
                continue
        if r[0] == "agg" and r[1][0] == "tuple" and not r[2]:
            continue
        return False
    return True


def err_arm_empty(f, cfg, blk, L, discr_local):
    """Does the failing branch of the switch do nothing before it rejoins the other one?"""
    t = f.blocks[blk]["t"]
    if t[0] != "switch":
        return False
    arms = {int(v): b for v, b in t[2]}
    oth = t[3]
    e = arms.get(1, oth)
    o = arms.get(0, oth)
    return silent(f, cfg, blk, e, o)


def reach_from(f, cfg, o, without):
    reach = set()
    todo = [o]
    while todo:
        x = todo.pop()
        if x in reach or x == without or f.blocks[x].get("u"):
            continue
        reach.add(x)
        todo += [y for _, y in cfg.succ[x]]
    return reach


def silent(f, cfg, blk, e, o):
    """Every path of branch `e` does nothing until it is back on the path of branch `o`."""
    if e == o:
        return True
    reach = reach_from(f, cfg, o, blk)
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x in seen or f.blocks[x].get("u"):
            continue
        seen.add(x)
        if x in reach:
            continue
        b = f.blocks[x]
        if x == blk:
            continue            # next round of the loop
        if not trivial(b):
            return False
        t = b["t"]
        if t[0] in ("goto", "drop"):
            todo += [y for _, y in cfg.succ[x]]
        elif t[0] == "switch" and t[4] == "bool":
            todo += [y for _, y in cfg.succ[x]]
        elif t[0] == "unreachable":
            continue
        else:
            return False
    return True


def unit_result(ts):
    return ts.startswith(("core::result::Result<(),", "core::result::Result<core::option::Option<"))


def swallowed(f, cfg, blk, e, o):
    """Can branch `e` get back onto the path of branch `o`, or make an `Ok`, without failing the function?"""
    if e == o:
        return True
    reach = reach_from(f, cfg, o, blk)
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x in seen or f.blocks[x].get("u"):
            continue
        seen.add(x)
        if x in reach or x == blk:
            return True
        b = f.blocks[x]
        stop = False
        for s in b["s"]:
            if s[0] == [0]:
                if s[1][0] == "agg" and s[1][1][0] == "adt" and s[1][1][2] == "Ok":
                    return True
                stop = True
            elif s[1][0] == "agg" and s[1][1][0] == "adt" and s[1][1][2] == "Err":
                stop = True
        t = b["t"]
        if t[0] == "call" and t[3] == [0]:
            stop = True
        if stop:
            continue
        todo += [y for _, y in cfg.succ[x]]
    return False


def flag_swallowed(cx, f, cfg, ref, depth):
    """`r.is_err()` / `r.is_ok()` on a borrowed Result: what the branch on it does."""
    if len(ref) != 1:
        return None
    for how, proj, j, k, t in uses_of(f, ref[0]):
        if how != "arg":
            return None
        nm = callee(cx.db, t).rsplit("::", 1)[-1]
        if nm not in ("is_err", "is_ok"):
            return None
        d = t[3]
        if len(d) != 1 or d == [0]:
            return None
        for how2, proj2, j2, k2, t2 in uses_of(f, d[0]):
            if how2 != "term" or t2[0] != "switch":
                return None
            arms = {int(v): b for v, b in t2[2]}
            f0, tr = arms.get(0, t2[3]), arms.get(1, t2[3])
            e, o = (tr, f0) if nm == "is_err" else (f0, tr)
            if swallowed(f, cfg, j2, e, o):
                return "the function carries on and can succeed although this failed"
            return None
        return "nothing depends on whether it failed"
    return "it is never looked at"


def classify(cx, f, L, depth=0):
    """None when the error is looked at, else how it is lost."""
    db = cx.db
    us = uses_of(f, L)
    if not us:
        return "it is never looked at"
    lost = None
    cfg = cx_cfg(f)
    for how, proj, j, k, t in us:
        if how == "use" and not proj:
            if k == [0]:
                return None
            if len(k) == 1 and is_result(f.locals[k[0]]["s"]) and depth < 4:
                r = classify(cx, f, k[0], depth + 1)
                if r is None:
                    return None
                lost = lost or r
                continue
            return None
        if how == "arg" and not proj:
            nm = callee(db, t).rsplit("::", 1)[-1]
            full = callee(db, t)
            if nm in DISCARD and (full.startswith(("Result", "mem::", "core::")) or nm in ("drop", "forget")):
                if nm == "ok":
                    d = t[3]
                    if len(d) == 1 and (d == [0] or uses_of(f, d[0])):
                        r = opt_lost(cx, f, d[0], cfg)
                        if r is None:
                            return None
                        lost = lost or r
                        continue
                lost = lost or f"it is handed to `{full}`"
                continue
            return None
        if how == "ref" and not proj and unit_result(f.locals[L]["s"]) and is_result(f.locals[0]["s"]):
            r = flag_swallowed(cx, f, cfg, k, depth)
            if r is None:
                return None
            lost = lost or r
            continue
        if how == "discr" and not proj:
            if f.blocks[j]["t"][0] == "switch" and unit_result(f.locals[L]["s"]) and is_result(f.locals[0]["s"]):
                tt = f.blocks[j]["t"]
                arms = {int(v): b for v, b in tt[2]}
                if swallowed(f, cfg, j, arms.get(1, tt[3]), arms.get(0, tt[3])):
                    lost = lost or "the function carries on and can succeed although this failed"
                    return lost
                return None
            # the discriminant is switched on: where?
            dl = k[0] if len(k) == 1 else None
            if f.blocks[j]["t"][0] == "switch" and err_arm_empty(f, cfg, j, L, dl):
                lost = lost or "the failing case of the branch on it does nothing"
                continue
            return None
        if proj and isinstance(proj[0], list) and proj[0][0] == "d":
            if proj[0][1] == "Err":
                return None
            continue
        return None
    return lost


def opt_lost(cx, f, L, cfg):
    if L == 0:
        return "its error is turned into `None`" if f.kind.lower() == "closure" else None
    for how, proj, j, k, t in uses_of(f, L):
        if how == "discr":
            if f.blocks[j]["t"][0] == "switch":
                # Option: None = 0, Some = 1
                tt = f.blocks[j]["t"]
                return None if not none_arm_empty(f, cfg, j) else "its failing case is silently skipped"
            return None
        if how == "arg":
            nm = callee(cx.db, t).rsplit("::", 1)[-1]
            if nm in ("unwrap_or_default", "drop", "unwrap_or", "unwrap_or_else"):
                return f"it is handed to `{nm}`"
            return None
        if not proj:
            return None
    return "it is never looked at"


def none_arm_empty(f, cfg, j):
    t = f.blocks[j]["t"]
    arms = {int(v): b for v, b in t[2]}
    a = arms.get(0, t[3])
    o = arms.get(1, t[3])
    return silent(f, cfg, j, a, o)


def cx_cfg(f):
    from cfg import CFG
    if f.cfg is None:
        f.cfg = CFG(f.blocks)
    return f.cfg


def error_flow(cx, keys=None, prefix=""):
    """Every call with a Result whose failing case is lost, in the given functions (all of them by default)."""
    db = cx.db
    n = 0
    perkey = {}
    for f in sorted(db.fns.values(), key=lambda f: (f.file, f.line, f.short)):
        if f.derived or "::rules::" in f.short or "StructOptInternal" in f.short or "#" in f.key:
            continue
        if keys is not None and f.key not in keys:
            continue
        cx.analysed.add(f.key)
        for i, b in enumerate(f.blocks):
            t = b["t"]
            if t[0] != "call" or b.get("u"):
                continue
            d = t[3]
            # a function value that throws errors away
            for o in t[2]:
                if isinstance(o, dict) and o.get("c") == "fn":
                    nm = db.short(o.get("r") or o.get("id"))
                    if nm in ("Result::ok", "Result::unwrap_or_default", "mem::drop"):
                        key = f"{prefix}{f.short}/{callee(db, t)}({nm})"
                        cx.bad(key, f"{f.file}:{b['l']} ({f.short})",
                               f"`{callee(db, t)}` is handed `{nm}`, which throws errors away")
            if len(d) != 1:
                continue
            ts = f.locals[d[0]]["s"]
            if not is_result(ts):
                continue
            if d == [0]:
                continue
            n += 1
            c = callee(db, t)
            perkey[(f.short, c)] = perkey.get((f.short, c), 0) + 1
            key = f"{prefix}{f.short}/{c}/{perkey[(f.short, c)]}"
            how = classify(cx, f, d[0])
            cx.req(how is None, key, f"{f.file}:{b['l']} ({f.short})",
                   f"the error of `{c}` is lost: {how}")
    return n


@prop("M05")
def m05(cx):
    cx.rule("For every call in a workspace function whose result is a Result, the local that receives it is followed through the "
            "function's MIR: its failing case must be propagated, returned, unwrapped, converted, or branched on with a branch "
            "that does something; dropping it, discarding it with a combinator, or branching past it is a violation.")
    cx.floor("results followed", error_flow(cx), 350)
