"""Small helpers over a function's MIR: where a local comes from, which block comes before which."""


def defs_of(f, l):
    """(block, rvalue or terminator) of every whole assignment to local l."""
    out = []
    for j, b in enumerate(f.blocks):
        if b.get("u"):
            continue
        for s in b["s"]:
            if s[0] == [l]:
                out.append((j, s[1]))
        t = b["t"]
        if t[0] == "call" and t[3] == [l]:
            out.append((j, t))
    return out


def operand_local(o):
    if isinstance(o, dict) and o.get("c") in ("mv", "cp"):
        return o["p"][0]
    return None


def roots(db, f, l, through=(), depth=0):
    """The locals a value was taken from: through references, copies and calls named in `through`
    (followed into their first argument)."""
    if depth > 24 or 1 <= l <= f.argc:
        return {l}
    out = set()
    ds = defs_of(f, l)
    for _, r in ds:
        src = None
        if r[0] == "call":
            c = r[1]
            nm = db.short(c.get("r") or c.get("id") or "") if isinstance(c, dict) and c.get("c") == "fn" else ""
            if nm.rsplit("::", 1)[-1] in through and r[2]:
                src = operand_local(r[2][0])
        elif r[0] == "ref":
            src = r[2][0]
        elif r[0] in ("use", "cast"):
            o = next((x for x in r[1:] if isinstance(x, dict) and "c" in x), None)
            src = operand_local(o)
        elif r[0] in ("rawptr", "addr", "copyderef"):
            p = next((x for x in r[1:] if isinstance(x, list)), None)
            src = p[0] if p else None
        if src is None or src == l:
            out.add(l)
        else:
            out |= roots(db, f, src, through, depth + 1)
    return out or {l}


def calls(db, f):
    """(block, short callee name, terminator) of every call outside cleanup."""
    for j, b in enumerate(f.blocks):
        if b.get("u"):
            continue
        t = b["t"]
        if t[0] == "call" and isinstance(t[1], dict) and t[1].get("c") == "fn":
            yield j, db.short(t[1].get("r") or t[1].get("id") or ""), t


def reaches(cfg, a, b, avoid=()):
    """Is there a path from block a to block b that avoids `avoid` (a itself excepted)?"""
    seen, todo = set(), [t for _, t in cfg.succ[a]]
    while todo:
        x = todo.pop()
        if x in seen or x in avoid:
            continue
        seen.add(x)
        if x == b:
            return True
        todo += [t for _, t in cfg.succ[x]]
    return False


def fields_touched(db, keys, adt):
    """Names of the fields of an ADT the given functions have in their places."""
    out = set()

    def w(y):
        if isinstance(y, dict):
            for z in y.values():
                w(z)
        elif isinstance(y, (list, tuple)):
            if len(y) == 4 and y[0] == "f" and isinstance(y[1], str) and \
                    db.adt_short(y[1]) == adt:
                out.add(y[3])
            for z in y:
                w(z)
    for k in keys:
        if k in db.fns:
            for b in db.fns[k].blocks:
                w(b["s"])
                w(b["t"])
    return out


CHAR_PREDS = {"is_ascii_alphanumeric": lambda c: c.isascii() and c.isalnum(), "is_ascii_alphabetic": lambda c: c.isascii() and c.isalpha(),
              "is_ascii_digit": lambda c: c.isascii() and c.isdigit(), "is_alphanumeric": str.isalnum,
              "is_alphabetic": str.isalpha, "is_numeric": str.isnumeric, "is_whitespace": str.isspace,
              "is_ascii": str.isascii, "is_ascii_whitespace": lambda c: c in " \t\n\r\f",
              "is_ascii_uppercase": lambda c: c.isascii() and c.isupper(), "is_ascii_lowercase": lambda c: c.isascii() and c.islower(),
              "is_ascii_punctuation": lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != " ",
              "is_ascii_hexdigit": lambda c: c in "0123456789abcdefABCDEF", "is_control": lambda c: ord(c) < 32 or ord(c) == 127,
              "is_ascii_control": lambda c: ord(c) < 32 or ord(c) == 127}
CMP = {"Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b,
       "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b, "BitOr": lambda a, b: a | b, "BitAnd": lambda a, b: a & b}


def char_predicate(db, f, arg):
    """The set of ASCII characters for which a predicate over one character is true, by propagating each of the 128 constants
    through the function's blocks; None when something in it is not a comparison of the character."""
    out = set()
    for i in range(128):
        r = _propagate(db, f, {arg: i})
        if r is None:
            return None
        if r:
            out.add(chr(i))
    return out


def _propagate(db, f, env, depth=0):
    env = dict(env)

    def val(o):
        if o.get("c") == "const":
            x = o.get("int")
            return None if x is None else int(x)
        p = o.get("p") or [None]
        return env.get(p[0]) if len(p) == 1 or p[1:] in (["*"], [["deref"]], ["deref"]) else None
    b, steps = 0, 0
    while steps < 500:
        steps += 1
        blk = f.blocks[b]
        for s in blk["s"]:
            d, r = s[0], s[1]
            if len(d) != 1:
                continue
            v = None
            if r[0] == "use":
                v = val(r[1])
            elif r[0] == "ref":
                v = env.get(r[2][0])
            elif r[0] == "bin" and r[1] in CMP:
                x, y = val(r[2]), val(r[3])
                v = None if x is None or y is None else int(CMP[r[1]](x, y))
            elif r[0] == "un" and r[1] == "Not":
                x = val(r[2])
                v = None if x is None else 1 - x
            elif r[0] == "cast":
                v = val(r[2]) if isinstance(r[2], dict) else val(r[1]) if isinstance(r[1], dict) else None
            env[d[0]] = v
        t = blk["t"]
        if t[0] == "ret":
            return env.get(0)
        if t[0] == "goto":
            b = t[1]
        elif t[0] == "switch":
            v = val(t[1])
            if v is None:
                return None
            b = next((x for c, x in t[2] if int(c) == v), t[3])
        elif t[0] == "call":
            name = db.short(t[1].get("r") or t[1].get("id") or "").rsplit("::", 1)[-1]
            args = [val(a) for a in t[2]]
            v = None
            g = db.fns.get(t[1].get("r"))
            if name in CHAR_PREDS and args and args[0] is not None:
                v = int(CHAR_PREDS[name](chr(args[0])))
            elif name in ("eq", "ne") and len(args) == 2 and None not in args:
                v = int((args[0] == args[1]) == (name == "eq"))
            elif g is not None and depth < 4 and None not in args:
                v = _propagate(db, g, {i + 1: a for i, a in enumerate(args)}, depth + 1)
            env[t[3][0]] = v
            b = t[4]
        else:
            return None
    return None
