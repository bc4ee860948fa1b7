"""Check framework: obligations, reports, known findings, evidence."""
import json, os, sys, time, traceback
import facts
from facts import CheckError, VERIF
from absint import *

REG = {}


def prop(pid, technique="", level="other"):
    def deco(fn):
        REG[pid] = fn
        return fn
    return deco


class Ctx:
    def __init__(self, pid, db, tier):
        self.pid = pid
        self.db = db
        self.tier = tier
        self.obl = []       # (key, ok, where, message)
        self.counts = {}
        self.notes = []
        self.samples = []
        self.rules = []
        self.analysed = set()
        self.assumptions = []
        self.seenkeys = set()

    # -- obligations
    def ok(self, key, where="", msg=""):
        self._add(key, True, where, msg)

    def bad(self, key, where="", msg=""):
        self._add(key, False, where, msg)

    def req(self, cond, key, where="", msg=""):
        self._add(key, bool(cond), where, msg)
        return bool(cond)

    def _add(self, key, ok, where, msg):
        k = (key, ok)
        if k in self.seenkeys:
            return
        self.seenkeys.add(k)
        self.obl.append((key, ok, where, msg))

    def rule(self, text):
        self.rules.append(text)

    def floor(self, name, n, least):
        """Instances of a rule counted on this run against the number confirmed by hand."""
        self.counts[name] = n
        if n < least:
            self.bad(f"floor/{name}", "", f"only {n} instances of `{name}` were found, {least} were confirmed by hand: "
                     "the rule no longer sees the construct it is about")

    def at(self, e):
        f = self.db.fns[e.fn]
        return f"{f.file}:{e.line} ({f.short})"

    def fnat(self, f):
        return f"{f.file}:{f.line} ({f.short})"

    def interp(self, *a, **k):
        ip = Interp(self.db, *a, **k)
        self._ips = getattr(self, "_ips", [])
        self._ips.append(ip)
        return ip


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as fh:
        return json.load(fh)


def run(pid, tier):
    t0 = time.time()
    if pid not in REG:
        print(f"unknown property {pid}")
        return 2
    db = facts.load()
    cx = Ctx(pid, db, tier)
    REG[pid](cx)
    known = [k for k in load_known()["findings"] if k["property"] == pid]
    kk = {k["key"]: k for k in known}
    bad = [o for o in cx.obl if not o[1]]
    newbad = [o for o in bad if o[0] not in kk]
    hit = [o for o in bad if o[0] in kk]
    oks = [o for o in cx.obl if o[1]]
    fns = set()
    steps = res = ext = 0
    for ip in getattr(cx, "_ips", []):
        fns |= ip.visited
        steps += ip.steps
        res += ip.calls_resolved
        ext += ip.calls_external
    fns |= cx.analysed
    print(f"{pid}: {len(cx.obl)} obligations, {len(oks)} hold, {len(bad)} do not "
          f"({len(hit)} known findings); {len(fns)} function bodies analysed")
    for n, c in sorted(cx.counts.items()):
        print(f"  count {n} = {c}")
    for r in cx.rules:
        print(f"  rule: {r}")
    for o in hit:
        print(f"KNOWN-FINDING: property={pid} {kk[o[0]]['what']} [{o[0]}] at {o[2]}")
    for k in known:
        if k["key"] not in {o[0] for o in hit}:
            print(f"  note: listed finding no longer present: {k['key']}")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rc = 0
    if newbad:
        rp = os.path.join(VERIF, "evidence", f"{pid}.violation.txt")
        with open(rp, "w") as fh:
            for key, _, where, msg in newbad:
                fh.write(f"{key}\n  at {where}\n  {msg}\n")
        for key, _, where, msg in newbad[:40]:
            print(f"VIOLATION property={pid} replay={rp} :: {key} at {where}: {msg}")
        rc = 1
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": LEVEL.get(pid, "other"),
        "coverage": {
            "explanation": " ".join(cx.rules) or "static rule over MIR",
            "rule": " ".join(cx.rules),
            "obligations": len(cx.obl), "discharged": len(oks),
            "known_findings": len(hit),
            "checker_cmd": f"python3 check.py {pid}",
            "trusted_base": ["rustc nightly MIR construction", "lib/absint.py transfer functions",
                             "the models of external (std, serde_json, pest...) functions in lib/absint.py",
                             "the hand-confirmed tables in checks/"],
            "functions_analysed": len(fns),
            "functions": sorted({db.short(k) for k in fns})[:60],
            "dataflow_steps": steps, "calls_inlined": res, "external_calls_modelled": ext,
            "instance_counts": cx.counts,
            "samples": [f"{o[0]} at {o[2]}" for o in oks[:12]],
        },
        "assumptions": cx.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(newbad),
    }
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{pid}: {'VIOLATED' if newbad else 'holds'} in {time.time()-t0:.1f}s")
    return rc


LEVEL = {}


# ------------------------------------------------------------------------- helpers on events
def labels(v):
    return labset(v.AL)


def fields_of(v):
    return {l[1] for l in labset(v.AL) if isinstance(l, tuple) and l[0] == "f"}


def fields_bits(b):
    return {l[1] for l in labset(b) if isinstance(l, tuple) and l[0] == "f"}


def strs(v):
    return {l[1] for l in labset(v.AL) if isinstance(l, tuple) and l[0] == "s"}


def strs_bits(b):
    return {l[1] for l in labset(b) if isinstance(l, tuple) and l[0] == "s"}


def ints_bits(b):
    """Integer and character constants."""
    out = set()
    for l in labset(b):
        if isinstance(l, tuple) and l[0] == "i":
            try:
                out.add(int(l[1]))
            except (TypeError, ValueError):
                pass
    return out


def ints(v):
    return ints_bits(v.AL)


def xs(v):
    return {l[1] for l in labset(v.AL) if isinstance(l, tuple) and l[0] == "x"}


def filts(v):
    return [l[1] for l in labset(v.AL) if isinstance(l, tuple) and l[0] == "filt"]


LOSSY_SEG = S("""take skip first last nth filter find dedup dedup_by dedup_by_key take_while skip_while step_by truncate pop remove
 swap_remove retain trim trim_start trim_end trim_matches trim_start_matches trim_end_matches to_lowercase to_uppercase
 to_ascii_lowercase to_ascii_uppercase replace replacen strip_prefix strip_suffix split splitn rsplitn split_off
 split_at split_once rsplit_once split_first split_last min max min_by max_by min_by_key max_by_key
 drain clear chunks windows make_ascii_lowercase make_ascii_uppercase position rposition nth_back pop_front pop_back""")
ARITH = S("Add Sub Mul Div Rem Neg Not Shl Shr BitXor AddWithOverflow SubWithOverflow MulWithOverflow")


def lossy(v, allow=()):
    """Tags saying that content was cut, selected or rewritten on the way."""
    out = set()
    for x in xs(v):
        seg = x.rsplit("::", 1)[-1]
        if seg in LOSSY_SEG and seg not in allow and x not in allow:
            out.add(x)
    # arithmetic on a value is a rewriting of it
    out |= {f"arithmetic ({l[1]})" for l in labset(v.AL) if isinstance(l, tuple) and l[0] == "op" and l[1] in ARITH}
    return out


def rebuilt(v, depth=0):
    """Parts of a struct value that are not just the same part of the value it is made from: constants in their place."""
    out = set()
    for n, x in v.F:
        if n.startswith("#") or depth > 4:
            continue
        if n in ("Some", "Ok", "0"):
            out |= rebuilt(x, depth + 1)
            continue
        if any(t[0] in ("c", "v", "b") for t in x.T) or not any(q.endswith("." + n) for q in fields_of(x)):
            out.add(n)
        out |= rebuilt(x, depth + 1)
    return out


def unwrap_exit(a):
    return (a[2], a[1]) if a[0] == "exit" else (a, None)


def atom_fields(a):
    """All field labels an atom depends on."""
    out = set()
    for x in a[1:]:
        if isinstance(x, bool):
            continue
        if isinstance(x, int):
            out |= fields_bits(x)
        elif isinstance(x, tuple):
            out |= atom_fields(("",) + x)
    return out


def atom_labs(a):
    out = set()
    for x in a[1:]:
        if isinstance(x, bool):
            continue
        if isinstance(x, int):
            out |= labset(x)
        elif isinstance(x, tuple):
            out |= atom_labs(("",) + x)
    return out


STDENUM = {"Option", "Result", "ControlFlow", "Poll", "Ordering_"}


def presence(a):
    """Atoms that only ask whether something is there (or is the next element of an iteration)."""
    if a[0] == "var" and a[1] in STDENUM:
        return True
    if a[0] == "b" and a[1] in ("is_empty",):
        return ("mk",) not in atom_labs(a)      # the emptiness of an entry's own name is its content
    if a[0] == "b" and a[1] in ("eq", "lt", "gt", "le", "ge"):
        # counter loops and `len() > 0`
        ls = atom_labs(a)
        if ("len",) in ls and not any(isinstance(l, tuple) and l[0] in ("op",) and l[1] not in
                                      ("AddWithOverflow", "Add", "AddUnchecked") for l in ls):
            ints = {l[1] for l in ls if isinstance(l, tuple) and l[0] == "i"}
            sides = a[2] if isinstance(a[2], tuple) else ()
            if len(sides) == 2:
                pure = [{l[1] for l in labset(x)} if labset(x) and all(isinstance(l, tuple) and l[0] == "i"
                                                                       for l in labset(x)) else None for x in sides]
                if (pure[0] is None) != (pure[1] is None):
                    k = pure[0] or pure[1]
                    first = pure[0] is not None       # constant on the left
                    zero = {"eq": {0}, "gt": {1} if first else {0}, "lt": {0} if first else {1},
                            "ge": {0} if first else {1}, "le": {1} if first else {0}}[a[1]]
                    return k <= zero and not any(isinstance(l, tuple) and l[0] == "s" for l in ls)
            if ints <= {0, 1} and not any(isinstance(l, tuple) and l[0] == "s" for l in ls):
                return True
    return False


def guard_ok(a, own, enums=(), extra=None):
    """Is atom `a` an acceptable reason for a construct that carries fields `own`?

    Accepted: presence/iteration of (an ancestor of) the thing itself, case distinctions on a
    repository enum that (an ancestor of) the thing is stored in, error exits."""
    a, ex = unwrap_exit(a)
    if ex is not None:
        return True
    if extra is not None and extra(a):
        return True
    fs = atom_fields(a)
    if a[0] == "var":
        if a[1] == "ControlFlow" or a[1] == "Result":
            return True
        return fs <= own
    if presence(a):
        return fs <= own
    return False


def gtext(a):
    a, ex = unwrap_exit(a)
    pre = f"[{ex} exit] " if ex else ""

    def ls(b):
        return "{" + ",".join(sorted(labstr(l) for l in labset(b) if not labstr(l).startswith("arg:"))) + "}"
    if a[0] == "var":
        return pre + f"{a[1]} is {'|'.join(sorted(a[2]))} of {ls(a[3])}"
    if a[0] == "b":
        return pre + ("" if a[3] else "not ") + f"{a[1]}({', '.join(ls(x) for x in a[2])})"
    return pre + atomstr(a)


# ------------------------------------------------------------------------- generic rules
def struct_of(field):
    return field.rsplit(".", 1)[0]


def admits(ats, adt, variant):
    """Do the guards allow value of enum `adt` to be `variant`?"""
    for a in ats:
        a, ex = unwrap_exit(a)
        if a[0] == "var" and a[1] == adt and variant not in a[2]:
            return False
    return True


def const_terms(v):
    """[(constant, guard atoms)] a value may be; None if it may be something that is not a constant."""
    out = []
    for t in v.T:
        if t[0] == "c":
            out.append((t[1], atoms(t[2])))
        else:
            return None
    return out


def key_of(v):
    """The set of constant strings a (key) value is, or None when it is not made of constants alone."""
    ct = const_terms(v)
    if ct is None or not ct:
        s = strs(v)
        if s and not fields_of(v):
            return s
        return None
    return {c for c, _ in ct if isinstance(c, str)}


def implied(a, own):
    """Enum guard that the value's own path already implies (`ShapeKind::Map.0` in the path)."""
    a, ex = unwrap_exit(a)
    if a[0] != "var":
        return False
    return any(f.startswith(f"{a[1]}::{v}.") for f in own for v in a[2])


def cover(cx, evs, okatom, variants_of):
    """Do the guards of `evs`, taken together, let the construct happen whatever the case?

    evs: [(own fields, atoms)].  Returns the atoms that stand in the way ([] when fine)."""
    rows = []
    for own, ats in evs:
        left = [a for a in ats if not okatom(a, own)]
        rows.append(left)
    rows = [list(dict.fromkeys(r)) for r in rows]
    if any(not r for r in rows):
        return []
    # resolve complementary guards
    for _ in range(8):
        if any(not r for r in rows):
            return []
        changed = False
        uni = {}
        for r in rows:
            for a in r:
                rest = frozenset(x for x in r if x is not a)
                if a[0] == "b":
                    uni.setdefault((rest, "b", a[1], a[2]), set()).add(a[3])
                elif a[0] == "var":
                    uni.setdefault((rest, "var", a[1]), set()).update(a[2])
        new = []
        for k, vals in uni.items():
            full = (k[1] == "b" and vals == {True, False}) or \
                   (k[1] == "var" and variants_of(k[2]) is not None and vals >= variants_of(k[2]))
            if full:
                new.append(list(k[0]))
        for n in new:
            if n not in rows:
                rows.append(n)
                changed = True
        if not changed:
            break
    if any(not r for r in rows):
        return []
    return min(rows, key=len)


def variants(cx, name):
    if name == "Option":
        return {"None", "Some"}
    if name == "Result":
        return {"Ok", "Err"}
    try:
        a = cx.db.find_adt(name)
    except CheckError:
        return None
    if a is None:
        return None
    return {v["n"] for v in cx.db.adts[a]["v"]}


def slot_check(cx, evs, rows, key_arg, val_arg, what, allow_lossy=(), extra_ok=None, universe=(), alias=None):
    """Keyed writes: each row key <- source field(s), and nothing else.

    evs: events; rows: {key: [source field, ...]} ; a source stands for the model content that must
    appear under that key.  universe: fields whose structs define the siblings a key may not take."""
    n = 0
    allowed = {}
    for k, srcs in rows.items():
        allowed.setdefault(k, set()).update(srcs)
    for k, srcs in rows.items():
        for s in srcs:
            cand = []
            for e in evs:
                ks = key_of(e.args[key_arg])
                if ks is None or k not in ks:
                    continue
                v = e.args[val_arg]
                if s not in fields_of(v):
                    continue
                cand.append(e)
            kk = f"{what}/{k}<-{s}"
            if not cand:
                cx.bad(kk, what, f"no construct writes `{s}` under `{k}`")
                continue
            n += 1
            groups = [(fields_of(e.args[val_arg]) | fields_of(e.args[key_arg]), e.atoms()) for e in cand]

            def okatom(a, own):
                return guard_ok(a, own | implied_fields(a, own), extra=extra_ok) or implied(a, own)
            left = cover(cx, groups, okatom, lambda nm: variants(cx, nm))
            if not cx.req(not left, kk + "/always", cx.at(cand[0]),
                          f"`{s}` is written under `{k}` only if {'; '.join(map(gtext, left))}"):
                continue
            lz = set()
            for e in cand:
                lz |= lossy(e.args[val_arg], allow_lossy)
            cx.req(not lz, kk + "/whole", cx.at(cand[0]),
                   f"the content of `{s}` passes through {sorted(lz)} before it is written")
    # no key takes a sibling
    for e in evs:
        ks = key_of(e.args[key_arg])
        if ks is None or len(ks) != 1:
            continue
        k = next(iter(ks))
        if k not in allowed:
            continue
        structs = {struct_of(s) for s in allowed[k]}
        fs = fields_of(e.args[val_arg])
        wrong = {f for f in fs if struct_of(f) in structs and f not in allowed[k]
                 and (not universe or f in universe)}
        # only meaningful when the event is about this struct's own slot
        if wrong:
            cx.bad(f"{what}/{k}<-not {','.join(sorted(wrong))}", cx.at(e),
                   f"`{k}` is written from {sorted(wrong)}")
        else:
            cx.ok(f"{what}/{k}/pure@{'/'.join(sorted(fs & allowed[k]))}", cx.at(e))
    return n


def implied_fields(a, own):
    return set()


def case_table(cx, terms, adt, expect, what, where, closed=True, strip=None):
    """The constants a value takes per variant of `adt`: exactly those of the table.

    terms: [(constant, atoms)]"""
    vs = variants(cx, adt)
    for v in sorted(vs):
        got = set()
        for c, ats in terms:
            if not isinstance(c, str):
                continue
            if admits(ats, adt, v):
                got.add(c if strip is None else strip(c))
        want = expect.get(v)
        if want is None:
            continue
        if isinstance(want, str):
            want = {want}
        cx.req(got == set(want), f"{what}/{adt}::{v}", where,
               f"{adt}::{v} gives {sorted(got)} instead of {sorted(want)}")


def gets_of(v, kind="get"):
    return {l[1] for l in labset(v.AL) if isinstance(l, tuple) and l[0] == kind}


def atom_gets(a, kind="get"):
    return {l[1] for l in atom_labs(a) if isinstance(l, tuple) and l[0] == kind}


def field_index(cx, name):
    """{field name: position} of a workspace struct."""
    a = cx.db.adts[cx.db.find_adt(name)]
    return {f["n"]: i for i, f in enumerate(a["v"][0]["f"])}


def writes_of(cx, evs, field):
    """[(event, value)] of every construct that stores into struct field `T.f`."""
    t, f = field.rsplit(".", 1)
    idx = field_index(cx, t).get(f)
    out = []
    for e in evs:
        if e.kind == "field" and e.name == field:
            out.append((e, e.args[0]))
        elif e.kind == "agg" and e.name == t and idx is not None and idx < len(e.args):
            out.append((e, e.args[idx]))
    return out


def reader_check(cx, evs, rows, what, kind="get", atom_ok=None, allow_lossy=(), floor=None):
    """Stores into model fields: `rows` = {field: source key}; every field gets its own key's content, whole,
    whenever present, and never the content of a sibling's key."""
    n = 0
    for field, keys in rows.items():
        if isinstance(keys, str):
            keys = {keys}
        sib = set()
        for f2, k2 in rows.items():
            if struct_of(f2) == struct_of(field) and f2 != field:
                sib |= {k2} if isinstance(k2, str) else set(k2)
        sib -= set(keys)
        ws = writes_of(cx, evs, field)
        good = [(e, v) for e, v in ws if gets_of(v, kind) & set(keys)]
        kk = f"{what}/{field}<-{'|'.join(sorted(keys))}"
        if not good:
            cx.bad(kk, what, f"nothing read from {sorted(keys)} is ever stored in `{field}`")
            continue
        n += 1
        for e, v in ws:
            w = gets_of(v, kind) & sib
            if w and not (gets_of(v, kind) & set(keys)):
                cx.bad(f"{what}/{field}<-not {','.join(sorted(w))}", cx.at(e),
                       f"`{field}` is filled from {sorted(w)} instead of {sorted(keys)}")
            elif w:
                cx.bad(f"{what}/{field}<-mixed {','.join(sorted(w))}", cx.at(e),
                       f"`{field}` mixes the content of {sorted(w)} with that of {sorted(keys)}")
        # the stores that take it from the source, not those that pass on a finished part of the model
        first = [(e, v) for e, v in good if field not in fields_of(v)] or good
        groups = [(gets_of(v, kind), e.atoms()) for e, v in first]

        def okatom(a, own):
            b, ex = unwrap_exit(a)
            if ex is not None:
                return True
            if atom_ok is not None and atom_ok(b, own):
                return True
            g = atom_gets(b, kind)
            if b[0] == "var" and b[1] in ("Option", "Result", "ControlFlow"):
                return g <= own
            if b[0] == "var" and g <= own and not (g & set(keys)):
                return True     # about an enclosing part of the source, which has a row of its own
            if presence(b):
                return atom_gets(b, kind) <= own
            return False
        left = cover(cx, groups, okatom, lambda nm: variants(cx, nm))
        cx.req(not left, kk + "/always", cx.at(good[0][0]),
               f"what is read into `{field}` is dropped unless {'; '.join(map(gtext, left))}")
        lz = set()
        for e, v in good:
            lz |= lossy(v, allow_lossy)
        cx.req(not lz, kk + "/whole", cx.at(good[0][0]), f"what is read into `{field}` passes through {sorted(lz)}")
    return n


def is_write(s):
    return s.rsplit("::", 1)[-1] in ("write_fmt", "write_str", "push_str", "write_char", "fmt", "pad", "write_all", "write")


def text_parts(v):
    """[(constant, guards)] of the constant pieces of a text."""
    out = []
    ct = const_terms(v)
    if ct:
        out += [(c, list(a)) for c, a in ct if isinstance(c, str)]
    for n, x in v.F:
        if n.startswith("#"):
            out += text_parts(x) or [(c, []) for c in strs(x)]
    return out


def display_terms(cx, f):
    """[(constant text, guards)] a Display implementation writes."""
    ip = cx.interp(sink=is_write)
    ret, evs, _ = ip.run(f)
    out = []
    for e in evs:
        for v in e.args[1:]:
            out += [(c, a + list(e.atoms())) for c, a in text_parts(v)]
    return out


def parts_of(e, i=1):
    """Constant pieces of the text an event writes."""
    out = []
    for v in e.args[i:]:
        out += [c for c, _ in text_parts(v)]
    return out


def text_fields(e, i=1):
    out = set()
    for v in e.args[i:]:
        out |= fields_of(v)
    return out


def has_word(parts, word):
    import re
    if re.fullmatch(r"\w+", word):
        return any(re.search(r"(?<!\w)" + word + r"(?!\w)", p) for p in parts)
    return any(word in p for p in parts)


def near(h, e):
    """Are the conditions under which `h` is written also conditions of `e` (a heading and what follows it)?"""
    a = {x for x in h.atoms() if x[0] != "exit"}
    b = {x for x in e.atoms() if x[0] != "exit"}
    return a <= b


def text_slots(cx, evs, rows, what, universe=(), extra_ok=None, allow_lossy=(), text=1, filt_ok=None, where=None,
               stray_ok=None):
    """Text output.  rows: [(name, words, fields)]: some text carries all of `fields`, next to (or under a heading
    with) all of `words`, whole and whenever the content exists; a text with these words carries no sibling field
    (of `universe`)."""
    n = 0
    info = [(e, parts_of(e, text), text_fields(e, text)) for e in evs]
    for name, words, fields in rows:
        fields = set(fields)
        key = f"{what}/{name}"
        cand = [(e, p, f) for e, p, f in info if fields <= f]
        if not cand:
            cx.bad(key, where or "", f"no text carries {sorted(fields)}")
            continue
        structs = {struct_of(x) for x in fields}
        sib = {u for u in universe if struct_of(u) in structs} - fields
        ok = []
        for e, p, f in cand:
            good = True
            for w in words:
                if has_word(p, w):
                    continue
                # a heading of its own: no sibling's heading
                if not any(has_word(hp, w) and not (hf & sib) and near(h, e) for h, hp, hf in info if h is not e):
                    good = False
            if good:
                ok.append((e, p, f))
        if not cx.req(ok, key + "/word", cx.at(cand[0][0]), f"{sorted(fields)} is not written next to {list(words)}"):
            continue
        n += 1
        groups = [(f | {"?"}, e.atoms()) for e, p, f in ok]

        def okatom(a, own):
            return guard_ok(a, own | implied_fields(a, own), extra=extra_ok) or implied(a, own)
        left = cover(cx, groups, okatom, lambda nm: variants(cx, nm))
        cx.req(not left, key + "/always", cx.at(ok[0][0]),
               f"{sorted(fields)} is written only if {'; '.join(map(gtext, left))}")
        lz = set()
        for e, p, f in ok:
            for v in e.args[text:]:
                lz |= cut(v, allow_lossy, filt_ok)
        cx.req(not lz, key + "/whole", cx.at(ok[0][0]), f"the content of {sorted(fields)} passes through {sorted(lz)}")
        # the words are not used for a sibling (unless the sibling's own words are there too: a loop over several)
        for e, p, f in info:
            if not (words and words[0].isalnum() and all(has_word(p, w) for w in words)):
                continue
            wrong = {x for x in f & sib if not any(x in fs and all(has_word(p, w) for w in ws) and ws != words
                                                   for _, ws, fs in rows)}
            if wrong and (stray_ok is None or not stray_ok(name, e, f)):
                cx.bad(f"{key}<-not {','.join(sorted(wrong))}", cx.at(e), f"{list(words)} is written with {sorted(wrong)}")
    return n


def cut(v, allow=(), filt_ok=None):
    """What shortens `v`: lossy steps and filters other than the accepted ones (a filter that was followed is judged by its condition)."""
    fl = filts(v)
    out = {x for x in lossy(v, allow) if not (fl and x.endswith("::filter"))}
    return out | {"a filter: " + gtext(x) for x in fl if filt_ok is None or not filt_ok(x)}
