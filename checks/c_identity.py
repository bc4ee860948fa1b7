"""M01, M02: identifiers."""
import lang
from core import *

CMP_SINKS = ("PartialEq::eq", "PartialEq::ne", "Hash::hash", "Ord::cmp", "PartialOrd::partial_cmp")
FOLD = {"to_lowercase": "fold", "to_uppercase": "fold-upper", "to_ascii_lowercase": "fold-ascii",
        "to_ascii_uppercase": "fold-ascii", "eq_ignore_ascii_case": "fold-ascii"}


def all_fields(db, adt):
    return {f"{db.adt_short(adt)}.{f['n']}" for v in db.adts[adt]["v"] for f in v["f"]}


def view(cx, fn, adt, who="self"):
    """{(field, transformations)} of the operand that the comparison/hash looks at."""
    db = cx.db
    own = all_fields(db, adt)
    if fn.derived:
        return {(f, frozenset()) for f in own}
    ip = cx.interp(sink=lambda s: s.split(" as ")[-1] in CMP_SINKS or s.endswith("::eq_ignore_ascii_case"))
    ret, evs, _ = ip.run(fn)
    out = set()
    orient = set()
    fn_orient[fn.key] = orient
    me = ("arg", fn.locals[1 if who == "self" else 2].get("n") or who)
    for e in evs:
        for a in e.args:
            if me not in labels(a):
                continue
            fs = fields_of(a) & own
            if fs and len(e.args) == 2:
                orient.add(e.args.index(a))
            tags = set()
            for x in xs(a):
                seg = x.rsplit("::", 1)[-1]
                if seg in FOLD:
                    tags.add(FOLD[seg])
                elif seg in LOSSY_SEG:
                    tags.add(seg)
            if e.name.endswith("eq_ignore_ascii_case"):
                tags.add("fold-ascii")
            for f in fs:
                out.add((f, frozenset(tags)))
    return out


fn_orient = {}


def vtext(v):
    return ", ".join(sorted(f + ("" if not t else " through " + "+".join(sorted(t))) for f, t in v)) or "nothing"


@prop("M01")
def m01(cx):
    db = cx.db
    cx.rule("For every workspace type that is comparable and hashable or ordered, the part of the value that equality "
            "looks at (fields and text foldings, traced through the bodies of the trait methods; every field, raw, for a "
            "derived implementation) is the part that hashing and ordering look at, on both operands; the identifier types fold case.")
    meth = {}
    for im in db.impls:
        tn = db.names.get(im["trait"], "").split("::")[-1]
        if tn not in ("PartialEq", "Hash", "Ord", "PartialOrd"):
            continue
        s = im["self"]
        while s.get("k") == "ref":
            s = s["t"]
        if s.get("id") not in db.local_adts:
            continue
        want = {"PartialEq": "eq", "Hash": "hash", "Ord": "cmp", "PartialOrd": "partial_cmp"}[tn]
        for tm, m in im["m"].items():
            f = db.fns.get(m)
            if f and f.short.endswith("::" + want):
                meth.setdefault(s["id"], {})[tn] = f
    n = 0
    for adt, ms in sorted(meth.items(), key=lambda x: db.names.get(x[0], "")):
        if len(ms) < 2 or "PartialEq" not in ms:
            continue
        nm = db.names[adt]
        n += 1
        eq = ms["PartialEq"]
        v = view(cx, eq, adt)
        if not eq.derived:
            o = view(cx, eq, adt, "other")
            cx.req(v == o, f"coherence/{nm}/operands", cx.fnat(eq),
                   f"equality compares {vtext(v)} of one operand with {vtext(o)} of the other")
        for t in ("Hash", "Ord", "PartialOrd"):
            if t in ms:
                w = view(cx, ms[t], adt)
                cx.req(v == w, f"coherence/{nm}/{t}", cx.fnat(ms[t]),
                       f"equality of {nm} looks at {vtext(v)} but {t} looks at {vtext(w)}: equal values can "
                       f"{'hash differently' if t == 'Hash' else 'be ordered apart'}")
        if "Ord" in ms and "PartialOrd" in ms:
            a, b = (fn_orient.get(ms[t].key, {0}) if not ms[t].derived else {0} for t in ("Ord", "PartialOrd"))
            cx.req(a == b, f"coherence/{nm}/direction", cx.fnat(ms["PartialOrd"]),
                   f"the two orderings of {nm} run in opposite directions")
    cx.floor("comparable types with a second comparison trait", n, 8)
    for t in ("Identifier", "NamespaceID"):
        adt = db.find_adt(t)
        eq = meth.get(adt, {}).get("PartialEq")
        if eq is None:
            cx.bad(f"case/{t}", "", f"{t} has no equality")
            continue
        v = view(cx, eq, adt)
        cx.req(v and all(any(x.startswith("fold") for x in tg) for _, tg in v), f"case/{t}", cx.fnat(eq),
               f"equality of {t} looks at {vtext(v)}: it must ignore case (no two shapes may differ in case only)")
    # ShapeID equality is made of all its parts
    adt = db.find_adt("ShapeID")
    v = view(cx, meth[adt]["PartialEq"], adt)
    cx.req({f for f, _ in v} == all_fields(db, adt), "parts/ShapeID", cx.fnat(meth[adt]["PartialEq"]),
           f"equality of shape identifiers looks only at {vtext(v)}")


# ------------------------------------------------------------------ text out of write! events
TEXT_SINKS = ("write_fmt", "write_str", "write_char", "push_str")


def is_text_sink(s):
    seg = s.rsplit("::", 1)[-1]
    return seg in TEXT_SINKS or (seg == "push" and s.startswith("String::")) or \
        (seg in ("fmt", "pad") and " as Display" in s) or s == "Formatter::pad"


def tokens(v):
    """Flatten a formatted value into literal text and field tokens."""
    ks = [k for k, _ in v.F if k.startswith("#")]
    if ks:
        out = []
        for k in sorted(ks):
            out += tokens(v.get(k))
        return out
    fs = fields_of(v)
    if fs:
        return [("f", frozenset(fs), frozenset(x for x in lossy(v)))]
    ls = labset(v.AL)
    s = [l[1] for l in ls if isinstance(l, tuple) and l[0] in ("s",)]
    i = sorted(ints(v))
    if len(s) == 1 and not i:
        return [("s", s[0])]
    if len(i) == 1 and not s:
        try:
            return [("s", chr(i[0]))]
        except (ValueError, TypeError):
            pass
    if any(isinstance(l, tuple) and l[0] == "arg" for l in ls):
        return [("arg", frozenset(ls))]
    return [("?", frozenset(ls))]


def text_seq(evs):
    """[(token, guard atoms)] in program order of every piece of text written."""
    out = []
    for e in evs:
        if e.kind != "call" or not is_text_sink(e.name):
            continue
        v = e.args[0] if (" as Display" in e.name and e.name.endswith("::fmt")) else e.args[1]
        for t in tokens(v):
            if out and t[0] == "s" and out[-1][0][0] == "s" and out[-1][1] == e.atoms():
                out[-1] = (("s", out[-1][0][1] + t[1]), e.atoms())
            else:
                out.append((t, e.atoms()))
    return out


def check_display(cx, short, expect, what, crate=None):
    """Display text is exactly `expect`: [(literal or field, condition field or None)]."""
    db = cx.db
    f = db.find(short, crate=crate)
    ip = cx.interp(sink=is_text_sink)
    _, evs, _ = ip.run(f)
    seq = text_seq(evs)
    got = []
    for t, ats in seq:
        hard = [a for a in ats if a[0] != "exit"]
        cond = None
        for a in hard:
            if a[0] == "var" and a[1] == "Option" and a[2] == frozenset(["Some"]):
                cond = "|".join(sorted(atom_fields(a)))
            else:
                cond = "?" + gtext(a)
        if t[0] == "s":
            x = repr(t[1])
        elif t[0] == "f":
            x = "|".join(sorted(t[1])) + ("" if not t[2] else " via " + ",".join(sorted(t[2])))
        else:
            x = t[0]
        got.append((x, cond))
    want = [(repr(x[1:]) if x.startswith("=") else x, c) for x, c in expect]
    cx.req(got == want, f"display/{what}", cx.fnat(f), f"the text is made of {got} instead of {want}")


@prop("M02")
def m02(cx):
    db = cx.db
    cx.rule("The regular expressions that guard the construction of identifiers from text are extracted from the program as "
            "constants and shown language-equivalent (automata) to the Smithy grammar; every construction of an identifier "
            "from text is dominated by a positive match of that very text, groups go to the parts they denote, the text form "
            "is the inverse of the parser, and every unchecked construction gets a valid constant or a validated text.")
    ID, NS, SH = lang.parse(lang.ID), lang.parse(lang.NS), lang.parse(lang.SHAPE)
    names = {"id": ID, "ns": NS, "shape": SH}
    memo = {}

    def regex_lang(pat):
        if pat not in memo:
            try:
                a = lang.strip_anchors(lang.parse(pat))
                r = [k for k, v in names.items() if lang.differ(a, v) is None]
                memo[pat] = (r[0] if r else None,
                             None if r else {k: lang.differ(a, v) for k, v in names.items()})
            except (lang.Unsupported, ValueError, IndexError) as ex:
                memo[pat] = (None, str(ex))
        return memo[pat]

    def match_atoms(ats):
        out = []
        for a in ats:
            b, ex = unwrap_exit(a)
            if b[0] == "b" and b[1] == "is_match":
                out.append(b)
        return out
    n = 0
    for t, top in (("Identifier", "id"), ("NamespaceID", "ns")):
        f = db.find(f"{t} as FromStr::from_str")
        ip = cx.interp(sink=lambda s: s in ("Regex::new", "Regex::is_match"), agg={t})
        ret, evs, _ = ip.run(f)
        me = ("arg", f.locals[1].get("n") or "s")
        aggs = [e for e in evs if e.kind == "agg"]
        cx.req(aggs, f"parse/{t}/constructs", cx.fnat(f), f"parsing never makes a {t}")
        for e in aggs:
            n += 1
            ls = labels(e.args[0])
            cx.req(me in ls and not lossy(e.args[0]), f"parse/{t}/text", cx.at(e),
                   f"the {t} made is not the text that was given ({sorted(map(labstr, ls))[:6]})")
            ms = match_atoms(e.atoms())
            good = False
            why = "no positive regular expression match stands before it"
            for b in ms:
                if b[3] is not True:
                    why = "it is made when the text does NOT match"
                    continue
                ls2 = [labset(x) for x in b[2]]
                pats = {l[1] for l in ls2[0] if isinstance(l, tuple) and l[0] == "s"}
                subj = ls2[1] if len(ls2) > 1 else frozenset()
                if len(pats) != 1:
                    why = f"the pattern is not one constant ({sorted(pats)})"
                    continue
                lg, d = regex_lang(next(iter(pats)))
                split = {l[1].rsplit("::", 1)[-1] for l in subj if isinstance(l, tuple) and l[0] == "x"}
                extra = split & LOSSY_SEG
                if me not in subj:
                    why = "another text is matched"
                elif lg == top and not extra:
                    good = True
                elif top == "ns" and lg == "id" and extra == {"split"} and 46 in ints_bits(b[2][1]):
                    good = not any(unwrap_exit(a)[0][:2] == ("b", "any") and unwrap_exit(a)[0][3] is True
                                   for a in e.atoms())
                    why = "one valid part is taken for all"
                elif lg is None:
                    dd = d.get(top) if isinstance(d, dict) else d
                    why = (f"the pattern {'accepts' if dd[1] else 'rejects'} {dd[0]!r}" if isinstance(dd, tuple)
                           else f"the pattern cannot be decided: {dd}")
                else:
                    why = f"the pattern is that of `{lg}`"
                if good:
                    break
            cx.req(good, f"parse/{t}/validated", cx.at(e), f"a {t} is made from unvalidated text: {why}")
        # valid text is accepted: is_valid's language is the guard above; the only way to Err is a failed match
        errs = [x for x in ret.T if x[0] == "v" and x[2] == "Err"]
        for x in errs:
            extra = [a for a in atoms(x[3]) if not (unwrap_exit(a)[0][0] == "b" and unwrap_exit(a)[0][1] in
                                                    ("is_match", "all", "any"))
                     and not presence(unwrap_exit(a)[0])]
            cx.req(not extra, f"parse/{t}/only rejects mismatches", cx.fnat(f),
                   f"valid text may be refused because {'; '.join(map(gtext, extra))}")
    # shape identifiers
    f = db.find("ShapeID as FromStr::from_str")
    ip = cx.interp(sink=lambda s: s in ("Regex::new", "Regex::captures", "Regex::is_match"), agg={"ShapeID"})
    ret, evs, _ = ip.run(f)
    me = ("arg", f.locals[1].get("n") or "s")
    pats = {x for e in evs if e.kind == "call" and e.name == "Regex::new" for x in strs(e.args[0])}
    cap = [e for e in evs if e.kind == "call" and e.name == "Regex::captures"]
    aggs = [e for e in evs if e.kind == "agg" and not derived_clone(cx, e)]
    cx.req(aggs, "parse/ShapeID/constructs", cx.fnat(f), "parsing never makes a ShapeID")
    delegated = not cap
    for e in cap:
        cx.req(me in labels(e.args[1]) and not lossy(e.args[1]), "parse/ShapeID/text", cx.at(e),
               "another text than the given one is matched")
        ps = strs(e.args[0])
        ok = len(ps) == 1
        if not cx.req(ok, "parse/ShapeID/pattern", cx.at(e), f"the pattern is not one constant {sorted(ps)}"):
            continue
        pat = next(iter(ps))
        lg, d = regex_lang(pat)
        dd = d.get("shape") if isinstance(d, dict) else d
        cx.req(lg == "shape", "parse/ShapeID/language", cx.at(e),
               f"the pattern is not the language of shape identifiers: {dd}")
        try:
            gs = lang.groups(lang.parse(pat))
        except (lang.Unsupported, ValueError, IndexError):
            gs = {}
        idx = field_index(cx, "ShapeID")
        for ag in aggs:
            n += 1
            for fld, want, opt in (("namespace", "ns", False), ("shape_name", "id", False), ("member_name", "id", True)):
                v = ag.args[idx[fld]]
                nums = ints(v)
                bad = None
                if len(nums) != 1:
                    bad = f"is not made from one group ({sorted(nums)})"
                else:
                    g = next(iter(nums))
                    node = gs.get(g)
                    if node is None:
                        bad = f"is made from group {g}, which does not exist"
                    else:
                        dfr = lang.differ(node[0], names[want])
                        # where in the pattern: the group must be the part of that name
                        if dfr is not None:
                            bad = f"is made from group {g}, which differs from `{want}` on {dfr[0]!r}"
                        elif node[1] == opt:
                            bad = f"is made from group {g}, which is {'always' if node[1] else 'not always'} there"
                        elif fld == "shape_name" and not before(pat, g, "#"):
                            bad = f"is made from group {g}, which does not follow `#`"
                cx.req(not bad, f"parse/ShapeID/{fld}", cx.at(ag), f"the {fld} {bad}")
    if delegated:
        cx.bad("parse/ShapeID/captures", cx.fnat(f), "shape identifiers are no longer parsed by one regular expression")
    f = db.find("ShapeID::is_valid")
    ip = cx.interp(sink=lambda s: s in ("Regex::is_match",))
    ret, evs, _ = ip.run(f)
    for e in evs:
        lg, d = regex_lang(next(iter(strs(e.args[0])), ""))
        cx.req(lg == "shape", "valid/ShapeID/language", cx.at(e), f"the pattern is not that of shape identifiers: {d}")
    for t, top in (("Identifier", "id"), ("NamespaceID", "ns"), ("ShapeID", "shape")):
        f = db.find(f"{t}::is_valid")
        ip = cx.interp()
        ret, evs, _ = ip.run(f)
        pos = any(t[0] == "b" and t[1] in ("is_match", "all") and t[-1] is True for t in ret.T) or \
            any(t[0] == "b" and t[1] == "any" and t[-1] is False for t in ret.T) or \
            any(t[0] == "c" and t[1] is True and any(b[3] is True for b in match_atoms(atoms(t[2]))) for t in ret.T)
        cx.req(pos, f"valid/{t}/polarity", cx.fnat(f), f"{t}::is_valid is not true exactly for matching text")
    # text form
    check_display(cx, "Identifier as Display::fmt", [("Identifier.0", None)], "Identifier")
    check_display(cx, "NamespaceID as Display::fmt", [("NamespaceID.0", None)], "NamespaceID")
    check_display(cx, "ShapeID as Display::fmt",
                  [("ShapeID.namespace", None), ("=#", None), ("ShapeID.shape_name", None),
                   ("=$", "ShapeID.member_name"), ("ShapeID.member_name", "ShapeID.member_name")], "ShapeID")
    # unchecked constructions
    dfa = {k: lang.DFA(v) for k, v in names.items()}
    roots = {"Identifier::new_unchecked": ["id"], "NamespaceID::new_unchecked": ["ns"],
             "ShapeID::new_unchecked": ["ns", "id", "id"]}
    callers = {}
    for fn in db.fns.values():
        for b in fn.blocks:
            t = b["t"]
            if t[0] == "call" and t[1].get("c") == "fn":
                for k in {t[1]["id"], t[1].get("r")} - {None}:
                    callers.setdefault(k, set()).add(fn.key)
            for s in b["s"]:
                for o in opnds(s[1]):
                    if o.get("c") == "fn":
                        for k in {o["id"], o.get("r")} - {None}:
                            callers.setdefault(k, set()).add(fn.key)
    todo = []
    for r in roots:
        rf = db.find(r)
        for c in callers.get(rf.key, ()):
            todo.append((r, rf, c))
    seen = set()
    m = 0
    while todo:
        r, rf, c = todo.pop()
        fn = db.fns[c]
        # closures are analysed with the function that makes them
        while fn.parent and "{closure" in fn.short and fn.parent in db.fns:
            fn = db.fns[fn.parent]
        if (r, fn.key) in seen:
            continue
        seen.add((r, fn.key))
        if fn.short in roots:
            continue
        if fn.crate == "atelier_test":
            continue
        ip = cx.interp(sink=lambda s: s == r, opaque=lambda k, s: " as ModelVisitor::" in s or "ModelVisitor::" in s)
        try:
            _, evs, _ = ip.run(fn)
        except CheckError:
            continue
        for e in evs:
            if e.kind != "call" or e.name != r:
                continue
            m += 1
            for i, want in enumerate(roots[r]):
                v = e.args[i]
                ct = const_terms(v)
                ss = strs(v)
                key = f"unchecked/{fn.short}/{r.split('::')[0]}.{want}"
                args = {l[1] for l in labels(v) if isinstance(l, tuple) and l[0] == "arg"}
                flds = fields_of(v)
                if flds & {"Identifier.0", "NamespaceID.0"} and not (lossy(v) - {"str::split"}):
                    cx.ok(key, cx.at(e))
                elif ss and not args and not flds:
                    wrong = [s for s in ss if not dfa[want].accepts(s)]
                    cx.req(not wrong, key, cx.at(e), f"{wrong} is not a valid {want}")
                elif not ss and not args and not flds and want == "id" and i == 2:
                    cx.ok(key, cx.at(e))    # no member name
                elif args and not flds:
                    if fn.short.rsplit("::", 1)[-1].endswith("unchecked"):
                        cx.ok(key, cx.at(e))
                    elif fn.pub:
                        cx.bad(key, cx.at(e), f"{fn.short} makes an identifier from its argument without checking it")
                    else:
                        for c2 in callers.get(fn.key, ()):
                            todo.append((r, rf, c2))
                elif not ss and not flds:
                    cx.ok(key, cx.at(e))
                else:
                    cx.bad(key, cx.at(e), f"an identifier is made unchecked from {sorted(flds) or sorted(ss)}")
    cx.floor("validated constructions", n, 3)
    cx.floor("unchecked constructions", m, 40)


def derived_clone(cx, e):
    return "as Clone::clone" in cx.db.short(e.fn)


def before(pat, g, ch):
    """Does an escaped `ch` come somewhere before capture group g opens?"""
    k = 0
    i = 0
    while i < len(pat):
        if pat[i] == "\\":
            if pat[i + 1] == ch and k < g:
                hit = k
                return any_open(pat, i, g)
            i += 2
            continue
        if pat[i] == "[":
            d = 1
            i += 1
            while d and i < len(pat):
                if pat[i] == "[":
                    d += 1
                elif pat[i] == "]":
                    d -= 1
                elif pat[i] == "\\":
                    i += 1
                i += 1
            continue
        if pat[i] == "(" and not pat.startswith("(?", i):
            k += 1
        i += 1
    return False


def any_open(pat, pos, g):
    return True


def opnds(x):
    if isinstance(x, dict):
        if "c" in x:
            yield x
        return
    if isinstance(x, list):
        for y in x:
            yield from opnds(y)
