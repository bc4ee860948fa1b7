"""M06, A01-A03: actions, validators, linters."""
from core import *
import mir

LEVELS = {"Info", "Warning", "Error"}
ORDER = {"Info": 0, "Warning": 1, "Error": 2}
OPS = {"gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
       "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}
FLIP = {"gt": "lt", "lt": "gt", "ge": "le", "le": "ge", "eq": "eq", "ne": "ne"}


def seg(s):
    return s.rsplit("::", 1)[-1]


def guards(e, *vals):
    """Everything that decides whether the construct happens: its control dependences and the filters its
    content went through; error exits apart."""
    out = []
    seen = set()
    todo = list(e.atoms())
    for v in vals:
        todo += filts(v)
    while todo:
        a = todo.pop()
        b, ex = unwrap_exit(a)
        for l in atom_labs(b):
            if isinstance(l, tuple) and l[0] == "filt" and l[1] not in seen:
                seen.add(l[1])
                todo.append(l[1])
        if ex is None and b not in out:
            out.append(b)
    return out


def level_of(v):
    """The levels a value may be."""
    out = set()
    for t in v.T:
        if t[0] == "v" and t[1] == "IssueLevel":
            out.add(t[2])
        else:
            return None
    return out or None


# ---------------------------------------------------------------------------- M06
RUNNERS = {"validate::run_validation_actions": "validate", "lint::run_linter_actions": "check"}


def level_pred(evs):
    """{(op, args bits)} -> levels for which a comparison of an issue's level is true."""
    out = {}
    for e in evs:
        s = seg(e.name)
        if s not in OPS or len(e.args) != 2:
            continue
        for i, flip in ((0, False), (1, True)):
            if "ActionIssue.level" in fields_of(e.args[i]):
                k = level_of(e.args[1 - i])
                if k and len(k) == 1:
                    k = ORDER[next(iter(k))]
                    op = OPS[FLIP[s] if flip else s]
                    out.setdefault(s, set()).add(frozenset(l for l in LEVELS if op(ORDER[l], k)))
    return out


@prop("M06")
def m06(cx):
    db = cx.db
    cx.rule("The loop of each of the two runners is analysed with `fail_fast` fixed to false and to true: every action "
            "is run and every issue it collected is handed over under no condition but an earlier error result when it is "
            "false, and only after no Error-level issue of an earlier action when it is true; the issues are examined before "
            "they are moved away, and no path from a run to the result goes around the hand-over.")
    order = [v["n"] for v in db.adts[db.find_adt("IssueLevel")]["v"]]
    cx.req(order == ["Info", "Warning", "Error"], "level order", "IssueLevel", f"levels are ordered {order}")
    n = 0
    for fn, run in RUNNERS.items():
        f = db.find(fn, crate="atelier_core")
        ixs = [i for i in range(f.argc) if f.locals[i + 1].get("n") == "fail_fast"]
        ix = ixs[0] if ixs else next(i for i in range(f.argc) if f.locals[i + 1]["s"] == "bool")
        for ff in (False, True):
            ip = cx.interp(sink=lambda s: seg(s) in ("append", "extend", "push", "extend_from_slice", "insert", run,
                                                     "issues", "issues_mut", "drain", "take", "clear") or seg(s) in OPS,
                           opaque=lambda k, s: seg(s) in (run, "issues", "issues_mut"))
            ret, evs, _ = ip.run(f, args=[const_val(ff) if i == ix else None for i in range(f.argc)])
            tag = f"{fn}/fail_fast={str(ff).lower()}"
            runs = [e for e in evs if seg(e.name) == run]
            moves = [e for e in evs if seg(e.name) in ("append", "extend", "push", "extend_from_slice")
                     and any(isinstance(l, tuple) and l[0] == "c" and seg(l[1]) in ("issues", "issues_mut")
                             for l in labels(e.args[-1]))]
            if not cx.req(runs, f"{tag}/runs", cx.fnat(f), f"no action is ever run ({run})"):
                continue
            if not cx.req(moves, f"{tag}/collects", cx.fnat(f), "the issues of the actions are never collected"):
                continue
            n += len(runs) + len(moves)
            # handed over: the action keeps none of them, so that a second run does not report them again
            for e in moves:
                lb = {seg(l[1]) for v in e.args for l in labels(v) if isinstance(l, tuple) and l[0] == "x"}
                emptied = seg(e.name) == "append" or lb & {"drain", "take", "replace"} or any(
                    seg(x.name) in ("drain", "take", "clear") and any(isinstance(l, tuple) and l[0] == "c" and
                    seg(l[1]) == "issues_mut" for l in labels(x.args[0])) for x in evs if x.kind == "call" and x.args)
                cx.req(emptied, f"{tag}/handed over", cx.at(e),
                       "the issues stay in the action as well, so that its next run reports them again")
            preds = level_pred(evs)
            stop = set()
            for e in runs + moves:
                for a in guards(e, *e.args):
                    if a[0] == "var" and a[1] in STDENUM and "ActionIssue.level" not in atom_fields(a):
                        continue
                    lv = "ActionIssue.level" in atom_fields(a)
                    if a[0] == "b" and a[1] in ("any", "all", "is_empty") and not lv:
                        if ff:
                            continue
                    if a[0] == "b" and a[1] in ("gt", "lt", "eq", "ne", "ge", "le") and not lv and ("len",) in atom_labs(a) and ff:
                        continue        # a count of the errors found
                    if lv and ff:
                        if a[0] == "var":
                            stop.add(frozenset(LEVELS - a[2]))
                            continue
                        if a[0] == "b" and a[1] in preds:
                            stop |= {s if not a[3] else frozenset(LEVELS - s) for s in preds[a[1]]}
                            continue
                    if a[0] == "b" and not atom_fields(a) and ff and a[1] == "?":
                        continue
                    cx.bad(f"{tag}/{'run' if e in runs else 'collect'}/{'level' if lv else a[1]}", cx.at(e),
                           f"{'an action is run' if e in runs else 'issues are collected'} only if {gtext(a)}")
                lz = set()
                for v in e.args:
                    lz |= lossy(v)
                cx.req(not lz, f"{tag}/{seg(e.name)}/whole", cx.at(e), f"passes through {sorted(lz)}")
            if ff:
                # a filtered `any` says when to go on the other way round: normalise on Error
                norm = {s if "Error" in s else frozenset(LEVELS - s) for s in stop}
                cx.req(norm == {frozenset(["Error"])}, f"{tag}/stops on errors", cx.fnat(f),
                       f"the runner stops after issues of level {sorted('|'.join(sorted(s)) for s in norm) or 'nothing'}, "
                       "not of level Error")
            ret_ok = any(("c", l[1]) == l for l in labset(ret.AL) if isinstance(l, tuple) and l[0] == "c"
                         and seg(l[1]) in ("issues", "issues_mut"))
            cx.req(ret_ok, f"{tag}/returned", cx.fnat(f), "the collected issues are not what is returned")
        # order of things inside one round
        cfg = ip.cfg(f)
        errx = ip.err_exit(f, cfg)
        through = S("issues issues_mut iter into_iter iter_mut deref deref_mut as_slice as_ref as_mut borrow borrow_mut "
                    "any filter map")
        calls = list(mir.calls(db, f))
        mv = [(j, t) for j, s, t in calls if seg(s) in ("append", "extend", "extend_from_slice") and len(t[2]) == 2]
        rn = [j for j, s, t in calls if seg(s) == run]
        if mv and rn:
            for r in rn:
                seen, todo, bad = set(), [x for _, x in cfg.succ[r]], False
                while todo:
                    x = todo.pop()
                    if x in seen or x in errx or any(x == j for j, _ in mv):
                        continue
                    seen.add(x)
                    if f.blocks[x]["t"][0] == "ret" or x == r:
                        bad = True
                        break
                    todo += [y for _, y in cfg.succ[x]]
                cx.req(not bad, f"{fn}/every run is collected", cx.fnat(f),
                       "a path from running an action to the next one, or to the result, goes around collecting its issues")
            heads = cfg.loop_heads
            for j, t in mv:
                if any(seg(s) == "append" for jj, s, _ in calls if jj == j):
                    src = mir.operand_local(t[2][1])
                    src = mir.roots(db, f, src, through) if src is not None else set()
                    for k, s, tt in calls:
                        if seg(s) not in ("any", "all", "is_empty", "len", "find", "filter", "iter", "position", "max"):
                            continue
                        l = mir.operand_local(tt[2][0]) if tt[2] else None
                        if l is None:
                            continue
                        if mir.roots(db, f, l, through) & src:
                            cx.req(not mir.reaches(cfg, j, k, avoid=heads), f"{fn}/examined before moved/{seg(s)}",
                                   f"{f.file} ({f.short})",
                                   f"`{seg(s)}` looks at the issues after they have been moved to the result, when the list is empty")
    cx.floor("runs and hand-overs analysed", n, 8)


# ---------------------------------------------------------------------------- A01
KINDS = {"Simple", "List", "Set", "Map", "Structure", "Union", "Service", "Operation", "Resource", "Unresolved"}
TYPE_BAD = {"Service", "Operation", "Resource"}
OPER_BAD = KINDS - {"Operation"}
RES_BAD = KINDS - {"Resource"}
REFS = [
    ("List", "ListOrSet.member", TYPE_BAD), ("Set", "ListOrSet.member", TYPE_BAD),
    ("Map", "Map.key", TYPE_BAD), ("Map", "Map.value", TYPE_BAD),
    ("Structure", "StructureOrUnion.members", TYPE_BAD), ("Union", "StructureOrUnion.members", TYPE_BAD),
    ("Operation", "Operation.input", TYPE_BAD), ("Operation", "Operation.output", TYPE_BAD),
    ("Operation", "Operation.errors", TYPE_BAD), ("Resource", "Resource.identifiers", TYPE_BAD),
    ("Service", "Service.operations", OPER_BAD), ("Service", "Service.resources", RES_BAD),
    ("Resource", "Resource.create", OPER_BAD), ("Resource", "Resource.put", OPER_BAD),
    ("Resource", "Resource.read", OPER_BAD), ("Resource", "Resource.update", OPER_BAD),
    ("Resource", "Resource.delete", OPER_BAD), ("Resource", "Resource.list", OPER_BAD),
    ("Resource", "Resource.operations", OPER_BAD), ("Resource", "Resource.collection_operations", OPER_BAD),
    ("Resource", "Resource.resources", RES_BAD),
]
SLOTS_ALL = {s for _, s, _ in REFS}


def own_kind(a):
    return a[0] == "var" and a[1] == "ShapeKind" and not (atom_fields(a) & SLOTS_ALL)


def iteration_ok(a, own):
    """Presence/iteration of the thing itself or of what holds it."""
    return a[0] == "var" and a[1] in ("Option",) and a[2] == frozenset(["Some"]) and atom_fields(a) <= own


def is_store(s):
    return seg(s) in ("push", "insert", "push_back", "extend", "append")


def piece(e, n):
    return e.args[-1].get(n) or TOP0


def issues_stored(evs):
    """The calls that put an issue into a collection."""
    return [e for e in evs if e.kind == "call" and e.args and e.args[-1].get("level") is not None
            and e.args[-1].get("locus") is not None]


def none_of(a):
    """Does the atom say that a collection is empty?"""
    if a[0] == "b" and a[1] == "is_empty":
        return a[3] is True
    if a[0] == "b" and ("len",) in atom_labs(a):
        i = {int(l[1]) for l in atom_labs(a) if isinstance(l, tuple) and l[0] == "i"}
        first = ("len",) in labset(a[2][0])
        return (a[1], a[3], first) in {("eq", True, True), ("eq", True, False), ("gt", False, True), ("lt", False, False)} and i <= {0} \
            or (a[1], a[3], first) in {("lt", True, True), ("ge", False, True), ("le", False, False)} and i <= {1}
    return False


@prop("A01")
def a01(cx):
    db = cx.db
    cx.rule("Every issue made by the two validators (dataflow over MIR, all helpers inlined) is traced to the reference it is "
            "about, its level and the complete set of conditions it depends on: each of the 21 kinds of reference must give an "
            "error for exactly the wrong kinds of target, a warning for exactly the targets that are neither in the model nor in the "
            "prelude, and nothing else may stand in the way.")
    f = db.find("CorrectTypeReferences as Validator::validate", crate="atelier_core")
    ip = cx.interp(sink=is_store)
    ret, evs, _ = ip.run(f)
    iss = issues_stored(evs)
    cx.floor("issues made", len(iss), 5)
    for kind, slot, wrong in REFS:
        base = {slot, "Model.shapes", "TopLevelShape.body", "TopLevelShape.id", "MemberShape.target", "ShapeID.namespace",
                f"ShapeKind::{kind}.0", "NamespaceID.0"}
        tag = f"CorrectTypeReferences/{kind}/{slot.split('.')[1]}"
        got, warn, stray = set(), [], []
        for e in iss:
            lv = level_of(piece(e, "level"))
            g = guards(e)
            if not admits([a for a in g if own_kind(a)], "ShapeKind", kind):
                continue
            if not any(slot in atom_fields(a) for a in g):
                continue
            mixes = {frozenset(atom_fields(a) & SLOTS_ALL) for a in g} - {frozenset()}
            if len(mixes) != 1:
                stray.append((e, [a for a in g if (atom_fields(a) & SLOTS_ALL) - {slot}]))
                continue
            joint = next(iter(mixes))       # several slots run through one loop
            path = base | joint | {f"ShapeKind::{k}.0" for k, s, _ in REFS if s in joint}
            tk = [a for a in g if a[0] == "var" and a[1] == "ShapeKind" and slot in atom_fields(a)]
            found = any(a[0] == "var" and a[1] == "Option" and a[2] == frozenset(["Some"]) and slot in atom_fields(a)
                        and "Model.shapes" in atom_fields(a) for a in g)
            miss = any(a[0] == "var" and a[1] == "Option" and a[2] == frozenset(["None"]) and slot in atom_fields(a)
                       and "Model.shapes" in atom_fields(a) for a in g)
            ns = [a for a in g if a[0] == "b" and a[1] == "eq" and slot in atom_fields(a)
                  and "smithy.api" in {l[1] for l in atom_labs(a) if isinstance(l, tuple) and l[0] == "s"}]
            rest = [a for a in g if a not in tk and a not in ns and not own_kind(a)
                    and not (a[0] == "var" and a[1] == "Option" and atom_fields(a) <= path)]
            loc = fields_of(piece(e, "locus"))
            okloc = "TopLevelShape.id" in loc and not (loc & SLOTS_ALL)
            if lv == {"Error"}:
                s = set(KINDS)
                for a in tk:
                    s &= a[2]
                cx.req(s <= wrong, f"{tag}/error only for wrong targets", cx.at(e),
                       f"an error is reported for targets of kind {sorted(s - wrong)}")
                if miss and not found:
                    cx.bad(f"{tag}/error for missing", cx.at(e), "an unresolvable reference is reported as an error, not a warning")
                    continue
                if not cx.req(not rest, f"{tag}/error/always", cx.at(e),
                              f"the error depends on {'; '.join(map(gtext, rest))}"):
                    continue
                cx.req(okloc, f"{tag}/error/locus", cx.at(e), f"the error is located at {sorted(loc)}")
                lz = {x for a in g for x in _alossy(a)}
                cx.req(not lz, f"{tag}/error/every", cx.at(e), f"only part of the references is examined ({sorted(lz)})")
                got |= s
            elif lv == {"Warning"}:
                if tk or not miss:
                    cx.bad(f"{tag}/warning for found", cx.at(e), "a warning is reported for a target that is in the model")
                    continue
                if not cx.req(not rest, f"{tag}/warning/always", cx.at(e),
                              f"the warning depends on {'; '.join(map(gtext, rest))}"):
                    continue
                pol = {a[3] for a in ns}
                cx.req(pol == {False} and all("ShapeID.namespace" in atom_fields(a) for a in ns), f"{tag}/warning/prelude", cx.at(e),
                       "the warning is not limited to targets outside the prelude namespace: " + "; ".join(map(gtext, ns)))
                cx.req(okloc, f"{tag}/warning/locus", cx.at(e), f"the warning is located at {sorted(loc)}")
                lz = {x for a in g for x in _alossy(a)}
                cx.req(not lz, f"{tag}/warning/every", cx.at(e), f"only part of the references is examined ({sorted(lz)})")
                warn.append(e)
            else:
                cx.bad(f"{tag}/level", cx.at(e), f"an issue about this reference has level {sorted(lv or ['unknown'])}")
        if not got and stray:
            cx.bad(f"{tag}/mixed", cx.at(stray[0][0]),
                   f"the check of this reference depends on another one: {'; '.join(map(gtext, stray[0][1]))}")
        cx.req(got == wrong, f"{tag}/error for every wrong target", cx.fnat(f),
               f"no error for targets of kind {sorted(wrong - got)}")
        cx.req(warn, f"{tag}/warning for unresolvable", cx.fnat(f), "an unresolvable target gives no warning")
    # simple shapes that only rename
    n = 0
    for e in iss:
        g = guards(e)
        if any(atom_fields(a) & SLOTS_ALL for a in g):
            continue
        n += 1
        ks = set(KINDS)
        for a in g:
            if own_kind(a):
                ks &= a[2]
        lv = level_of(piece(e, "level"))
        cx.req(lv == {"Info"}, "CorrectTypeReferences/synonym/level", cx.at(e), f"reported as {sorted(lv or [])}")
        cx.req(ks == {"Simple"}, "CorrectTypeReferences/synonym/kind", cx.at(e), f"reported for {sorted(ks)}")
        tr = [a for a in g if "TopLevelShape.traits" in atom_fields(a)]
        cx.req(tr and all(none_of(a) for a in tr),
               "CorrectTypeReferences/synonym/no traits", cx.at(e),
               "the informational issue is not limited to shapes without traits: " + "; ".join(map(gtext, tr)))
    cx.floor("informational issues", n, 1)
    # ------ completeness of the model
    f = db.find("NoUnresolvedReferences as Validator::validate", crate="atelier_core")
    ip = cx.interp(sink=is_store)
    ret, evs, _ = ip.run(f)
    iss = issues_stored(evs)
    cx.floor("unresolved issues", len(iss), 1)
    got = set()
    for e in iss:
        ks = set(KINDS)
        rest = []
        for a in guards(e, piece(e, "message"), piece(e, "locus")):
            if a[0] == "var" and a[1] == "ShapeKind":
                ks &= a[2]
            elif not (a[0] == "var" and a[1] == "Option"):
                rest.append(a)
        cx.req(level_of(piece(e, "level")) == {"Error"}, "NoUnresolvedReferences/level", cx.at(e), "an unresolved reference is not an error")
        cx.req(not rest, "NoUnresolvedReferences/always", cx.at(e), f"the error depends on {'; '.join(map(gtext, rest))}")
        lz = lossy(piece(e, "message")) | {x for a in e.atoms() for x in _alossy(a)}
        cx.req(not lz, "NoUnresolvedReferences/every", cx.at(e), f"only part of the shapes is examined ({sorted(lz)})")
        cx.req({"TopLevelShape.id", "Model.shapes"} <= fields_of(piece(e, "message")) | fields_of(piece(e, "locus")), "NoUnresolvedReferences/names",
               cx.at(e), "the error does not name the shape")
        got |= ks
    cx.req(got == {"Unresolved"}, "NoUnresolvedReferences/kinds", cx.fnat(f), f"errors are reported for shapes of kind {sorted(got)}")


def _alossy(a):
    out = set()
    b, ex = unwrap_exit(a)
    if ex is not None:
        return out
    for l in atom_labs(b):
        if isinstance(l, tuple) and l[0] == "x" and l[1].rsplit("::", 1)[-1] in LOSSY_SEG - WORDS:
            out.add(l[1])
    return out


# `split` is how names are cut into words
WORDS = S("split to_lowercase to_uppercase")


# ---------------------------------------------------------------------------- A02
MEMBERS = [("List", "ListOrSet.member"), ("Set", "ListOrSet.member"), ("Map", "Map.key"), ("Map", "Map.value"),
           ("Structure", "StructureOrUnion.members"), ("Union", "StructureOrUnion.members")]
MEMB_SLOTS = {s for _, s in MEMBERS}


def subject(cx, v):
    """What a name was taken from: (holder slot or '', part)."""
    fs = fields_of(v)
    holder = sorted(fs & MEMB_SLOTS)
    part = None
    for p, lab in (("MemberShape.id", "name"), ("MemberShape.target", "target"), ("MemberShape.traits", "traits")):
        if p in fs:
            part = (part or "") + lab
    if part is None:
        if "TopLevelShape.traits" in fs and ("mk",) in labels(v):
            part = "traits"
        elif "TopLevelShape.id" in fs:
            part = "id"
    return tuple(holder), part


def bits_subject(b):
    fs = fields_bits(b)
    ls = labset(b)
    holder = tuple(sorted(fs & MEMB_SLOTS))
    part = None
    for p, lab in (("MemberShape.id", "name"), ("MemberShape.target", "target"), ("MemberShape.traits", "traits")):
        if p in fs:
            part = (part or "") + lab
    if part is None:
        if "TopLevelShape.traits" in fs and ("mk",) in ls:
            part = "traits"
        elif "TopLevelShape.id" in fs:
            part = "id"
    return holder, part


CONV = {"to_camel_case": "Upper", "to_upper_camel_case": "Upper", "to_pascal_case": "Upper",
        "to_mixed_case": "lower", "to_lower_camel_case": "lower"}


def lint_rows():
    rows = []
    for k in KINDS:
        rows.append((k, (), "traits", "lower"))
        rows.append((k, (), "id/trait", "lower"))
        rows.append((k, (), "id/plain", "Upper"))
    for k, s in MEMBERS:
        rows.append((k, (s,), "target", "Upper"))
        rows.append((k, (s,), "traits", "lower"))
        if k in ("Structure", "Union"):
            rows.append((k, (s,), "name", "lower"))
    return rows


def is_traitdef(a):
    return a[0] == "b" and a[1] in ("contains_key", "has_trait", "contains") and "TopLevelShape.traits" in atom_fields(a)


TERMS = {"blacklist", "kill", "master", "slave", "whitelist"}


@prop("A02")
def a02(cx):
    db = cx.db
    cx.rule("Every issue made by the two linters (dataflow over MIR, all helpers inlined) is traced to the name it is about and to "
            "the complete set of conditions it depends on. The naming linter compares each of the names it covers with its own converted "
            "form, with the convention of that sort of name; the terms linter looks each word of each name up in the list; no other "
            "condition stands in the way for any kind of shape.")
    f = db.find("NamingConventions as Linter::check", crate="atelier_core")
    ip = cx.interp(sink=is_store)
    ret, evs, _ = ip.run(f)
    iss = issues_stored(evs)
    cx.floor("naming issues", len(iss), 4)
    have = {}
    for e in iss:
        g = guards(e)
        cx.req(level_of(piece(e, "level")) == {"Info"}, f"naming/level@{'/'.join(sorted(fields_of(piece(e, "message")) & (MEMB_SLOTS | {'TopLevelShape.id'})))}",
               cx.at(e), "a style issue is not informational")
        cmps = [a for a in g if a[0] == "b" and a[1] == "eq" and
                {l[1].rsplit("::", 1)[-1] for l in atom_labs(a) if isinstance(l, tuple) and l[0] == "x"} & set(CONV)]
        if not cx.req(len(cmps) == 1 and cmps[0][3] is False, "naming/compared@" + gtext(cmps[0])[:80] if cmps else "naming/compared",
                      cx.at(e), "an issue is made that does not depend on the name differing from its converted form: "
                      + "; ".join(map(gtext, cmps))):
            continue
        a = cmps[0]
        conv = {CONV[l[1].rsplit("::", 1)[-1]] for l in atom_labs(a) if isinstance(l, tuple) and l[0] == "x"
                and l[1].rsplit("::", 1)[-1] in CONV}
        s0, s1 = bits_subject(a[2][0]), bits_subject(a[2][1])
        holder, part = s0
        cx.req(s0 == s1 and part, f"naming/same name {holder}{part}", cx.at(e), f"{s0} is compared with the converted form of {s1}")
        cx.req(len(conv) == 1, f"naming/one convention {holder}{part}", cx.at(e), f"compared with {sorted(conv)}")
        td = [x for x in g if is_traitdef(x)]
        if part == "id":
            pol = {x[3] for x in td}
            if len(pol) != 1:
                part = "id/any"
            else:
                part = "id/trait" if pol == {True} else "id/plain"
                tr = {l[1] for x in td for l in atom_labs(x) if isinstance(l, tuple) and l[0] == "s"}
                cx.req(any(str(t).startswith("smithy.api#trait") for t in tr), "naming/trait definition", cx.at(e),
                       f"trait definitions are told by {sorted(str(t)[:20] for t in tr)}")
            g = [x for x in g if x not in td]
        own = fields_bits(a[2][0]) | {"Model.shapes", "TopLevelShape.body"}
        kinds = set(KINDS)
        rest = []
        for x in g:
            if x is a or x == a:
                continue
            if own_kind_m(x):
                kinds &= x[2]
            elif x[0] == "var" and x[1] == "Option" and atom_fields(x) <= own:
                continue
            else:
                rest.append(x)
        lz = {x for y in g for x in _alossy(y)}
        if not cx.req(not rest and not lz, f"naming/{'+'.join(holder)}{part}/always", cx.at(e),
                      f"the check depends on {'; '.join(map(gtext, rest))}" if rest else f"only part is checked ({sorted(lz)})"):
            continue
        loc = fields_of(piece(e, "locus"))
        cx.req(loc, f"naming/{'+'.join(holder)}{part}/locus", cx.at(e), "the issue has no location")
        for k in kinds:
            for p in (["id/trait", "id/plain"] if part == "id/any" else [part]):
                for h in [(h,) for h in holder] or [()]:
                    have.setdefault((k, h, p), set()).update(conv)
    for k, h, p, c in lint_rows():
        got = have.get((k, h, p), set())
        cx.req(got == {c}, f"naming/{k}/{'+'.join(h)}/{p}", cx.fnat(f),
               f"the {p} of {'+'.join(h) or 'the shape'} in a {k} is checked for {sorted(got) or 'nothing'} instead of {c}CamelCase")
    cx.counts["naming rows"] = len(lint_rows())
    # ---- unwelcome terms
    f = db.find("UnwelcomeTerms as Linter::check", crate="atelier_core")
    ip = cx.interp(sink=is_store)
    ret, evs, _ = ip.run(f)
    iss = issues_stored(evs)
    cx.floor("terms issues", len(iss), 4)
    have = {}
    for e in iss:
        g = guards(e)
        cx.req(level_of(piece(e, "level")) == {"Warning"}, "terms/level", cx.at(e), "an unwelcome term is not a warning")
        look = [a for a in g if a[0] == "b" and a[1] in ("contains", "contains_key", "any") and
                len({l[1] for l in labset(a[2][0]) if isinstance(l, tuple) and l[0] == "s"}) >= 3]
        if not cx.req(look and all(a[3] is True for a in look), "terms/looked up", cx.at(e),
                      "an issue is made that does not depend on a word being in the list: " + "; ".join(map(gtext, look))):
            continue
        a = look[0]
        words = {l[1] for l in labset(a[2][0]) if isinstance(l, tuple) and l[0] == "s"}
        cx.req(words >= TERMS, "terms/list", cx.at(e), f"{sorted(TERMS - words)} is not in the list")
        h, p = bits_subject(a[2][1])
        fs = fields_bits(a[2][1])
        sub = next((x for x in ("ShapeID.namespace", "ShapeID.shape_name", "ShapeID.member_name") if x in fs), "")
        own = fields_bits(a[2][1]) | {"Model.shapes", "TopLevelShape.body", "TopLevelShape.id"}
        kinds = set(KINDS)
        rest = []
        for x in g:
            if x in look:
                continue
            if own_kind_m(x):
                kinds &= x[2]
            elif x[0] == "var" and x[1] == "Option" and atom_fields(x) <= own:
                continue
            elif x[0] == "b" and x[1] in ("contains", "insert") and "UnwelcomeTerms.checked" in atom_fields(x):
                continue                    # names already looked at
            else:
                rest.append(x)
        lz = {x for y in g for x in _alossy(y)}
        if not cx.req(not rest and not lz, f"terms/{'+'.join(h)}/{p}/{sub}/always", cx.at(e),
                      f"the check depends on {'; '.join(map(gtext, rest))}" if rest else f"only part is checked ({sorted(lz)})"):
            continue
        for k in kinds:
            for hh in [(x,) for x in h] or [()]:
                have.setdefault((k, hh, p), set()).add(sub)
    n = 0
    for k, h, p in sorted({(k, h, p.split("/")[0]) for k, h, p, c in lint_rows()}):
        got = have.get((k, h, p), set())
        want = {""} if p == "name" else {"ShapeID.namespace", "ShapeID.shape_name"}
        n += 1
        cx.req(want <= got, f"terms/{k}/{'+'.join(h)}/{p}", cx.fnat(f),
               f"{sorted(want - got)} of the {p} of {'+'.join(h) or 'the shape'} in a {k} is not looked up")
    cx.counts["terms rows"] = n


def own_kind_m(a):
    return a[0] == "var" and a[1] == "ShapeKind" and not (atom_fields(a) & MEMB_SLOTS)


# ---------------------------------------------------------------------------- A03
CTORS = {"new": (None, False), "new_at": (None, True), "info": ("Info", False), "info_at": ("Info", True),
         "warning": ("Warning", False), "warning_at": ("Warning", True), "error": ("Error", False), "error_at": ("Error", True)}


@prop("A03")
def a03(cx):
    db = cx.db
    cx.rule("The value each issue constructor builds is traced field by field to its arguments; each accessor to its field; the text "
            "form of a level is a constant per level and the text form of an issue contains reporter, level, message and, when "
            "there is one, location; the label of each action is a constant, and its two issue lists are the same one.")
    fi = ("reporter", "level", "message", "locus")
    n = 0
    for name, (lv, at) in CTORS.items():
        f = db.find("ActionIssue::" + name, crate="atelier_core")
        ip = cx.interp()
        ret, evs, _ = ip.run(f)
        if not cx.req(ret.get("level") is not None, f"issue/{name}/made", cx.fnat(f), "makes no issue"):
            continue
        args = []
        for i in range(f.argc):
            l = f.locals[i + 1]
            args.append((l.get("n") or f"#{i+1}", l["s"]))
        lvl = [a for a, s in args if "IssueLevel" in s]
        txt = [a for a, s in args if s.endswith("str") or "String" in s]
        loc = [a for a, s in args if "ShapeID" in s]
        for e in [ret]:
            def ar(v):
                return {l[1] for l in labels(v) if isinstance(l, tuple) and l[0] == "arg"}
            if lv:
                cx.req(level_of(e.get("level")) == {lv}, f"issue/{name}/level", cx.fnat(f),
                       f"has level {sorted(level_of(e.get('level')) or [])}")
            else:
                cx.req(ar(e.get("level")) == set(lvl), f"issue/{name}/level", cx.fnat(f), "does not have the level given")
            cx.req(ar(e.get("reporter")) == {txt[0]}, f"issue/{name}/reporter", cx.fnat(f),
                   f"the reporter is {sorted(ar(e.get('reporter')))}")
            cx.req(ar(e.get("message")) == {txt[1]}, f"issue/{name}/message", cx.fnat(f),
                   f"the message is {sorted(ar(e.get('message')))}")
            cx.req(not lossy(e.get("message")) and not lossy(e.get("reporter")), f"issue/{name}/whole", cx.fnat(f), "text is cut")
            lo = e.get("locus")
            if at:
                cx.req(ar(lo) == set(loc) and all(t[0] == "v" and t[2] == "Some" for t in lo.T), f"issue/{name}/locus", cx.fnat(f),
                       "the location given is not stored")
                cx.req(not rebuilt(lo), f"issue/{name}/locus/whole", cx.fnat(f),
                       f"the {sorted(rebuilt(lo))} of the location is not the one given")
            else:
                cx.req(not ar(lo) and all(t[0] == "v" and t[2] == "None" for t in lo.T), f"issue/{name}/locus", cx.fnat(f),
                       "has a location of its own")
            n += 4
    for g in ("reporter", "level", "message", "locus"):
        f = db.find("ActionIssue::" + g, crate="atelier_core")
        ip = cx.interp()
        ret, evs, _ = ip.run(f)
        cx.req(fields_of(ret) & {f"ActionIssue.{x}" for x in fi} == {f"ActionIssue.{g}"} and not lossy(ret), f"issue/get {g}", cx.fnat(f),
               f"returns {sorted(fields_of(ret))}")
        n += 1
    # text forms
    f = db.find("IssueLevel as Display::fmt", crate="atelier_core")
    terms = display_terms(cx, f)
    case_table(cx, terms, "IssueLevel", {"Info": "info", "Warning": "warning", "Error": "error"}, "issue/level text", cx.fnat(f))
    f = db.find("ActionIssue as Display::fmt", crate="atelier_core")
    ip = cx.interp(sink=is_write)
    ret, evs, _ = ip.run(f)
    for part in ("reporter", "level", "message", "locus"):
        es = [e for e in evs if any(f"ActionIssue.{part}" in fields_of(a) for a in e.args)]
        if not cx.req(es, f"issue/text has {part}", cx.fnat(f), f"the text of an issue does not contain its {part}"):
            continue
        bad = [a for a in es[0].atoms() if unwrap_exit(a)[1] is None and not presence(a) and not
               (a[0] == "var" and a[1] == "IssueLevel")]
        cx.req(not bad, f"issue/text always has {part}", cx.at(es[0]), f"only if {'; '.join(map(gtext, bad))}")
        n += 1
    # actions
    acts = [f for f in db.fns.values() if f.short.endswith(" as Action::label")]
    cx.floor("actions", len(acts), 4)
    for f in acts:
        ty = f.short.split(" as ")[0]
        ip = cx.interp()
        ret, evs, _ = ip.run(f)
        cx.req(key_of(ret) == {ty}, f"action/{ty}/label", cx.fnat(f), f"reports as {key_of(ret)}")
        for g in ("issues", "issues_mut"):
            h = db.find(f"{ty} as Action::{g}")
            ip = cx.interp()
            ret, evs, hp = ip.run(h)
            fs = {x.split(".")[-1] for x in fields_of(ret)} | {y[3] for _, p in ret.P for y in p if y[0] == "F"}
            cx.req("issues" in fs, f"action/{ty}/{g}", cx.fnat(h), f"returns {sorted(map(str, fs))}")
            n += 1
    cx.floor("issue facts", n, 40)
