"""M03: accessors of the model do what their names say."""
import re
from core import *
import mir

SINGULAR = {
    ("Service", "renames"): ["rename_shape"], ("Model", "metadata"): ["metadata", "metadata_value"],
    ("StructureOrUnion", "members"): ["member", "a_member"],
    ("Key", "path"): ["path_segment"], ("AttributeComparison", "rhs_values"): ["value"],
    ("ScopedAttributeAssertion", "rhs_values"): ["value"],
}
TRAITS = {
    "has_documentation": "documentation", "has_external_documentation": "externalDocumentation",
    "has_length": "length", "has_pattern": "pattern", "has_required_length": "requiresLength", "is_boxed": "box",
    "is_deprecated": "deprecated", "is_error": "error", "is_idempotent": "idempotent", "is_no_replace": "noReplace",
    "is_paginated": "paginated", "is_private": "private", "is_readonly": "readonly", "is_references": "references",
    "is_required": "required", "is_sensitive": "sensitive", "is_streaming": "streaming", "is_since": "since",
    "is_tagged": "tags", "is_titled": "title", "is_trait": "trait", "has_unique_items": "uniqueItems",
    "is_unstable": "unstable",
}
OPK = frozenset(["Operation"])
RESK = frozenset(["Resource"])
ALLK = frozenset("Simple List Set Map Structure Union Service Operation Resource Unresolved".split())
DATAK = ALLK - {"Operation", "Resource", "Service", "Unresolved"}
SHAPE_SETTERS = {
    ("Service", "add_operation_shape"): ("operations", OPK), ("Service", "add_resource_shape"): ("resources", RESK),
    ("Operation", "set_input_shape"): ("input", DATAK), ("Operation", "set_output_shape"): ("output", DATAK),
    ("Operation", "add_error_shape"): ("errors", DATAK),
    ("Resource", "add_operation_shape"): ("operations", OPK),
    ("Resource", "add_collection_operation_shape"): ("collection_operations", OPK),
    ("Resource", "add_resource_shape"): ("resources", RESK),
}
for _o in ("create", "put", "read", "update", "delete", "list"):
    SHAPE_SETTERS[("Resource", f"set_{_o}_operation_shape")] = (_o, OPK)


def snake(s):
    return re.sub(r"(?<!^)([A-Z])", r"_\1", s).lower()


def fkind(f):
    t = f["t"]
    if t.startswith("core::option::Option<"):
        return "option"
    if t.startswith(("alloc::vec::Vec<",)):
        return "vec"
    if re.match(r"(std::collections::hash::map::HashMap|std::collections::[a-z_:]*Map|alloc::collections::.*Map|.*::HashMap|.*::AppliedTraits)<?", t):
        return "map"
    if t.startswith("std::collections") and "Set" in t:
        return "set"
    return "bool" if t == "bool" else "other"


def rows(ret):
    """[(truth value, atoms)] of a boolean result; None when part of it is not understood."""
    out = []
    for t in ret.T:
        if t[0] == "c" and isinstance(t[1], bool):
            out.append((t[1], list(atoms(t[2]))))
        elif t[0] == "tv":
            out.append((t[4], [("var", t[1], t[2], t[3])]))
            neg = {frozenset(["Some"]): frozenset(["None"]), frozenset(["None"]): frozenset(["Some"]),
                   frozenset(["Ok"]): frozenset(["Err"]), frozenset(["Err"]): frozenset(["Ok"])}.get(t[2])
            if neg:
                out.append((not t[4], [("var", t[1], neg, t[3])]))
            else:
                return None
        elif t[0] == "b":
            out.append((True, [t]))
            out.append((False, [t[:-1] + (not t[-1],)]))
        else:
            return None
    return out


CMPF = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
        "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}


def says_nonempty(a, field):
    """True / False / None: does the atom say that collection `field` has an element?"""
    if a[0] != "b":
        return None
    if a[1] == "is_empty" and field in atom_fields(a):
        return not a[3]
    if a[1] in CMPF and len(a[2]) == 2:
        x, y = a[2]
        if ("len",) in labset(x) and field in fields_bits(x):
            k = ints_bits(y)
            if len(k) == 1:
                k = next(iter(k))
                v = [CMPF[a[1]](n, k) == a[3] for n in (0, 1, 2, 5)]
                if v == [False, True, True, True]:
                    return True
                if v == [True, False, False, False]:
                    return False
        if ("len",) in labset(y) and field in fields_bits(y):
            k = ints_bits(x)
            if len(k) == 1:
                k = next(iter(k))
                v = [CMPF[a[1]](k, n) == a[3] for n in (0, 1, 2, 5)]
                if v == [False, True, True, True]:
                    return True
                if v == [True, False, False, False]:
                    return False
    if a[1] == "any" and field in atom_fields(a):
        return a[3] or None
    return None


def says_some(a, field):
    if a[0] == "var" and a[1] == "Option" and field in atom_fields(a):
        if a[2] == frozenset(["Some"]):
            return True
        if a[2] == frozenset(["None"]):
            return False
    return None


def says_contains(a, field, arg):
    if a[0] == "b" and a[1] in ("contains_key", "contains") and field in atom_fields(a) and arg in atom_labs(a):
        return a[3]
    if a[0] == "var" and a[1] == "Option" and field in atom_fields(a):
        return a[2] == frozenset(["Some"])
    if a[0] == "b" and a[1] in ("any", "eq") and field in atom_fields(a):
        return a[3]
    return None


def decide(cx, key, f, ret, says, text):
    rs = rows(ret)
    if not rs:
        cx.bad(key, cx.fnat(f), f"{f.short} does not decide {text}")
        return
    bad = []
    for v, ats in rs:
        vs = [says(a) for a in ats]
        if (not v) in vs and v not in vs:
            bad.append(f"is {str(v).lower()} when {'; '.join(map(gtext, ats))}")
        elif v not in vs and v is True:
            bad.append(f"is true when {'; '.join(map(gtext, ats)) or 'always'}")
    seen = {v for v, _ in rs}
    if seen != {True, False}:
        bad.append("is constant")
    cx.req(not bad, key, cx.fnat(f), f"{f.short} {'; '.join(bad)}: it must be true exactly when {text}")


SEGS = S("push insert extend extend_from_slice append remove retain contains_key contains get get_mut push_back")


@prop("M03")
def m03(cx):
    db = cx.db
    cx.rule("Every accessor of a model type (matched by the naming scheme of the public API: part, has_, set_, unset_, add_, "
            "append_, insert_, contains_, remove_ + part, is_/as_ + variant, and the named-trait predicates) is interpreted over "
            "MIR: it must read or write that part and no other, unconditionally, whole, and predicates must have the right truth value for each case.")
    n = {}
    types = {a: db.adt_short(a) for a in db.local_adts
             if db.names[a].startswith("atelier_core::model::") or db.names[a].endswith(("action::ActionIssue",))}
    for f in sorted(db.fns.values(), key=lambda f: f.name):
        if not f.pub or f.self_adt not in types or "{" in f.short or f.argc < 1 or " as " in f.short:
            continue
        T = types[f.self_adt]
        ad = db.adts[f.self_adt]
        m = f.short.rsplit("::", 1)[-1]
        if f.locals[1].get("n") != "self":
            continue
        if ad["kind"] == "struct" and not (m.startswith("is_") and T == "TopLevelShape"):
            done = struct_method(cx, f, T, ad, m)
        else:
            done = enum_method(cx, f, T, ad, m)
        if done:
            n[done] = n.get(done, 0) + 1
            continue
    for (T, m), (fld, kinds) in SHAPE_SETTERS.items():
        f = db.maybe(f"{T}::{m}")
        if f is None:
            continue
        n["typed"] = n.get("typed", 0) + 1
        ip = cx.interp(fields=lambda x: x.startswith(T + "."))
        _, evs, _ = ip.run(f)
        ws = [e for e in evs if e.kind == "field"]
        key = f"{T}/{m}"
        own = [e for e in ws if e.name == f"{T}.{fld}"]
        oth = [e for e in ws if e.name != f"{T}.{fld}"]
        cx.req(own, key + "/part", cx.fnat(f), f"{f.short} never writes `{fld}`")
        cx.req(not oth, key + "/other", cx.fnat(f), f"{f.short} writes {sorted({e.name for e in oth})}")
        for e in own:
            ks = set(ALLK)
            for a in e.atoms():
                b, ex = unwrap_exit(a)
                if b[0] == "var" and b[1] == "ShapeKind":
                    ks &= b[2]
            cx.req(ks == kinds, key + "/kinds", cx.at(e),
                   f"{f.short} accepts {sorted(ks)} shapes instead of {sorted(kinds)}")
            cx.req("TopLevelShape.id" in fields_of(e.args[0]), key + "/id", cx.at(e), f"{f.short} does not store the shape's identifier")
    # named traits
    for m, tr in TRAITS.items():
        f = db.find(f"HasTraits::{m}")
        n["trait"] = n.get("trait", 0) + 1
        ip = cx.interp(sink=lambda s: s.rsplit("::", 1)[-1] in ("contains_key", "get"), agg={"ShapeID"})
        ret, evs, _ = ip.run(f)
        rs = rows(ret) or []
        key = f"HasTraits/{m}"
        pos = any(v and any(x[0] == "b" and x[1] == "contains_key" and x[3] or
                            x[0] == "var" and x[1] == "Option" and x[2] == frozenset(["Some"]) for x in ats)
                  for v, ats in rs)
        cx.req(pos and not any(v and any(x[0] == "b" and x[1] == "contains_key" and not x[3] for x in ats) for v, ats in rs),
               key + "/polarity", cx.fnat(f), f"{m} is not true exactly when the trait is applied")
        ids = [e for e in evs if e.kind == "agg" and e.name == "ShapeID"]
        ix = field_index(cx, "ShapeID")
        names = {s for e in ids for s in strs(e.args[ix["shape_name"]])}
        nss = {s for e in ids for s in strs(e.args[ix["namespace"]])}
        cx.req(names == {tr} and nss == {"smithy.api"}, key + "/name", cx.fnat(f),
               f"{m} looks for {sorted(nss)}#{sorted(names)} instead of smithy.api#{tr}")
    # the traits map
    for T in ("TopLevelShape", "MemberShape"):
        for m, kd in (("traits", "getter"), ("traits_mut", "getter"), ("trait_named", "get"), ("has_trait", "contains"),
                      ("has_traits", "has"), ("remove_trait", "remove")):
            f = db.maybe(f"{T} as HasTraits::{m}") or db.maybe(f"HasTraits::{m}")
            if f is None:
                cx.bad(f"{T}/HasTraits/{m}", "", "missing")
                continue
            check_kind(cx, f, T, "traits", "map", kd, m, loose=True)
            n["traits map"] = n.get("traits map", 0) + 1
    for T in ("TopLevelShape", "MemberShape"):
        for m, kd in (("id", "getter"), ("set_id", "set")):
            f = db.find(f"{T} as HasIdentity::{m}")
            check_kind(cx, f, T, "id", "other", kd, m)
    # predicates with a table of kinds
    for m, true_for in (("has_members", ALLK - {"Simple", "Unresolved"}),):
        f = db.find(f"TopLevelShape::{m}")
        kinds_pred(cx, f, f"TopLevelShape/{m}", true_for)
    # a resource has any lifecycle operation exactly when one of the six is there
    f = db.find("Resource::has_any_resource_operation")
    ops = ("create", "put", "read", "update", "delete", "list")
    ip = cx.interp()
    ip.run(f)
    seen = mir.fields_touched(cx.db, ip.visited, "Resource")
    cx.req(set(ops) <= seen, "Resource/has_any_resource_operation/looks at", cx.fnat(f),
           f"never looks at {sorted(set(ops) - seen)}")
    for i in range(64):
        on = [o for j, o in enumerate(ops) if i >> j & 1]
        me = mk(0, E, tuple(sorted((o, mk(0, E, (), frozenset([("v", "Option", "Some" if o in on else "None", 0)])))
                                   for o in ops)), TUNK)
        ip = cx.interp()
        ret, _, _ = ip.run(f, args=[me])
        got = {t[1] if t[0] == "c" else "unknown" for t in ret.T}
        cx.req(bool(on) in got or "unknown" in got, f"Resource/has_any_resource_operation/{'+'.join(on) or 'none'}", cx.fnat(f),
               f"with only {on} there, has_any_resource_operation is {sorted(map(str, got))}")
    f = db.find("TopLevelShape::member")
    ip = cx.interp()
    ret, _, _ = ip.run(f)
    want = {"ListOrSet.member", "Map.key", "Map.value", "StructureOrUnion.members", "ShapeKind::List.0", "ShapeKind::Set.0",
            "ShapeKind::Map.0", "ShapeKind::Structure.0", "ShapeKind::Union.0"}
    cx.req(want <= fields_of(ret), "TopLevelShape/member/reaches", cx.fnat(f),
           f"member() never answers {sorted(want - fields_of(ret))}")
    for k, part, name in (("Map", "Map.key", "key"), ("Map", "Map.value", "value"), ("List", "ListOrSet.member", "member"),
                          ("Set", "ListOrSet.member", "member")):
        good = False
        for t in ret.T:
            if t[0] == "v" and t[2] == "Some":
                ats = [unwrap_exit(a)[0] for a in atoms(t[3])]
                if any(a[0] == "var" and a[1] == "ShapeKind" and a[2] == frozenset([k]) for a in ats):
                    pos = {s for a in ats if a[0] == "b" and a[1] == "eq" and a[3] for x in a[2] for s in strs_bits(x)}
                    if name in pos:
                        good = True
        cx.req(good, f"TopLevelShape/member/{k}.{name}", cx.fnat(f), f"no member of a {k} is found under `{name}`")
    f = db.find("Model::is_complete")
    ip = cx.interp()
    ret, _, _ = ip.run(f)
    # true only if nothing is unresolved
    bad = False
    for t in ret.T:
        if t[0] == "b" and t[1] in ("any", "all"):
            if (t[1] == "any") == t[-1]:
                bad = True
        if t[0] == "c" and isinstance(t[1], bool):
            for a in atoms(t[2]):
                b, _ = unwrap_exit(a)
                if b[0] == "var" and b[1] == "ShapeKind":
                    if (b[2] == frozenset(["Unresolved"])) == t[1]:
                        bad = True
                    if t[1] and "Unresolved" in b[2]:
                        bad = True
    cx.req(not bad and "Model.shapes" in fields_of(ret) | {x for t in ret.T if t[0] == "c" for a in atoms(t[2]) for x in atom_fields(a)},
           "Model/is_complete", cx.fnat(f), "is_complete is not true exactly when no shape is unresolved")
    for m, only in (("shape_names", False), ("unresolved_shape_names", True)):
        f = db.find(f"Model::{m}")
        ip = cx.interp()
        ret, _, _ = ip.run(f)
        fl = [x for x in filts(ret)]
        ks = set(ALLK)
        for x in fl:
            if x[0] == "var" and x[1] == "ShapeKind":
                ks &= x[2]
        want = {"Unresolved"} if only else ALLK - {"Unresolved"}
        cx.req(ks == set(want) and {"Model.shapes", "TopLevelShape.id"} <= fields_of(ret), f"Model/{m}", cx.fnat(f),
               f"{m} lists {sorted(ks)} shapes instead of {sorted(want)}")
    for k, least in (("getter", 35), ("has", 25), ("set", 35), ("unset", 8), ("add", 10), ("append", 8), ("remove", 10),
                     ("get", 5), ("contains", 5), ("is", 40), ("as", 22), ("typed", 14), ("trait", 23)):
        cx.floor(f"{k} accessors", n.get(k, 0), least)


def kinds_pred(cx, f, key, true_for):
    ip = cx.interp()
    ret, _, _ = ip.run(f)
    rs = rows(ret) or []
    for k in sorted(ALLK):
        vals = {v for v, ats in rs if admits(ats, "ShapeKind", k)}
        cx.req(vals == {k in true_for}, f"{key}/{k}", cx.fnat(f),
               f"{f.short} is {sorted(vals)} for {k} instead of {k in true_for}")


def struct_method(cx, f, T, ad, m):
    fs = {x["n"]: fkind(x) for x in ad["v"][0]["f"]}
    for fld, kd in fs.items():
        sing = SINGULAR.get((T, fld), [fld[:-1]] if fld.endswith("s") and kd in ("vec", "map") else [])
        kind = None
        if m == fld or m == fld + "_mut":
            kind = "getter"
        elif m == "is_" + fld and kd == "bool":
            kind = "getter"
        elif m == "has_" + fld and f.argc == 1:
            kind = "has"
        elif m == "set_" + fld:
            kind = "set"
        elif m == "unset_" + fld:
            kind = "unset"
        elif m == "append_" + fld:
            kind = "append"
        else:
            for s in sing:
                if m == "has_" + s and f.argc == 2:
                    kind = "contains"
                elif m in ("contains_" + s, s, s + "_mut") and f.argc == 2:
                    kind = "get"
                elif m in ("add_" + s, "insert_" + s):
                    kind = "add"
                elif m == "remove_" + s:
                    kind = "remove"
                if kind:
                    break
        if kind is None:
            continue
        if (T, m) in (("Model", "add_shape"), ("Model", "add_metadata")):
            return None        # M04
        check_kind(cx, f, T, fld, kd, kind, m)
        return kind
    return None


def check_kind(cx, f, T, fld, kd, kind, m, loose=False):
    db = cx.db
    F = f"{T}.{fld}"
    own = {f"{T}.{x['n']}" for x in db.adts[db.find_adt(T)]["v"][0]["f"]}
    key = f"{T}/{m}"
    arg = ("arg", f.locals[2].get("n") or "#2") if f.argc > 1 else None
    ip = cx.interp(sink=lambda s: s.rsplit("::", 1)[-1] in SEGS, fields=lambda x: x in own)
    ret, evs, _ = ip.run(f)
    ws = [e for e in evs if e.kind == "field"]
    calls = [e for e in evs if e.kind == "call"]
    where = cx.fnat(f)
    others = sorted({e.name for e in ws if e.name != F})
    if kind in ("getter", "get"):
        fs = (fields_of(ret) | ptr_fields(ret)) & own
        cx.req(fs == {F}, key + "/part", where, f"{f.short} answers from {sorted(fs) or 'nothing'} instead of {F}")
        lz = lossy(ret) - {x for x in lossy(ret) if kind == "get" and x.endswith("::get")}
        cx.req(not lz and not filts(ret), key + "/whole", where, f"{f.short} answers only part of it: {sorted(lz)}")
        cx.req(not ws, key + "/pure", where, f"{f.short} writes {sorted({e.name for e in ws})}")
        if kind == "get":
            ok = any(F in fields_of(e.args[0]) and arg in labels(e.args[1]) and not lossy(e.args[1]) for e in calls
                     if len(e.args) > 1)
            cx.req(ok, key + "/key", where, f"{f.short} does not look up its argument")
        if kd == "option" and kind == "getter":
            pass
    elif kind == "has":
        if kd == "option":
            decide(cx, key, f, ret, lambda a: says_some(a, F), f"{F} is present")
        else:
            decide(cx, key, f, ret, lambda a: says_nonempty(a, F), f"{F} is not empty")
    elif kind == "contains":
        decide(cx, key, f, ret, lambda a: says_contains(a, F, arg), f"{F} contains the argument")
    elif kind in ("set", "unset"):
        mine = [e for e in ws if e.name == F]
        cx.req(mine, key + "/part", where, f"{f.short} does not write {F}")
        cx.req(not others, key + "/other", where, f"{f.short} writes {others}")
        if kind == "set":
            cx.req(any(arg in labels(e.args[0]) for e in mine), key + "/value", where, f"{f.short} does not store its argument")
            for e in mine:
                cx.req(not (lossy(e.args[0])), key + "/whole", cx.at(e), f"{f.short} stores {sorted(lossy(e.args[0]))} of its argument")
                if kd == "option":
                    ts = {t[2] for t in e.args[0].T if t[0] == "v"}
                    cx.req(ts != {"None"}, key + "/some", cx.at(e), f"{f.short} stores None")
        else:
            for e in mine:
                ts = {t[2] for t in e.args[0].T if t[0] == "v"}
                cx.req(ts == {"None"}, key + "/none", cx.at(e), f"{f.short} does not clear {F}")
        bad = hardguards(mine)
        cx.req(not bad, key + "/always", where, f"{f.short} writes only if {bad}")
    elif kind in ("add", "append"):
        mine = [e for e in calls if e.name.rsplit("::", 1)[-1] in ("push", "insert", "extend", "extend_from_slice", "append",
                                                                   "push_back") and F in fields_of(e.args[0])]
        cx.req(mine, key + "/part", where, f"{f.short} adds nothing to {F}")
        cx.req(not others, key + "/other", where, f"{f.short} writes {others}")
        for e in mine:
            aa = [("arg", f.locals[i].get("n") or f"#{i}") for i in range(2, f.argc + 1)]
            got = set()
            for a in e.args[1:]:
                got |= labels(a)
            miss = [a[1] for a in aa if a not in got]
            cx.req(not miss, key + "/value", cx.at(e), f"{f.short} does not use {miss}")
            lz = set()
            for a in e.args[1:]:
                lz |= lossy(a)
            cx.req(not lz, key + "/whole", cx.at(e), f"{f.short} adds {sorted(lz)} of its argument")
            if len(aa) == 2 and len(e.args) == 3:
                cx.req(aa[0] in labels(e.args[1]) and aa[1] in labels(e.args[2]) and aa[1] not in labels(e.args[1]),
                       key + "/order", cx.at(e), f"{f.short} swaps key and value")
            if m.endswith(("a_member", "shape")) and len(aa) == 1 and len(e.args) == 3:
                ids = {x for x in fields_of(e.args[1]) if x.endswith(".id")}
                cx.req(ids, key + "/key", cx.at(e), f"{f.short} does not use the identifier as key")
        if kind == "add":
            bad = hardguards(mine)
            cx.req(not bad, key + "/always", where, f"{f.short} adds only if {bad}")
        else:
            bad = hardguards(mine, iteration=True)
            cx.req(not bad, key + "/always", where, f"{f.short} adds only if {bad}")
    elif kind == "remove":
        mine = []
        for e in calls:
            seg = e.name.rsplit("::", 1)[-1]
            if F not in fields_of(e.args[0]):
                continue
            if seg == "remove" and (arg in labels(e.args[1]) and not lossy(e.args[1])):
                mine.append(e)
            elif seg == "retain":
                w = [x for x in ws if x.name == F]
                ok = False
                for x in w:
                    for fl in filts(x.args[0]):
                        if fl[0] == "b" and fl[1] == "eq" and fl[3] is False and (arg in atom_labs(fl)):
                            ok = True
                if ok:
                    mine.append(e)
        cx.req(mine, key + "/part", where, f"{f.short} does not remove exactly its argument from {F}")
        cx.req(not others, key + "/other", where, f"{f.short} writes {others}")
        bad = hardguards(mine)
        cx.req(not bad, key + "/always", where, f"{f.short} removes only if {bad}")


def ptr_fields(v):
    """Fields a returned reference points into."""
    out = set()
    for c, path in allptrs(v):
        for p in path:
            if isinstance(p, tuple) and p[0] == "F":
                out.add(f"{p[1]}{'::' + p[2] if p[2] else ''}.{p[3]}")
    return out


def hardguards(evs, iteration=False):
    out = None
    for e in evs:
        g = [a for a in e.atoms() if a[0] != "exit"]
        g = [a for a in g if not (a[0] == "b" and a[1] in ("eq", "is_empty") and False)]
        if iteration:
            g = [a for a in g if not presence(a)]
        if not g:
            return None
        out = "; ".join(map(gtext, g))
    return out


def enum_method(cx, f, T, ad, m):
    db = cx.db
    enum = T
    if T == "TopLevelShape":
        enum = "ShapeKind"
        ad = db.adts[db.find_adt("ShapeKind")]
    vs = {snake(v["n"]): v["n"] for v in ad["v"]}
    vs.update({"root_shape_id": "RootShapeIdentifier", "absolute_root_shape_id": "AbsoluteRootShapeIdentifier"}
              if enum == "selector:Value" else {})
    if m.startswith("is_") and m[3:] in vs:
        V = vs[m[3:]]
        ip = cx.interp()
        ret, _, _ = ip.run(f)
        rs = rows(ret) or []
        for v in sorted({x["n"] for x in ad["v"]}):
            vals = {b for b, ats in rs if admits(ats, enum, v)}
            cx.req(vals == {v == V}, f"{T}/{m}/{v}", cx.fnat(f), f"{f.short} is {sorted(vals)} for {v}")
        return "is"
    if m.startswith("as_") and m[3:] in vs:
        V = vs[m[3:]]
        ip = cx.interp()
        ret, _, _ = ip.run(f)
        fs = {x for x in fields_of(ret) if x.startswith(enum + "::")}
        cx.req(fs == {f"{enum}::{V}.0"}, f"{T}/{m}/part", cx.fnat(f), f"{f.short} answers {sorted(fs)}")
        cx.req(not lossy(ret), f"{T}/{m}/whole", cx.fnat(f), f"{f.short} answers only {sorted(lossy(ret))}")
        for v in sorted({x["n"] for x in ad["v"]}):
            vals = {t[2] for t in ret.T if t[0] == "v" and admits(atoms(t[3]), enum, v)}
            want = {"Some"} if v == V else {"None"}
            cx.req(vals == want, f"{T}/{m}/{v}", cx.fnat(f), f"{f.short} is {sorted(vals)} for {v}")
        return "as"
    return None
