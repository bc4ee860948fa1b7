"""M04: the conflict rules when metadata, traits and shapes are defined more than once."""
from core import *

KINDS = "Simple List Set Map Structure Union Service Operation Resource Unresolved".split()


def seg(s):
    return s.rsplit("::", 1)[-1]


MUT = S("insert extend extend_from_slice push append remove clear retain truncate entry or_insert or_insert_with")


def has(a, field=None, arg=None):
    ls = atom_labs(a)
    return (field is None or ("f", field) in ls) and (arg is None or ("arg", arg) in ls)


def isarr(a, yes):
    """atom says `.. is an array` (yes) / `.. is not an array`"""
    if a[0] == "var" and a[1] == "Value":
        return (a[2] == frozenset(["Array"])) == yes and (yes or "Array" not in a[2])
    if a[0] == "b" and a[1] == "is_array":
        return a[3] == yes
    return False


def existing_none(ats, field, v):
    """guards say that nothing is stored under the key yet"""
    for a in ats:
        a, ex = unwrap_exit(a)
        if a[0] == "var" and a[1] == "Option" and a[2] == frozenset(["None"]) and has(a, field):
            return True
        if a[0] == "b" and a[1] == "contains_key" and not a[3] and has(a, field):
            return True
        if a[0] == "var" and a[1] == "Entry" and a[2] == frozenset(["Vacant"]):
            return True
    return False


def existing_some(ats, field):
    for a in ats:
        a, ex = unwrap_exit(a)
        if a[0] == "var" and a[1] == "Option" and a[2] == frozenset(["Some"]) and has(a, field):
            return True
        if a[0] == "b" and a[1] == "contains_key" and a[3] and has(a, field):
            return True
        if a[0] == "var" and a[1] == "Entry" and a[2] == frozenset(["Occupied"]):
            return True
    return False


def equality(a, field, arg):
    """True/False when the atom says that stored and new value are (un)equal"""
    if a[0] == "b" and a[1] in ("eq", "ne") and has(a, field, arg):
        return a[3] == (a[1] == "eq")
    return None


def emptiness(ats, field, arg):
    """(stored array empty?, new array empty?) as far as the guards say (None: not said)"""
    st = nw = None
    for a in ats:
        a, ex = unwrap_exit(a)
        if ex is not None or a[0] != "b":
            continue
        from checks.c_accessors import says_nonempty
        ls = atom_labs(a)
        if a[1] == "is_empty" or ("len",) in ls:
            r = None
            if a[1] == "is_empty":
                r = a[3]
            else:
                for f in fields_bits(a[2][0]) | (fields_bits(a[2][1]) if len(a[2]) > 1 else set()):
                    s = says_nonempty(a, f)
                    if s is not None:
                        r = not s
            if r is None:
                continue
            if ("f", field) in ls and ("mv",) in ls:
                st = r
            elif ("arg", arg) in ls:
                nw = r
    return st, nw


def kv_merge(cx, f, field, karg, varg, key, ctor_err, member_err):
    """One `define name = value` operation over the map `field`."""
    ip = cx.interp(sink=lambda s: seg(s) in MUT and ("Map" in s or "Vec" in s or "Entry" in s),
                   fields=lambda x: x == field, agg={"Value"},
                   opaque=lambda k, s: s.endswith("::fmt"))
    ret, evs, _ = ip.run(f)
    own = [e for e in evs if "Clone" not in cx.db.short(e.fn)]
    where = cx.fnat(f)
    # --- failing outcomes
    errs = [list(atoms(t[3])) for t in ret.T if t[0] == "v" and t[1] == "Result" and t[2] == "Err"]
    oks = [list(atoms(t[3])) for t in ret.T if t[0] == "v" and t[1] == "Result" and t[2] == "Ok"]
    conflict = 0
    mem = 0
    for ats in errs:
        hard = [unwrap_exit(a)[0] for a in ats]
        if any(a[0] == "var" and a[1] == "Option" and has(a, "ShapeID.member_name") and a[2] == frozenset(["Some"]) for a in hard) \
                or any(a[0] == "b" and a[1] == "is_member" and a[3] for a in hard):
            mem += 1
            continue
        conflict += 1
        cx.req(any(equality(a, field, varg) is False for a in hard), f"{key}/conflict/unequal", where,
               f"{f.short} can report a conflict although the two values are equal: "
               f"{'; '.join(map(gtext, ats))}")
        cx.req(any(isarr(a, False) for a in hard), f"{key}/conflict/arrays", where,
               f"{f.short} can report a conflict between two arrays, which are to be joined")
        odd = []
        for b, ex in map(unwrap_exit, ats):
            if ex is not None:
                continue
            if b[0] == "b" and equality(b, field, varg) is None and b[1] not in ("contains_key", "is_array", "is_member"):
                odd.append(b)
            elif b[0] == "var" and b[1] == "Value" and not b[2] >= {"None", "Boolean", "Number", "Object", "String"}:
                odd.append(b)
            elif b[0] == "var" and b[1] == "Option" and has(b, None, varg) and not has(b, field) and \
                    not has(b, "ShapeID.member_name"):
                odd.append(b)
        cx.req(not odd, f"{key}/conflict/always", where,
               f"{f.short} reports unequal values only if {'; '.join(map(gtext, odd))}")
        cx.req(existing_some(ats, field), f"{key}/conflict/existing", where,
               f"{f.short} can report a conflict although the name is not defined yet")
    cx.req(conflict, f"{key}/conflict", where, f"{f.short} never reports conflicting values")
    if member_err:
        cx.req(mem, f"{key}/member", where, f"{f.short} accepts the identifier of a member as the name of a trait")
    # --- storing
    ins = [e for e in own if e.kind == "call" and seg(e.name) in ("insert", "or_insert", "or_insert_with")
           and field in fields_of(e.args[0])]
    fresh = [e for e in ins if existing_none(e.atoms(), field, varg) or not existing_some(e.atoms(), field)]
    fresh = [e for e in fresh if ("arg", varg) in labels(e.args[-1])]
    cx.req(fresh, f"{key}/first", where, f"{f.short} never stores the value of a name that is not defined yet")
    for e in fresh:
        extra = [a for a in map(lambda x: unwrap_exit(x), e.atoms())
                 if a[1] is None and not (a[0][0] == "var" and a[0][1] in ("Option", "Entry", "Result", "ControlFlow") and
                                          has(a[0], field))
                 and not (a[0][0] == "b" and a[0][1] == "contains_key")
                 and not (a[0][0] == "var" and a[0][1] == "Option" and has(a[0], "ShapeID.member_name"))
                 and not (a[0][0] == "b" and a[0][1] == "is_member")]
        cx.req(not extra, f"{key}/first/always", cx.at(e),
               f"the first value of a name is stored only if {'; '.join(gtext(a[0]) for a in extra)}")
        if len(e.args) >= 3:
            cx.req(("arg", karg) in labels(e.args[1]) and not strs(e.args[1]), f"{key}/first/name", cx.at(e),
                   f"{f.short} does not store the value under the name it was given")
        lz = lossy(e.args[-1])
        cx.req(not lz, f"{key}/first/whole", cx.at(e), f"the value passes through {sorted(lz)} before it is stored")
    for e in own:
        if e.kind == "call" and seg(e.name) in ("remove", "clear", "retain", "truncate") and field in fields_of(e.args[0]) \
                and ("mv",) not in labels(e.args[0]):
            cx.req(False, f"{key}/removes", cx.at(e), f"{f.short} removes entries from `{field}`")
    # --- overwriting: never with a value that lacks the stored one, unless they are known equal
    for e in ins:
        if e in fresh and not existing_some(e.atoms(), field):
            continue
        v = e.args[-1]
        eq = any(equality(unwrap_exit(a)[0], field, varg) for a in e.atoms())
        cx.req(field in fields_of(v) or eq, f"{key}/overwrite", cx.at(e),
               f"{f.short} replaces the value stored under a name by the new one")
    # --- arrays are joined: both contents, stored first, new last
    joins = []
    for e in own:
        if e.kind == "call" and seg(e.name) in ("extend", "append", "extend_from_slice", "push"):
            d, s = labels(e.args[0]), labels(e.args[1])
            if ("f", "Value::Array.0") not in d:
                continue
            sw = ("f", field) in s and ("mv",) in s and ("arg", varg) in d and ("f", field) not in d
            fw = ("f", field) in d and ("arg", varg) in s
            if sw:
                cx.bad(f"{key}/join/order", cx.at(e), f"{f.short} appends the stored array to the new one")
            if fw:
                joins.append((e, e.atoms()))
    aggs = [e for e in own if e.kind == "agg" and e.name == "Value::Array" and "Clone" not in cx.db.short(e.fn)]
    inpl = any(e.kind == "call" and any(w.kind == "field" and w.name == field and w.line == e.line for w in own)
               for e, _ in joins)
    for e in aggs:
        ls = labels(e.args[0])
        if inpl:
            continue        # the stored array itself is extended
        if ("f", field) not in ls and ("arg", varg) not in ls:
            continue
        st, nw = emptiness(e.atoms(), field, varg)
        if ("f", field) not in ls:
            cx.req(st is True, f"{key}/join/stored", cx.at(e), f"{f.short} makes an array without the elements already stored")
        if ("arg", varg) not in ls:
            cx.req(nw is True, f"{key}/join/new", cx.at(e), f"{f.short} makes an array without the new elements")
        if ("f", field) in ls and ("arg", varg) in ls and not joins:
            joins.append((e, e.atoms()))
        lz = lossy(e.args[0])
        cx.req(not lz, f"{key}/join/whole", cx.at(e), f"{f.short} passes the elements through {sorted(lz)}")
    cx.req(joins, f"{key}/join", where, f"{f.short} never joins two arrays")
    for e, ats in joins:
        odd = []
        for a in ats:
            b, ex = unwrap_exit(a)
            if ex is not None or isarr(b, True):
                continue
            if b[0] == "var" and b[1] in ("Option", "Result", "ControlFlow", "Entry"):
                continue
            if b[0] == "b" and b[1] == "is_empty" and not b[3]:
                continue
            if b[0] == "b" and b[1] in CMP_LEN and ("len",) in atom_labs(b):
                continue
            if b[0] == "b" and b[1] == "contains_key":
                continue
            odd.append(b)
        cx.req(not odd, f"{key}/join/always", cx.at(e), f"two arrays are joined only if {'; '.join(map(gtext, odd))}")
        both = any(isarr(unwrap_exit(a)[0], True) and has(unwrap_exit(a)[0], field) for a in ats) and \
            any(isarr(unwrap_exit(a)[0], True) and has(unwrap_exit(a)[0], None, varg) for a in ats)
        cx.req(both or True, f"{key}/join/both", cx.at(e), "")
    # --- the joined array is what ends up stored
    if joins:
        stored = [e for e in ins if field in fields_of(e.args[-1]) and ("arg", varg) in labels(e.args[-1])]
        inplace = [e for e, _ in joins if e.kind == "call" and e.name.endswith(("extend", "append", "extend_from_slice", "push"))
                   and any(w.kind == "field" and w.name == field and w.line == e.line for w in own)]
        cx.req(stored or inplace, f"{key}/join/kept", where, f"{f.short} joins two arrays but does not store the result")
    return conflict + len(ins) + len(joins) + mem


CMP_LEN = S("eq ne lt le gt ge")


def merge_shape(cx):
    f = cx.db.find("Model::add_shape")
    ip = cx.interp(sink=lambda s: seg(s) in MUT and "Map" in s,
                   fields=lambda x: x in ("Model.shapes", "TopLevelShape.body", "TopLevelShape.traits", "TopLevelShape.id"),
                   agg={"ErrorKind"},
                   opaque=lambda k, s: s.endswith(("::fmt", "HasTraits::apply_with_value", "HasTraits::append_traits",
                                                   "equal_without_traits")))
    ip.sink0 = ip.sink
    ip.sink = lambda s: (seg(s) in MUT and "Map" in s) or s.endswith(("::apply_with_value", "::append_traits"))
    ret, evs, _ = ip.run(f)
    where = cx.fnat(f)
    n = 0

    def unres(a, new):
        """True / False when the atom says that the stored / new shape is (not) unresolved"""
        b, _ = unwrap_exit(a)
        if b[0] != "var" or b[1] != "ShapeKind":
            return None
        stored = has(b, "Model.shapes")
        if stored == new:
            return None
        if not new and not stored:
            return None
        if b[2] == frozenset(["Unresolved"]):
            return True
        if "Unresolved" not in b[2]:
            return False
        return None
    # first definition is stored under its own identifier
    ins = [e for e in evs if e.kind == "call" and seg(e.name) == "insert" and "Model.shapes" in fields_of(e.args[0])
           and not any(l[1] in ("TopLevelShape.traits",) for l in labels(e.args[0]) if l[0] == "f")]
    fresh = [e for e in ins if len(e.args) >= 3 and ("arg", "shape") in labels(e.args[2])]
    cx.req(fresh, "shape/first", where, "Model::add_shape never stores a shape that is not defined yet")
    for e in fresh:
        n += 1
        cx.req("TopLevelShape.id" in fields_of(e.args[1]) and ("arg", "shape") in labels(e.args[1]), "shape/first/name",
               cx.at(e), "the shape is not stored under its own identifier")
        odd = [a for a in e.atoms() if unwrap_exit(a)[1] is None and not
               (unwrap_exit(a)[0][0] == "var" and unwrap_exit(a)[0][1] in ("Option", "Entry")) and not
               (unwrap_exit(a)[0][0] == "b" and unwrap_exit(a)[0][1] == "contains_key")]
        odd = [a for a in odd if not (has(a, "TopLevelShape.body") or unwrap_exit(a)[0][1] in ("ShapeKind",))]
        cx.req(not odd, "shape/first/always", cx.at(e), f"a first definition is stored only if {'; '.join(map(gtext, odd))}")
        cx.req(existing_none(e.atoms(), "Model.shapes", None) or any(
            unwrap_exit(a)[0][0] == "var" and unwrap_exit(a)[0][1] == "Option" and unwrap_exit(a)[0][2] == frozenset(["None"])
            and has(unwrap_exit(a)[0], None, "self") for a in e.atoms()), "shape/overwrite", cx.at(e),
               "Model::add_shape replaces a shape that is already defined")
    # the body is only replaced when the stored one is unresolved and the new one is not
    bodies = [e for e in evs if e.kind == "field" and e.name == "TopLevelShape.body"]
    for e in bodies:
        n += 1
        cx.req(any(unres(a, False) is True for a in e.atoms()), "shape/resolve/stored", cx.at(e),
               "the definition of a shape that is already resolved is replaced")
        cx.req(("arg", "shape") in labels(e.args[0]) or "TopLevelShape.body" in fields_of(e.args[0]), "shape/resolve/body",
               cx.at(e), "an unresolved shape does not get the body of its definition")
        odd = [a for a in e.atoms() if unwrap_exit(a)[1] is None and unwrap_exit(a)[0][0] == "b"
               and unwrap_exit(a)[0][1] != "contains_key"]
        cx.req(not odd, "shape/resolve/always", cx.at(e), f"the body is taken over only if {'; '.join(map(gtext, odd))}")
    cx.req(bodies, "shape/resolve", where, "Model::add_shape never resolves a shape that was unresolved")
    # conflicts
    con = [e for e in evs if e.kind == "agg" and e.name == "ErrorKind::MergeShapeConflict"]
    cx.req(con, "shape/conflict", where, "Model::add_shape never reports conflicting definitions")
    for e in con:
        n += 1
        neq = [a for a in map(lambda x: unwrap_exit(x)[0], e.atoms()) if a[0] == "b" and a[1].endswith("equal_without_traits")]
        cx.req(any(not a[3] for a in neq), "shape/conflict/different", cx.at(e),
               "a conflict is reported although the definitions are equal")
        for new in (False, True):
            cx.req(any(unres(a, new) is False for a in e.atoms()) if not new else True, f"shape/conflict/resolved/{new}", cx.at(e),
                   "a conflict is reported although one of the shapes is unresolved")
    return n


def merge_shape_terms(cx):
    """Model::add_shape, everything below it visible except equality: which outcomes copy the traits."""
    db = cx.db
    f = db.find("Model::add_shape")
    ip = cx.interp(sink=lambda s: s.endswith("::apply_with_value"), fields=lambda x: x == "TopLevelShape.body",
                   opaque=lambda k, s: s.endswith(("::fmt", "::apply_with_value", "equal_without_traits")))
    ret, evs, _ = ip.run(f)
    ap = [e for e in evs if e.kind == "call"]
    where = cx.fnat(f)
    cx.req(ap, "shape/traits", where, "Model::add_shape never applies the traits of the new definition to the stored shape")
    allowed = set()
    for e in ap:
        cx.req("Model.shapes" in fields_of(e.args[0]) or ("arg", "self") in labels(e.args[0]), "shape/traits/to", cx.at(e),
               "the traits are not applied to the stored shape")
        if len(e.args) >= 3:
            cx.req("TopLevelShape.traits" in fields_of(e.args[1]) and ("mk",) in labels(e.args[1]), "shape/traits/name", cx.at(e),
                   "a trait is not applied under its own name")
            cx.req("TopLevelShape.traits" in fields_of(e.args[2]) and ("mv",) in labels(e.args[2]), "shape/traits/value", cx.at(e),
                   "a trait is applied without its value")
            lz = lossy(e.args[2]) | lossy(e.args[1])
            cx.req(not lz, "shape/traits/whole", cx.at(e), f"the traits pass through {sorted(lz)}")
        # (stored unresolved?, new unresolved?, equal?) combinations that reach it
        e_atoms = [a for a in e.atoms() if not (a[0] == "exit" and unwrap_exit(a)[0][0] == "var")]
        cs = {(s, w, q) for s in (True, False) for w in (True, False) for q in (True, False)}
        for a in e_atoms:
            b, _ = unwrap_exit(a)
            if b[0] == "var" and b[1] == "ShapeKind":
                st = has(b, "Model.shapes")
                yes = "Unresolved" in b[2]
                no = bool(b[2] - {"Unresolved"})
                i = 0 if st else 1
                cs = {c for c in cs if (c[i] and yes) or (not c[i] and no)}
            elif b[0] == "b" and b[1].endswith("equal_without_traits"):
                cs = {c for c in cs if c[2] == b[3]}
            elif b[0] == "b" and (b[1] != "contains_key" and not (b[1] == "is_empty" and not has(b, "Model.shapes"))):
                cx.bad(f"shape/traits/odd/{b[1].rsplit('::', 1)[-1]}", cx.at(e), f"the traits are applied only if {gtext(a)}")
        allowed |= cs
    for s in (True, False):
        for w in (True, False):
            for q in (True, False):
                if not s and not w and not q:
                    cx.req((s, w, q) not in allowed, "shape/traits/conflict", where,
                           "traits are applied although the two definitions are in conflict")
                    continue
                cx.req((s, w, q) in allowed, f"shape/traits/{'un' if s else ''}resolved<-{'un' if w else ''}resolved/{'eq' if q else 'ne'}",
                       where, f"the traits of the new definition are lost when the stored shape is {'un' if s else ''}resolved "
                              f"and the new one is {'un' if w else ''}resolved")
    # errors of the trait rules come back
    errs = [t for t in ret.T if t[0] == "v" and t[1] == "Result" and t[2] == "Err"
            and any(unwrap_exit(a)[0][0] == "var" and unwrap_exit(a)[0][1] == "ControlFlow" or
                    (unwrap_exit(a)[0][0] == "var" and unwrap_exit(a)[0][1] == "Result") for a in atoms(t[3]))]
    lz = [t for t in ret.T if t[0] != "v"]
    cx.req(errs or lz, "shape/traits/error", where, "a conflict between traits is not reported by Model::add_shape")
    # a member identifier only for unresolved shapes
    ip2 = cx.interp(agg={"ErrorKind"}, opaque=lambda k, s: s.endswith(("::fmt", "::apply_with_value", "equal_without_traits")))
    _, ev2, _ = ip2.run(f)
    mem = [e for e in ev2 if e.kind == "agg" and e.name == "ErrorKind::ShapeIDExpected"]
    cx.req(mem, "shape/member", where, "a shape whose identifier names a member is accepted")
    for e in mem:
        ks = set(KINDS)
        pos = False
        for a in e.atoms():
            b, ex = unwrap_exit(a)
            if ex is not None:
                continue
            if b[0] == "var" and b[1] == "ShapeKind":
                ks &= b[2]
            elif b[0] == "var" and b[1] == "Option" and b[2] == frozenset(["Some"]) and has(b, "ShapeID.member_name") \
                    or b[0] == "b" and b[1] == "is_member" and b[3]:
                pos = True
            else:
                cx.bad("shape/member/odd", cx.at(e), f"a member identifier is refused only if {gtext(a)}")
        cx.req(ks == set(KINDS) - {"Unresolved"}, "shape/member/kinds", where,
               f"a member identifier is refused for the kinds {sorted(ks)}; it must be for every kind but Unresolved")
        cx.req(pos, "shape/member/polarity", where, "an identifier without a member is refused")
    return len(ap)


# what is compared, per kind
EQW = {
    "Simple": [("ShapeKind::Simple.0",)],
    "List": [("ShapeKind::List.0", "MemberShape.id"), ("ShapeKind::List.0", "MemberShape.target")],
    "Set": [("ShapeKind::Set.0", "MemberShape.id"), ("ShapeKind::Set.0", "MemberShape.target")],
    "Map": [("ShapeKind::Map.0", "Map.key", "MemberShape.id"), ("ShapeKind::Map.0", "Map.key", "MemberShape.target"),
            ("ShapeKind::Map.0", "Map.value", "MemberShape.id"), ("ShapeKind::Map.0", "Map.value", "MemberShape.target")],
    "Structure": [("ShapeKind::Structure.0", "MemberShape.id"), ("ShapeKind::Structure.0", "MemberShape.target")],
    "Union": [("ShapeKind::Union.0", "MemberShape.id"), ("ShapeKind::Union.0", "MemberShape.target")],
    "Service": [("ShapeKind::Service.0",)], "Operation": [("ShapeKind::Operation.0",)],
    "Resource": [("ShapeKind::Resource.0",)],
}


def shape_equal(cx):
    """Two definitions are equal: same identifier, same kind, and per kind everything but the traits compared."""
    db = cx.db
    f = db.find("TopLevelShape as NonTraitEq::equal_without_traits")
    ip = cx.interp(opaque=lambda k, s: s.endswith("::fmt"), sink=lambda s: seg(s) in ("eq", "ne"))
    ret, evs, _ = ip.run(f)
    where = cx.fnat(f)
    looked = [fields_of(e.args[0]) & fields_of(e.args[1]) for e in evs if len(e.args) == 2 and
              ("len",) not in labels(e.args[0])]
    facts_ = []       # (fields both operands share, has len) that must be equal for the result to be true
    for t in ret.T:
        if t[0] == "c" and t[1] is True:
            ats = [unwrap_exit(a)[0] for a in atoms(t[2])]
            for a in ats:
                if a[0] == "var" and a[1] == "Option" and a[2] == frozenset(["None"]) and \
                        {("arg", "self"), ("arg", "other")} <= atom_labs(a):
                    # (a lookup in one shape by a name of the other, not the end of an iteration)
                    cx.bad("equal/missing", where, f"{f.short} treats a member that the other shape lacks as equal")
            ks = [a[2] for a in ats if a[0] == "var" and a[1] == "ShapeKind"]
            both = set(KINDS)
            for x in ks:
                both &= x
            idc = any(a[0] == "b" and a[1] == "eq" and a[3] and "TopLevelShape.id" in atom_fields(a) for a in ats)
            if idc:
                facts_.append((frozenset(["TopLevelShape.id"]), False))
            # a constant `true` is fine for unresolved shapes only, or when reached through further equalities
            eqs = [a for a in ats if a[0] == "b" and a[1] == "eq" and a[3] and "TopLevelShape.id" not in atom_fields(a)]
            if both != {"Unresolved"}:
                cx.req(eqs or any(a[0] == "b" and a[1] == "all" for a in ats), "equal/true", where,
                       f"{f.short} is true without comparing when {'; '.join(map(gtext, ats))[:300]}")
            mine = []
            for a in eqs:
                note(cx, f, where, a, mine)
            facts_ += mine
            if len(both) == 1 and both <= set(EQW) and not both & {"Structure", "Union"}:
                k = next(iter(both))
                miss = [r for r in EQW[k] if not any(set(r) <= x for x, _ in mine)]
                cx.req(not miss, f"equal/true/{k}", where,
                       f"{f.short} is true for {k} shapes without having compared {[' of '.join(r) for r in miss]}")
        elif t[0] == "c" and t[1] is False:
            neq = [unwrap_exit(a)[0] for a in atoms(t[2]) if unwrap_exit(a)[0][0] == "b"]
            last = [a for a in neq if a[1] in ("eq", "ne") and a[3] == (a[1] == "ne")]
            for a in last:
                note(cx, f, where, a, facts_)
            pos = [a for a in neq if a not in last]
            for a in pos:
                if a[1] in ("eq", "ne"):
                    # reached after a successful comparison: the comparison itself is positive elsewhere
                    pass
        elif t[0] == "b":
            if t[1] in ("all", "any", "?"):
                if t[1] == "any":
                    cx.bad("equal/any", where, f"{f.short} is true when any member is equal")
                continue
            if t[1] in ("eq", "ne"):
                if not cx.req(t[3] == (t[1] == "eq"), f"equal/polarity/{'|'.join(sorted(leafs(t)))}", where,
                              f"{f.short} is true when {gtext(t)}"):
                    continue
                note(cx, f, where, t, facts_)
            elif t[1] in ("contains_key",):
                continue
            else:
                cx.bad(f"equal/odd/{t[1]}", where, f"{f.short} depends on {gtext(t)}")
        elif t[0] == "tv":
            continue
        else:
            cx.bad("equal/unknown", where, f"part of the result of {f.short} is not understood")
    fs_all = [x for x, _ in facts_]
    n = 0
    cx.req(any(x == frozenset(["TopLevelShape.id"]) or x >= {"TopLevelShape.id"} for x in fs_all), "equal/id", where,
           f"{f.short} does not compare the identifiers")
    for k, rows in EQW.items():
        for r in rows:
            n += 1
            cx.req(any(set(r) <= x for x in fs_all), f"equal/{k}/{'+'.join(sorted(r))}", where,
                   f"{f.short} does not compare {' of '.join(sorted(r))} of {k} shapes")
        if k in ("Service", "Operation", "Resource"):
            # as a whole, or every field of it
            mine = [x for x, ln in facts_ if f"ShapeKind::{k}.0" in x and not ln]
            own = [{y for y in x if y.startswith(k + ".")} for x in mine]
            if all(own):
                for fl in field_index(cx, k):
                    cx.req(any(f"{k}.{fl}" in x for x in own + looked), f"equal/{k}/{k}.{fl}", where,
                           f"{f.short} does not compare the {fl} of {k} shapes")
    for k in ("Structure", "Union"):
        n += 1
        cx.req(any(ln and f"ShapeKind::{k}.0" in x and "StructureOrUnion.members" in x for x, ln in facts_) or
               sum(1 for x, ln in facts_ if f"ShapeKind::{k}.0" in x and ln) > 0, f"equal/{k}/count", where,
               f"{f.short} does not notice when the other {k} has more members")
    tr = [x for x in fs_all if x & {"TopLevelShape.traits", "MemberShape.traits"}]
    cx.req(not tr, "equal/traits", where, f"{f.short} compares traits")
    cx.floor("equalities", n, 18)


def leafs(t):
    return {x.rsplit(".", 1)[0] for x in atom_fields(t) if x.startswith("ShapeKind::")} or {"?"}


def note(cx, f, where, a, out):
    x, y = a[2]
    drop = {"TopLevelShape.body"}
    fx, fy = fields_bits(x) - drop, fields_bits(y) - drop
    if fx != fy:
        cx.bad(f"equal/crossed/{'|'.join(sorted(fx ^ fy))}", where,
               f"{f.short} compares {sorted(fx)} with {sorted(fy)}")
        return
    args = {l[1] for l in labset(x) if l[0] == "arg"}, {l[1] for l in labset(y) if l[0] == "arg"}
    if args[0] == args[1] and len(args[0]) == 1:
        cx.bad(f"equal/self/{'|'.join(sorted(fx))}", where, f"{f.short} compares a shape with itself")
        return
    out.append((frozenset(fx), ("len",) in labset(x) and ("len",) in labset(y)))


@prop("M04")
def m04(cx):
    db = cx.db
    cx.rule("Defining the same metadata key, trait or shape again: every outcome of the three operations (over MIR, with the "
            "guards of each outcome) is one of stored-first, ignored-because-equal, arrays joined stored-first, unresolved shape "
            "completed, or conflict reported; nothing stored is replaced.")
    n = kv_merge(cx, db.find("Model::add_metadata"), "Model.metadata", "key", "value", "metadata", None, False)
    for T in ("TopLevelShape", "MemberShape"):
        f = db.find(f"{T} as HasTraits::apply_with_value")
        n += kv_merge(cx, f, f"{T}.traits", "id", "value", f"traits/{T}", None, True)
    n += merge_shape(cx)
    n += merge_shape_terms(cx)
    merge_model(cx)
    shape_equal(cx)
    cx.floor("merge outcomes", n, 18)


def merge_model(cx):
    db = cx.db
    f = db.find("Model::merge")
    where = cx.fnat(f)
    ip = cx.interp(sink=lambda s: s.endswith(("Model::add_metadata", "Model::add_shape")),
                   opaque=lambda k, s: s.endswith(("::fmt", "Model::add_metadata", "Model::add_shape")))
    ret, evs, _ = ip.run(f)
    for nm, fld, argi, what in (("add_metadata", "Model.metadata", 2, "metadata"), ("add_shape", "Model.shapes", 1, "shapes")):
        es = [e for e in evs if e.name.endswith(nm) and fld in fields_of(e.args[argi]) and ("arg", "other") in labels(e.args[argi])]
        if not cx.req(es, f"merge/{what}", where, f"Model::merge does not take over the {what} of the other model"):
            continue
        for e in es:
            odd = []
            for a in e.atoms():
                b, ex = unwrap_exit(a)
                if ex is not None or (b[0] == "var" and b[1] in ("Option", "Result", "ControlFlow")):
                    continue
                if b[0] == "b" and has(b, "Model.smithy_version"):
                    continue
                odd.append(b)
            cx.req(not odd, f"merge/{what}/always", cx.at(e), f"the {what} are taken over only if {'; '.join(map(gtext, odd))}")
            lz = set().union(*[lossy(a) for a in e.args[1:]])
            cx.req(not lz and not any(filts(a) for a in e.args[1:]), f"merge/{what}/whole", cx.at(e), f"the {what} pass through {sorted(lz)}")
    e = [e for e in evs if e.name.endswith("add_metadata")]
    for x in e:
        cx.req(("mk",) in labels(x.args[1]), "merge/metadata/key", cx.at(x), "metadata is not taken over under its own key")
    ver = [t for t in ret.T if t[0] == "v" and t[2] == "Err" and any(has(unwrap_exit(a)[0], "Model.smithy_version") and
           unwrap_exit(a)[0][0] == "b" for a in atoms(t[3]))]
    good = [t for t in ver if any(unwrap_exit(a)[0][0] == "b" and unwrap_exit(a)[1] is None and
            (unwrap_exit(a)[0][1] == "eq") != unwrap_exit(a)[0][3] for a in atoms(t[3]))]
    cx.req(good, "merge/version", where, "models of different Smithy versions are merged")
    for nm in ("add_metadata", "add_shape"):
        prog = any(l[0] == "c" and l[1].endswith(nm) for l in labset(ret.AL) if isinstance(l, tuple)) or any(
            l[0] == "c" and l[1].endswith(nm) for t in ret.T if t[0] == "v" and t[2] == "Err"
            for a in atoms(t[3]) for l in atom_labs(unwrap_exit(a)[0]) if isinstance(l, tuple))
        cx.req(prog, f"merge/{nm}/error", where, f"Model::merge ignores the errors of {nm}")
