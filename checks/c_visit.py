"""M07: walking a model with a visitor."""
from core import *
from models import *
from checks.c_errors import error_flow
from checks.c_selector import opt

KINDS = {"Simple": "simple_shape", "List": "list", "Set": "set", "Map": "map", "Structure": "structure",
         "Union": "union", "Service": "service", "Operation": "operation", "Resource": "resource",
         "Unresolved": "unresolved_id"}
REFS = [("Service", "operations", "operations"), ("Service", "resources", "resources"),
        ("Operation", "input", "input"), ("Operation", "output", "output"), ("Operation", "errors", "errors")] + \
       [("Resource", n, n) for n in ("create", "put", "read", "update", "delete", "list", "operations", "resources")] + \
       [("Resource", "collection_operations", "collectionOperations")]
MEMBERS = [("List", "ListOrSet.member"), ("Set", "ListOrSet.member"), ("Map", "Map.key"), ("Map", "Map.value"),
           ("Structure", "StructureOrUnion.members"), ("Union", "StructureOrUnion.members")]


def walk_anchor(cx):
    fs = [f for f in cx.db.fns.values() if f.short.split("::")[-1] == "walk_model"]
    cx.floor("model walk", len(fs), 1)
    return fs[0]


def kind_of(v):
    return {l[1].split("::")[1].split(".")[0] for l in labels(v)
            if isinstance(l, tuple) and l[0] == "f" and l[1].startswith("ShapeKind::")}


@prop("M07", "interprocedural MIR provenance: model part -> visitor call of the same meaning, under all guards", "other")
def m07(cx):
    db = cx.db
    f = walk_anchor(cx)
    ip = cx.interp(sink=lambda s: s.startswith(("ModelVisitor::", "MemberVisitor::")),
                   opaque=lambda k, s: "as ModelVisitor::" in s or "as MemberVisitor::" in s,
                   override={"ModelVisitor::member_visitor": lambda ip, fr, st, avs, args, short: opt("visitor")})
    ret, evs, _ = ip.run(f)
    at = cx.fnat(f)
    cx.rule("Every call the walk makes on the visitor, found by interprocedural dataflow over MIR, is compared with the "
            "part of the model it must report: which part each argument is made of, that it arrives whole, and that "
            "nothing but the kind, the presence or the iteration of that part decides whether the call is made.")
    top = {"Model.shapes", "Model.metadata", "TopLevelShape.body"}

    def okatom(a, own):
        b, ex = unwrap_exit(a)
        if ex is not None and b[0] == "var" and b[1] in STDENUM:
            return True
        if b[0] == "var" and b[1] == "Option" and any(isinstance(l, tuple) and l == ("fld", "visitor")
                                                      for l in atom_labs(b)):
            return True
        return guard_ok(a, own | top) or implied(a, own)

    def guards(key, es, own, what):
        left = cover(cx, [(own, e.atoms()) for e in es], okatom, lambda n: variants(cx, n))
        cx.req(not left, f"{key}/always", cx.at(es[0]) if es else at,
               f"{what} only reported when {' and '.join(gtext(a) for a in left)}")

    def whole(key, e, v, what):
        bad = lossy(v)
        cx.req(not bad, f"{key}/whole", cx.at(e), f"{what} is handed over after {sorted(bad)}")

    def part(v):
        """fields of the model a value comes from, below the shape table"""
        return {x for x in fields_of(v)} - top - {"TopLevelShape.body"}

    # metadata
    md = [e for e in evs if e.name == "ModelVisitor::metadata"]
    cx.floor("metadata reported", len(md), 1)
    for e in md:
        k, v = e.args[1], e.args[2]
        cx.req("Model.metadata" in fields_of(k) and ("mk",) in labels(k) and ("mv",) not in labels(k),
               "walk/metadata/key", cx.at(e), "the key reported is not the metadata key")
        cx.req("Model.metadata" in fields_of(v) and ("mv",) in labels(v) and ("mk",) not in labels(v),
               "walk/metadata/value", cx.at(e), "the value reported is not the metadata value")
        whole("walk/metadata", e, v, "a metadata value")
    guards("walk/metadata", md, {"Model.metadata"}, "metadata are")

    # shapes
    n = 0
    for kind, meth in KINDS.items():
        mine = [e for e in evs if e.name == f"ModelVisitor::{meth}"]
        key = f"walk/shape/{kind}"
        hit = [e for e in mine if admits([a for a in e.atoms() if a[0] != "exit"], "ShapeKind", kind)]
        cx.req(hit, key, at, f"a {kind} shape is not reported as `{meth}`")
        for e in mine:
            n += 1
            others = [k for k in KINDS if k != kind and
                      admits([a for a in e.atoms() if a[0] != "exit"], "ShapeKind", k)]
            cx.req(not others, f"{key}/only", cx.at(e), f"`{meth}` is also called for {others}")
            cx.req(part(e.args[1]) == {"TopLevelShape.id"}, f"{key}/id", cx.at(e),
                   f"the id given to `{meth}` is {sorted(part(e.args[1]))}")
            cx.req(part(e.args[2]) == {"TopLevelShape.traits"}, f"{key}/traits", cx.at(e),
                   f"the traits given to `{meth}` are {sorted(part(e.args[2]))}")
            whole(key, e, e.args[1], "the id")
            whole(key, e, e.args[2], "the traits")
            if kind != "Unresolved":
                cx.req(kind_of(e.args[3]) == {kind}, f"{key}/body", cx.at(e),
                       f"the body given to `{meth}` is that of {sorted(kind_of(e.args[3]))}")
                whole(key, e, e.args[3], "the body")
        if mine:
            guards(key, mine, {"TopLevelShape.id", f"ShapeKind::{kind}.0"}, f"a {kind} shape is")
    cx.floor("shape calls", n, len(KINDS))
    # members
    mem = [e for e in evs if e.name == "MemberVisitor::member"]
    n = 0
    done = set()
    for kind, fld, text in [(k, f"{k}.{a}", b) for k, a, b in REFS] + [(k, x, None) for k, x in MEMBERS]:
        key = f"walk/member/{kind}/{fld}"
        mine = [e for e in mem if kind in kind_of(e.args[3]) and fld in fields_of(e.args[3])]
        cx.req(mine, key, at, f"what is in `{fld}` of a {kind} is not reported")
        for e in mine:
            n += 1
            done.add(id(e))
            _, sid, mid, target, traits = e.args
            own = fields_of(target)
            # a table of several references walked in one loop: the names must be just those of the references in it
            table = {b: x for a, x, b in ((k, f"{k}.{x}", b) for k, x, b in REFS) if a == kind and x in own}
            joint = text is not None and len(table) > 1 and strs(mid) == set(table) and not part(mid)
            want = {fld, f"ShapeKind::{kind}.0"} | (set(table.values()) if joint else set()) | ({"MemberShape.target"} if text is None else set())
            cx.req(part(sid) == {"TopLevelShape.id"}, f"{key}/shape", cx.at(e),
                   f"the shape reported for `{fld}` is {sorted(part(sid))}")
            cx.req(part(target) == want, f"{key}/target", cx.at(e),
                   f"the target reported is {sorted(part(target))}, not just `{fld}`")
            for what, v in (("the shape", sid), ("the member name", mid), ("the target", target), ("the traits", traits)):
                whole(key, e, v, what)
            if text is None:
                cx.req(part(mid) == (want - {"MemberShape.target"}) | {"MemberShape.id"} or
                       (fld == "StructureOrUnion.members" and ("mk",) in labels(mid)), f"{key}/name", cx.at(e),
                       f"the name reported for `{fld}` is {sorted(part(mid)) or sorted(strs(mid))}")
                cx.req(part(traits) == (want - {"MemberShape.target"}) | {"MemberShape.traits"}, f"{key}/traits",
                       cx.at(e), f"the traits reported for `{fld}` are {sorted(part(traits)) or 'none'}")
            else:
                cx.req(joint or (strs(mid) == {text} and not part(mid)), f"{key}/name", cx.at(e),
                       f"`{fld}` is reported as {sorted(strs(mid)) or sorted(part(mid))}, not as \"{text}\"")
                cx.req(not part(traits), f"{key}/traits", cx.at(e),
                       f"`{fld}` is reported with traits {sorted(part(traits))}")
        if mine:
            guards(key, mine, set.intersection(*[set(fields_of(e.args[3])) for e in mine]), f"`{fld}` of a {kind} is")
    cx.floor("member calls", n, len(REFS) + len(MEMBERS))
    for e in mem:
        cx.req(id(e) in done, f"walk/member/other", cx.at(e),
               f"something else is reported as a member: {sorted(part(e.args[3]))}")
    # the visitor's errors end the walk
    inner = {g.key for g in db.fns.values() if g.file == f.file and g.short.split(" ")[0] != "tests"
             and "as ModelVisitor" not in g.short and "as MemberVisitor" not in g.short}
    cx.counts["fallible calls"] = error_flow(cx, inner, "walk/error/")
