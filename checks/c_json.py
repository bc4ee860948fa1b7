"""J..: the JSON AST representation."""
from core import *

JSON_ROWS = {
    "smithy": ["Model.smithy_version"], "metadata": ["Model.metadata"], "shapes": ["Model.shapes"],
    "member": ["ListOrSet.member"], "key": ["Map.key"], "value": ["Map.value"],
    "members": ["StructureOrUnion.members"],
    "version": ["Service.version"], "rename": ["Service.renames"], "type": ["ShapeKind::Simple.0"],
    "input": ["Operation.input"], "output": ["Operation.output"], "errors": ["Operation.errors"],
    "identifiers": ["Resource.identifiers"], "create": ["Resource.create"], "put": ["Resource.put"],
    "read": ["Resource.read"], "update": ["Resource.update"], "delete": ["Resource.delete"],
    "list": ["Resource.list"], "operations": ["Service.operations", "Resource.operations"],
    "collectionOperations": ["Resource.collection_operations"],
    "resources": ["Service.resources", "Resource.resources"],
    "traits": ["TopLevelShape.traits", "MemberShape.traits"],
    "target": ["MemberShape.target", "Operation.input", "Operation.output", "Operation.errors",
               "Resource.identifiers", "Resource.create", "Resource.put", "Resource.read", "Resource.update",
               "Resource.delete", "Resource.list", "Resource.operations", "Resource.collection_operations",
               "Resource.resources", "Service.operations", "Service.resources"],
}
SHAPE_TYPES = {"List": "list", "Set": "set", "Map": "map", "Structure": "structure", "Union": "union",
               "Service": "service", "Operation": "operation", "Resource": "resource", "Unresolved": "apply"}
SLOTS = {f for v in JSON_ROWS.values() for f in v} | {"TopLevelShape.id", "MemberShape.id"}


@prop("J01")
def j01(cx):
    db = cx.db
    f = db.find("writer::model_to_json", crate="atelier_json")
    ip = cx.interp(sink=lambda s: s in ("Map::insert",))
    ret, evs, heap = ip.run(f)
    cx.rule("Every write of a JSON object member made while turning a model into JSON is traced (interprocedural, "
            "field-sensitive dataflow over MIR) to the model field it carries and to the conditions it depends on; each "
            "member name must carry its own field, completely, under no condition except that content's presence.")
    n = slot_check(cx, evs, JSON_ROWS, 1, 2, "json-writer", universe=SLOTS)
    cx.floor("json member writes matched to model fields", n, 40)
    # the type of each shape
    terms = []
    for e in evs:
        if key_of(e.args[1]) == {"type"}:
            ct = const_terms(e.args[2])
            if ct is None:
                ct = [(s, []) for s in strs(e.args[2])]
            terms += [(c, list(a) + list(e.atoms())) for c, a in ct]
    cx.floor("`type` constants", len(terms), 9)
    case_table(cx, terms, "ShapeKind", SHAPE_TYPES, "json-writer/type", cx.fnat(f))


JSON_READ = {
    "Model.metadata": "metadata", "Model.shapes": "shapes",
    "TopLevelShape.traits": "traits", "MemberShape.traits": "traits", "MemberShape.target": "target",
    "ListOrSet.member": "member", "Map.key": "key", "Map.value": "value",
    "StructureOrUnion.members": "members",
    "Service.version": "version", "Service.operations": "operations", "Service.resources": "resources",
    "Service.renames": "rename",
    "Operation.input": "input", "Operation.output": "output", "Operation.errors": "errors",
    "Resource.identifiers": "identifiers", "Resource.create": "create", "Resource.put": "put",
    "Resource.read": "read", "Resource.update": "update", "Resource.delete": "delete", "Resource.list": "list",
    "Resource.operations": "operations", "Resource.collection_operations": "collectionOperations",
    "Resource.resources": "resources",
}
MODEL_T = S("Service Operation Resource MemberShape Model TopLevelShape ListOrSet Map StructureOrUnion")
NODE_TABLE = {"Null": "None", "Bool": "Boolean", "Number": "Number", "String": "String", "Array": "Array",
              "Object": "Object"}


def derived(cx, e):
    return "as Clone::clone" in cx.db.short(e.fn)


def eq_strings(ats, label):
    """Strings a value carrying `label` is compared equal to on the way here."""
    pos, xpos, neg = set(), set(), set()
    for a in ats:
        b, ex = unwrap_exit(a)
        if b[0] == "b" and b[1] == "eq":
            ls = atom_labs(b)
            if label in ls:
                ss = {l[1] for l in ls if isinstance(l, tuple) and l[0] == "s"}
                if b[3] is False:
                    if ex is None:
                        neg |= ss
                elif ex is None:
                    pos |= ss
                else:
                    xpos |= ss
    return pos or (xpos - neg)


@prop("J02")
def j02(cx):
    from models import JSON_GET, ID_PARSERS
    db = cx.db
    f = db.find("JsonReader as ModelReader::read")
    ip = cx.interp(sink=lambda s: s in ("HashMap::insert", "Vec::push"),
                   fields=lambda n: n.split(".")[0] in MODEL_T, agg=MODEL_T | {"ShapeKind", "Value", "Number"},
                   override=dict(JSON_GET, **ID_PARSERS))
    ret, evs, heap = ip.run(f)
    evs = [e for e in evs if not derived(cx, e)]
    cx.rule("Every store into a field of the model made while reading JSON (interprocedural dataflow over MIR from "
            "the parsed document) carries the content found under that field's own member name, is not reduced on "
            "the way, and is skipped only when the member is absent or ends in an error.")

    def atom_ok(b, own):
        g = atom_gets(b)
        if "type" in g and g <= {"type", "shapes"}:
            return True          # which kind of shape this is
        if b[0] in ("b", "var") and g and g <= own and b[0] == "var" and b[1] in ("Value", "Number"):
            return True
        # merge rules of the model itself (decided by M04)
        return bool({x for x in atom_fields(b)} & {"Model.metadata", "Model.shapes", "TopLevelShape.traits",
                                                   "MemberShape.traits", "ShapeID.member_name"})
    n = reader_check(cx, evs, JSON_READ, "json-reader", atom_ok=atom_ok)
    cx.floor("model fields filled from JSON", n, len(JSON_READ))
    # names: the map key is the identifier
    for field, need in (("TopLevelShape.id", "shapes"), ("MemberShape.id", "members")):
        ws = [(e, v) for e, v in writes_of(cx, evs, field)]
        cx.req(any(need in gets_of(v) and ("mk",) in labels(v) for e, v in ws), f"json-reader/{field}<-key of {need}",
               cx.fnat(f), f"no `{field}` is made from the member names of `{need}`")
    ids = {}
    for e, v in writes_of(cx, evs, "MemberShape.id"):
        t = field_index(cx, "MemberShape")["target"]
        if e.kind != "agg":
            continue
        g = gets_of(e.args[t])
        for slot in ("member", "key", "value"):
            if slot in g:
                ids.setdefault(slot, set()).update(strs(v))
    for slot in ("member", "key", "value"):
        cx.req(ids.get(slot) == {slot}, f"json-reader/member name of {slot}", cx.fnat(f),
               f"the member read from `{slot}` is named {sorted(ids.get(slot, []))}")
    # which kind
    for kind_, word in SHAPE_TYPES.items():
        aggs = [e for e in evs if e.kind == "agg" and e.name == f"ShapeKind::{kind_}"]
        words = set()
        for e in aggs:
            words |= eq_strings(e.atoms(), ("get", "type"))
        words &= set(SHAPE_TYPES.values())
        cx.req(words == {word}, f"json-reader/type/{kind_}", cx.at(aggs[0]) if aggs else cx.fnat(f),
               f"ShapeKind::{kind_} is built for type {sorted(words)} instead of `{word}`")
    # node values
    best = {}
    for e in evs:
        if e.kind != "agg" or not e.name.startswith("Value::"):
            continue
        ats = [a for a in e.atoms() if a[0] == "var" and a[1] == "serde_json:Value" and "metadata" in atom_gets(a)]
        if not ats:
            continue
        vs = [a[2] for a in ats]
        k = e.name.split("::")[1]
        # written straight from the document (not by the merge rules)
        if any("Model.metadata" in atom_fields(a) for a in e.atoms()):
            continue
        if k not in best or len(vs) < len(best[k][0]):
            best[k] = (vs, e)
    for src_, dst in NODE_TABLE.items():
        got = best.get(dst)
        if got is None:
            cx.bad(f"json-reader/node/{dst}", cx.fnat(f), f"no node value {dst} is ever made")
            continue
        vs = set(got[0]) - {frozenset(["Object"])} or {frozenset(["Object"])}
        cx.req(vs == {frozenset([src_])}, f"json-reader/node/{dst}", cx.at(got[1]),
               f"node value {dst} is made from JSON {sorted('|'.join(sorted(x)) for x in vs)} instead of {src_}")
    # the version
    vt = [t for e, v in writes_of(cx, evs, "Model.smithy_version") for t in v.T if t[0] == "v" and t[1] == "Version"]
    cx.floor("version terms", len(vt), 1)
    for t in vt:
        cx.req(eq_strings(atoms(t[3]), ("get", "smithy")), f"json-reader/version/{t[2]}", cx.fnat(f),
               f"version {t[2]} is not decided by the `smithy` member")
    # numbers are not cut
    nn = 0
    for e in evs:
        if e.kind == "agg" and e.name.startswith("Number::"):
            nn += 1
            cs = {l[1] for l in labels(e.args[0]) if isinstance(l, tuple) and l[0] == "cast"}
            cx.req(not cs, f"json-reader/number/{e.name}/cast {','.join(sorted(map(str, cs)))}", cx.at(e),
                   f"{e.name} is made through a cast to {sorted(map(str, cs))}, which can change the number")
    cx.floor("number constructions", nn, 2)
    # nothing of a wrong JSON type is silently skipped
    full = set(NODE_TABLE)
    by = {}
    for e in evs:
        for a in e.atoms():
            b, ex = unwrap_exit(a)
            if b[0] == "var" and b[1] == "serde_json:Value":
                d = by.setdefault(b[3], [set(), None])
                d[0] |= full if ex is not None else b[2]
                if ex is None:
                    d[1] = d[1] or e
    for L, (vs, e) in by.items():
        where = ".".join(sorted({l[1] for l in labset(L) if isinstance(l, tuple) and l[0] == "get"})) or "document"
        where += " (entries)" if ("mv",) in labset(L) else ""
        cx.req(vs >= full, f"json-reader/no silent skip/{where}", cx.at(e) if e else cx.fnat(f),
               f"a `{where}` that is JSON {sorted(full - vs)} is ignored without an error")
    cx.floor("JSON type tests", len(by), 15)
    # a part that cannot be read is an error, not skipped
    from checks.c_errors import error_flow
    keys = {k for k in ip.visited if k in db.fns and db.fns[k].file.startswith("atelier-json/")}
    cx.floor("results of the reader followed", error_flow(cx, keys, "json-reader/error of "), 15)
