"""S..: the Smithy IDL representation."""
import json
import mir
import re

from core import *
from models import WRITES_OK

W_ROWS = [
    ("service version", ["version"], ["Service.version"]),
    ("service operations", ["operations"], ["Service.operations"]),
    ("service resources", ["resources"], ["Service.resources"]),
    ("service renames", ["rename"], ["Service.renames"]),
    ("operation input", ["input"], ["Operation.input"]),
    ("operation output", ["output"], ["Operation.output"]),
    ("operation errors", ["errors"], ["Operation.errors"]),
    ("resource identifiers", ["identifiers"], ["Resource.identifiers"]),
    ("resource create", ["create"], ["Resource.create"]),
    ("resource put", ["put"], ["Resource.put"]),
    ("resource read", ["read"], ["Resource.read"]),
    ("resource update", ["update"], ["Resource.update"]),
    ("resource delete", ["delete"], ["Resource.delete"]),
    ("resource list", ["list"], ["Resource.list"]),
    ("resource operations", ["operations"], ["Resource.operations"]),
    ("resource collection operations", ["collectionOperations"], ["Resource.collection_operations"]),
    ("resource resources", ["resources"], ["Resource.resources"]),
    ("list member", ["member"], ["MemberShape.target", "ListOrSet.member", "ShapeKind::List.0"]),
    ("set member", ["member"], ["MemberShape.target", "ListOrSet.member", "ShapeKind::Set.0"]),
    ("map key", ["key"], ["MemberShape.target", "Map.key"]),
    ("map value", ["value"], ["MemberShape.target", "Map.value"]),
    ("structure members", [":"], ["MemberShape.id", "MemberShape.target", "ShapeKind::Structure.0"]),
    ("union members", [":"], ["MemberShape.id", "MemberShape.target", "ShapeKind::Union.0"]),
    ("simple type", [], ["ShapeKind::Simple.0", "TopLevelShape.id"]),
    ("shape traits", ["@"], ["TopLevelShape.traits"]),
    ("list member traits", ["@"], ["MemberShape.traits", "ListOrSet.member", "ShapeKind::List.0"]),
    ("set member traits", ["@"], ["MemberShape.traits", "ListOrSet.member", "ShapeKind::Set.0"]),
    ("map key traits", ["@"], ["MemberShape.traits", "Map.key"]),
    ("map value traits", ["@"], ["MemberShape.traits", "Map.value"]),
    ("structure member traits", ["@"], ["MemberShape.traits", "ShapeKind::Structure.0"]),
    ("union member traits", ["@"], ["MemberShape.traits", "ShapeKind::Union.0"]),
    ("control version", ["$", "version"], ["Model.smithy_version"]),
    ("metadata", ["metadata", "="], ["Model.metadata"]),
    ("namespace", ["namespace"], ["SmithyWriter.namespace"]),
    ("use", ["use"], ["TopLevelShape.id"]),
    ("apply", ["apply"], ["TopLevelShape.id"]),
]
KIND_WORDS = {"List": "list", "Set": "set", "Map": "map", "Structure": "structure", "Union": "union",
              "Service": "service", "Operation": "operation", "Resource": "resource"}
W_UNIVERSE = {f for _, _, fs in W_ROWS for f in fs} - {"MemberShape.id", "MemberShape.traits", "MemberShape.target",
                                                      "TopLevelShape.id", "TopLevelShape.traits"}
TARGETS = {"Service.operations", "Service.resources", "Operation.input", "Operation.output", "Operation.errors",
           "Resource.identifiers", "Resource.create", "Resource.put", "Resource.read", "Resource.update",
           "Resource.delete", "Resource.list", "Resource.operations", "Resource.collection_operations",
           "Resource.resources", "MemberShape.target", "MemberShape.traits", "TopLevelShape.traits"}
VALUE_PLACES = {"metadata": {"Model.metadata"}, "shape trait": {"TopLevelShape.traits"},
                "list member trait": {"MemberShape.traits", "ShapeKind::List.0"},
                "set member trait": {"MemberShape.traits", "ShapeKind::Set.0"},
                "map key trait": {"MemberShape.traits", "Map.key"},
                "map value trait": {"MemberShape.traits", "Map.value"},
                "structure member trait": {"MemberShape.traits", "ShapeKind::Structure.0"},
                "union member trait": {"MemberShape.traits", "ShapeKind::Union.0"}}


def own_filter(a):
    """Filters of the shapes that the format itself asks for: one namespace, or the unresolved."""
    fs = atom_fields(a)
    if a[0] == "b" and a[1] == "eq" and a[3] and {"ShapeID.namespace"} <= fs and "SmithyWriter.namespace" in fs:
        return True
    return a[0] == "var" and a[1] == "ShapeKind" and a[2] == frozenset(["Unresolved"])


@prop("S01")
def s01(cx):
    db = cx.db
    f = db.find("SmithyWriter as ModelWriter::write")
    cx.rule("Every text written by the Smithy writer is traced (interprocedural dataflow over MIR) to the model fields "
            "it carries, the keywords next to it and the conditions it is written under: each field under its own "
            "keyword, whole, whenever present; each kind of value by its own syntax; foreign shapes by their full id.")
    ip = cx.interp(sink=is_write, override=WRITES_OK)
    ret, evs, _ = ip.run(f)

    def split_use(e):
        return has_word(parts_of(e), "use")
    uses = [e for e in evs if split_use(e)]
    rest = [e for e in evs if not split_use(e)]

    n = text_slots(cx, rest, [r for r in W_ROWS if r[0] not in ("use", "apply")], "smithy-writer", W_UNIVERSE,
                   filt_ok=own_filter, where=cx.fnat(f))
    cx.floor("texts matched to model fields", n, 30)
    # the keyword of each kind, with the name of the shape
    terms = []
    for e in rest:
        fs = text_fields(e)
        if not any(a[0] == "var" and a[1] == "ShapeKind" for a in e.atoms()):
            continue
        for w in set(KIND_WORDS.values()):
            if has_word(parts_of(e), w) and not any(x.startswith(k) for x in fs for k in ("Resource.", "Service.", "Operation.")):
                if "TopLevelShape.id" in fs or any("TopLevelShape.id" in text_fields(x) and near(e, x) for x in rest):
                    terms.append((w, e.atoms()))
    cx.floor("shape keywords", len({t[0] for t in terms}), 8)
    case_table(cx, terms, "ShapeKind", KIND_WORDS, "smithy-writer/keyword", cx.fnat(f))
    # use and apply
    text_slots(cx, uses, [r for r in W_ROWS if r[0] == "use"], "smithy-writer", (),
               filt_ok=lambda a: own_filter(a) or (a[0] == "b" and a[1] == "is_empty" and a[3]
                                                   and "TopLevelShape.traits" in atom_fields(a)), where=cx.fnat(f))
    ap = [e for e in rest if has_word(parts_of(e), "apply") and "TopLevelShape.id" in text_fields(e)]
    cx.req(ap, "smithy-writer/apply", cx.fnat(f), "no apply statement is ever written")
    left = cover(cx, [(text_fields(e) | {"TopLevelShape.traits", "TopLevelShape.body"}, e.atoms()) for e in ap],
                 lambda a, own: guard_ok(a, own | implied_fields(a, own)) or
                 (a[0] == "var" and a[1] == "ShapeKind" and a[2] == frozenset(["Unresolved"])),
                 lambda nm: variants(cx, nm)) if ap else []
    cx.req(not left, "smithy-writer/apply/always", cx.at(ap[0]) if ap else "", f"apply is written only if {'; '.join(map(gtext, left))}")
    # ---- values
    nv, astext = 0, 0
    for place, need in VALUE_PLACES.items():
        here = [e for e in evs]
        got = {}
        for e in here:
            fs = text_fields(e)
            gs = [a for a in e.atoms() if a[0] == "var" and a[1] == "Value" and (need & {"Model.metadata", "TopLevelShape.traits", "MemberShape.traits"}) <= atom_fields(a)
                  and (need - atom_fields(a)) <= set()]
            for a in gs[-1:]:
                for v in a[2]:
                    got.setdefault(v, []).append((e, fs, parts_of(e), len(a[2])))
        if not got:
            astext += 1
            # the value becomes a text of its own first: the text carries every kind of value
            txt = [e for e in here if any(x.startswith("Value::") for x in text_fields(e))
                   and need <= text_fields(e) | set().union(*[atom_fields(a) for a in e.atoms()])]
            for v in sorted(variants(cx, "Value") - {"None"}):
                nv += 1
                cx.req(any(f"Value::{v}.0" in text_fields(e) for e in txt), f"smithy-writer/value/{place}/{v}", cx.fnat(f),
                       f"a {v} in a {place} is not written as such")
            continue
        for v, test in (("Array", lambda e, fs, p: "[" in "".join(p)), ("Array", lambda e, fs, p: "]" in "".join(p)),
                        ("Object", lambda e, fs, p: "Value::Object.0" in fs and ":" in "".join(p)),
                        ("Number", lambda e, fs, p: "Value::Number.0" in fs),
                        ("Boolean", lambda e, fs, p: "Value::Boolean.0" in fs),
                        ("String", lambda e, fs, p: "Value::String.0" in fs and quoted(e)),
                        ("None", lambda e, fs, p: has_word(p, "null"))):
            xs_ = [e for e, fs, p, k in got.get(v, []) if k == 1 and test(e, fs, p)]
            left = cover(cx, [(text_fields(e) | set().union(*[atom_fields(a) for a in e.atoms() if a[0] == "var"]), e.atoms()) for e in xs_],
                         lambda a, own: guard_ok(a, own | implied_fields(a, own)) and not (a[0] == "var" and a[1] == "Number"),
                         lambda nm: variants(cx, nm)) if xs_ else []
            cx.req(not left, f"smithy-writer/value/{place}/{v}/always", cx.at(xs_[0]) if xs_ else "",
                   f"a {v} in a {place} is written as such only if {'; '.join(map(gtext, left))}")
            nv += bool(xs_)
            cx.req(xs_, f"smithy-writer/value/{place}/{v}", cx.fnat(f), f"a {v} in a {place} is not written as such")
            lz = set()
            for e in xs_:
                for q in e.args[1:]:
                    lz |= cut(q, (), own_filter)
            cx.req(not lz, f"smithy-writer/value/{place}/{v}/whole", cx.at(xs_[0]) if xs_ else "", f"it passes through {sorted(lz)}")
    cx.floor("value cases", nv, 30)
    # elements inside of arrays and objects
    for outer in () if astext else ("Array", "Object"):
        inner = set()
        for e in evs:
            for a in e.atoms():
                if a[0] == "var" and a[1] == "Value" and f"Value::{outer}.0" in atom_fields(a) and len(a[2]) == 1:
                    inner |= a[2]
        cx.req(inner >= variants(cx, "Value"), f"smithy-writer/value/inside {outer}", cx.fnat(f),
               f"values inside of an {outer} are not all written: {sorted(variants(cx, 'Value') - inner)}")
    # floats keep being floats
    fl = [e for e in evs if any(a[0] == "var" and a[1] == "Number" and a[2] == frozenset(["Float"]) for a in e.atoms())]
    cx.req(astext or fl and all(("fmt", "debug") in labels(e.args[1]) or "." in "".join(parts_of(e)) or any(
        isinstance(l, tuple) and l[0] == "x" for l in labels(e.args[1])) for e in fl if "Number::Float.0" in text_fields(e)),
        "smithy-writer/value/float", cx.fnat(f), "a float without a fraction is written as an integer")
    # what could end a string early does not
    st = [e for e in evs if "Value::String.0" in text_fields(e) and quoted(e)]
    cx.req(st and all(escapes(e) for e in st), "smithy-writer/value/string escaped", cx.at(st[0]) if st else cx.fnat(f),
           "a string value is written as it is, quotes and backslashes included")
    # text that must be quoted
    for name, fields in (("service version", {"Service.version"}), ("control version", {"Model.smithy_version"})):
        es = [e for e in rest if fields <= text_fields(e)]
        cx.req(all(quoted(e) for e in es), f"smithy-writer/{name}/quoted", cx.at(es[0]) if es else "", f"the {name} is not written in quotes")
    # ---- a shape of another namespace is named in full
    ip = cx.interp(sink=is_write, override=dict(WRITES_OK, **{"NamespaceID as PartialEq::eq": lambda *a: const_val(False),
                                                              "NamespaceID as PartialEq::ne": lambda *a: const_val(True)}))
    ret, evs2, _ = ip.run(f)
    nt = 0
    for e in evs2:
        fs = text_fields(e)
        for t in sorted(fs & TARGETS):
            if "TopLevelShape.id" in fs or any(x.startswith("Value::") for x in fs):
                continue
            nt += 1
            cx.req("ShapeID.shape_name" not in fs, f"smithy-writer/full id/{t}", cx.at(e),
                   f"`{t}` is written without its namespace although it is in another one")
    cx.floor("references written for another namespace", nt, 20)
    # an error of the sink is an error of the writer
    from checks.c_errors import error_flow
    keys = {k for k in ip.visited if k in db.fns and db.fns[k].file.endswith("atelier-smithy/src/writer.rs")}
    cx.floor("results of writing followed", error_flow(cx, keys, "smithy-writer/error of "), 10)


def escapes(e):
    ls = set().union(*[labels(v) for v in e.args[1:]])
    return ("fmt", "debug") in ls or any(isinstance(l, tuple) and (l[0] == "x" and any(
        w in l[1] for w in ("replace", "escape", "chars", "char_indices", "bytes")) or l[0] == "c" and "scape" in l[1]) for l in ls)


def quoted(e):
    return any(("fmt", "debug") in labels(v) for v in e.args[1:]) or '"' in "".join(parts_of(e))


# ------------------------------------------------------------------------------------------------ S02
SIMPLE_RULES = {"Blob": "type_blob", "Boolean": "type_boolean", "Document": "type_document", "String": "type_string",
                "Byte": "type_byte", "Short": "type_short", "Integer": "type_integer", "Long": "type_long",
                "Float": "type_float", "Double": "type_double", "BigInteger": "type_big_integer",
                "BigDecimal": "type_big_decimal", "Timestamp": "type_timestamp"}
STATEMENTS = {"simple_shape": "simple_shape_statement", "list": "list_statement", "set": "set_statement",
              "map": "map_statement", "structure": "structure_statement", "union": "union_statement",
              "service": "service_statement", "operation": "operation_statement", "resource": "resource_statement"}
R_ROWS = [
    ("ServiceBuilder.version", "version", "String"), ("ServiceBuilder.operations", "operations", "Array"),
    ("ServiceBuilder.resources", "resources", "Array"), ("ServiceBuilder.rename_shapes", "rename", "Object"),
    ("OperationBuilder.input", "input", "String"), ("OperationBuilder.output", "output", "String"),
    ("OperationBuilder.errors", "errors", "Array"),
    ("ResourceBuilder.identifiers", "identifiers", "Object"), ("ResourceBuilder.create", "create", "String"),
    ("ResourceBuilder.put", "put", "String"), ("ResourceBuilder.read", "read", "String"),
    ("ResourceBuilder.update", "update", "String"), ("ResourceBuilder.delete", "delete", "String"),
    ("ResourceBuilder.list", "list", "String"), ("ResourceBuilder.operations", "operations", "Array"),
    ("ResourceBuilder.collection_operations", "collectionOperations", "Array"),
    ("ResourceBuilder.resources", "resources", "Array"),
]
KEYWORDS = {k for _, k, _ in R_ROWS}
VALUE_RULES = {"kw_true": "Boolean", "kw_false": "Boolean", "kw_null": "None", "number": "Number", "shape_id": "String",
               "quoted_text": "String", "text_block": "String", "node_array": "Array", "node_object": "Object"}
INTS = re.compile(r'"int": "(\d+)"|\["(\d+)", \d+\]')
VALUE_TEXT = {"number": {"number"}, "shape_id": {"shape_id"}, "quoted_text": {"quoted_chars", "quoted_text"},
              "text_block": {"block_quoted_chars", "text_block"}}


STORES = {"HashMap::insert", "Vec::push", "BTreeMap::insert", "HashSet::insert", "Vec::extend", "HashMap::extend"}


def now_rules(ats):
    """The grammar rules known to hold of the parts of the source on the way here."""
    return [a[2] for a in ats if a[0] == "var" and a[1] == "Rule"]


def txts(v):
    return set().union(frozenset(), *[l[1] for l in labels(v) if isinstance(l, tuple) and l[0] == "txt"])


def keywords_at(ats, v):
    """The member names of a statement under which a value is used."""
    out = set()
    for a in ats:
        if a[0] == "b" and a[1] == "eq" and a[3] is True:
            ls = atom_labs(a)
            if ("f", "Value::Object.0") in ls or ("mk",) in ls:
                out |= {l[1] for l in ls if isinstance(l, tuple) and l[0] == "s"}
    return (out | strs(v)) & KEYWORDS


def smithy_reader(cx):
    from models import ID_PARSERS, parse_id
    from absint import mk, bit, E
    db = cx.db

    def as_str(ip, fr, st, avs, args, short):
        rs = [(r, ex) for r, ex in ((unwrap_exit(a)[0], unwrap_exit(a)[1]) for a in atoms(fr.curG))
              if r[0] == "var" and r[1] == "Rule" and len(r[2]) == 1]
        return mk(bit(("txt", frozenset(v for r, ex in rs for v in r[2]))))

    def tree(ip, fr, st, avs, args, short):
        return mk(0, E, (("Err", mk(0)), ("Ok", mk(bit(("tree",))))),
                  frozenset([("v", "Result", "Ok", 0), ("v", "Result", "Err", 0)]))
    f = db.find("SmithyReader as ModelReader::read")
    ip = cx.interp(sink=lambda s: s.startswith(("ModelBuilder::", "Model::")) or s in STORES, under=True,
                   fields=lambda n: n.split(".")[0].endswith("Builder"),
                   agg={"MapBuilder", "ListBuilder", "ServiceBuilder", "MemberBuilder", "TraitBuilder",
                        "SimpleShapeBuilder", "Value", "OperationBuilder", "ResourceBuilder", "StructureBuilder"},
                   opaque=lambda k, s: s.startswith("ModelBuilder::")
                   or s.startswith("ModelBuilder as") or s.startswith("Model as TryFrom"),
                   override=dict(ID_PARSERS, **{"SmithyParser as Parser::parse": tree, "Pair::as_str": as_str,
                                                "ShapeName as FromStr::from_str": parse_id}))
    ret, evs, _ = ip.run(f)
    return f, ip, ret, [e for e in evs if "as Clone::clone" not in db.short(e.fn)]


def in_parser(cx, e):
    return cx.db.fns[e.fn].file.startswith("atelier-smithy/") if e.fn in cx.db.fns else False


@prop("S02")
def s02(cx):
    f, ip, ret, evs = smithy_reader(cx)
    at = cx.fnat(f)
    cx.rule("Every store made while reading the Smithy form (interprocedural dataflow over MIR from the parse tree) is "
            "traced to the grammar rules whose text it carries and the rules and keywords it is made under: each "
            "statement makes its own kind of shape, each keyword fills its own part, each value rule makes its own "
            "kind of value, and nothing is dropped on the way without an error.")

    def soft(ats, own=()):
        """Conditions something is made under that are neither errors nor the shape of the source."""
        out = []
        for a in ats:
            if a[0] == "exit" or a[0] == "var" and a[1] in ("Rule", "Option", "Result", "ControlFlow", "Value"):
                continue
            if a[0] == "b" and a[1] in ("eq", "ne"):
                ls = atom_labs(a)
                ss = {l[1] for l in ls if isinstance(l, tuple) and l[0] == "s"}
                if ("f", "Value::Object.0") in ls and ss & KEYWORDS:
                    continue          # which part of the statement
                if ("txt", frozenset(["identifier"])) in ls and ss & {"key", "value", "member"}:
                    continue          # which member
            if presence(a):
                continue
            if a[0] == "b" and ("tree",) in atom_labs(a):
                continue
            if a[0] == "b" and a[1] == "eq" and ("len",) in atom_labs(a) and any(
                    r <= {"list_statement", "set_statement"} for r in now_rules(ats)):
                continue              # exactly one member, or an error
            out.append(a)
        return out

    # 1. statements
    calls = {}
    for e in evs:
        if e.kind == "call" and e.name.startswith("ModelBuilder::") and in_parser(cx, e):
            calls.setdefault(e.name.split("::")[1], []).append(e)
    for m, rule_ in STATEMENTS.items():
        es = calls.get(m, [])
        cx.req(es, f"smithy-reader/statement/{rule_}", at, f"no shape is ever made of a {rule_}")
        for e in es:
            ss = None
            for r in now_rules(e.atoms()):
                r = r & set(STATEMENTS.values())
                if r:
                    ss = r if ss is None else ss & r
            cx.req(ss is not None and ss == {rule_}, f"smithy-reader/statement/{rule_}/only", cx.at(e),
                   f"the shape made by `{m}` comes from {sorted(ss or [])}")
            sg = soft(e.atoms())
            cx.req(not sg, f"smithy-reader/statement/{rule_}/always", cx.at(e),
                   f"a {rule_} is dropped unless {'; '.join(map(gtext, sg))}")
    # 2. simple types
    terms = []
    for e in evs:
        if e.kind == "agg" and e.name == "SimpleShapeBuilder":
            for v in e.args:
                for t in v.T:
                    if t[0] == "v" and t[1] == "Simple":
                        rs = [r for r in now_rules(atoms(t[3])) if r & set(SIMPLE_RULES.values())]
                        terms.append((e, t[2], frozenset.intersection(*rs) if rs else frozenset()))
    for s, r in SIMPLE_RULES.items():
        mine = [x for x in terms if r in x[2] and len(x[2]) == 1]
        cx.req({x[1] for x in mine} == {s}, f"smithy-reader/simple/{r}", cx.at(mine[0][0]) if mine else at,
               f"a {r} makes {sorted({x[1] for x in mine})} instead of {s}")
    # 3. the parts of services, operations and resources
    for field, kw, _ in R_ROWS:
        ws = [(e, v) for e, v in writes_of(cx, evs, field) if ("f", "Value::Object.0") in labels(v)]
        cx.req(ws, f"smithy-reader/{field}", at, f"nothing read is ever stored in `{field}`")
        for e, v in ws:
            ks = keywords_at(e.atoms(), v)
            if e.kind == "agg" and kw != "version":
                continue
            cx.req(kw in ks, f"smithy-reader/{field}<-{kw}", cx.at(e),
                   f"`{field}` is filled from {sorted(ks)} instead of `{kw}`")
            sg = soft(e.atoms())
            cx.req(not sg, f"smithy-reader/{field}/always", cx.at(e),
                   f"what is read into `{field}` is dropped unless {'; '.join(map(gtext, sg))}")
            lz = lossy(v, {"str::strip_prefix", "str::strip_suffix"})
            cx.req(not lz, f"smithy-reader/{field}/whole", cx.at(e), f"what is read into `{field}` passes through {sorted(lz)}")
    # both parts of a pair are kept
    for field in ("ServiceBuilder.rename_shapes", "ResourceBuilder.identifiers"):
        for e, v in writes_of(cx, evs, field):
            k, x = v.get("0"), v.get("1")
            if ("f", "Value::Object.0") not in labels(v) or k is None or x is None:
                continue
            cx.req(("f", "Value::String.0") not in labels(k) and ("f", "Value::String.0") in labels(x),
                   f"smithy-reader/{field}/pair", cx.at(e), f"the entries of `{field}` do not map the name to the target")
    # 4. names
    for b in ("SimpleShapeBuilder", "ListBuilder", "MapBuilder", "StructureBuilder", "ServiceBuilder", "OperationBuilder",
              "ResourceBuilder"):
        ws = [(e, v) for e, v in writes_of(cx, evs, b + ".shape_name") if e.kind == "agg"]
        cx.req(ws, f"smithy-reader/name/{b}", at, f"no `{b}` is ever made")
        for e, v in ws:
            cx.req("identifier" in txts(v), f"smithy-reader/name/{b}", cx.at(e),
                   f"the name of the shape is made of {sorted(txts(v))} instead of the identifier")
    ms = [e for e in evs if e.kind == "agg" and e.name == "MemberBuilder"]
    fi = field_index(cx, "MemberBuilder")
    ms_ = [e for e in ms if fi and "identifier" in txts(e.args[fi["member_name"]])]
    cx.req(ms_, "smithy-reader/member", at, "no member is ever made with the name it has in the source")
    for e in ms_:
        cx.req("shape_id" in txts(e.args[fi["target"]]), "smithy-reader/member/target", cx.at(e),
               "the target of a member is not what the source names")
        cx.req("shape_id" not in txts(e.args[fi["member_name"]]) or "identifier" not in txts(e.args[fi["target"]]),
               "smithy-reader/member/mixed", cx.at(e), "the name and the target of a member are mixed up")
        sg = soft(e.atoms())
        cx.req(not sg, "smithy-reader/member/always", cx.at(e), f"a member is dropped unless {'; '.join(map(gtext, sg))}")
    for nm in ("StructureBuilder", "ListBuilder", "MapBuilder"):
        fs = {"StructureBuilder": ["members"], "ListBuilder": ["member"], "MapBuilder": ["key", "value"]}[nm]
        for x in fs:
            ws = [(e, v) for e, v in writes_of(cx, evs, f"{nm}.{x}") if "shape_id" in txts(v)]
            cx.req(ws, f"smithy-reader/members/{nm}.{x}", at, f"no member of the source ends up in `{nm}.{x}`")
            for e, v in ws:
                sg = soft(e.atoms())
                cx.req(not sg, f"smithy-reader/members/{nm}.{x}/always", cx.at(e),
                       f"a member is dropped unless {'; '.join(map(gtext, sg))}")
                if nm == "MapBuilder":
                    other = {"key": "value", "value": "key"}[x]
                    by = set().union(frozenset(), *[l[1] for l in labels(v) if isinstance(l, tuple) and l[0] == "under"])
                    cx.req(not (other in by | strs(v) and x not in by | strs(v)),
                           f"smithy-reader/members/{nm}.{x}/crossed", cx.at(e), f"the {other} of a map ends up as its {x}")
    # 5. traits
    ti = field_index(cx, "TraitBuilder")
    tr = [e for e in evs if e.kind == "agg" and e.name == "TraitBuilder" and "shape_id" in txts(e.args[ti["shape_id"]])]
    cx.req(tr, "smithy-reader/trait", at, "no trait is ever made")
    have = set().union(frozenset(), *[txts(e.args[ti["value"]]) for e in tr])
    for r, ts in VALUE_TEXT.items():
        cx.req(have & ts, f"smithy-reader/trait/value/{r}", at, f"the text of a {r} never reaches the value of a trait")
    cx.req({"identifier", "quoted_chars"} <= have or {"identifier", "quoted_text"} <= have,
           "smithy-reader/trait/members", at, "the names of a trait's members never reach its value")
    docs = [e for e in evs if e.kind == "field" and e.name.endswith(".applied_traits")]
    for rule_ in list(STATEMENTS.values()) + ["shape_member_kvp"]:
        mine = [e for e in docs if under(e, rule_)]
        for nm, want in (("documentation", "documentation_text"), ("traits", "shape_id")):
            xs_ = [e for e in mine if any(want in txts(v) for v in e.args)]
            cx.req(xs_, f"smithy-reader/{nm} of {rule_}", at, f"the {nm} of a {rule_} are dropped")
            for e in xs_:
                sg = soft(e.atoms())
                cx.req(not sg, f"smithy-reader/{nm} of {rule_}/always", cx.at(e),
                       f"the {nm} of a {rule_} are dropped unless {'; '.join(map(gtext, sg))}")
    whole = [(e, "trait", e.args[ti["value"]]) for e in tr] + [(e, "member", v) for e in ms_ for v in e.args] + \
            [(e, "trait", v) for e in docs for v in e.args]
    for m in ("try_apply", "apply", "apply_trait", "uses", "new", "meta_data_from", "meta_data"):
        whole += [(e, m, v) for e in calls.get(m, []) for v in e.args[1:]]
    for e, nm, v in whole:
        lz = lossy(v, {"str::strip_prefix", "str::strip_suffix", "str::trim_start", "str::trim_end", "str::trim"})
        cx.req(not lz, f"smithy-reader/{nm}/whole", cx.at(e), f"what is read passes through {sorted(lz)}")
    for nm, fs in (("ListBuilder", ["member"]), ("MapBuilder", ["key", "value"]), ("StructureBuilder", ["members"])):
        for x in fs:
            ws = [v for e, v in writes_of(cx, evs, f"{nm}.{x}")]
            cx.req(any({"number", "documentation_text"} <= txts(v) for v in ws), f"smithy-reader/member traits of {nm}.{x}", at,
                   f"the traits of the {x} of a {nm[:-7].lower()} are dropped")
    # 6. values
    for r, k in VALUE_RULES.items():
        es = [e for e in evs if e.kind == "agg" and e.name == f"Value::{k}" and in_parser(cx, e)
              and any(x == {r} for x in now_rules(e.atoms()))]
        cx.req(es, f"smithy-reader/value/{r}", at, f"no {k} is ever made of a {r}")
        if r in VALUE_TEXT and es:
            cx.req(any(txts(e.args[0]) & VALUE_TEXT[r] for e in es), f"smithy-reader/value/{r}/text", cx.at(es[0]),
                   f"the {k} made of a {r} does not carry its text")
        if r in ("kw_true", "kw_false") and es:
            want = r == "kw_true"
            cs = {c for e in es for c, _ in const_terms(e.args[0])}
            cx.req(want in cs or not cs, f"smithy-reader/value/{r}/which", cx.at(es[0]), f"{r} is read as {sorted(map(str, cs))}")
    for e in evs:
        if e.kind == "agg" and e.name == "Value::String" and in_parser(cx, e):
            w = txts(e.args[0]) & {"number", "kw_true", "kw_false", "kw_null"}
            cx.req(not w, "smithy-reader/value/String/text", cx.at(e), f"a {sorted(w)} is read as a string")
        if e.kind == "call" and e.name in STORES and in_parser(cx, e):
            sg = soft(e.atoms()) + [a for a in e.atoms() if a[0] == "var" and a[1] in ("Value", "Number")]
            cx.req(not sg, f"smithy-reader/kept/{cx.db.short(e.fn)}", cx.at(e),
                   f"what is read is kept only if {'; '.join(map(gtext, sg))}")
    # escapes and quotes are syntax, not content
    es = [e for e in evs if e.kind == "agg" and e.name == "Value::String" and in_parser(cx, e)
          and "quoted_chars" in txts(e.args[0])]
    cx.req(all(any(isinstance(l, tuple) and l[0] in ("x", "c") for l in labels(e.args[0])) for e in es),
           "smithy-reader/value/quoted_text/escapes", cx.at(es[0]) if es else at,
           "the escape sequences of a string stay in its value as they are written")
    es = [e for e in evs if e.kind == "agg" and e.name == "Value::Object" and in_parser(cx, e)
          and {"quoted_text", "quoted_chars"} & txts(e.args[0])
          and any(r == {"node_object"} for r in now_rules(e.atoms()))]
    cx.req(all("quoted_text" not in txts(e.args[0]) or any(isinstance(l, tuple) and l[0] in ("x", "c")
                                                           for l in labels(e.args[0])) for e in es),
           "smithy-reader/value/node_object/quoted names", cx.at(es[0]) if es else at,
           "the quotes around the name of a member stay in its name")
    # integers and floats
    nums = [e for e in evs if e.kind == "agg" and e.name == "Value::Number" and in_parser(cx, e)]
    cx.floor("statements, parts, members and values", sum(map(len, calls.values())) + len(R_ROWS) + len(tr) + len(nums), 30)
    for e in nums:
        cs = {l[1] for l in labels(e.args[0]) if isinstance(l, tuple) and l[0] == "cast"}
        cx.req(not cs, "smithy-reader/value/number/cast", cx.at(e), f"a number is cast to {sorted(map(str, cs))}")
    # what makes a number a float: a fraction, or an exponent of either case
    float_marks(cx, {e.fn for e in nums}, "smithy-reader/value/number/float marks", cx.at(nums[0]) if nums else at)
    for e in nums:
        cx.req("number" in txts(e.args[0]), "smithy-reader/value/number/text", cx.at(e), "a number is not made of the text of the number")
    # 7. apply, use, namespace, version, metadata
    for m, want in (("uses", "absolute_root_shape_id"), ("new", "namespace")):
        es = calls.get(m, [])
        cx.req(any(want in txts_args(e) for e in es), f"smithy-reader/{m}", at, f"the {want} of the source is dropped")
        for e in es:
            sg = soft(e.atoms())
            cx.req(not sg, f"smithy-reader/{m}/always", cx.at(e), f"it is dropped unless {'; '.join(map(gtext, sg))}")
    ap = [e for e in calls.get("try_apply", []) + calls.get("apply", []) + calls.get("apply_trait", [])]
    cx.req(any("shape_id" in txts_args(e) for e in ap), "smithy-reader/apply", at, "apply statements are dropped")
    for e in ap:
        sg = soft(e.atoms())
        cx.req(not sg, "smithy-reader/apply/always", cx.at(e), f"an apply statement is dropped unless {'; '.join(map(gtext, sg))}")
    vs = [e for e in evs if e.kind == "call" and e.name in ("ModelBuilder::new", "Model::new") and in_parser(cx, e)]
    for e in vs:
        vt = [t for v in e.args for t in v.T if t[0] == "v" and t[1] == "Version"]
        cx.req(any("version" in {l[1] for a in atoms(t[3]) for l in atom_labs(a) if isinstance(l, tuple) and l[0] == "s"} for t in vt)
               or "version" in set().union(*[strs(v) for v in e.args]),
               f"smithy-reader/version of {e.name}", cx.at(e), "the version of the model is not that of the source")
    for nm in ("ModelBuilder::meta_data_from|ModelBuilder::meta_data", "Model::add_metadata"):
        es = [e for e in evs if e.kind == "call" and e.name in nm.split("|") and in_parser(cx, e)]
        cx.req(es and all({"quoted_chars", "number"} & txts_args(e) for e in es), f"smithy-reader/metadata/{nm}", at,
               "metadata of the source is dropped")
        for e in es:
            sg = soft(e.atoms())
            cx.req(not sg, f"smithy-reader/metadata/{nm}/always", cx.at(e), f"metadata is dropped unless {'; '.join(map(gtext, sg))}")
    # 8. nothing of a wrong kind is skipped silently
    by = {}
    for e in evs:
        if not in_parser(cx, e):
            continue
        for a in e.atoms():
            b, ex = unwrap_exit(a)
            if b[0] == "var" and b[1] == "Value" and ("f", "Value::Object.0") in atom_labs(b):
                d = by.setdefault(b[3], [set(), None])
                d[0] |= variants(cx, "Value") if ex is not None else b[2]
                if ex is None:
                    d[1] = d[1] or e
    for L, (vs_, e) in by.items():
        cx.req(vs_ >= variants(cx, "Value"), "smithy-reader/no silent skip", cx.at(e) if e else at,
               f"a part that is {sorted(variants(cx, 'Value') - vs_)} is ignored without an error")
    from checks.c_errors import error_flow
    keys = {k for k in ip.visited if k in cx.db.fns and cx.db.fns[k].file.startswith("atelier-smithy/")}
    cx.floor("results of the reader followed", error_flow(cx, keys, "smithy-reader/error of "), 15)


def float_marks(cx, homes, key, where):
    """A fraction or an exponent, of either case, makes a number a float."""
    marks = {"46": "`.`", "101": "`e`", "69": "`E`"}
    home = {cx.db.short(k) for k in homes}
    seen = set()
    for k, fn in cx.db.fns.items():
        if any(cx.db.short(k) == h or cx.db.short(k).startswith(h + "::{closure") for h in home):
            js = json.dumps(fn.blocks)
            seen |= {x for t in INTS.findall(js) for x in t if x in marks}
            calls = {c.rsplit("::", 1)[-1] for _, c, _ in mir.calls(cx.db, fn)}
            if calls & {"to_lowercase", "to_ascii_lowercase", "to_uppercase", "to_ascii_uppercase", "eq_ignore_ascii_case"} \
                    and seen & {"101", "69"}:
                seen |= {"101", "69"}
    cx.req(not seen or seen == set(marks), key, where,
           f"only {sorted(marks[x] for x in seen)} make a number a float, not {sorted(marks[x] for x in set(marks) - seen)}")


def txts_args(e):
    return set().union(frozenset(), *[txts(v) for v in e.args[1:]], *[txts(v) for v in e.args[:1]])


def under(e, rule_):
    """Is it made under this rule (or a few rules handled together, of which it is one)?"""
    all_ = set(STATEMENTS.values()) | {"shape_member_kvp"}
    return any(rule_ in r and r <= all_ and len(r) <= 4 for r in now_rules(e.atoms()))
