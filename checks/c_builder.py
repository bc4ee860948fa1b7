"""M08-M10: the model builder."""
from core import *
from models import *

MODEL_ADTS = {"TopLevelShape", "MemberShape", "ListOrSet", "Map", "StructureOrUnion", "Service", "Operation", "Resource",
              "Model", "ShapeKind"}

RES = ["identifiers", "create", "put", "read", "update", "delete", "list", "operations", "collection_operations",
       "resources"]
TRANSFER = {
    "Model.smithy_version": "ModelBuilder.smithy_version",
    "Model.metadata": "ModelBuilder.metadata",
    "Service.version": "ServiceBuilder.version",
    "Service.operations": "ServiceBuilder.operations",
    "Service.resources": "ServiceBuilder.resources",
    "Service.renames": "ServiceBuilder.rename_shapes",
    "Operation.input": "OperationBuilder.input",
    "Operation.output": "OperationBuilder.output",
    "Operation.errors": "OperationBuilder.errors",
    "ListOrSet.member": "ListBuilder.member",
    "Map.key": "MapBuilder.key",
    "Map.value": "MapBuilder.value",
    "StructureOrUnion.members": "StructureBuilder.members",
    "MemberShape.id": "MemberBuilder.member_name",
    "MemberShape.target": "MemberBuilder.target",
    "MemberShape.traits": "MemberBuilder.applied_traits",
}
TRANSFER.update({f"Resource.{n}": f"ResourceBuilder.{n}" for n in RES})

# which references each builder holds (paths of fields)
REFS = [(("TopLevelShapeBuilder::List.0", "ListBuilder.member", "MemberBuilder.target"), "list member"),
        (("TopLevelShapeBuilder::Set.0", "ListBuilder.member", "MemberBuilder.target"), "set member"),
        (("TopLevelShapeBuilder::Map.0", "MapBuilder.key", "MemberBuilder.target"), "map key"),
        (("TopLevelShapeBuilder::Map.0", "MapBuilder.value", "MemberBuilder.target"), "map value"),
        (("TopLevelShapeBuilder::Structure.0", "StructureBuilder.members", "MemberBuilder.target"), "structure member"),
        (("TopLevelShapeBuilder::Union.0", "StructureBuilder.members", "MemberBuilder.target"), "union member"),
        (("ServiceBuilder.operations",), "service operation"), (("ServiceBuilder.resources",), "service resource"),
        (("OperationBuilder.input",), "operation input"), (("OperationBuilder.output",), "operation output"),
        (("OperationBuilder.errors",), "operation error"),
        (("TraitBuilder.shape_id", "StructureBuilder.applied_traits"), "structure trait"),
        (("TraitBuilder.shape_id", "MemberBuilder.applied_traits"), "member trait")]
REFS += [((f"ResourceBuilder.{n}",), f"resource {n}") for n in RES]
KINDS = {"SimpleShape": "Simple", "List": "List", "Set": "Set", "Map": "Map", "Structure": "Structure",
         "Union": "Union", "Service": "Service", "Operation": "Operation", "Resource": "Resource",
         "Reference": "Unresolved"}
BUILDER_OF = {"SimpleShape": "SimpleShapeBuilder", "List": "ListBuilder", "Set": "ListBuilder", "Map": "MapBuilder",
              "Structure": "StructureBuilder", "Union": "StructureBuilder", "Service": "ServiceBuilder",
              "Operation": "OperationBuilder", "Resource": "ResourceBuilder", "Reference": "ReferenceBuilder"}
MERGE = {"Model.metadata", "Model.shapes", "TopLevelShape.traits", "MemberShape.traits", "ShapeID.member_name"}


ADDS = {"insert", "push", "extend", "push_back", "entry", "append"}


def build_fn(cx):
    fs = [f for f in cx.db.fns.values() if f.short.startswith("Model as TryFrom::try_from")
          and f.crate.replace("-", "_").startswith("atelier_core")]
    ref = [f for f in fs if f.locals[1]["t"].get("k") == "ref"] if fs and isinstance(fs[0].locals[1], dict) else []
    return (ref or fs)[-1], fs


def resolver(cx):
    """The method that turns a possibly local name into a shape id (and says whether it is unknown)."""
    out = []
    for f in cx.db.fns.values():
        if f.self_adt and cx.db.adt_short(f.self_adt).endswith("ModelBuilder") and "{closure" not in f.short:
            t = str(f.locals[0])
            if "bool" in t and "ShapeID" in t and "tup" in t:
                out.append(f)
    return out[0] if len(out) == 1 else None


def through(v, adts):
    """variants of `TopLevelShapeBuilder` a value was taken out of"""
    return {l[1].split("::")[1].split(".")[0] for l in labels(v)
            if isinstance(l, tuple) and l[0] == "f" and l[1].startswith("TopLevelShapeBuilder::")}


def kept(a, own):
    b, ex = unwrap_exit(a)
    if ex is not None:
        return True
    if b[0] == "var" and b[1] in ("Option", "Result", "ControlFlow", "TopLevelShapeBuilder"):
        return True
    if b[0] == "b" and b[1].startswith("contains"):
        return True
    return presence(b)


@prop("M08", "interprocedural MIR provenance: builder field -> model slot, with name resolution", "other")
def m08(cx):
    db = cx.db
    f, fs = build_fn(cx)
    ip = cx.interp(agg=set(MODEL_ADTS), fields=lambda s: s.split(".")[0] in MODEL_ADTS,
                   )
    ret, evs, _ = ip.run(f)
    cx.rule("What a builder holds reaches the model slot of the same meaning, whole and whenever present, by "
            "interprocedural dataflow over MIR from the builder to every store into a model field; every name goes "
            "through the builder's name resolution and names it cannot find become unresolved shapes.")

    def atom_ok(b, own):
        if {x for x in atom_fields(b)} & MERGE:
            return True
        return False
    rs = resolver(cx)

    def resolved(flag):
        def model(ip_, fr, st, avs, args, short):
            as_ = {t[1] for a in avs[2:] for t in a.T if t[0] == "c" and isinstance(t[1], bool)}
            L = avs[1].AL
            for x in as_ if len(as_) == 1 else ():
                L |= bit(("astrait", x))
            pair = struct({"0": mk(L), "1": const_val(flag)})
            return mk(0, E, (("Err", mk(bit(("iderr",)))), ("Ok", pair)),
                      frozenset([("v", "Result", "Ok", 0), ("v", "Result", "Err", 0)]))
        ip_ = cx.interp(agg=set(MODEL_ADTS), fields=lambda s: s.split(".")[0] in MODEL_ADTS,
                        override={rs.short: model}, sink=lambda s: s.rsplit("::", 1)[-1] in ADDS and "Model" not in s)
        return ip_.run(f)[1]
    cut = resolved(True) if rs is not None else evs
    n = reader_check(cx, cut, TRANSFER, "builder", kind="f", atom_ok=atom_ok,
                     allow_lossy=() if rs is not None else ("Iterator::filter", "[T]::first", "Iterator::find"))
    cx.floor("model fields filled by the builder", n, len(TRANSFER))
    tops = [e for e in evs if e.kind == "agg" and e.name == "TopLevelShape"]
    ix = field_index(cx, "TopLevelShape")
    cx.floor("shapes made", len(tops), 8)
    for var, kind in KINDS.items():
        mine = [e for e in tops if var in through(e.args[ix["id"]], None)
                and {t[2] for t in e.args[ix["body"]].T if t[0] == "v" and t[1] == "ShapeKind"} == {kind}]
        name = BUILDER_OF[var]
        idf = f"{name}.shape_id" if var == "Reference" else f"{name}.shape_name"
        # every variant is built, as its own kind
        other = set()
        hit = []
        for e in tops:
            if f"{idf}" not in fields_of(e.args[ix["id"]]) or through(e.args[ix["id"]], None) - {var}:
                continue
            ks = {t[2] for t in e.args[ix["body"]].T if t[0] == "v" and t[1] == "ShapeKind"}
            if kind in ks:
                hit.append(e)
            other |= ks - {kind}
            if name == "StructureBuilder" or name == "ListBuilder" or len(ks) == 1:
                pass
        other -= {"Unresolved"}
        cx.req(hit, f"builder/kind/{var}", cx.fnat(f), f"nothing given to the builder as {var} becomes a {kind}")
        cx.req(not other, f"builder/kind/{var} not {','.join(sorted(other))}", cx.at(hit[0]) if hit else cx.fnat(f),
               f"a {var} given to the builder becomes {sorted(other)}")
        # traits applied to the builder are those of the shape
        if hit:
            cx.req(any(f"{name}.applied_traits" in fields_of(e.args[ix["traits"]]) for e in hit),
                   f"builder/traits/{var}", cx.at(hit[0]), f"traits applied to a {var} do not reach the shape")
    # payload of the simple shape
    sk = [e for e in evs if e.kind == "agg" and e.name == "ShapeKind::Simple"]
    cx.floor("simple types", len(sk), 1)
    for e in sk:
        v = e.args[0]
        terms = [(t[2], atoms(t[3])) for t in v.T if t[0] == "v" and t[1] == "Simple"]
        if "SimpleShapeBuilder.simple_shape" in fields_of(v) and not terms:
            cx.ok("builder/simple/moved", cx.at(e))
            continue
        about = {x for _, ats in terms for a in ats for x in atom_fields(a)}
        cx.req("SimpleShapeBuilder.simple_shape" in about | fields_of(v), "builder/simple", cx.at(e),
               "the simple type of the shape is not the one given to the builder")
        case_table(cx, terms, "Simple", {x: x for x in variants(cx, "Simple")}, "builder/simple", cx.at(e))
    # names are resolved
    REST = {"MemberShape.target", "Service.operations", "Service.resources", "Operation.input", "Operation.output",
            "Operation.errors"} | {f"Resource.{n}" for n in RES}
    k = 0
    for fld in sorted(REST):
        for e, v in writes_of(cx, evs, fld):
            if not (fields_of(v) & set(TRANSFER.get(fld, "").split())):
                continue
            k += 1
            cx.req("ModelBuilder.default_namespace" in fields_of(v), f"builder/resolved/{fld}", cx.at(e),
                   f"`{fld}` is filled with a name that was not resolved in the builder's namespace")
    cx.floor("resolved references", k, len(REST))
    if rs is not None:
        def kinds_of(v):
            return {l[1] for l in labels(v) if isinstance(l, tuple) and l[0] == "astrait"}
        for fld in sorted(REST):
            for e, v in writes_of(cx, cut, fld):
                if fields_of(v) & set(TRANSFER.get(fld, "").split()) and "TraitBuilder.shape_id" not in fields_of(v):
                    cx.req(True not in kinds_of(v), f"builder/resolved as shape/{fld}", cx.at(e),
                           f"`{fld}` is looked up among the traits of the prelude")
        for fld in ("TopLevelShape.traits", "MemberShape.traits"):
            for e, v in writes_of(cx, cut, fld):
                if e.kind == "agg" and "TraitBuilder.shape_id" in fields_of(v):
                    cx.req(False not in kinds_of(v), f"builder/resolved as trait/{fld}", cx.at(e),
                           f"the names in `{fld}` are looked up among the shapes of the prelude")
    # what cannot be found becomes unresolved
    if rs is not None:
        for flag in (True, False):
            evs2 = cut if flag else resolved(False)
            got = set()
            for e in evs2:
                if e.kind != "agg" or e.name != "TopLevelShape":
                    continue
                ks = {t[2] for t in e.args[ix["body"]].T if t[0] == "v" and t[1] == "ShapeKind"}
                if ks == {"Unresolved"} and flag and not any("ReferenceBuilder.shape_id" == x
                                                             for x in fields_of(e.args[ix["id"]])):
                    left = [a for a in e.atoms() if not kept(a, fields_of(e.args[ix["id"]]))]
                    cx.req(not left, "builder/unresolved/every one", cx.at(e),
                           f"an unresolved name does not become a shape unless {'; '.join(map(gtext, left))}")
                if ks == {"Unresolved"}:
                    got |= fields_of(e.args[ix["id"]])
            got -= {"ReferenceBuilder.shape_id"}
            if flag:
                adds = {}
                for e in evs2:
                    g = db.fns[e.fn]
                    if g.self_adt and db.adt_short(g.self_adt).rsplit("::", 1)[-1] in MODEL_ADTS:
                        continue        # the model's own containers
                    if e.kind == "call" and len(e.args) == 2:
                        fo = fields_of(e.args[1])
                        for path, what in REFS:
                            if set(path) <= fo:
                                adds.setdefault(what, []).append((fields_of(e.args[1]), e))
                for what, rows in adds.items():
                    left = cover(cx, [(own, e.atoms()) for own, e in rows], kept, lambda nm: variants(cx, nm))
                    cx.req(not left, f"builder/unresolved/{what}/always", cx.at(rows[0][1]),
                           f"a {what} whose name is not found is forgotten unless {'; '.join(map(gtext, left))}")
            for path, what in REFS:
                if flag:
                    cx.req(set(path) <= got, f"builder/unresolved/{what}", cx.fnat(f),
                           f"a {what} whose name is not found does not become an unresolved shape of the model")
                elif path[-1].split(".")[0] not in ("MemberBuilder", "TraitBuilder") and len(path) == 1:
                    cx.req(not (set(path) <= got), f"builder/resolved is not unresolved/{what}", cx.fnat(f),
                           f"a {what} whose name was found becomes an unresolved shape")
    # the by-value conversion is the same
    for g in fs:
        if g is f:
            continue
        ip3 = cx.interp(sink=lambda s: s == f.short, opaque=lambda k_, s: k_ == f.key)
        _, evs3, _ = ip3.run(g)
        cs = [e for e in evs3 if e.kind == "call"]
        cx.req(cs, "builder/by value", cx.fnat(g), "the by-value conversion does not use the builder's conversion")


def fact(a):
    """What a guard of the resolution tests: (fact, values it allows), or None."""
    b, _ = unwrap_exit(a)
    fs = atom_fields(b)
    ls = atom_labs(b)
    about_ref = any(isinstance(l, tuple) and l[0] == "filt" and "Reference" in str(l) for l in ls)
    text = {l[1] for l in ls if isinstance(l, tuple) and l[0] == "s"}
    if b[0] == "var" and b[1] == "ShapeName" and not about_ref:
        return ("kind", set(b[2]))
    if b[0] == "var" and b[1] == "Option" and "ShapeID.member_name" in fs and not about_ref:
        return ("member", {x == "Some" for x in b[2]})
    if b[0] == "int" and about_ref:
        out = set()
        for x in b[1]:
            if x.startswith("!"):
                out |= {"0", "1", "many"} - {("many" if y not in "01" else y) for y in x[1:].split(",")}
            else:
                out.add(x if x in ("0", "1") else "many")
        return ("refs", out)
    if b[0] == "b" and about_ref:
        if b[1] == "is_empty":
            return ("refs", {"0"} if b[3] else {"1", "many"})
        if b[1] in ("eq", "gt", "lt", "ge", "le") and ("len",) in ls and len(b[2]) == 2:
            sides = [sorted(labset(x), key=str) for x in b[2]]
            for i in (0, 1):
                if len(sides[i]) == 1 and sides[i][0][0] == "i":
                    k = sides[i][0][1]
                    op = b[1] if i == 1 else {"gt": "lt", "lt": "gt", "ge": "le", "le": "ge", "eq": "eq"}[b[1]]
                    f = {"eq": lambda n: n == k, "gt": lambda n: n > k, "lt": lambda n: n < k,
                         "ge": lambda n: n >= k, "le": lambda n: n <= k}[op]
                    # a test that cannot tell 2 from more is about "many" as a whole
                    vals = {}
                    for n in range(0, 6):
                        vals.setdefault("0" if n == 0 else "1" if n == 1 else "many", set()).add(f(n) == b[3])
                    return ("refs", {q for q, r in vals.items() if True in r})
        return None
    if b[0] == "b" and b[1].startswith("contains"):
        if "String" in text and "Blob" in text:
            return ("shape", {b[3]})
        if "documentation" in text:
            return ("trait", {b[3]})
        if "ModelBuilder.shapes" in fs:
            return ("own", {b[3]})
    if b[0] == "var" and b[1] == "Option" and "ModelBuilder.shapes" in fs and not about_ref:
        return ("own", {x == "Some" for x in b[2]})
    return None


def stands(ats, sc):
    """True/False/None: do the guards hold in this scenario (None: not known)."""
    known = True
    for a in ats:
        f = fact(a)
        if f is None or f[0] not in sc:
            b, _ = unwrap_exit(a)
            known = None if known else known
            continue
        if sc[f[0]] not in f[1]:
            return False
    return known


# the names of the prelude of Smithy 1.0 the crate knows (later additions may be added to them)
PRELUDE_SHAPES = set("""String Blob BigInteger BigDecimal Timestamp Document Boolean PrimitiveBoolean Byte PrimitiveByte Short
PrimitiveShort Integer PrimitiveInteger Long PrimitiveLong Float PrimitiveFloat Double PrimitiveDouble""".split())
PRELUDE_TRAITS = set("""xmlFlattened references StructurallyExclusive streaming requiresLength uniqueItems examples timestampFormat
httpError httpBasicAuth documentation httpQuery suppress since trait httpBearerAuth httpPayload httpApiKeyAuth
cors idRef unstable hostLabel NonEmptyString private title required recommended enum idempotencyToken tags
HttpApiKeyLocations optionalAuth xmlAttribute xmlName httpHeader authDefinition resourceIdentifier Example
mediaType httpChecksumRequired idempotent endpoint eventHeader sensitive TraitShapeIdList error EnumDefinition
protocolDefinition EnumConstantBodyName deprecated httpPrefixHeaders eventPayload noReplace http
externalDocumentation jsonName auth retryable httpDigestAuth range box TraitShapeId Reference
NonEmptyStringMap paginated NonEmptyStringList pattern readonly httpLabel AuthTraitReference xmlNamespace
length""".split())


@prop("M09", "decision table of name resolution extracted from MIR guards", "other")
def m09(cx):
    db = cx.db
    f = resolver(cx)
    if f is None:
        cx.bad("resolve/found", "atelier-core/src/builder", "no method of the model builder resolves shape names")
        return
    cx.rule("Every outcome of the builder's name resolution, with the guards it is reached under (interprocedural MIR "
            "dataflow, once for traits and once for shapes), is put against the resolution order: qualified as is, "
            "one use statement, own namespace, prelude, own namespace and unresolved; several uses and member names "
            "are errors.")
    pos = [i for i in range(1, f.argc + 1) if str(f.locals[i].get("s")) == "bool"]
    n = 0
    scen = []
    for m in (True, False):
        scen.append(({"kind": "Qualified", "member": m}, "err" if m else "asis", None if m else False))
    for refs in ("0", "1", "many"):
        for own in (True, False):
            for sh in (True, False):
                for tr in (True, False):
                    scen.append(({"kind": "Local", "refs": refs, "own": own, "shape": sh, "trait": tr}, None, None))
    for trait in (True, False):
        args = [src("self"), src("name")]
        args = [const_val(trait) if i in pos else src("self" if i == 1 else "name") for i in range(1, f.argc + 1)]
        ip = cx.interp(agg={"ShapeID"})
        ret, evs, _ = ip.run(f, args=args)
        ok = ret.get("Ok")
        errs = [atoms(t[3]) for t in ret.T if t[0] == "v" and t[2] == "Err"]
        news = [(t[1], atoms(t[2])) for t in ok.get("1").T if t[0] == "c"] if ok is not None and ok.get("1") is not None else []
        ix = field_index(cx, "ShapeID")
        names = []
        for e in evs:
            if e.kind == "agg" and e.name == "ShapeID":
                ns = e.args[ix["namespace"]]
                fs = fields_of(ns)
                ref = any(isinstance(l, tuple) and l[0] == "filt" and "Reference" in str(l) for l in labels(ns))
                how = "ref" if ref else "default" if "ModelBuilder.default_namespace" in fs else \
                    "asis" if "ShapeName::Qualified.0" in fs else "prelude" if "smithy.api" in strs(ns) else "?"
                names.append((how, e.atoms(), e))
                if how in ("default", "prelude"):
                    cx.req("ShapeName::Local.0" in fields_of(e.args[ix["shape_name"]])
                           and not strs(e.args[ix["shape_name"]]), f"resolve/{how} keeps the name", cx.at(e),
                           "the resolved id does not carry the name that was looked up")
                if how in ("default", "prelude", "ref"):
                    L = labels(e.args[ix["namespace"]])
                    cx.req(not strs(e.args[ix["namespace"]]) or how == "prelude", f"resolve/{how} namespace", cx.at(e),
                           "the resolved id has a made-up namespace")
        seen = []
        for e in evs:
            if e.kind == "agg" and e.name == "ShapeID" and "ModelBuilder.shapes" in fields_of(e.args[ix["namespace"]]):
                ats = list(filts(e.args[ix["namespace"]])) + [unwrap_exit(a)[0] for a in e.atoms()]
                seen.append(e)
                cx.req(any(a[0] == "var" and a[1] == "TopLevelShapeBuilder" and set(a[2]) == {"Reference"} for a in ats),
                       f"resolve/{trait}/use statements only", cx.at(e),
                       "a shape that is defined counts as one brought in by a use statement")
                cx.req(any(a[0] == "b" and a[1] == "eq" and a[3] and "ModelBuilder.shapes" in atom_fields(a)
                           and len(a[2]) == 2 for a in ats), f"resolve/{trait}/use of that name", cx.at(e),
                       "a use statement counts whatever the name it brings in")
        cx.floor("ids taken from use statements", len(seen), 1)
        cx.floor(f"outcomes when {'a trait' if trait else 'a shape'} is looked up", len(errs) + len(news), 6)
        for sc, want, new in scen:
            if sc["kind"] == "Local":
                if sc["refs"] == "many":
                    want, new = "err", None
                elif sc["refs"] == "1":
                    want, new = "ref", False
                elif sc["own"]:
                    want, new = "default", False
                elif sc["trait" if trait else "shape"]:
                    want, new = "prelude", False
                else:
                    want, new = "default", True
            n += 1
            sd = ",".join(f"{k}={v}" for k, v in sc.items())
            key = f"resolve/{'trait' if trait else 'shape'}/{sd}"
            may_err = any(stands(a, sc) is not False for a in errs)
            must_err = any(stands(a, sc) is True for a in errs)
            if want == "err":
                cx.req(may_err, key + "/error", cx.fnat(f), "this name is resolved where it must be refused")
                cx.req(not any(stands(a, sc) is True for _, a in news), key + "/refused", cx.fnat(f),
                       "this name is resolved where it must be refused")
                continue
            cx.req(not must_err, key + "/accepted", cx.fnat(f), "this name is refused")
            got = {h for h, a, e in names if stands(a, sc) is not False}
            sure = {h for h, a, e in names if stands(a, sc) is True}
            cx.req(want in got or not sure, key + "/name", cx.fnat(f),
                   f"this name becomes {sorted(sure)} instead of {want}")
            cx.req(not (sure - {want}), key + f"/only {want}", cx.fnat(f),
                   f"this name becomes {sorted(sure - {want})} instead of {want}")
            gn = {v for v, a in news if stands(a, sc) is not False}
            sn = {v for v, a in news if stands(a, sc) is True}
            cx.req(new in gn and not (sn - {new}), key + "/known", cx.fnat(f),
                   f"this name is taken as {'unknown' if not new else 'known'}")
    # the tables it looks names up in
    for fn, want, other, what in (("defined_prelude_shapes", PRELUDE_SHAPES, PRELUDE_TRAITS, "shape"),
                                  ("defined_prelude_traits", PRELUDE_TRAITS, PRELUDE_SHAPES, "trait")):
        for g in [g for g in db.fns.values() if g.short == f"prelude::{fn}"]:
            r, _, _ = cx.interp().run(g)
            have = strs(r)
            cx.floor(f"prelude {what}s", len(have), 15)
            cx.req(want <= have, f"resolve/prelude {what}s", cx.fnat(g),
                   f"the table of prelude {what}s lacks {sorted(want - have)}")
            cx.req(not (have & other), f"resolve/prelude {what}s only", cx.fnat(g),
                   f"the table of prelude {what}s holds {sorted(have & other)}")
            cx.req(not lossy(r), f"resolve/prelude {what}s whole", cx.fnat(g), f"the table is cut by {sorted(lossy(r))}")
    for g in [g for g in db.fns.values() if g.short == "prelude::prelude_namespace_id"]:
        r, _, _ = cx.interp().run(g)
        cx.req(strs(r) == {"smithy.api"}, "resolve/prelude namespace", cx.fnat(g),
               f"the prelude's namespace is {sorted(strs(r))}")
    cx.floor("scenarios", n, 50)


SIMPLE_FN = {"blob": "Blob", "boolean": "Boolean", "document": "Document", "string": "String", "byte": "Byte",
             "short": "Short", "integer": "Integer", "long": "Long", "float": "Float", "double": "Double",
             "big_integer": "BigInteger", "big_decimal": "BigDecimal", "timestamp": "Timestamp"}
# method -> (trait, kind of value, {key: argument} of a keyed value)
TRAIT_FN = {
    "boxed": ("box", "Object", {}), "deprecated": ("deprecated", "Object", {"message": 0, "since": 1}),
    "documentation": ("documentation", "String", 0), "error_source": ("error", "String", 0),
    "external_documentation": ("externalDocumentation", "Object", 0), "idempotent": ("idempotent", "Object", {}),
    "length": ("length", "Object", {"min": 0, "max": 1}), "length_max": ("length", "Object", {"max": 0}),
    "length_min": ("length", "Object", {"min": 0}), "no_replace": ("noReplace", "Object", {}),
    "paginated": ("paginated", "Object", {"inputToken": 0, "outputToken": 1, "items": 2, "pageSize": 3}),
    "pattern": ("pattern", "String", 0), "private": ("private", "Object", {}),
    "range": ("range", "Object", {"min": 0, "max": 1}), "range_max": ("range", "Object", {"max": 0}),
    "range_min": ("range", "Object", {"min": 0}), "readonly": ("readonly", "Object", {}),
    "references": ("references", None, 0), "required": ("required", "Object", {}),
    "requires_length": ("requiresLength", "Object", {}), "sensitive": ("sensitive", "Object", {}),
    "streaming": ("streaming", "Object", {}), "since": ("since", "String", 0), "tagged": ("tags", "Array", 0),
    "title": ("title", "String", 0), "a_trait": ("trait", None, {}), "unique_items": ("uniqueItems", "Object", {}),
    "unstable": ("unstable", None, {}),
}
BUILDERS = {"SimpleShapeBuilder", "ListBuilder", "MapBuilder", "StructureBuilder", "ServiceBuilder",
            "OperationBuilder", "ResourceBuilder", "ReferenceBuilder", "MemberBuilder"}
VALUE_FN = {"integer": ("Number", "Integer"), "float": ("Number", "Float"), "number": ("Number", None),
            "boolean": ("Boolean", None), "string": ("String", None), "reference": ("String", None),
            "array": ("Array", None), "object": ("Object", None)}
# (builder, method) -> {field: argument position}, how it is stored
SET, ADD = "set", "add"
SETTERS = {
    "ListBuilder::target": ({"ListBuilder.member": 1}, SET), "MapBuilder::key": ({"MapBuilder.key": 1}, SET),
    "MapBuilder::value": ({"MapBuilder.value": 1}, SET),
    "StructureBuilder::member": ({"StructureBuilder.members": (1, 2)}, ADD),
    "StructureBuilder::add_member": ({"StructureBuilder.members": 1}, ADD),
    "ServiceBuilder::version": ({"ServiceBuilder.version": 1}, SET),
    "ServiceBuilder::operation": ({"ServiceBuilder.operations": 1}, ADD),
    "ServiceBuilder::operations": ({"ServiceBuilder.operations": 1}, ADD),
    "ServiceBuilder::resource": ({"ServiceBuilder.resources": 1}, ADD),
    "ServiceBuilder::resources": ({"ServiceBuilder.resources": 1}, ADD),
    "ServiceBuilder::rename": ({"ServiceBuilder.rename_shapes": (1, 2)}, ADD),
    "OperationBuilder::input": ({"OperationBuilder.input": 1}, SET),
    "OperationBuilder::output": ({"OperationBuilder.output": 1}, SET),
    "OperationBuilder::error": ({"OperationBuilder.errors": 1}, ADD),
    "OperationBuilder::errors": ({"OperationBuilder.errors": 1}, ADD),
    "ResourceBuilder::identifier": ({"ResourceBuilder.identifiers": (1, 2)}, ADD),
    "ResourceBuilder::operation": ({"ResourceBuilder.operations": 1}, ADD),
    "ResourceBuilder::operations": ({"ResourceBuilder.operations": 1}, ADD),
    "ResourceBuilder::collection_operation": ({"ResourceBuilder.collection_operations": 1}, ADD),
    "ResourceBuilder::collection_operations": ({"ResourceBuilder.collection_operations": 1}, ADD),
    "ResourceBuilder::resource": ({"ResourceBuilder.resources": 1}, ADD),
    "ResourceBuilder::resources": ({"ResourceBuilder.resources": 1}, ADD),
    "ModelBuilder::meta_data": ({"ModelBuilder.metadata": (1, 2)}, ADD),
    "ModelBuilder::meta_data_from": ({"ModelBuilder.metadata": 1}, ADD),
    "ArrayBuilder::push": ({"ArrayBuilder.inner": 1}, ADD),
    "ObjectBuilder::insert": ({"ObjectBuilder.inner": (1, 2)}, ADD),
    "TraitBuilder::value": ({"TraitBuilder.value": 1}, SET),
}
SETTERS.update({f"ResourceBuilder::{n}": ({f"ResourceBuilder.{n}": 1}, SET)
                for n in ("create", "put", "read", "update", "delete", "list")})
NEWS = {
    "SimpleShapeBuilder::new": {"shape_name": 0, "simple_shape": 1},
    "ListBuilder::new": {"shape_name": 0, "member": 1}, "ListBuilder::with_target": {"shape_name": 0, "member": 1},
    "MapBuilder::new": {"shape_name": 0, "key": 1, "value": 2}, "StructureBuilder::new": {"shape_name": 0},
    "ServiceBuilder::new": {"shape_name": 0, "version": 1}, "OperationBuilder::new": {"shape_name": 0},
    "ResourceBuilder::new": {"shape_name": 0}, "ReferenceBuilder::new": {"shape_id": 0},
    "MemberBuilder::new": {"member_name": 0, "target": 1}, "MemberBuilder::with_target": {"member_name": 0, "target": 1},
    "TraitBuilder::new": {"shape_id": 0}, "TraitBuilder::annotation": {"shape_id": 0},
    "TraitBuilder::with_value": {"shape_id": 0, "value": 1},
    "ModelBuilder::new": {"smithy_version": 0, "default_namespace": 1},
}
FIXED_NAMES = {("ListBuilder::new", "member"): "member", ("ListBuilder::with_target", "member"): "member",
               ("MapBuilder::new", "key"): "key", ("MapBuilder::new", "value"): "value"}
MODEL_ADD = {"simple_shape": "SimpleShape", "list": "List", "set": "Set", "map": "Map", "structure": "Structure",
             "union": "Union", "service": "Service", "operation": "Operation", "resource": "Resource",
             "reference": "Reference", "uses": "Reference"}


def fn_named(cx, short):
    fs = [f for f in cx.db.fns.values() if f.short == short and f.file.startswith("atelier-core/")]
    return fs[0] if len(fs) == 1 else None


def argn(v):
    return {int(l[1][1:]) for l in labels(v) if isinstance(l, tuple) and l[0] == "arg" and l[1][:1] == "a"
            and l[1][1:].isdigit()}


def variant_terms(v, adt):
    return {t[2] for t in v.T if t[0] == "v" and t[1] == adt}


def some_of(v):
    x = v.get("Some")
    return x if x is not None else v


def run_named(cx, f, **k):
    """Run with arguments marked a0.. (what `self` points at stays unmarked)."""
    args = []
    for i in range(f.argc):
        l = f.locals[i + 1]
        t = l["t"]
        if l.get("n") == "self" and t.get("k") == "ref":
            args.append(None)
        else:
            args.append(src(f"a{i}"))
    k.setdefault("override", dict(ID_PARSERS))
    ip = cx.interp(**k)
    return ip.run(f, args=args)


@prop("M10", "MIR dataflow summaries of every builder method against the table of what its name promises", "other")
def m10(cx):
    db = cx.db
    cx.rule("Each method of the builders stores what its name says: the field it is named after receives the caller's "
            "argument (set or added to), the constructors of simple shapes, members, traits and values use the type, "
            "trait name, key and value form they are named after, and a shape handed to the model builder is kept "
            "under its own name as its own kind (interprocedural MIR dataflow per method).")
    adts = BUILDERS | {"TraitBuilder", "ModelBuilder", "ObjectBuilder", "ArrayBuilder", "ValueBuilder"}
    fl = lambda s: s.split(".")[0] in adts
    n = 0

    def want_fn(short):
        f = fn_named(cx, short)
        return f
    # simple shapes and members of simple types
    for m, X in SIMPLE_FN.items():
        f = want_fn(f"SimpleShapeBuilder::{m}")
        if f:
            n += 1
            ret, evs, _ = run_named(cx, f)
            v = ret.get("simple_shape")
            cx.req(v is not None and variant_terms(v, "Simple") == {X}, f"builder/{f.short}", cx.fnat(f),
                   f"`{m}` makes a {sorted(variant_terms(v, 'Simple')) if v is not None else '?'} shape")
            cx.req(0 in argn(ret.get("shape_name") or BOT), f"builder/{f.short}/name", cx.fnat(f),
                   "the shape does not carry the given name")
        for b, ai in (("StructureBuilder", 1), ("MemberBuilder", 0)):
            f = want_fn(f"{b}::{m}")
            if not f:
                continue
            n += 1
            ret, evs, _ = run_named(cx, f, fields=fl)
            v = ret if b == "MemberBuilder" else joins([e.args[0] for e in evs if e.kind == "field"
                                                        and e.name == "StructureBuilder.members"] or [BOT])
            tg, nm = v.get("target"), v.get("member_name")
            got = strs(tg) - {"smithy.api"} if tg is not None else set()
            cx.req(got == {X}, f"builder/{f.short}", cx.fnat(f), f"`{m}` makes a member of type {sorted(got)}")
            cx.req(nm is not None and ai in argn(nm), f"builder/{f.short}/name", cx.fnat(f),
                   "the member does not carry the given name")
    cx.floor("simple shapes and members", n, 35)
    # traits
    n = 0
    for m, (name, form, keys) in TRAIT_FN.items():
        cands = [f for f in db.fns.values() if f.file.startswith("atelier-core/src/builder/")
                 and f.short.rsplit("::", 1)[-1] == m and not f.short.startswith(("ModelBuilder", "ValueBuilder",
                                                                                "ArrayBuilder", "ObjectBuilder"))]
        for f in cands:
            off = 0
            if f.argc and f.locals[1].get("n") == "self":
                off = 1
            ret, evs, _ = run_named(cx, f, agg={"TraitBuilder"}, fields=fl)
            tb = [e for e in evs if e.kind == "agg" and e.name == "TraitBuilder"]
            if not tb:
                if off == 0:
                    cx.bad(f"builder/trait/{m}", cx.fnat(f), "no trait is made")
                continue
            ix = field_index(cx, "TraitBuilder")
            n += 1
            key = f"builder/trait/{f.short}"
            e = tb[0]
            sid, val = e.args[ix["shape_id"]], e.args[ix["value"]]
            got = strs(sid) - {"smithy.api", "#"}
            cx.req(got == {name}, key, cx.fnat(f), f"`{m}` makes the trait {sorted(got)} instead of `{name}`")
            if isinstance(keys, int) or keys:
                want = {keys} if isinstance(keys, int) else set(keys.values())
                have = {a - off for a in argn(val)}
                cx.req(want <= have, key + "/value", cx.fnat(f),
                       f"the value of the trait does not carry argument {sorted(want - have)}")
            if form:
                vt = variant_terms(some_of(val), "Value")
                cx.req(vt <= {form} and (vt or val.AL), key + "/form", cx.fnat(f),
                       f"the value of the trait is {sorted(vt)} instead of {form}")
                cx.req(not [t for t in val.T if t[:3] == ("v", "Option", "None")] or not form, key + "/some", cx.fnat(f),
                       "the trait has no value")
            if isinstance(keys, dict) and keys:
                ks = {}
                for x in evs:
                    if x.kind == "field" and x.name == "ObjectBuilder.inner":
                        k_, v_ = x.args[0].get("0"), x.args[0].get("1")
                        if k_ is None or v_ is None:
                            continue
                        for s in strs(k_):
                            ks.setdefault(s, set()).update(a - off for a in argn(v_))
                            if s in keys and f.key == x.fn or s in keys and off == 0:
                                # whether the key is written is up to its own argument alone
                                for a in x.atoms():
                                    b, ex = unwrap_exit(a)
                                    oth = {int(l[1][1:]) - off for l in atom_labs(b) if isinstance(l, tuple)
                                           and l[0] == "arg" and l[1][1:].isdigit()} - {keys[s]}
                                    if oth and not ex:
                                        cx.bad(key + f"/key {s}/when", cx.at(x),
                                               f"`{s}` is only written if {gtext(a)[:80]}")
                if ks:
                    cx.req(set(ks) == set(keys), key + "/keys", cx.fnat(f),
                           f"the value has the keys {sorted(ks)} instead of {sorted(keys)}")
                    for s, a in keys.items():
                        if s in ks:
                            cx.req(ks[s] == {a}, key + f"/key {s}", cx.fnat(f), f"`{s}` is filled from argument {sorted(ks[s])}")
            if off:
                st = [x for x in evs if x.kind == "field" and x.name.endswith(".applied_traits")]
                own = db.adt_short(f.self_adt).rsplit("::", 1)[-1] if f.self_adt else None
                if own in BUILDERS:
                    cx.req(any(x.name == f"{own}.applied_traits" for x in st), key + "/kept", cx.fnat(f),
                           "the trait is not kept among the traits of the shape")
                elif own is None:
                    left = BUILDERS - {x.name.split(".")[0] for x in st}
                    cx.req(not left, key + "/kept", cx.fnat(f), f"the trait is not kept by {sorted(left)}")
    cx.floor("trait methods", n, 45)
    # error sources
    f = next((f for f in db.fns.values() if db.short(f.key) == "ErrorSource as Display::fmt"), None)
    if f is not None:
        terms = display_terms(cx, f)
        case_table(cx, terms, "ErrorSource", {"Client": "client", "Server": "server"}, "builder/error source", cx.fnat(f))
    # setters
    n = 0
    for short, (flds, how) in SETTERS.items():
        f = want_fn(short)
        if f is None:
            continue
        n += 1
        ret, evs, _ = run_named(cx, f, fields=lambda s: fl(s) and not s.endswith("applied_traits"))
        own = short.split("::")[0]
        ws = [e for e in evs if e.kind == "field" and e.name.startswith(own + ".")]
        for fld, a in flds.items():
            mine = [e for e in ws if e.name == fld]
            want = {a} if isinstance(a, int) else set(a)
            got = set().union(*[argn(e.args[0]) for e in mine] or [set()])
            cx.req(want <= got, f"builder/set/{short}", cx.fnat(f), f"`{fld}` does not receive what is given to `{short}`")
            for e in mine:
                if not isinstance(a, int):
                    k_, v_ = e.args[0].get("0"), e.args[0].get("1")
                    if k_ is not None and v_ is not None and e.args[0].get("member_name") is None:
                        cx.req(argn(k_) == {a[0]} and argn(v_) == {a[1]}, f"builder/set/{short}/pair", cx.at(e),
                               "key and value are exchanged")
                    nm, tg = e.args[0].get("member_name"), e.args[0].get("target")
                    if nm is not None and tg is not None:
                        cx.req(argn(nm) == {a[0]} and argn(tg) == {a[1]}, f"builder/set/{short}/pair", cx.at(e),
                               "name and target are exchanged")
                left = [x for x in e.atoms() if not kept(x, set())
                        or atom_fields(x) and unwrap_exit(x)[1] is None and unwrap_exit(x)[0][0] == "b"]
                cx.req(not left, f"builder/set/{short}/always", cx.at(e),
                       f"`{fld}` is only stored if {'; '.join(map(gtext, left))}")
                cx.req(not lossy(e.args[0]), f"builder/set/{short}/whole", cx.at(e),
                       f"what is given passes through {sorted(lossy(e.args[0]))}")
                if how == ADD:
                    cx.req(e.dest != "assign", f"builder/set/{short}/added", cx.at(e),
                           f"`{short}` replaces what was added before")
                if how == SET and "Option" not in str(fld):
                    t = e.args[0].T
                    cx.req(not [x for x in t if x[:3] == ("v", "Option", "None")], f"builder/set/{short}/some", cx.at(e),
                           f"`{fld}` is left empty")
        other = {e.name for e in ws} - set(flds)
        cx.req(not other, f"builder/set/{short}/only", cx.fnat(f), f"`{short}` also writes {sorted(other)}")
    cx.floor("setters", n, 25)
    # constructors
    n = 0
    for short, slots in NEWS.items():
        f = want_fn(short)
        if f is None:
            continue
        n += 1
        ret, evs, _ = run_named(cx, f)
        for slot, a in slots.items():
            v = ret.get(slot)
            cx.req(v is not None and a in argn(v), f"builder/new/{short}/{slot}", cx.fnat(f),
                   f"`{slot}` is not what is given to `{short}`")
            if v is not None:
                cx.req(argn(v) <= {a}, f"builder/new/{short}/{slot}/only", cx.fnat(f), f"`{slot}` mixes arguments")
                want = FIXED_NAMES.get((short, slot))
                nm = v.get("member_name")
                if want and nm is not None:
                    cx.req(strs(nm) == {want}, f"builder/new/{short}/{slot}/named", cx.fnat(f),
                           f"the member is named {sorted(strs(nm))}")
    cx.floor("constructors", n, 12)
    # shapes handed to the model builder
    n = 0
    for m, var in MODEL_ADD.items():
        f = want_fn(f"ModelBuilder::{m}")
        if f is None:
            continue
        n += 1
        ret, evs, _ = run_named(cx, f, fields=lambda s: s == "ModelBuilder.shapes")
        ws = [e for e in evs if e.kind == "field" and e.args[0].get("0") is not None and e.args[0].get("1") is not None]
        got = set()
        for e in ws:
            k_, v_ = e.args[0].get("0"), e.args[0].get("1")
            got |= variant_terms(v_, "TopLevelShapeBuilder")
            want = "shape_id" if var == "Reference" else "shape_name"
            nm = {x.split(".")[1] for x in fields_of(k_) if x.split(".")[0] in BUILDERS}
            cx.req(nm == {want} and 1 in argn(k_), f"builder/model/{m}/key", cx.at(e),
                   "the shape is not kept under its own name")
        cx.req(got == {var}, f"builder/model/{m}", cx.fnat(f), f"what is given to `{m}` is kept as {sorted(got)}")
    cx.floor("kinds of shapes handed over", n, 9)
    # a trait applied by name
    f = want_fn("ModelBuilder::apply")
    if f:
        ret, evs, _ = run_named(cx, f, fields=lambda s: s.endswith(".applied_traits"), outer=True)
        got, whole = set(), set()
        for e in evs:
            if e.kind == "field" and 2 in argn(e.args[0]):
                steps = e.name.split("/")
                got.add(steps[-1].split(".")[0])
                if len(steps) > 1 and steps[-2].startswith("TopLevelShapeBuilder::"):
                    whole.add(steps[-2].split("::")[1].split(".")[0])
        for kd in sorted(set(MODEL_ADD.values())):
            cx.req(kd in whole, f"builder/apply/a {kd}", cx.fnat(f),
                   f"a trait applied by name never reaches a {kd} itself")
        cx.req(BUILDERS <= got, "builder/apply/everywhere", cx.fnat(f),
               f"a trait applied by name never reaches {sorted(BUILDERS - got)}")
        inner = {"MapBuilder.key", "MapBuilder.value", "ListBuilder.member", "StructureBuilder.members"}
        ret, evs, _ = run_named(cx, f, fields=lambda s: s == "MemberBuilder.applied_traits", outer=True)
        seen, kinds = {}, set()
        for e in evs:
            if e.kind == "field" and 2 in argn(e.args[0]):
                ss = set()
                for a in e.atoms():
                    b, ex = unwrap_exit(a)
                    if b[0] == "b" and b[1] == "eq" and b[3]:
                        ss |= {l[1] for l in atom_labs(b) if isinstance(l, tuple) and l[0] == "s"}
                steps = e.name.split("/")
                kinds |= {x.split("::")[1].split(".")[0] for x in steps if x.startswith("TopLevelShapeBuilder::")}
                for o in inner & set(steps):
                    seen.setdefault(o, set()).update(ss & {"key", "value", "member"})
        for kd in ("List", "Set", "Map", "Structure", "Union"):
            cx.req(kd in kinds, f"builder/apply/member of {kd}", cx.fnat(f),
                   f"a trait applied by name never reaches a member of a {kd}")
        for fld in sorted(inner):
            cx.req(fld in seen, f"builder/apply/{fld}", cx.fnat(f), f"a trait applied by name never reaches `{fld}`")
            w = fld.split(".")[1]
            if w != "members" and seen.get(fld):
                cx.req(seen[fld] == {w}, f"builder/apply/{fld}/name", cx.fnat(f),
                       f"`{fld}` receives the traits applied to {sorted(seen[fld])}")
    # values
    n = 0
    for b in ("ArrayBuilder", "ObjectBuilder", "ValueBuilder", "TraitBuilder"):
        for m, (vv, nn) in VALUE_FN.items():
            f = want_fn(f"{b}::{m}")
            if f is None or (b == "ValueBuilder" and m in ("array", "object")):
                continue
            n += 1
            ret, evs, _ = run_named(cx, f, fields=fl, agg={"Value"})
            last = f.argc - 1
            if b == "ValueBuilder":
                v = ret.get("inner")
            else:
                slot = "TraitBuilder.value" if b == "TraitBuilder" else f"{b}.inner"
                ws = [e for e in evs if e.kind == "field" and e.name == slot]
                v = joins([e.args[0] for e in ws] or [BOT])
                if b == "ObjectBuilder":
                    k_ = v.get("0")
                    cx.req(k_ is not None and argn(k_) == {1}, f"builder/value/{f.short}/key", cx.fnat(f),
                           "the value is not kept under the given key")
                    v = v.get("1") or BOT
                if b == "TraitBuilder":
                    cx.req(not [t for t in v.T if t[:3] == ("v", "Option", "None")], f"builder/value/{f.short}/some",
                           cx.fnat(f), "the trait is left without a value")
                    v = some_of(v)
            v = v if v is not None else BOT
            vt = variant_terms(v, "Value")
            cx.req(vt == {vv}, f"builder/value/{f.short}", cx.fnat(f), f"`{m}` makes a {sorted(vt)} value")
            cx.req(last in argn(v), f"builder/value/{f.short}/content", cx.fnat(f), "the given value is not kept")
            cs = {l[1] for l in labels(v) if isinstance(l, tuple) and l[0] == "cast"}
            cx.req(not cs and not lossy(v), f"builder/value/{f.short}/whole", cx.fnat(f),
                   f"the value passes through {sorted(map(str, cs | lossy(v)))}")
            if nn:
                x = v.get("Number.0")
                nt = variant_terms(x, "Number") if x is not None else set()
                cx.req(nt == {nn}, f"builder/value/{f.short}/number", cx.fnat(f), f"`{m}` makes a {sorted(nt)} number")
    cx.floor("value methods", n, 18)
