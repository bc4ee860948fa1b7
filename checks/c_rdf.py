"""R01, R02: the RDF form of a model, the URN form of a shape id."""
from core import *
from models import *
from mir import operand_local, char_predicate
from checks.c_errors import error_flow
from checks.c_selector import fld, opt, rec, src

KINDS = ("Simple", "List", "Set", "Map", "Structure", "Union", "Service", "Operation", "Resource")
METHOD = {"Simple": "simple_shape", "List": "list", "Set": "set", "Map": "map", "Structure": "structure",
          "Union": "union", "Service": "service", "Operation": "operation", "Resource": "resource"}
TYPE = "rdf:type"
MEMBERS = {"List": ["ListOrSet.member"], "Set": ["ListOrSet.member"], "Map": ["Map.key", "Map.value"],
           "Structure": ["StructureOrUnion.members"], "Union": ["StructureOrUnion.members"]}
REFS = {"Service": {"operations": "operation", "resources": "resource"},
        "Operation": {"input": "input", "output": "output", "errors": "error"},
        "Resource": {**{n: n for n in ("create", "put", "read", "update", "delete", "list")},
                     "operations": "operation", "collection_operations": "collectionOperation",
                     "resources": "resource"}}
TOP = {"Model.shapes", "Model.metadata", "TopLevelShape.body", "RdfModelVisitor.graph", "RdfModelVisitor.model_subject"}
VALUE = "&atelier_core::model::values::Value"


def strings_in(f):
    out = []

    def w(y):
        if isinstance(y, dict):
            if "str" in y:
                out.append(y["str"])
            for z in y.values():
                w(z)
        elif isinstance(y, (list, tuple)):
            for z in y:
                w(z)
    for b in f.blocks:
        if not b.get("u"):
            w(b["s"])
            w(b["t"])
    return out


def keep(i, *tags):
    """The result is argument i, tagged."""
    def m(ip, fr, st, avs, args, short):
        al = ip.deref_arg(st, avs[i], args[i], fr).AL
        for t in tags:
            al |= bit(t)
        return mk(al)
    return m


def name_of(text):
    return lambda ip, fr, st, avs, args, short: mk(bit(("x", text)))


OKV = frozenset([("v", "Result", "Ok", 0)])


def vocabulary(cx):
    """vocabulary function -> the name it stands for"""
    out = {}
    for f in cx.db.fns.values():
        if f.short.startswith("vocabulary::") and f.argc == 0 and "iri::IRI" in str(f.locals[0].get("s")):
            ss = strings_in(f)
            if len(ss) == 1:
                out[f.short] = "smithy:" + ss[0]
    return out


def value_fns(cx):
    return [f for f in cx.db.fns.values() if f.crate.replace("-", "_").startswith("atelier_rdf") and "{closure" not in f.short
            and any(str(f.locals[i].get("s")) == VALUE for i in range(1, f.argc + 1))
            and not f.short.split(" ")[-1].startswith("ModelVisitor::")]


def graph_models(cx):
    ov = {k: name_of(v) for k, v in vocabulary(cx).items()}
    for n in ("named_subject", "named_object"):
        ov["StatementFactory::" + n] = keep(1, ("iri",))
    for n in ("subject_as_object", "literal_object", "object_as_subject"):
        ov["StatementFactory::" + n] = keep(1)
    for n in ("literal", "long", "double", "boolean"):
        ov["LiteralFactory::" + n] = keep(1, ("lit", n))
    ov["rdf::a_type"] = name_of(TYPE)
    for n in ("bag", "seq", "list", "nil", "li"):
        ov["rdf::" + n] = name_of("rdf:" + n)

    def blank(ip, fr, st, avs, args, short):
        return mk(bit(("blank", f"{fr.f.short}:{fr.line}")))
    ov["StatementFactory::blank_subject"] = blank

    def statement(ip, fr, st, avs, args, short):
        s, p, o = [ip.deref_arg(st, v, a, fr) for v, a in list(zip(avs, args))[1:4]]
        return mk(0, E, (("Ok", struct({"s": s, "p": p, "o": o})),), OKV)
    ov["StatementFactory::statement"] = statement
    for f in cx.db.fns.values():
        if f.short == "urn::shape_to_iri":
            ov[f.short] = keep(0, ("urn",))
    return ov


def blanks(v):
    return {l[1] for l in labels(v) if isinstance(l, tuple) and l[0] == "blank"}


def names(v):
    return {l[1] for l in labels(v) if isinstance(l, tuple) and l[0] == "x" and l[1].startswith(("smithy:", "rdf:"))}


def counters(fns):
    """Is there a local that is its own old value plus one (a counter kept by hand)?"""
    for f in fns:
        adds = {}
        for b in f.blocks:
            for s in b["s"]:
                r = s[1]
                if len(s[0]) == 1 and isinstance(r, (list, tuple)) and r[0] in ("bin", "binop", "cbin") and \
                        any(str(x).startswith("Add") for x in r[1:] if isinstance(x, str)):
                    ops = {operand_local(x) for x in r[1:] if isinstance(x, dict)}
                    adds[s[0][0]] = ops - {None}
        for b in f.blocks:
            for s in b["s"]:
                r = s[1]
                if len(s[0]) == 1 and isinstance(r, (list, tuple)) and r[0] == "use" and isinstance(r[1], dict) and \
                        s[0][0] in adds.get(operand_local(r[1]), ()):
                    return True
    return False


def numbered(v, counter=False):
    ls = labels(v)
    return ("x", "rdf::namespace_iri") in ls and "_" in strs(v) and \
        (("index",) in ls or (counter and any(isinstance(l, tuple) and l[0] == "op" and l[1].startswith("Add")
                                              for l in ls)))


def part(v):
    return fields_of(v) - TOP - {"RdfWriter.model_iri"}


def okatom(a, own):
    b, ex = unwrap_exit(a)
    if ex is not None and b[0] == "var" and b[1] in STDENUM:
        return True
    if b[0] == "var" and b[1] == "Value":
        return False
    return guard_ok(a, own | TOP) or implied(a, own)


class Stmt:
    counter = False

    def __init__(self, e, s, p, o):
        self.e, self.s, self.p, self.o = e, s, p, o
        self.pred = "rdf:_n" if numbered(p, Stmt.counter) else ",".join(sorted(names(p))) or "?"


def statements(evs, sub, vkeys=None):
    """graph.insert(statement) and values handed to the value writer"""
    out = []
    for e in evs:
        if e.name == "Graph::insert":
            st = e.args[1]
            s, p, o = st.get("s"), st.get("p"), st.get("o")
            if s is None or p is None or o is None:
                yield Stmt(e, mk(0), mk(0), e.args[1])
            else:
                yield Stmt(e, s, p, o)
        elif vkeys and e.name in vkeys:
            i, j, k = sub[e.name]
            st = Stmt(e, e.args[i], e.args[j], e.args[k])
            st.value = True
            yield st
    return out


def positions(f):
    """(subject, predicate, value) parameters of the value writer"""
    ty = {i - 1: str(f.locals[i].get("s")) for i in range(1, f.argc + 1)}
    s = [i for i, t in ty.items() if "SubjectNode" in t]
    p = [i for i, t in ty.items() if "iri::IRI" in t]
    v = [i for i, t in ty.items() if t == VALUE]
    return (s[0], p[0], v[0]) if s and p and v else None


def run(cx, f, ov, vfs, args=None):
    ov = dict(ov)
    for g in vfs:
        ov[g.short] = lambda ip, fr, st, avs, args, short: mk(0, E, (("Ok", mk(0)),), OKV)
    sink = {g.short for g in vfs}
    ip = cx.interp(sink=lambda s: s in sink or s == "Graph::insert", override=ov)
    return ip.run(f, args=args) if args is not None else ip.run(f)


@prop("R01", "interprocedural MIR provenance: model part -> RDF statement, against the documented mapping", "other")
def r01(cx):
    db = cx.db
    root = [f for f in db.fns.values() if f.short.startswith("RdfWriter as ModelWriter::write")
            and "{closure" not in f.short]
    cx.floor("RDF writer", len(root), 1)
    root = root[0]
    ov = graph_models(cx)
    vfs = [f for f in value_fns(cx) if positions(f)]
    cx.floor("names of the RDF vocabulary", len(vocabulary(cx)), 40)
    cx.floor("value writers", len(vfs), 1)
    sub = {f.short: positions(f) for f in vfs}
    cx.rule("Every statement the RDF writer puts into the graph, found by interprocedural dataflow over MIR from the model, "
            "is compared with the mapping in the book: what its subject, predicate and object are made of, through which "
            "blank nodes it hangs on its shape, and that it is written whenever the model has the part.")
    Stmt.counter = counters([g for g in db.fns.values() if g.file == root.file])
    ret, evs, _ = run(cx, root, ov, vfs)
    stmts = list(statements(evs, sub, sub))
    at = cx.fnat(root)
    cx.counts["statements"] = len(stmts)
    # the model's own node
    ver = [s for s in stmts if "Model.smithy_version" in fields_of(s.o)]
    cx.req(ver, "rdf/version", at, "the Smithy version of the model is not written")
    mb = set()
    for s in ver:
        mb |= blanks(s.s)
    for s in ver:
        cx.req("RdfWriter.model_iri" in fields_of(s.s) and mb, "rdf/model node", cx.at(s.e),
               "the model's node is not the IRI given to the writer, or a blank node where there is none")

    def is_model(v):
        return ("RdfWriter.model_iri" in fields_of(v) or (blanks(v) and blanks(v) <= mb)) and not part(v)

    def guards(key, ss, own, what):
        left = cover(cx, [(own, s.e.atoms()) for s in ss], okatom, lambda n: variants(cx, n))
        cx.req(not left, f"{key}/always", cx.at(ss[0].e) if ss else at,
               f"{what} is only written when {' and '.join(gtext(a) for a in left)}")

    claimed = set()

    def want(key, ss, what, own):
        cx.req(ss, key, at, f"{what} is not written")
        for s in ss:
            claimed.add(id(s))
            bad = lossy(s.o)
            cx.req(not bad, f"{key}/whole", cx.at(s.e), f"{what} is written after {sorted(bad)}")
        if ss:
            guards(key, ss, own, what)

    def iri_of(v, fs):
        return ("urn",) in labels(v) and ("iri",) in labels(v) and part(v) == fs

    def lit_of(v, fs, kind="literal"):
        return ("lit", kind) in labels(v) and part(v) == fs and not {l for l in labels(v) if isinstance(l, tuple)
                                                                  and l[0] == "lit"} - {("lit", kind)}

    want("rdf/version", [s for s in ver if is_model(s.s) and s.pred == "smithy:smithy_version"
                         and lit_of(s.o, {"Model.smithy_version"})], "the Smithy version", {"Model.smithy_version"})
    want("rdf/model type", [s for s in stmts if is_model(s.s) and s.pred == TYPE and names(s.o) == {"smithy:Model"}],
         "the type of the model", set())
    want("rdf/metadata", [s for s in stmts if is_model(s.s) and s.pred == "smithy:metadata" and hasattr(s, "value")
                          and "Model.metadata" in fields_of(s.o)], "the metadata", {"Model.metadata"})

    n = 0
    for kind in KINDS:
        mine = [s for s in stmts if admits([a for a in s.e.atoms() if a[0] != "exit"], "ShapeKind", kind)
                and not (is_model(s.s) and "TopLevelShape.id" not in fields_of(s.o))]
        own = {"TopLevelShape.id", f"ShapeKind::{kind}.0"}
        # paths of blank nodes
        path = {}

        def paths(v):
            if iri_of(v, {"TopLevelShape.id"}):
                return {()}
            if is_model(v):
                return {("model",)}
            out = set()
            for b in blanks(v) - mb:
                out |= path.get(b, set())
            return out
        for _ in range(6):
            for s in mine:
                for b in blanks(s.o) - mb:
                    path.setdefault(b, set()).update({p + (s.pred,) for p in paths(s.s) if len(p) < 5})

        def at_path(p, pred):
            return [s for s in mine if p in paths(s.s) and s.pred == pred]
        k = f"rdf/{kind}"
        want(f"{k}/listed", [s for s in at_path(("model",), "smithy:shape") if iri_of(s.o, {"TopLevelShape.id"})],
             f"that the model has a {kind} shape", own)
        if kind != "Simple":
            want(f"{k}/type", [s for s in at_path((), TYPE) if names(s.o) == {f"smithy:{kind}"}],
                 f"the type of a {kind} shape", own)
        else:
            claimed |= {id(s) for s in at_path((), TYPE)}
        body = f"ShapeKind::{kind}.0"
        places = [((), "TopLevelShape", {"TopLevelShape.traits"}, own | {"TopLevelShape.traits"})]
        for m in MEMBERS.get(kind, ()):
            mp = ("smithy:member",)
            base = {body, m}
            o2 = own | base
            mk_ = m == "StructureOrUnion.members"
            link = [s for s in at_path((), "smithy:member") if blanks(s.o)]
            nm = [s for s in at_path(mp, "smithy:name") if lit_of(s.o, base | {"MemberShape.id"})
                  or (mk_ and lit_of(s.o, base))]
            tg = [s for s in at_path(mp, TYPE) if iri_of(s.o, base | {"MemberShape.target"})]
            bl = set()
            for s in nm + tg:
                bl |= blanks(s.s)
            want(f"{k}/{m}", [s for s in link if blanks(s.o) & bl], f"the member of `{m}` in a {kind}", o2)
            want(f"{k}/{m}/name", nm, f"the name of `{m}` in a {kind}", o2 | {"MemberShape.id"})
            want(f"{k}/{m}/target", tg, f"the target of `{m}` in a {kind}", o2 | {"MemberShape.target"})
            places.append((mp, m, base | {"MemberShape.traits"}, o2 | {"MemberShape.traits"}))
        for p, what, fs, o2 in places:
            ap = ("smithy:apply",)
            tr = [s for s in at_path(p + ap, "smithy:trait") if iri_of(s.o, fs) and ("mk",) in labels(s.o)]
            vl = [s for s in at_path(p + ap, "smithy:value") if hasattr(s, "value") and fs <= fields_of(s.o)]
            bl = set()
            for s in tr + vl:
                bl |= blanks(s.s)
            want(f"{k}/{what}/apply", [s for s in at_path(p, "smithy:apply") if blanks(s.o) & bl],
                 f"that a trait is applied ({what} of a {kind})", o2)
            want(f"{k}/{what}/trait", tr, f"the trait applied ({what} of a {kind})", o2)
            want(f"{k}/{what}/value", vl, f"the value of a trait ({what} of a {kind})", o2)
        for f, pred in REFS.get(kind, {}).items():
            fs = {body, f"{kind}.{f}"}
            hit = [s for s in at_path((), f"smithy:{pred}") if iri_of(s.o, fs)]
            if not hit:
                # a table of several references walked in one loop: its names are just those of its references
                for s in mine:
                    tab = {f"{kind}.{g}": f"smithy:{q}" for g, q in REFS[kind].items() if f"{kind}.{g}" in fields_of(s.o)}
                    if len(tab) > 1 and f"{kind}.{f}" in tab and names(s.p) == set(tab.values()) and () in paths(s.s) \
                            and iri_of(s.o, {body} | set(tab)):
                        hit.append(s)
                        fs = fs | set(tab)
            want(f"{k}/{f}", hit, f"`{f}` of a {kind}", own | fs)
        if kind == "Service":
            want(f"{k}/version", [s for s in at_path((), "smithy:version") if lit_of(s.o, {body, "Service.version"})],
                 "the version of a service", own | {"Service.version"})
        for kd, f, pred, rows in (("Service", "renames", "smithy:rename",
                                   (("smithy:shape", "urn", "mk"), ("smithy:name", "lit", "mv"))),
                                  ("Resource", "identifiers", "smithy:identifiers",
                                   (("smithy:key", "lit", "mk"), ("smithy:target", "urn", "mv")))):
            if kind != kd:
                continue
            fs = {body, f"{kind}.{f}"}
            o2 = own | fs
            want(f"{k}/{f}", [s for s in at_path((), pred) if blanks(s.o)], f"`{f}` of a {kind}", o2)
            want(f"{k}/{f}/type", [s for s in at_path((pred,), TYPE) if names(s.o) == {"rdf:bag"}],
                 f"the kind of `{f}` of a {kind}", o2)
            want(f"{k}/{f}/item", [s for s in at_path((pred,), "rdf:_n") if blanks(s.o)],
                 f"an item of `{f}` of a {kind}", o2)
            for q, how, mkv in rows:
                other = ("mv",) if mkv == "mk" else ("mk",)
                got = [s for s in at_path((pred, "rdf:_n"), q)
                       if (iri_of(s.o, fs) if how == "urn" else lit_of(s.o, fs)) and (mkv,) in labels(s.o)]
                want(f"{k}/{f}/{q}", got, f"`{q}` in an item of `{f}` of a {kind}", o2)
                if mkv == "mv":
                    for s in got:
                        if kd == "Resource":
                            cx.req(("lit", "literal") not in labels(s.o), f"{k}/{f}/{q}/kind", cx.at(s.e),
                                   f"`{q}` is a text")
        n += len(mine)
        # nothing else
        for s in mine:
            cx.req(id(s) in claimed, f"{k}/other/{s.pred}/{','.join(sorted(part(s.o))) or ','.join(sorted(names(s.o)))}",
                   cx.at(s.e), f"a statement the mapping does not have is written for a {kind}: "
                   f"{sorted(paths(s.s))} {s.pred} {sorted(part(s.o)) or sorted(names(s.o))}")
    cx.floor("statements about shapes", n, 60)
    # simple shapes, one type at a time
    sm = [f for f in db.fns.values() if f.short.endswith("RdfModelVisitor as ModelVisitor::simple_shape")]
    cx.floor("simple shape writer", len(sm), 1)
    for v in sorted(variants(cx, "Simple")):
        f = sm[0]
        args = [src("self"), fld("id"), src("traits"), mk(0, E, (), frozenset([("v", "Simple", v, 0)]))]
        _, ev2, _ = run(cx, f, ov, vfs, args)
        got = set()
        for s in statements(ev2, sub):
            if s.pred == TYPE and ("fld", "id") in labels(s.s):
                got |= names(s.o)
        cx.req(got == {f"smithy:{v}"}, f"rdf/Simple/type/{v}", cx.fnat(f), f"a {v} is written as {sorted(got)}")
    # values
    want_v = {"String": ("literal", "Value::String.0"), "Boolean": ("boolean", "Value::Boolean.0")}
    for f in vfs:
        i, j, kx = sub[f.short]

        def go(v):
            args = [src(f"p{q}") for q in range(f.argc)]
            args[i], args[j], args[kx] = mk(bit(("fld", "subject"))), mk(bit(("x", "smithy:value"))), v
            return list(statements(run(cx, f, ov, vfs, args)[1], sub, sub))

        def value(variant, inner):
            return mk(0, E, ((f"{variant}.0", inner),), frozenset([("v", "Value", variant, 0)]))
        cases = [("String", value("String", fld("it")), "literal"),
                 ("Boolean", value("Boolean", fld("it")), "boolean")]
        for nv, lit in (("Integer", "long"), ("Float", "double")):
            cases.append((nv, value("Number", mk(0, E, ((f"{nv}.0", fld("it")),),
                                                 frozenset([("v", "Number", nv, 0)]))), lit))
        for what, v, lit in cases:
            ss = go(v)
            k = f"rdf/value/{what}"
            ok = len(ss) == 1 and ("fld", "subject") in labels(ss[0].s) and ss[0].pred == "smithy:value" and \
                ("lit", lit) in labels(ss[0].o) and ("fld", "it") in labels(ss[0].o) and not lossy(ss[0].o)
            cx.req(ok, k, cx.at(ss[0].e) if ss else cx.fnat(f),
                   f"a value of kind {what} is not written as one {lit} literal of what it is")
            for s in ss:
                left = cover(cx, [(set(), s.e.atoms())], okatom, lambda n: variants(cx, n))
                left = [a for a in left if not presence(unwrap_exit(a)[0])]
                cx.req(not left, f"{k}/always", cx.at(s.e), f"only written when {' and '.join(map(gtext, left))}")
        ss = go(mk(0, E, (), frozenset([("v", "Value", "None", 0)])))
        cx.req(len(ss) == 1 and ss[0].pred == "smithy:value" and names(ss[0].o) == {"smithy:null"} and
               ("fld", "subject") in labels(ss[0].s), "rdf/value/None", cx.at(ss[0].e) if ss else cx.fnat(f),
               "the value null is not written as smithy:null")
        for what, ty in (("Array", "rdf:seq"), ("Object", "rdf:bag")):
            ss = go(value(what, fld("it")))
            k = f"rdf/value/{what}"
            link = [s for s in ss if ("fld", "subject") in labels(s.s) and s.pred == "smithy:value"]
            cx.req(len(link) == 1 and len(blanks(link[0].o)) == 1, k, cx.fnat(f), f"a {what} does not get a node of its own")
            bl = blanks(link[0].o) if link else set()
            cx.req([s for s in ss if blanks(s.s) == bl and s.pred == TYPE and names(s.o) == {ty}], f"{k}/type",
                   cx.fnat(f), f"the node of a {what} is not a {ty}")
            items = [s for s in ss if blanks(s.s) == bl and s.pred == "rdf:_n"]
            cx.req(items, f"{k}/items", cx.fnat(f), f"the items of a {what} are not numbered")
            if what == "Array":
                items = [s for s in items if hasattr(s, "value") and ("fld", "it") in labels(s.o)]
                cx.req(items, f"{k}/item", cx.fnat(f), "the elements of an array are not written")
                groups = [items]
            else:
                ib = set()
                for s in items:
                    ib |= blanks(s.o)
                keys = [s for s in ss if blanks(s.s) & ib and s.pred == "smithy:key" and ("lit", "literal") in labels(s.o)
                        and ("fld", "it") in labels(s.o) and ("mk",) in labels(s.o)]
                vals = [s for s in ss if blanks(s.s) & ib and s.pred == "smithy:value" and hasattr(s, "value")
                        and ("fld", "it") in labels(s.o) and ("mv",) in labels(s.o)]
                cx.req(keys, f"{k}/key", cx.fnat(f), "the keys of an object are not written")
                cx.req(vals, f"{k}/value", cx.fnat(f), "the values of an object are not written")
                groups = [items, keys, vals]
            for g in groups:
                for s in g:
                    bad = lossy(s.o)
                    left = [a for a in cover(cx, [(set(), s.e.atoms())], okatom, lambda n: variants(cx, n))
                            if not presence(unwrap_exit(a)[0])]
                    cx.req(not bad and not left, f"{k}/whole/{s.pred}", cx.at(s.e),
                           f"an item of a {what} is cut by {sorted(bad)} or only written when "
                           f"{' and '.join(map(gtext, left))}")
    inner = {g.key for g in db.fns.values() if g.file == root.file}
    cx.counts["fallible calls"] = error_flow(cx, inner, "rdf/error/")


# ------------------------------------------------------------------ R02
ID_CHARS = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.:/")
ID_FIELDS = {"ShapeID.namespace", "ShapeID.shape_name", "ShapeID.member_name"}
PLAIN = ("to_string", "as_str", "to_owned", "from", "replace", "strip_prefix", "path", "chars", "as_ref")


def rep_model(ip, fr, st, avs, args, short):
    vs = [ip.deref_arg(st, v, a, fr) for v, a in zip(avs, args)]

    def one(v):
        c = {int(i) for i in ints(v)} | {ord(s) for s in strs(v) if len(s) == 1}
        return next(iter(c)) if len(c) == 1 else None
    return mk(vs[0].AL | bit(("x", f"rep {one(vs[1])} {one(vs[2])}")))


def reps(v):
    return {l[1] for l in labels(v) if isinstance(l, tuple) and l[0] == "x" and l[1].startswith("rep ")}


@prop("R02", technique="abstract interpretation of the two maps between shape ids and URNs: the text each is made of, the replacements "
      "they do, every condition an accepted URN satisfies and a refused one fails; constant propagation over the character test")
def r02(cx):
    db = cx.db
    fns = {n: [f for f in db.fns.values() if f.short == f"urn::{n}"] for n in ("shape_to_iri", "iri_to_shape", "is_shape_iri")}
    for n, fs in fns.items():
        cx.req(len(fs) == 1, f"urn/fn/{n}", "atelier-rdf/src/urn.rs", f"{n} is gone")
    if not all(len(fs) == 1 for fs in fns.values()):
        return
    put, get, isit = (fns[n][0] for n in ("shape_to_iri", "iri_to_shape", "is_shape_iri"))
    cx.rule("the text of a shape's URN is 'urn:smithy:' and the whole id with its separators as ':' and '/'")
    made = []

    def parsed(ip, fr, st, avs, args, short):
        made.append((ip.deref_arg(st, avs[0], args[0], fr), f"{fr.f.file}:{fr.line}"))
    ov = {"str::replace": rep_model, "IRI as FromStr::from_str": parsed}
    ip = cx.interp(override=ov)
    ret, _, _ = ip.run(put, args=[rec(namespace=fld("namespace"), shape_name=fld("name"), member_name=opt("member"))])
    cx.analysed.add(put.key)
    cx.req(made, "urn/write", cx.fnat(put), "the URN is not made from a text")
    wrote, head = set(), None
    for v, at in made:
        wrote = reps(v)
        text = "".join(sorted((s for s in strs(v)), reverse=True))
        head = text
        whole = {("fld", n) for n in ("namespace", "name", "member")} <= labels(v)
        if wrote:
            cx.req(wrote == {"rep 35 58", "rep 36 47"}, "urn/write/separators", at,
                   f"the separators of the id are written by {sorted(wrote)} and not '#' as ':' and '$' as '/'")
            cx.req(text == "urn:smithy:", "urn/write/prefix", at, f"the URN starts with {text!r}")
        cx.req(whole and not (lossy(v) - {"str::replace"}), "urn/write/whole", at,
               f"the URN is not of the whole id, {sorted(lossy(v))}")
    cx.rule("an accepted URN passed every test of the form, so no two URNs stand for one id")
    seen = []

    def exact_id(ip, fr, st, avs, args, short):
        return mk(0, E, (("Ok", rec(namespace=fld("namespace"), shape_name=fld("name"), member_name=opt("member"))),), OKV)

    def to_id(ip, fr, st, avs, args, short):
        v = ip.deref_arg(st, avs[0], args[0], fr)
        seen.append((v, f"{fr.f.file}:{fr.line}"))
        return mk(v.AL | bit(("x", "id of text")))
    ov = {"str::replace": rep_model, "ShapeID as FromStr::from_str": to_id}
    tests = {
        "authority": lambda a: _pred(a, "has_authority"), "query": lambda a: _pred(a, "has_query"),
        "fragment": lambda a: _pred(a, "has_fragment"),
        "scheme": lambda a: a[0] == "b" and a[1] == "eq" and any(("s", "urn") in labset(x) for x in a[2]) and
        any(("x", "IRI::scheme") in labset(x) for x in a[2]),
        "nid": lambda a: _on(a, "str::strip_prefix") and _text(a, "smithy:") and not _chars(a) and not _id(a),
        "characters": lambda a: _chars(a) and not _id(a),
        "id": lambda a: _id(a)}
    refuse = ("authority", "query", "fragment")
    ip = cx.interp(override=ov)
    ret, _, _ = ip.run(get)
    cx.analysed.add(get.key)
    oks = [t for t in ret.T if t[0] == "v" and t[2] == "Ok"]
    cx.req(oks, "urn/read", cx.fnat(get), "no URN is ever accepted")
    for v, at in seen:
        if reps(v):
            back = {f"rep {r.split()[2]} {r.split()[1]}" for r in reps(v)}
            cx.req(back == wrote, "urn/read/separators", at,
                   f"the separators are read by {sorted(reps(v))} where they were written by {sorted(wrote)}")
        cx.req(not (lossy(v) - {"str::replace", "str::strip_prefix"}), "urn/read/whole", at, f"the id is read from a part: {sorted(lossy(v))}")
    cx.req(seen, "urn/read/id", cx.fnat(get), "the id is not read from the path")
    got = payload(cx.interp(override={"ShapeID as FromStr::from_str": exact_id}).run(get)[0], "Ok")
    cx.req({("fld", n) for n in ("namespace", "name", "member")} <= labels(got), "urn/read/result", cx.fnat(get), "the id given back is not the one read")
    alts = [("urn/read", get, oks)]
    ip = cx.interp(override=ov)
    b, _, _ = ip.run(isit)
    cx.analysed.add(isit.key)
    alts.append(("urn/is", isit, [t for t in b.T if t[0] == "c" and t[1] is True] or
                 [t for t in b.T if not (t[0] == "c" and t[1] is False)]))
    n = 0
    for key, f, ts in alts:
        for t in ts:
            ats = [unwrap_exit(a)[0] for a in atoms(t[-1])] if isinstance(t[-1], int) else []
            for what, test in tests.items():
                n += 1
                if what == "characters" and not _charfns(cx, f):
                    continue
                hits = [a for a in ats if test(a)]
                good = [a for a in hits if (what in refuse) != _holds(a)] if what != "characters" else hits
                cx.req(good, f"{key}/{what}", cx.fnat(f), f"a text is taken for the URN of a shape without the test of its {what}")
    cx.counts["tests"] = n
    cx.rule("a refused URN failed one of those tests, so every URN written is read")
    for key, f, ts in (("urn/refuse", get, [t for t in ret.T if t[0] == "v" and t[2] == "Err"]),):
        for t in ts:
            ats = [unwrap_exit(a)[0] for a in atoms(t[-1])]
            odd = [a for a in ats if not any(test(a) for test in tests.values()) and not
                   (a[0] == "b" and a[1] == "eq" and _on(a, "str::strip_prefix") or a[0] == "int" and
                    ("x", "str::strip_prefix") in labset(a[-1]))]
            cx.req(not odd, f"{key}", cx.fnat(f), f"a URN is refused when {' and '.join(map(gtext, odd))}")
    cx.rule("the character test accepts what the text of an id is made of, and no unchanged separator")
    for g in _charfns(cx, get):
        cx.analysed.add(g.key)
        cs = char_predicate(db, g, g.argc)
        if cs is not None:
            cs = cs if "a" in cs else set(map(chr, range(128))) - cs
            cx.req(not cs & set("#$"), "urn/characters", cx.fnat(g),
                   "the separators of an id are accepted as they are in a URN")
            cx.req(ID_CHARS <= cs, "urn/characters/all", cx.fnat(g), f"characters of ids are refused: {sorted(ID_CHARS - cs)}")
            cx.counts["characters"] = 128


def _labs(a):
    return set(labset(a[3])) if a[0] == "var" else {l for x in a[2] if isinstance(x, int) for l in labset(x)} if a[0] == "b" else set()


def _pred(a, name):
    return a[0] == "b" and a[1] == name


def _on(a, x):
    return ("x", x) in _labs(a)


def _text(a, s):
    return ("s", s) in _labs(a)


def _chars(a):
    """a test over the characters of the path; one for given characters is of those no id has"""
    return a[0] == "b" and (a[1] in ("all", "any") or a[1] == "contains" and not
                            {l[1] if l[0] == "s" else chr(int(l[1])) for l in _labs(a) if l[0] in "si"} & ID_CHARS) and \
        any(_on(a, x) for x in ("IRI::path", "str::strip_prefix"))


def _holds(a):
    """the atom says the test came out true"""
    if a[0] == "var":
        return bool({"Some", "Ok"} & set(a[2]))
    return a[3] != (a[1] in ("is_none", "is_err"))


def _id(a):
    return _on(a, "id of text")


def _charfns(cx, f):
    """predicates over one character, in the functions of the file"""
    return [g for g in cx.db.fns.values() if g.file == f.file and str(g.locals[0].get("s")) == "bool" and g.argc and
            str(g.locals[g.argc].get("s")) in ("char", "&char")]
