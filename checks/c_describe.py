"""D..: diagrams and documents."""
import re

from core import *
from models import WRITES_OK
from checks.c_lines import pieces, whole_id, SLOT


def is_text(s):
    return is_write(s) or s.rsplit("::", 1)[-1] in ("push", "push_back", "extend")


class Text:
    """A piece of text that is written (or kept to be written), with its computed parts in their places."""

    def __init__(self, e, v):
        self.e, self.v = e, v
        self.text, self.slots = pieces(v)
        self.fields = fields_of(v)
        self.soft = [s for s in self.slots if strs(s)]
        self.words = [c for c, _ in text_parts(v)] + sorted(strs(v)) + [self.text.replace(SLOT, " ")]

    def atoms(self):
        return [a for a in self.e.atoms() if a[0] != "exit"]

    def inside(self, m, g):
        """The computed parts within a group of a match."""
        a, b = m.span(g)
        k = self.text[:a].count(SLOT)
        return self.slots[k:k + self.text[a:b].count(SLOT)]


def texts(cx, f, override=WRITES_OK, **kw):
    ip = cx.interp(sink=is_text, override=override, **kw)
    ret, evs, _ = ip.run(f)
    out = []
    for e in evs:
        for v in e.args[1:]:
            t = Text(e, v)
            if t.text.strip("\\n ") or t.slots:
                out.append(t)
    return out, evs


def rows(cx, ts, spec, what, where, extra=None, filt_ok=None, allow=()):
    """spec: [(name, regex, {group: fields}, of)]: a text of that form carries those fields in those places, whole and
    whenever the content exists."""
    n = 0
    for name, rx, groups, of in spec:
        key = f"{what}/{name}"
        need = set(of).union(*groups.values()) if groups else set(of)
        cand = []
        for t in ts:
            ctx = t.fields | set().union(*[atom_fields(a) for a in t.atoms()], set())
            if not set(of) <= ctx:
                continue
            m = re.search(rx, t.text)
            pair = m and len(groups) == 2 and groups["a"] == groups["b"] and [t.inside(m, g) for g in "ab"]
            if pair and all(pair) and (("mk",) not in labels(pair[0][0]) or ("mk",) in labels(pair[1][0])):
                continue        # the key of a map entry comes first, its value after it
            if m and all(any(fs <= fields_of(s) and (whole_id(s) or fs & {"ShapeID.namespace"}) for s in t.inside(m, g)) for g, fs in groups.items()):
                cand.append(t)
            elif not m and t.soft and need <= t.fields and \
                    all(has_word(t.words, w) for w in re.findall(r"\w{3,}", re.sub(r"\(\?P<\w+>|\\0|\\.", "", rx))):
                cand.append(t)
        if not cx.req(cand, key, where, f"{sorted(need)} is never written in the form `{re.sub(r'[(]?[?]P<(.)>', r'{', rx).replace(SLOT, '..')}`"):
            continue
        n += 1

        def okatom(a, own):
            return guard_ok(a, own, extra=extra) or implied(a, own) or (extra is not None and extra(a, own))
        left = cover(cx, [(t.fields | set(of) | {"TopLevelShape.body"}, t.atoms()) for t in cand], okatom, lambda nm: variants(cx, nm))
        cx.req(not left, key + "/always", cx.at(cand[0].e), f"written only if {'; '.join(map(gtext, left))}")
        lz = set()
        for t in cand:
            lz |= cut(t.v, allow, filt_ok)
        cx.req(not lz, key + "/whole", cx.at(cand[0].e), f"the content passes through {sorted(lz)}")
    return n


S = "\0"
LIFE = ["create", "put", "read", "update", "delete", "list"]
ID = {"TopLevelShape.id"}


def same_namespace(a):
    """Only the shapes of the namespace whose package this is."""
    return a[0] == "b" and a[1] == "eq" and a[3] and "ShapeID.namespace" in atom_fields(a) and \
        atom_fields(a) <= {"Model.shapes", "TopLevelShape.id", "ShapeID.namespace", "ShapeID.shape_name", "ShapeID.member_name"} and \
        all("ShapeID.namespace" in {x[1] for x in labset(l) if isinstance(x, tuple) and x[0] == "f"} for l in a[2][:2])


@prop("D01")
def d01(cx):
    db = cx.db
    f = db.find("PlantUmlWriter as ModelWriter::write")
    cx.rule("Every text the PlantUML writer writes is reconstructed symbolically and traced to the model fields in its "
            "places and the conditions it is written under: each documented element of the diagram has its form and its "
            "own content, whenever that content exists, in the package of its namespace; nothing panics on an "
            "unresolved target.")
    ts, evs = texts(cx, f)

    def extra(a, own=None):
        if same_namespace(a) or (a[0] == "var" and a[1] == "Option" and a[2] == frozenset(["Some"]) and
                                 atom_fields(a) <= {"Model.shapes", "ShapeID.namespace", "TopLevelShape.id"}):
            return True
        s = {x[1] for x in atom_labs(a) if isinstance(x, tuple) and x[0] == "s"}
        return a[0] == "b" and "TopLevelShape.traits" in atom_fields(a) and bool(s & {"smithy.api#error", "smithy.api#documentation"}) and not a[3]
    SV, RS, ST, UN, SI = [{f"ShapeKind::{k}.0"} for k in ("Service", "Resource", "Structure", "Union", "Simple")]
    spec = [
        ("service version", rf'version: string = "(?P<a>{S})"', {"a": {"Service.version"}}, ()),
        ("service operations", rf"(?P<a>{S})\(in: ", {"a": {"Service.operations"}}, ()),
        ("service resources", rf"(?P<a>{S}) \*-- (?P<b>{S})", {"a": ID, "b": {"Service.resources"}}, ()),
        ("resource identifiers", rf"(?P<a>{S}): (?P<b>{S})", {"a": {"Resource.identifiers"}, "b": {"Resource.identifiers"}}, ()),
        ("resource operations", rf"(?P<a>{S})\(in: ", {"a": {"Resource.operations"}}, ()),
        ("resource collection operations", rf"(?P<a>{S})\(in: ", {"a": {"Resource.collection_operations"}}, ()),
        ("resource resources", rf"(?P<a>{S}) \*-- (?P<b>{S})", {"a": ID, "b": {"Resource.resources"}}, ()),
        ("structure members", rf"(?P<a>{S}): (?P<b>{S})", {"a": {"MemberShape.id"} | ST, "b": {"MemberShape.target"} | ST}, ()),
        ("union members", rf"(?P<a>{S}): (?P<b>{S})", {"a": {"MemberShape.id"} | UN, "b": {"MemberShape.target"} | UN}, ()),
        ("package", rf"package (?P<a>{S}) \{{", {"a": {"ShapeID.namespace"}}, ()),
    ]
    def filt_ok(a):
        return same_namespace(a) or (a[0] == "var" and a[1] == "ShapeKind" and a[2] >= variants(cx, "ShapeKind") - {"Unresolved"})
    n = rows(cx, ts, spec, "plantuml", cx.fnat(f), extra, filt_ok, allow=("filter", "dedup"))
    # the lifecycle operations by their own names
    for op in LIFE:
        fld = f"Resource.{op}"
        cand = [t for t in ts if "(in: " in " ".join(t.words) and
                fld in t.fields | set().union(*[atom_fields(a) for a in t.atoms()], set())]
        key = f"plantuml/resource {op}"
        good = [t for t in cand if has_word(t.words, op)]
        if cx.req(good, key, cx.fnat(f), f"the {op} operation of a resource is not written under its name"):
            n += 1
            left = cover(cx, [(t.fields | {"TopLevelShape.body", fld}, t.atoms()) for t in good],
                         lambda a, o: guard_ok(a, o) or implied(a, o) or extra(a), lambda nm: variants(cx, nm))
            cx.req(not left, key + "/always", cx.at(good[0].e), f"written only if {'; '.join(map(gtext, left))}")
        for t in cand:
            others = [o for o in LIFE if o != op and has_word(t.words, o) and f"Resource.{o}" not in t.fields]
            cx.req(not others or has_word(t.words, op), f"{key}<-not {','.join(others)}", cx.at(t.e),
                   f"the {op} operation is written as {others}")
    # input and output of the operations
    for own in [f"Resource.{o}" for o in LIFE] + ["Resource.operations", "Resource.collection_operations", "Service.operations"]:
        here = [(t, re.search(r"\(in: (?P<i>[^)]*)\)(?P<o>.*)", t.text, re.S)) for t in ts if own in t.fields]
        here = [(t, m) for t, m in here if m]
        for g, fld in (("i", "Operation.input"), ("o", "Operation.output")):
            other = "Operation.output" if g == "i" else "Operation.input"
            good = [t for t, m in here if any(fld in fields_of(s) for s in t.inside(m, g))]
            bad = [t for t, m in here if any(other in fields_of(s) and fld not in fields_of(s) for s in t.inside(m, g))]
            if here:
                cx.req(good and not bad, f"plantuml/{own}/{fld}", cx.at((bad or [here[0][0]])[0].e),
                       f"the {fld.split('.')[1]} of the operation is not where it belongs")
    # class headers
    terms = []
    for t in ts:
        m = re.search(rf"(?P<w>class|annotation) (?P<a>{S})(?P<s> ?<<[\w\0]+>>| ?\0)? ?\{{", t.text)
        if m and any("TopLevelShape.id" in fields_of(s) for s in t.inside(m, "a")):
            plain = m.group("w") if m.group("w") != "class" else "none"
            ss = {m.group("s")} if m.group("s") and SLOT not in m.group("s") else \
                 {c for s in t.inside(m, "s") for c in strs(s)} if m.group("s") else {""}
            when = {}
            for v in t.inside(m, "s") if m.group("s") else ():
                for c, ats in const_terms(v) or ():
                    when[c] = [x for x in ats if x[0] != "exit"]
            for s in ss:
                terms.append((s.strip(" <>") or plain, t.atoms() + when.get(s, []), t))
    cx.floor("class headers", len(terms), 3)
    want = {"Service": {"service"}, "Resource": {"resource"}, "Simple": {"dataType"}, "Structure": {"none", "error", "annotation"},
            "Union": {"union", "error", "annotation"}}
    for k, w in want.items():
        got = {s for s, a, _ in terms if admits(a, "ShapeKind", k)}
        cx.req(got == w, f"plantuml/class/{k}", cx.fnat(f), f"a {k} is drawn as {sorted(got)} instead of {sorted(w)}")
        mine = [t for s, a, t in terms if admits(a, "ShapeKind", k)]
        if mine:
            left = cover(cx, [(t.fields | {"TopLevelShape.body"}, t.atoms()) for t in mine],
                         lambda a, o: guard_ok(a, o) or implied(a, o) or extra(a) or
                         (a[0] == "var" and a[1] == "ShapeKind" and k in a[2]), lambda nm: variants(cx, nm))
            cx.req(not left, f"plantuml/class/{k}/always", cx.at(mine[0].e), f"drawn only if {'; '.join(map(gtext, left))}")
            lz = set()
            for t in mine:
                lz |= cut(t.v, ("filter",), filt_ok)
            cx.req(not lz, f"plantuml/class/{k}/whole", cx.at(mine[0].e), f"passes through {sorted(lz)}")
    ip = cx.interp(sink=lambda s: "Map" in s and s.rsplit("::", 1)[-1] in ("entry", "insert", "get_mut"), override=WRITES_OK)
    grouped = [e for e in ip.run(f)[1] if len(e.args) > 1 and "ShapeID.namespace" in fields_of(e.args[1])]     # a map from namespaces to shapes
    for s, a, t in terms:
        over = any(x[0] == "var" and x[1] == "Option" and "ShapeID.namespace" in atom_fields(x) for x in a)
        ok = grouped or any(same_namespace(x) for x in list(a) + list(filts(t.v)))
        cx.req(ok or not over, f"plantuml/class/{s}/namespace", cx.at(t.e), "a shape is drawn in the package of another namespace")
        if s in ("error", "annotation"):
            tr = "smithy.api#error" if s == "error" else "smithy.api#trait"
            yes = [x for x in a if x[0] == "b" and "TopLevelShape.traits" in atom_fields(x) and x[3]
                   and tr in {y[1] for y in atom_labs(x) if isinstance(y, tuple) and y[0] == "s"}]
            cx.req(yes, f"plantuml/class/{s}", cx.at(t.e), f"`{s}` is written for shapes without the trait {tr}")
    # traits and documentation
    ip = cx.interp(sink=lambda s: s.rsplit("::", 1)[-1] == "format" or is_text(s), override=WRITES_OK)
    fmts = [t for e in ip.run(f)[1] for t in [Text(e, v) for v in e.args] if has_word(t.words, "@") and "TopLevelShape.traits" in t.fields]
    for k in ("Service", "Resource", "Structure", "Union", "Simple"):
        tr = [t for t in ts if "TopLevelShape.traits" in t.fields and has_word(t.words, "@") and admits(t.atoms(), "ShapeKind", k)]
        key = f"plantuml/{k} traits"
        if cx.req(tr, key, cx.fnat(f), f"the traits of a {k} are not written"):
            for v in ("String", "Number", "Boolean"):
                cx.req(any(f"Value::{v}.0" in t.fields for t in tr), f"{key}/{v}", cx.at(tr[0].e), f"the Value::{v} of a trait is not written")
                peek = [t for t in fmts if admits(t.atoms(), "ShapeKind", k) and f"Value::{v}.0" not in t.fields and
                        any(a[0] == "b" and f"Value::{v}.0" in atom_fields(a) for a in t.atoms())]
                cx.req(not peek, f"{key}/{v} always", cx.at((peek or tr)[0].e), f"whether the Value::{v} of a trait is written depends on what it is")
            first = [t for t in tr if not is_write(t.e.name)] or tr
            left = cover(cx, [(t.fields | {"TopLevelShape.body"}, t.atoms()) for t in first],
                         lambda a, o: guard_ok(a, o) or implied(a, o) or extra(a) or (a[0] == "var" and a[1] == "ShapeKind"),
                         lambda nm: variants(cx, nm))
            cx.req(not left, key + "/always", cx.at(tr[0].e), f"written only if {'; '.join(map(gtext, left))}")
        nt = [t for t in ts if re.search(r"(^|\s)note\b", t.text) and "TopLevelShape.id" in t.fields and admits(t.atoms(), "ShapeKind", k)]
        doc = [t for t in ts if "Value::String.0" in t.fields and "TopLevelShape.traits" in t.fields and is_write(t.e.name)
               and "@" not in t.text and admits(t.atoms(), "ShapeKind", k)]
        if cx.req(nt and doc, f"plantuml/{k} documentation", cx.fnat(f), f"the documentation of a {k} does not become a note"):
            for what, ev in (("note", nt), ("text", doc)):
                left = cover(cx, [(t.fields | {"TopLevelShape.body", "TopLevelShape.traits", "Value::String.0"}, t.atoms()) for t in ev],
                             lambda a, o: guard_ok(a, o) or implied(a, o) or extra(a) or (a[0] == "var" and a[1] == "ShapeKind"),
                             lambda nm: variants(cx, nm))
                cx.req(not left, f"plantuml/{k} documentation/{what} always", cx.at(ev[0].e), f"written only if {'; '.join(map(gtext, left))}")
                lz = set()
                for t in ev:
                    lz |= cut(t.v, ("filter",), filt_ok)
                cx.req(not lz, f"plantuml/{k} documentation/{what} whole", cx.at(ev[0].e), f"the text passes through {sorted(lz)}")
        for t in doc:
            ds = [s for s in t.slots if "Value::String.0" in fields_of(s)]
            cx.req(all(("fmt", "debug") in labset(s.AL) or any(x.rsplit("::", 1)[-1] in ("replace", "escape_default", "escape_debug")
                                                              for x in xs(s)) for s in ds),
                   f"plantuml/{k} documentation/quoted", cx.at(t.e), "the text of a note is written as it is, quotes and line breaks included")
    cx.floor("diagram elements", n, 14)
    # panics on unresolved targets
    ip = cx.interp(sink=is_text, override=WRITES_OK, panics=True)
    _, pev, _ = ip.run(f)
    refs = {"Service.operations", "Service.resources", "Resource.operations", "Resource.collection_operations", "Resource.resources",
            "MemberShape.target", "Operation.input", "Operation.output", "Operation.errors"} | {f"Resource.{o}" for o in LIFE}
    seen = 0
    for e in pev:
        if e.kind != "panic":
            continue
        seen += 1
        if e.name.rsplit("::", 1)[-1] in ("unwrap", "expect") and e.args:
            fs = fields_of(e.args[0])
            sure = e.args[0].T and all(t[0] == "v" and t[2] in ("Some", "Ok") for t in e.args[0].T)
            cx.req(sure or not (fs & refs and "Model.shapes" in fs), f"plantuml/panic/{'+'.join(sorted(fs & refs))}", cx.at(e),
                   f"panics when the target of {sorted(fs & refs)} is not in the model, or not an operation")
    cx.counts["possible panics looked at"] = seen


class Elem(Text):
    """An XML element: consecutive texts joined, from its start to its end tag."""

    def __init__(self, ts):
        self.e, self.ts = ts[0].e, ts
        self.text = "".join(t.text for t in ts)
        self.slots = [s for t in ts for s in t.slots]
        self.fields = set().union(*[t.fields for t in ts])
        self.words = [w for t in ts for w in t.words]

    def atoms(self):
        return [a for t in self.ts for a in t.atoms()]

    def ctx(self):
        return self.fields | set().union(*[atom_fields(a) for a in self.atoms()], set())


def elements(ts, tag):
    out, cur = [], None
    for t in ts:
        if re.search(r"<(node|edge|graph)\b|</graph>", t.text):
            if cur:             # an end tag that was already seen under the same conditions
                out.append(Elem(cur))
            cur = [] if re.search(rf"<{tag}\b", t.text) else None
        if cur is not None:
            cur.append(t)
            if re.search(rf"</{tag}>|<{tag}\b[^>]*/>", t.text):
                out.append(Elem(cur))
                cur = None
    return out


@prop("D02")
def d02(cx):
    f = cx.db.find("GraphMLWriter as ModelWriter::write")
    cx.rule("Every element the GraphML writer writes is reconstructed symbolically and traced to the model fields in its "
            "places and the conditions it is written under: a node with id and type for every kind of shape, an edge "
            "for every trait and every reference, named after its own member and whenever the reference exists; edge "
            "ids come from a counter too wide to wrap; every data key is declared; free text is escaped.")
    ts, evs = texts(cx, f)
    ts = [t for t in ts if is_write(t.e.name) and not t.e.name.startswith("String")]
    nodes, edges = elements(ts, "node"), elements(ts, "edge")
    cx.floor("node elements", len(nodes), 3)
    cx.floor("edge elements", len(edges), 2)

    def extra(a, own=None):
        return a[0] == "var" and a[1] == "ShapeKind"

    def judge(key, els, slots):
        left = cover(cx, [(e.fields | {"TopLevelShape.body", "TopLevelShape.traits"}, e.atoms()) for e in els],
                     lambda a, o: guard_ok(a, o) or implied(a, o) or extra(a), lambda nm: variants(cx, nm))
        cx.req(not left, key + "/always", cx.at(els[0].e), f"written only if {'; '.join(map(gtext, left))}")
        lz = set().union(*[cut(s, ("filter", "replace")) for s in slots])
        cx.req(not lz, key + "/whole", cx.at(els[0].e), f"the content passes through {sorted(lz)}")
    # a node for every kind of shape
    kinds = {k: k.lower() for k in ("List", "Set", "Map", "Structure", "Union", "Operation", "Service", "Resource", "Simple")}
    for k, word in kinds.items():
        key = f"graphml/node {k}"
        good, wrong = [], []
        for e in nodes:
            if not admits(e.atoms(), "ShapeKind", k):
                continue
            m = re.search(rf'id="(?P<a>{S})"', e.text)
            ty = re.search(r'key="type">(?P<t>[^<]*)<', e.text)
            if not (m and ty and any("TopLevelShape.id" in fields_of(s) and whole_id(s) for s in e.inside(m, "a"))):
                continue
            t = ty.group("t")
            sl = e.inside(ty, "t")
            if t == word or any(word in strs(s) or (k == "Simple" and "ShapeKind::Simple.0" in fields_of(s)) for s in sl):
                good.append((e, e.inside(m, "a")))
            else:
                wrong.append((e, t))
        cx.req(not wrong, key + "/type", cx.at(wrong[0][0].e) if wrong else "", f"a {k} becomes a node of type {[t for _, t in wrong]}")
        if cx.req(good, key, cx.fnat(f), f"no node with id and type `{word}` is written for a {k}"):
            judge(key, [e for e, _ in good], [s for _, ss in good for s in ss])
        tr = [e for e in edges if "TopLevelShape.traits" in e.fields and admits(e.atoms(), "ShapeKind", k)
              and re.search(r'key="trait">true<', e.text)]
        tr = [e for e in tr for m in [re.search(rf'source="(?P<s>{S})" target="(?P<t>{S})"', e.text)]
              if m and any("TopLevelShape.id" in fields_of(s) for s in e.inside(m, "s"))
              and any("TopLevelShape.traits" in fields_of(s) and ("mk",) in labels(s) for s in e.inside(m, "t"))]
        if cx.req(tr, f"graphml/traits {k}", cx.fnat(f), f"no edge is written from a {k} to its traits"):
            judge(f"graphml/traits {k}", tr, [s for e in tr for s in e.slots[1:]])
    # an edge for every reference
    refs = [("ShapeKind::List.0", "ListOrSet.member", "member"), ("ShapeKind::Set.0", "ListOrSet.member", "member"),
            ("ShapeKind::Map.0", "Map.key", "key"), ("ShapeKind::Map.0", "Map.value", "value"),
            ("ShapeKind::Structure.0", "StructureOrUnion.members", None), ("ShapeKind::Union.0", "StructureOrUnion.members", None)]
    refs += [("ShapeKind::Operation.0", f"Operation.{x}", x) for x in ("input", "output", "errors")]
    refs += [("ShapeKind::Service.0", f"Service.{x}", x) for x in ("operations", "resources")]
    refs += [("ShapeKind::Resource.0", f"Resource.{x}", x) for x in LIFE + ["operations", "resources"]]
    refs += [("ShapeKind::Resource.0", "Resource.collection_operations", "collectionOperations")]
    names = {n for _, _, n in refs if n}
    for own, fld, name in refs:
        key = f"graphml/edge {own.split('::')[1][:-2]}.{fld.split('.')[1]}"
        member = fld.split(".")[0] in ("ListOrSet", "Map", "StructureOrUnion")
        good, wrong = [], []
        for e in edges:
            m = re.search(rf'source="(?P<s>{S})" target="(?P<t>{S})"', e.text)
            if not m:
                continue
            tgt = [s for s in e.inside(m, "t") if {own, fld} <= fields_of(s) and whole_id(s) and (not member or "MemberShape.target" in fields_of(s))]
            if not tgt:
                continue
            mm = re.search(r'key="member">(?P<n>[^<]*)<', e.text)
            nm = e.inside(mm, "n") if mm else []
            src = any("TopLevelShape.id" in fields_of(s) for s in e.inside(m, "s"))
            okn = mm and (mm.group("n") == name if name and not nm else
                          any(name in strs(s) for s in nm) if name else any("MemberShape.id" in fields_of(s) for s in nm))
            (good if okn and src else wrong).append((e, tgt))
        cx.req(not wrong, key + "/name", cx.at(wrong[0][0].e) if wrong else "",
               f"{fld} becomes an edge called {[re.findall(r'member.>([^<]*)<', e.text) for e, _ in wrong]}")
        if cx.req(good, key, cx.fnat(f), f"{fld} never becomes an edge from the shape to its target called `{name or 'by the member'}`"):
            judge(key, [e for e, _ in good], [s for _, ss in good for s in ss])
    # ids of edges
    ids = [s for e in edges for m in [re.search(r'<edge[^>]* id="(?P<i>[^"]*)"', e.text)] if m for s in e.inside(m, "i")]
    cx.req(len(ids) >= len(edges), "graphml/edge ids", cx.fnat(f), "an edge has the same id as another")
    narrow = set()
    for s in ids:
        for fl in fields_of(s):
            adt = cx.db.adts.get(cx.db.find_adt(fl.rsplit(".", 1)[0])) if "::" not in fl and "." in fl else None
            for x in (adt["v"][0]["f"] if adt else ()):
                if x["n"] == fl.rsplit(".", 1)[1] and str(x.get("t", x.get("ty", ""))) in ("u8", "u16", "i8", "i16", "char"):
                    narrow.add((fl, str(x.get("t", x.get("ty")))))
    cx.req(not narrow, "graphml/edge ids/wide", cx.fnat(f), f"the counter of the edges overflows: {sorted(narrow)}")
    count = any(isinstance(l, tuple) and l[0] == "op" and str(l[1]).startswith("Add") for s in ids for l in labset(s.AL)) or \
        any(str(x).rsplit("::", 1)[-1] in ("enumerate", "next", "fetch_add", "len", "replace") for s in ids for x in list(xs(s)) + [labstr(l) for l in labset(s.AL)])
    cx.req(count, "graphml/edge ids/count", cx.fnat(f), "the ids of the edges are not counted")
    # keys
    decl = set()
    used = {}
    for t in ts:
        decl |= set(re.findall(r'<key id="([^"\0]+)"', t.text))
        for k in re.findall(r'<data key="([^"\0]+)"', t.text):
            used.setdefault(k, t)
        soft = [s for s in t.slots if strs(s)]
        if re.search(r"<key id=\"\0", t.text):
            decl |= {c for s in soft for c in strs(s)}
    for k, t in sorted(used.items()):
        cx.req(k in decl, f"graphml/key {k}", cx.at(t.e), f"the data key `{k}` is not declared, only {sorted(decl)}")
    cx.floor("data keys", len(used), 2)
    # free text
    esc = [t for t in ts if "Service.version" in t.fields]
    if cx.req(esc, "graphml/version", cx.fnat(f), "the version of a service is not written"):
        for t in esc:
            for s in t.slots:
                if "Service.version" in fields_of(s):
                    cx.req(any(x.rsplit("::", 1)[-1] in ("replace", "escape", "chars", "replacen", "from") or "scape" in x for x in xs(s)) or
                           {"&lt;", "&amp;"} <= strs(s) or ("s", "&lt;") in labels(s), "graphml/version/escaped", cx.at(t.e),
                           "the version of a service is written into the XML as it is, `<` and `&` included")


def is_block(s):
    return s.rsplit("::", 1)[-1].startswith("add_") or s.rsplit("::", 1)[-1] in ("push", "extend", "insert")


@prop("D03")
def d03(cx):
    f = cx.db.find("DocumentationWriter as ModelWriter::write")
    cx.rule("Every block added to the document is traced to the model fields in it and the conditions it is added under: "
            "each shape, member, reference, trait, documentation text and metadata entry is in the document whenever it "
            "exists, under its own name; what is added to a list, quote or table reaches the document that is written; "
            "no trait value makes the writer panic.")
    ip = cx.interp(sink=lambda s: is_block(s) or s.rsplit("::", 1)[-1] in ("write_document", "format") or is_write(s), override={})
    _, evs, _ = ip.run(f)
    blocks = [e for e in evs if is_block(e.name) and len(e.args) > 1]
    cx.floor("blocks added", len(blocks), 20)

    def body(e):
        return set().union(*[fields_of(v) for v in e.args[1:]], set())

    def ats(e):
        return [a for a in e.atoms() if a[0] != "exit"]

    def words(e):
        return [c for v in e.args[1:] for c in strs(v)]

    def extra(a, own=None):
        if a[0] == "var" and a[1] in ("ShapeKind", "Value") or same_namespace(a):
            return True
        if a[0] == "b" and a[1] in ("is_empty", "eq") and not a[3] and atom_fields(a) <= {
                "Model.shapes", "ShapeID.namespace", "TopLevelShape.id", "TopLevelShape.traits", "MemberShape.traits", "ShapeID.shape_name"} | (own or set()):
            return True
        return a[0] == "var" and a[1] == "Option" and a[2] == frozenset(["Some"]) and \
            atom_fields(a) <= {"Model.shapes", "ShapeID.namespace", "TopLevelShape.id"}

    def filt_ok(a):
        return same_namespace(a) or (a[0] == "var" and a[1] == "ShapeKind" and a[2] >= variants(cx, "ShapeKind") - {"Unresolved"})
    K = {k: f"ShapeKind::{k}.0" for k in ("List", "Set", "Map", "Structure", "Union", "Operation", "Service", "Resource")}
    rows_ = [("list member", {K["List"], "ListOrSet.member", "MemberShape.target"}, ["Member"]),
             ("set member", {K["Set"], "ListOrSet.member", "MemberShape.target"}, ["Member"]),
             ("map key", {K["Map"], "Map.key", "MemberShape.target"}, ["Key"]),
             ("map value", {K["Map"], "Map.value", "MemberShape.target"}, ["value"]),
             ("metadata", {"Model.metadata"}, []),
             ("smithy version", {"Model.smithy_version"}, []),
             ("operation input", {"Operation.input"}, ["Input"]),
             ("operation output", {"Operation.output"}, ["Output"]),
             ("operation errors", {"Operation.errors"}, []),
             ("service version", {"Service.version"}, []),
             ("service operations", {"Service.operations"}, []),
             ("service resources", {"Service.resources"}, []),
             ("service renames", {"Service.renames"}, []),
             ("resource operations", {"Resource.operations"}, []),
             ("resource collection operations", {"Resource.collection_operations"}, []),
             ("resource resources", {"Resource.resources"}, [])]
    rows_ += [(f"resource {x}", {f"Resource.{x}"}, [x]) for x in LIFE]
    rows_ += [(f"{k.lower()} {w}", {K[k], "StructureOrUnion.members", fld}, []) for k in ("Structure", "Union")
              for w, fld in (("members", "MemberShape.id"), ("targets", "MemberShape.target"))]
    rows_ += [(f"{n} traits", {fld, "MemberShape.traits"}, []) for n, fld in
              (("list member", K["List"]), ("set member", K["Set"]), ("map key", "Map.key"), ("map value", "Map.value"),
               ("structure member", K["Structure"]), ("union member", K["Union"]))]
    rows_ = [(nm, need | {"StructureOrUnion.members"} if need & {K["Structure"], K["Union"]} else need, ws) for nm, need, ws in rows_]
    docs = [e for e in evs if e.name.rsplit("::", 1)[-1] == "write_document"]
    final = set().union(*[fields_of(v) for e in docs for v in e.args], set())
    cx.req(docs, "document/written", cx.fnat(f), "no document is written")
    refs = {"Service.operations", "Service.resources", "Resource.operations", "Resource.collection_operations", "Resource.resources",
            "Operation.input", "Operation.output", "Operation.errors", "Map.key", "Map.value"} | {f"Resource.{x}" for x in LIFE}
    LF = {f"Resource.{x}" for x in LIFE}
    # one lifecycle operation at a time, so that what is asked of the others cannot hide behind what is asked of it
    none = mk(0, frozenset(), (), frozenset([("v", "Option", "None", 0)]))
    only = {}
    for x in LIFE:
        ov = {}
        for o in LIFE:
            if o != x:
                ov[f"Resource::{o}"] = lambda *a: none
                ov[f"Resource::has_{o}"] = lambda *a: const_val(False)
        only[x] = [e for e in cx.interp(sink=is_block, override=ov).run(f)[1] if is_block(e.name) and len(e.args) > 1]

    def exists(a, need):
        """Asks for the presence of the content, or of what it is in."""
        if not ((a[0] == "var" and a[1] == "Option" and a[2] == frozenset(["Some"])) or (a[0] == "b" and a[1] == "is_empty" and not a[3])):
            return False
        of = atom_fields(a) & (refs | {"ListOrSet.member", "StructureOrUnion.members", "Service.renames", "Service.version",
                                       "MemberShape.traits", "Model.metadata"})
        return bool(of & need)
    n = 0
    for name, need, ws in rows_:
        key = f"document/{name}"
        of = next((only[x] for x in LIFE if f"Resource.{x}" in need), blocks)
        good = [e for e in of if need <= body(e) and all(has_word(words(e), w) or has_word(words(e), w.lower()) for w in ws)]
        if need & refs:
            # its own content, not that of a sibling
            alone = [e for e in good if not (body(e) & refs) - need]
            good = alone or good
        if not cx.req(good, key, cx.fnat(f), f"{sorted(need)} is never added to the document" + (f" as {ws[0]}" if ws else "")):
            continue
        n += 1
        left = cover(cx, [(need | {"TopLevelShape.body", "Model.metadata"}, ats(e)) for e in good],
                     lambda a, o: exists(a, need) or (not (name in ("metadata", "smithy version") and "Model.shapes" in atom_fields(a)) and
                                                      (guard_ok(a, o) or implied(a, o) or extra(a, o))), lambda nm: variants(cx, nm))
        cx.req(not left, key + "/always", cx.at(good[0]), f"added only if {'; '.join(map(gtext, left))}")
        lz = set.intersection(*[set().union(*[cut(v, ("filter", "pop", "replace"), filt_ok) for v in e.args[1:]]) for e in good])
        cx.req(not lz, key + "/whole", cx.at(good[0]), f"the content passes through {sorted(lz)}")
        cx.req(need <= final or not docs, key + "/reaches", cx.at(good[0]), "what is added never reaches the document that is written")
        for x in ws if name.split(" ")[-1] in LIFE and name.startswith("resource ") else ():
            wrong = [e for e in blocks if need <= body(e) and not (body(e) & refs) - need and strs_in(words(e), LIFE) - {x}]
            cx.req(not wrong, key + "/name", cx.at((wrong or good)[0]), f"the {x} operation is called {sorted(strs_in(words(wrong[0]), LIFE)) if wrong else ''}")
    cx.floor("elements of a document", n, 25)
    # headings
    heads = []
    for e in evs:
        if e.name.rsplit("::", 1)[-1] == "format" or is_block(e.name):
            for v in e.args:
                t = Text(e, v)
                m = re.search(rf"(?P<a>{S})\s*\((?P<k>[^()]*)\)", t.text)
                if m and t.inside(m, "k") and any("TopLevelShape.id" in fields_of(s) for s in t.inside(m, "a")):
                    heads.append((t, t.inside(m, "k")[0]))
    if cx.req(heads, "document/heading", cx.fnat(f), "no heading names a shape and its kind"):
        for t, s in heads:
            for c, g in [x for x in ((y[1], atoms(y[2])) for y in s.T if y[0] == "c")]:
                for k in K:
                    if admits([a for a in list(g) + t.atoms() if a[0] != "exit"], "ShapeKind", k) and any(a[0] == "var" and a[1] == "ShapeKind" for a in g):
                        cx.req(c == k.lower(), f"document/heading/{k}", cx.at(t.e), f"a {k} is headed as `{c}`")
            cx.req("ShapeKind::Simple.0" in fields_of(s) and {k.lower() for k in K} <= strs(s), "document/heading/kinds", cx.at(t.e),
                   f"a kind of shape has no name in the headings, only {sorted(strs(s))[:12]}")
    # documentation, traits
    for own, fld in (("TopLevelShape", "TopLevelShape.traits"), ("MemberShape", "MemberShape.traits")):
        doc = [e for e in blocks if {fld, "Value::String.0"} <= body(e) and "Value::Object.0" not in body(e) and "paragraph" in e.name]
        key = f"document/{own} documentation"
        if cx.req(doc, key, cx.fnat(f), "the documentation trait becomes no paragraph"):
            for a_ in doc:
                bad = [a for a in ats(a_) if a[0] == "b" and atom_fields(a) & {"Value::String.0"}]
                cx.req(not bad, key + "/always", cx.at(a_), f"written only if {'; '.join(map(gtext, bad))}")
                lz = set().union(*[cut(v, ("filter", "pop"), filt_ok) for v in a_.args[1:]])
                cx.req(not lz, key + "/whole", cx.at(a_), f"the text passes through {sorted(lz)}")
        tb = [e for e in blocks if fld in body(e) and e.name.rsplit("::", 1)[-1] in ("push", "extend", "add_row")]
        for e in tb:
            bad = [a for a in ats(e) if a[0] == "b" and a[1] not in ("eq", "is_empty") and fld in atom_fields(a)]
            cx.req(not bad, f"document/{own} traits/always", cx.at(e), f"a trait is shown only if {'; '.join(map(gtext, bad))}")
        for v in ("String", "Number", "Boolean"):
            cx.req(any(f"Value::{v}.0" in body(e) for e in tb), f"document/{own} traits/{v}", cx.fnat(f), f"the Value::{v} of a trait is not in the table")
            peek = [e for e in tb if f"Value::{v}.0" not in body(e) and any(a[0] == "b" and f"Value::{v}.0" in atom_fields(a) for a in ats(e))]
            cx.req(not peek, f"document/{own} traits/{v} always", cx.at(peek[0]) if peek else "", f"whether the Value::{v} of a trait is shown depends on what it is")
            for e in tb:
                lz = set().union(*[cut(x, ("filter", "pop"), lambda a: not atom_fields(a) & {"Value::String.0", "Value::Number.0", "Value::Boolean.0"}) for x in e.args[1:]]) - {"Cell::skip"} if f"Value::{v}.0" in body(e) else set()
                cx.req(not lz, f"document/{own} traits/{v} whole", cx.at(e), f"the value passes through {sorted(lz)}")
    # links to external documentation, paths of nested values
    links = [e for e in blocks if {"TopLevelShape.traits", "Value::Object.0"} <= body(e) and "paragraph" in e.name]
    cx.req(links, "document/external documentation", cx.fnat(f), "the links to external documentation are not written")
    for e in links:
        cx.req("Value::String.0" in body(e), "document/external documentation/url", cx.at(e), "the URL is written as a value, in quotes")
        cx.req(not any(("hashorder",) in labels(v) for v in e.args[1:]) or any(x.rsplit("::", 1)[-1].startswith("sort") for v in e.args[1:] for x in xs(v)),
               "document/external documentation/order", cx.at(e), "the links are in the order of a hash map")
    # the path of a nested value
    for g in cx.db.fns.values():
        if not g.name.startswith("atelier_describe::document::") or "{closure" in g.name or g.argc < 2 or \
                not any("values::Value" in loc["s"] for loc in g.locals[1:g.argc + 1]):
            continue
        gip = cx.interp(sink=lambda s, me=g.short: s == me)
        for e in gip.run(g)[1]:
            if e.name != g.short:
                continue
            for loc, v in zip(g.locals[1:g.argc + 1], e.args):
                if "string::String" in loc["s"] and "&mut" not in loc["s"]:
                    i = next(k for k, w in enumerate(e.args) if w is v)
                    nm = ("arg", loc.get("n") or f"#{i + 1}")
                    cx.req(any(nm in labset(w.AL) for w in e.args), f"document/path/{nm[1]}", cx.at(e),
                           f"the path of a nested trait value forgets `{nm[1]}` of the value it is in")
    # panics
    ip = cx.interp(panics=True)
    _, pev, _ = ip.run(f)
    seen = 0
    for e in pev:
        if e.kind != "panic" or not e.args:
            continue
        seen += 1
        bad = [t for t in e.args[0].T if t[0] == "v" and t[2] in ("None", "Err")]
        if fields_of(e.args[0]) & {"TopLevelShape.traits", "MemberShape.traits", "Model.metadata"}:
            cx.req(not bad, "document/panic", cx.at(e), f"panics for some trait values: {[gtext(a)[:80] for t in bad for a in atoms(t[3])][:3]}")
    cx.counts["possible panics looked at"] = seen


def strs_in(ws, names):
    return {x for x in names if has_word(ws, x)}
