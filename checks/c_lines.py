"""L..: the line-oriented form."""
import re

from core import *
from models import WRITES_OK

KINDS = {"List": "list", "Set": "set", "Map": "map", "Structure": "structure", "Union": "union", "Service": "service",
         "Operation": "operation", "Resource": "resource", "Unresolved": "unresolved"}
SLOT = "\0"
# (name, kind, text after `{kind}::{id}`, fields of its slots)
ROWS = [(k, v, "", []) for k, v in KINDS.items()] + [
    ("service version", "service", "::version<=\0", [{"Service.version"}]),
    ("service operations", "service", "::operation=>\0", [{"Service.operations"}]),
    ("service resources", "service", "::resource=>\0", [{"Service.resources"}]),
    ("service renames", "service", "::rename::\0<=\0", [{"Service.renames"}, {"Service.renames"}]),
    ("operation input", "operation", "::input=>\0", [{"Operation.input"}]),
    ("operation output", "operation", "::output=>\0", [{"Operation.output"}]),
    ("operation errors", "operation", "::error=>\0", [{"Operation.errors"}]),
    ("resource identifiers", "resource", "::identifier::\0=>\0", [{"Resource.identifiers"}, {"Resource.identifiers"}]),
    ("resource create", "resource", "::create=>\0", [{"Resource.create"}]),
    ("resource put", "resource", "::put=>\0", [{"Resource.put"}]),
    ("resource read", "resource", "::read=>\0", [{"Resource.read"}]),
    ("resource update", "resource", "::update=>\0", [{"Resource.update"}]),
    ("resource delete", "resource", "::delete=>\0", [{"Resource.delete"}]),
    ("resource list", "resource", "::list=>\0", [{"Resource.list"}]),
    ("resource operations", "resource", "::operation=>\0", [{"Resource.operations"}]),
    ("resource collection operations", "resource", "::collection_operation=>\0", [{"Resource.collection_operations"}]),
    ("resource resources", "resource", "::resource=>\0", [{"Resource.resources"}]),
]
OWNERS = [("list member", "list", {"ListOrSet.member", "ShapeKind::List.0"}),
          ("set member", "set", {"ListOrSet.member", "ShapeKind::Set.0"}),
          ("map key", "map", {"Map.key"}), ("map value", "map", {"Map.value"}),
          ("structure members", "structure", {"ShapeKind::Structure.0"}),
          ("union members", "union", {"ShapeKind::Union.0"})]
PART = {"Service", "Operation", "Resource", "ListOrSet", "Map", "StructureOrUnion", "MemberShape"}
NEST = r"(?:\{\0\}=|\[\0\]=)"
LEAF = r'(?:\(\)|\[\]|\{\}|"\0"|\0)'
VALUE = re.compile(rf"({NEST}*)({LEAF})")
LEAVES = {"None": "()", "Array": "[]", "Object": "{}"}
ESCAPES = ("escape_debug", "escape_default", "replace", "to_escaped_string")


def pieces(v, depth=0):
    """The text `v` as (text with a mark per computed part, [the parts]); None when its order is not known."""
    ps = sorted(((int(n[1:]), x) for n, x in v.F if n[:1] == "#" and n[1:].isdigit()), key=lambda t: t[0])
    if ps and depth < 12:
        text, slots = "", []
        for _, x in ps:
            t, s = pieces(x, depth + 1)
            text += t
            slots += s
        return text, slots
    cs = set(strs(v))
    if not fields_of(v) and len(cs) == 1:
        return next(iter(cs)), []
    return SLOT, [v]


class Line:
    def __init__(self, e, v):
        self.e, self.v = e, v
        self.text, self.slots = pieces(v)
        self.kind = self.kslot = None
        self.rest = self.meta = None
        m = re.match(r"(\w+)::\0", self.text)
        if m and m.group(1) == "meta":
            self.meta = self.text[m.end():]
            self.rs = self.slots[1:]
        elif m and "TopLevelShape.id" in fields_of(self.slots[0]):
            self.kind, self.rest, self.rs = m.group(1), self.text[m.end():], self.slots[1:]
        elif self.text.startswith("\0::\0") and "TopLevelShape.id" in fields_of(self.slots[1]):
            self.kslot, self.rest, self.rs = self.slots[0], self.text[4:], self.slots[2:]
        elif self.text.startswith("\0::\0") and "Model.metadata" in fields_of(self.slots[1]) and \
                {"meta"} == set(strs(self.slots[0])):
            self.meta, self.rs = self.text[4:], self.slots[2:]

        # parts whose inner order is not known: pieces of text and content in one
        self.soft = [s for s in self.slots if s is not self.kslot and strs(s) and (fields_of(s) or len(set(strs(s))) > 1)]

    def tokens(self):
        return [c for c, _ in text_parts(self.v)] + [c for c in strs(self.v)] + [self.text.replace(SLOT, " ")]

    def has(self, rest, want=()):
        """Soft match: the words and the content are there, in an order that is not known."""
        if not self.soft:
            return False
        tk = self.tokens()
        return all(has_word(tk, w) for w in re.findall(r"\w+|::|=>|<=", rest)) and set().union(*want, set()) <= fields_of(self.v)

    def atoms(self):
        return [a for a in self.e.atoms() if a[0] != "exit"]


def says_empty(a):
    """Is this the question whether a collection is empty, answered yes?"""
    if a[0] == "var":
        return a[1] == "Option" and a[2] == frozenset(["None"])
    if a[0] == "int":
        return True
    if a[0] != "b":
        return False
    if a[1] == "is_empty":
        return a[3]
    t = gtext(a)
    yes = {("eq", "0"): True, ("ne", "0"): False, ("lt", "1"): True, ("le", "0"): True, ("gt", "0"): False, ("ge", "1"): False}
    n = re.search(r"\{i:(\d+)\}", t)
    return "len" in t and n is not None and yes.get((a[1], n.group(1))) == a[3]


def sound(ats):
    """Can the conditions on one value hold together?"""
    by = {}
    for a in ats:
        if a[0] == "var" and a[1] == "Value":
            k = (a[1], a[3])
            by[k] = by.get(k, a[2]) & a[2]
    return all(by.values())


def whole_id(s):
    ps = {x for x in fields_of(s) if x.startswith("ShapeID.")}
    return not ps or {"ShapeID.namespace", "ShapeID.shape_name"} <= ps


def fit(slots, want):
    if len(slots) == 2 and want[0] == want[1]:
        # the key of a map entry, then its value
        if ("mk",) not in labels(slots[0]) or ("mk",) in labels(slots[1]):
            return False
    return len(slots) == len(want) and all(w <= fields_of(s) for s, w in zip(slots, want)) and all(map(whole_id, slots))


@prop("L01")
def l01(cx):
    db = cx.db
    f = db.find("lines::make_line_oriented_form")
    cx.rule("Every line pushed into the result of make_line_oriented_form is reconstructed symbolically (the pieces of its "
            "text in order, through every helper): it is one of the documented productions, with the model's own content "
            "in each slot, unshortened, under conditions that only ask whether that content exists; all of a map's "
            "hash order is gone from the result; every line is written.")
    ip = cx.interp(sink=lambda s: s.rsplit("::", 1)[-1] in ("push", "push_back", "insert", "extend"))
    ret, evs, _ = ip.run(f)
    lines = []
    for e in evs:
        if len(e.args) > 1:
            ln = Line(e, e.args[1])
            if (ln.rest is not None or ln.meta is not None) and sound(ln.atoms()):
                lines.append(ln)
    cx.floor("symbolic lines", len(lines), 40)
    used = set()

    def okatoms(own):
        return lambda a, o: guard_ok(a, o | own) or (a[0] == "var" and a[1] == "ShapeKind")

    def present(key, cands, what):
        if not cx.req(cands, key, cx.fnat(f), f"no line {what} is ever made"):
            return
        for c in cands:
            used.add(id(c))
        left = cover(cx, [(fields_of(c.v) | {"TopLevelShape.body"}, c.atoms()) for c in cands], okatoms(set()),
                     lambda nm: variants(cx, nm))
        cx.req(not left, key + "/always", cx.at(cands[0].e), f"made only if {'; '.join(map(gtext, left))}")
        lz = set()
        for c in cands:
            lz |= cut(c.v, ESCAPES if any(x for x in c.slots if "Value::String.0" in fields_of(x)) else ())
        cx.req(not lz, key + "/whole", cx.at(cands[0].e), f"the content passes through {sorted(lz)}")

    def kind_ok(c, kind):
        if c.kind is not None:
            return c.kind == kind
        ct = [(t[1], list(atoms(t[2]))) for t in c.kslot.T if t[0] == "c"]
        for v, w in KINDS.items():
            if w == kind:
                got = {x for x, a in ct if admits(a + c.atoms(), "ShapeKind", v)}
                return got == {w} or (w in got and not any(admits(a, "ShapeKind", o) != admits(a, "ShapeKind", v)
                                                           for _, a in ct for o in KINDS if KINDS[o] in got))
        return "ShapeKind::Simple.0" in fields_of(c.kslot)
    simple = [c for c in lines if c.rest == "" and c.kslot is not None and "ShapeKind::Simple.0" in fields_of(c.kslot)]
    present("Simple", simple, "for a simple shape")
    for name, kind, rest, want in ROWS:
        rests = {rest, '::version<="\0"'} if name == "service version" else {rest}
        c = [c for c in lines if c.rest is not None and kind_ok(c, kind)
             and ((c.rest in rests and fit(c.rs, want)) or (rest and c.has(rest, want)))]
        if not rest:
            c = [x for x in c if {v for v in KINDS if admits(x.atoms(), "ShapeKind", v)} & {name}]
        present(name, c, f"`{kind}::{{id}}{rest.replace(SLOT, '{}')}` of {sorted(set().union(*want))}" if want
                else f"`{kind}::{{id}}`")
    ver = [c for c in lines if c.rest and re.fullmatch('::version<="?\0"?', c.rest) and c.kind == "service"]
    if ver:
        bad = [c for c in ver if (("fmt", "debug") in labset(c.rs[-1].AL)) == c.rest.endswith('"')]
        cx.req(not bad, "service version/quoted", cx.at(ver[0].e), "the version is not written between quotes")
    for name, kind, own in OWNERS:
        want = [{"MemberShape.id"} | own, {"MemberShape.target"} | own]
        c = [c for c in lines if c.rest is not None and kind_ok(c, kind)
             and ((c.rest == "::\0=>\0" and fit(c.rs, want)) or c.has("::=>", want))]
        present(name, c, f"`{kind}::{{id}}::{{member}}=>{{target}}`")
    # traits and metadata
    nv = 0
    places = [("metadata", None, None, {"Model.metadata"})]
    places += [(f"{w} traits" if w else "simple traits", w, "::trait::\0", {"TopLevelShape.traits"})
               for w in list(KINDS.values()) + [""]]
    places += [(f"{n} traits", k, "::\0::trait::\0", {"MemberShape.traits"} | own) for n, k, own in OWNERS]
    for name, kind, rest, own in places:
        if kind is None:
            here = [(c, c.meta) for c in lines if c.meta is not None]
        else:
            here = []
            for c in lines:
                if c.rest is None or not kind_ok(c, kind) or not c.rest.startswith(rest):
                    continue
                k = rest.count(SLOT)
                if len(c.rs) >= k and own <= fields_of(c.rs[k - 1]) and (k == 1 or "MemberShape.id" in fields_of(c.rs[0])) \
                        and whole_id(c.rs[k - 1]) and ("mk",) in labels(c.rs[k - 1]):
                    here.append((c, c.rest[len(rest):]))
            bare = [c for c, t in here if t == ""]
            present(name + " without a value", [c for c in bare], f"`{rest.replace(SLOT, '{}')}`")
        got, nested = {}, {}
        for c, t in here:
            if not t.startswith("<="):
                continue
            m = VALUE.fullmatch(t[2:])
            if not m:
                continue
            used.add(id(c))
            va = [a for a in c.atoms() if a[0] == "var" and a[1] == "Value"]
            if not va:
                continue
            leaf, last = m.group(2), va[-1]
            if leaf in LEAVES.values():
                v = next(k for k, x in LEAVES.items() if x == leaf)
                right = last[2] == frozenset([v])
            else:
                fs = fields_of(c.slots[-1])
                v = "Boolean" if set(strs(c.slots[-1])) == {"true", "false"} else next((k for k in ("Boolean", "Number", "String") if f"Value::{k}.0" in fs), None)
                right = v is not None and last[2] == frozenset([v])
            if not cx.req(right, f"{name}/leaf {leaf.replace(SLOT, 'text')}", cx.at(c.e),
                          f"written for Value::{'/'.join(sorted(last[2]))}"):
                continue
            nv += 1
            if v == "String":
                dbg = ("fmt", "debug") in labset(c.slots[-1].AL)
                cx.req(dbg != (leaf == '"\0"'), f"{name}/string quoted", cx.at(c.e),
                       "a string is written without quotes" if not dbg else "a string is quoted twice")
            if m.group(1):
                odd = {x.rsplit("::", 1)[-1] for sl in c.slots for x in xs(sl)} & {"rev", "skip", "step_by", "cycle"}
                cx.req(not odd or m.group(1)[0] != "[", f"{name}/index", cx.at(c.e),
                       f"the index written is not that of the element: {sorted(odd)}")
                first = "Object" if m.group(1)[0] == "{" else "Array"
                nested.setdefault(frozenset([first]), set()).add(v)
                cx.req(any(a[2] == frozenset([first]) for a in va), f"{name}/nested in {first}", cx.at(c.e),
                       f"the parts of a Value::{'/'.join(sorted(va[0][2]))} are written as those of a {first}")
            else:
                got.setdefault(v, []).append(c)
        for v in ("None", "Boolean", "Number", "String"):
            c = got.get(v, [])
            key = f"{name}/{v}"
            if cx.req(c, key, cx.fnat(f), f"no line for a Value::{v}"):
                def ok(a, o):
                    return guard_ok(a, o) or (a[0] == "var" and (a[1] == "ShapeKind" or (a[1] == "Value" and a[2] == frozenset([v]))))
                left = cover(cx, [(fields_of(x.v) | {"TopLevelShape.body"} | own, x.atoms()) for x in c], ok, lambda nm: variants(cx, nm))
                cx.req(not left, key + "/always", cx.at(c[0].e), f"made only if {'; '.join(map(gtext, left))}")
                lz = set()
                for x in c:
                    lz |= cut(x.v, ESCAPES if v == "String" else ())
                cx.req(not lz, key + "/whole", cx.at(c[0].e), f"the content passes through {sorted(lz)}")
        for v in ("Array", "Object"):
            c = got.get(v, [])
            if cx.req(c, f"{name}/empty {v}", cx.fnat(f), f"no line for an empty Value::{v}"):
                bad = [x for x in c if not any(says_empty(a) for a in x.atoms())]
                cx.req(not bad, f"{name}/empty {v}/only", cx.at(c[0].e), "the mark of an empty value is written for any")
            cx.req(len(nested.get(frozenset([v]), ())) >= 4, f"{name}/parts of {v}", cx.fnat(f),
                   f"the parts of a Value::{v} are not written ({sorted(nested.get(frozenset([v]), ()))})")
    cx.floor("values", nv, 60)
    for c in lines:
        if id(c) not in used and not c.soft:
            cx.bad(f"undocumented/{c.text.replace(SLOT, '{}')}", cx.at(c.e),
                   f"`{c.text.replace(SLOT, '{}')}` (with {sorted(x for s in c.slots for x in fields_of(s) if struct_of(x) in PART)}) is not one of the documented lines")
    # order
    cx.req(("hashorder",) not in labset(ret.AL), "sorted", cx.fnat(f), "the lines come out in the order of a hash map")
    need = {"Model.metadata", "Model.shapes"}
    cx.req(need <= fields_of(ret), "returned", cx.fnat(f), f"{sorted(need - fields_of(ret))} is not in the result")
    # ---- the writer
    w = db.find("LineOrientedWriter as ModelWriter::write")
    ip = cx.interp(sink=is_write, override=WRITES_OK)
    _, wev, _ = ip.run(w)
    ok = []
    for e in wev:
        if e.name.startswith("String::"):
            continue
        for v in e.args[1:]:
            if "Model.metadata" in fields_of(v) or "Model.shapes" in fields_of(v):
                ok.append((e, v))
    cx.req(ok, "writer/lines", cx.fnat(w), "the lines are not written")
    if ok:
        nl = any("\n" in c for e in wev for v in e.args[1:] for c in set(parts_of(e)) | set(strs(v)) | ({"\n"} if 10 in ints_bits(v.AL) else set()))
        cx.req(nl, "writer/newline", cx.at(ok[0][0]), "lines are not ended")
        bad = [gtext(a) for e, _ in ok for a in e.atoms() if a[0] in ("b", "int")]
        cx.req(not bad, "writer/every", cx.at(ok[0][0]), f"a line is written only if {bad[:2]}")
        lz = set().union(*[cut(v) for _, v in ok]) - {"Vec::sort"}
        cx.req(not lz, "writer/whole", cx.at(ok[0][0]), f"lines pass through {sorted(lz)}")
        ho = [v for _, v in ok if ("hashorder",) in labset(v.AL)]
        cx.req(not ho, "writer/order", cx.at(ok[0][0]), "the lines are written in hash order")
