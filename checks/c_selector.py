"""Q..: selectors: reading, printing and building them."""
import os

import pest
from core import *
from facts import REPO
from absint import mk, bit, E
from models import ID_PARSERS
from checks.c_smithy import float_marks
from checks.c_builder import run_named, argn, variant_terms, fn_named, joins, BOT, some_of

VAL = "selector:Value"
SHAPE_TYPES = {"Any": "*", "Number": "number", "SimpleType": "simpleType", "Collection": "collection", "Blob": "blob",
               "Boolean": "boolean", "Document": "document", "String": "string", "Integer": "integer", "Byte": "byte",
               "Short": "short", "Long": "long", "Float": "float", "Double": "double", "BigDecimal": "bigDecimal",
               "BigInteger": "bigInteger", "Timestamp": "timestamp", "List": "list", "Set": "set", "Map": "map",
               "Structure": "structure", "Union": "union", "Service": "service", "Operation": "operation",
               "Resource": "resource", "Member": "member"}
COMPARATORS = {"StringEqual": "=", "StringNotEqual": "!=", "StringStartsWith": "^=", "StringEndsWith": "$=",
               "StringContains": "*=", "StringExists": "?=", "NumberGreaterThan": ">", "NumberGreaterOrEqual": ">=",
               "NumberLessThan": "<", "NumberLessOrEqual": "<=", "ProjectionEqual": "{=}", "ProjectionNotEqual": "{!=}",
               "ProjectionSubset": "{<}", "ProjectionProperSubset": "{<<}"}
# what is made of which part of the source: (made, rule, [alternatives it could be confused with])
MADE = {
    "SelectorExpression::ShapeType": "selector_shape_types",
    "SelectorExpression::AttributeSelector": "selector_attr",
    "SelectorExpression::ScopedAttributeSelector": "selector_scoped_attr",
    "SelectorExpression::Function": "selector_function",
    "SelectorExpression::VariableDefinition": "selector_variable_set",
    "SelectorExpression::VariableReference": "selector_variable_get",
    "NeighborSelector::ForwardUndirected": "selector_forward_undirected_neighbor",
    "NeighborSelector::ReverseUndirected": "selector_reverse_undirected_neighbor",
    "NeighborSelector::ForwardDirected": "selector_forward_directed_neighbor",
    "NeighborSelector::ReverseDirected": "selector_reverse_directed_neighbor",
    "NeighborSelector::ForwardRecursiveDirected": "selector_forward_recursive_neighbor",
    "KeyPathSegment::Value": "selector_value",
    "KeyPathSegment::FunctionProperty": "selector_function_property",
    "ScopedValue::ContextValue": "selector_context_value",
    VAL + "::Text": "selector_text",
    VAL + "::Number": "number",
    VAL + "::RootShapeIdentifier": "identifier",
    VAL + "::AbsoluteRootShapeIdentifier": "absolute_root_shape_id",
}
EXPRESSIONS = {r for r in MADE.values() if r.startswith("selector_") and r not in
               ("selector_value", "selector_function_property", "selector_context_value", "selector_text")}
OUTER = {"selector_function", "selector_variable_set"}
VALUES = {"selector_text", "number", "absolute_root_shape_id"}
# the text each part of a selector must carry: (type, field) -> rules, one of which
CARRIES = {
    ("Key", "identifier"): [{"identifier"}], ("Key", "path"): [{"number"}, {"selector_text"}, {"absolute_root_shape_id"}],
    ("AttributeSelector", "key"): [{"identifier"}],
    ("AttributeComparison", "rhs_values"): [{"number"}, {"selector_text"}, {"absolute_root_shape_id"}],
    ("ScopedAttributeAssertion", "lhs_value"): [{"number"}, {"selector_text"}, {"absolute_root_shape_id"}],
    ("ScopedAttributeAssertion", "rhs_values"): [{"number"}, {"selector_text"}, {"absolute_root_shape_id"}],
    ("ScopedAttributeSelector", "assertions"): [{"number"}, {"selector_text"}],
    ("Function", "name"): [{"identifier"}], ("Function", "arguments"): [{"number"}, {"selector_text"}],
    ("VariableDefinition", "name"): [{"identifier"}], ("VariableDefinition", "selector"): [{"number"}, {"selector_text"}],
    ("VariableReference", "name"): [{"identifier"}],
    ("NeighborSelector::ForwardDirected", 0): [{"identifier"}], ("NeighborSelector::ReverseDirected", 0): [{"identifier"}],
    (VAL + "::Text", 0): [{"selector_text"}], (VAL + "::Number", 0): [{"number"}],
    (VAL + "::RootShapeIdentifier", 0): [{"identifier"}],
    (VAL + "::AbsoluteRootShapeIdentifier", 0): [{"absolute_root_shape_id"}],
    ("KeyPathSegment::FunctionProperty", 0): [{"identifier", "selector_function_property"}],
}


def is_rule(a):
    return a[0] == "var" and a[1].rsplit(":", 1)[-1] == "Rule"


def rules_of(ats):
    """The rules known to hold of the parts of the source on the way."""
    out = set()
    for a in ats:
        if is_rule(a) and len(a[2]) == 1:
            out |= a[2]
    return out


def txts(v):
    return set().union(frozenset(), *[l[1] for l in labels(v) if isinstance(l, tuple) and l[0] == "txt"])


CUTS = {"take", "skip", "filter", "take_while", "skip_while", "step_by", "map_while", "filter_map", "dedup", "truncate", "rev",
        "nth", "last"}


def selector_reader(cx):
    db = cx.db

    def as_str(ip, fr, st, avs, args, short):
        keep = 0
        for l in labels(avs[0]) if avs else ():
            if isinstance(l, tuple) and (l[0] == "x" and l[1].rsplit("::", 1)[-1] in CUTS):
                keep |= bit(l)
        return mk(bit(("txt", frozenset(rules_of([unwrap_exit(a)[0] for a in atoms(fr.curG)])))) | keep)

    def tree(ip, fr, st, avs, args, short):
        return mk(0, E, (("Err", mk(0)), ("Ok", mk(bit(("tree",))))),
                  frozenset([("v", "Result", "Ok", 0), ("v", "Result", "Err", 0)]))
    f = [x for x in db.fns.values() if x.file.startswith("atelier-smithy/") and x.short.rsplit("::", 1)[-1] == "parse_selector"]
    if not f:
        raise CheckError("the function `parse_selector` is gone")
    adts = {k.split("::")[0] for k in MADE} | {a for a, _ in CARRIES if "::" not in a} | {"Selector", "ShapeType", "Comparator"}
    ip = cx.interp(under=True, agg=adts, fields=lambda n: n.split(".")[0] in adts,
                   override=dict(ID_PARSERS, **{"SelectorParser as Parser::parse": tree, "Pair::as_str": as_str}))
    ret, evs, _ = ip.run(f[0])
    return f[0], ip, ret, [e for e in evs if "as Clone::clone" not in db.short(e.fn)]


def eq_strs(ats, want_txt=None):
    out = set()
    for a in ats:
        b, ex = unwrap_exit(a)
        if b[0] == "b" and b[1] == "eq" and b[3] is True:
            ls = atom_labs(b)
            if want_txt is None or any(isinstance(l, tuple) and l[0] == "txt" and l[1] & want_txt for l in ls):
                out |= {l[1] for l in ls if isinstance(l, tuple) and l[0] == "s"}
    return out


def soft(ats):
    """Conditions that are neither errors nor the shape of the source."""
    out = []
    for a in ats:
        b, ex = unwrap_exit(a)
        if ex is not None or is_rule(b) or b[0] == "var" and b[1] in ("Option", "Result", "ControlFlow"):
            continue
        if presence(a) or b[0] == "b" and b[1] == "is_empty":
            continue
        if b[0] == "b" and ("tree",) in atom_labs(b):
            continue
        if b[0] == "b" and b[1] == "eq" and any(isinstance(l, tuple) and l[0] == "s" for l in atom_labs(b)):
            continue
        out.append(a)
    return out


@prop("Q01", "interprocedural MIR dataflow from the parse tree to the selector, joined with the parsed grammar", "other")
def q01(cx):
    f, ip, ret, evs = selector_reader(cx)
    at = cx.fnat(f)
    cx.rule("Every part of a selector made while parsing (interprocedural dataflow over MIR) is traced to the grammar rule it "
            "is made under and the text it carries; words and comparators by the table; no alternative of the grammar hides "
            "a later one; every visible rule of the grammar is handled; no result is ignored.")
    aggs = {}
    for e in evs:
        if e.kind == "agg":
            aggs.setdefault(e.name, []).append(e)
    n = 0
    for made, rule_ in MADE.items():
        es = [e for e in aggs.get(made, []) if rules_of(e.atoms())]
        n += len(es)
        cx.req(es, f"selector-parser/{made}", at, f"no {made} is ever made of a {rule_}")
        for e in es:
            rs = rules_of(e.atoms())
            if made.startswith(("SelectorExpression", "NeighborSelector")):
                rs = rs & EXPRESSIONS
                ok = rs - OUTER <= {rule_} and rule_ in rs
            elif made.startswith(VAL):
                rs = rs & (VALUES | {rule_})
                ok = rs - {"identifier"} <= {rule_} and rule_ in rs
            else:
                ok = rule_ in rs
            cx.req(ok, f"selector-parser/{made}/only", cx.at(e), f"a {made} is made of a {sorted(rs)} instead of a {rule_}")
            sg = [a for a in soft(e.atoms()) if not (made == VAL + "::Number")]
            cx.req(not sg, f"selector-parser/{made}/always", cx.at(e), f"a {rule_} is dropped unless {'; '.join(map(gtext, sg))}")
    for made in ("Key", "AttributeSelector", "AttributeComparison", "ScopedAttributeSelector", "ScopedAttributeAssertion",
                 "Function", "VariableDefinition", "VariableReference"):
        for e in aggs.get(made, []):
            sg = soft(e.atoms())
            cx.req(not sg, f"selector-parser/{made}/always", cx.at(e), f"it is dropped unless {'; '.join(map(gtext, sg))}")
    cx.floor("parts of selectors made", n, 20)
    # every field carries the text it should, whole
    for (adt, fld), alts in CARRIES.items():
        fi = field_index(cx, adt) if isinstance(fld, str) else {fld: fld}
        vs = [(e, e.args[fi[fld]]) for e in aggs.get(adt, []) if fi and fld in fi and fi[fld] < len(e.args)]
        if isinstance(fld, str):
            vs += [(e, e.args[0]) for e in evs if e.kind == "field" and e.name == f"{adt}.{fld}"]
        if not vs:
            continue
        have = set().union(*[txts(v) for _, v in vs])
        for alt in alts:
            cx.req(have & alt, f"selector-parser/{adt}.{fld}", cx.at(vs[0][0]),
                   f"the text of a {'/'.join(sorted(alt))} never reaches the {fld} of a {adt}")
        for e, v in vs:
            lz = lossy(v, {"str as Index::index", "String as Index::index", "str::trim_matches", "str::strip_prefix", "str::strip_suffix"})
            lz = {x for x in lz if not x.startswith("arithmetic")}       # the quotes, below
            cx.req(not lz, f"selector-parser/{adt}.{fld}/whole", cx.at(e), f"what is read passes through {sorted(lz)}")
    for (adt, fld), _ in CARRIES.items():
        fi = field_index(cx, adt) if isinstance(fld, str) else {}
        for e in aggs.get(adt, []):
            if fld in fi and fi[fld] < len(e.args):
                part = {x for x in xs(e.args[fi[fld]]) if x.endswith("Index::index") and not x.startswith(("str ", "String "))}
                cx.req(not part, f"selector-parser/{adt}.{fld}/part", cx.at(e), f"only part of what is read is kept ({sorted(part)})")
    for e in aggs.get(VAL + "::Text", []):
        cut_ = {str(i) for i in ints(e.args[0])} - {"1"}
        cx.req(not cut_, "selector-parser/text/quotes", cx.at(e), f"more or less than the quotes is cut off a text: {sorted(cut_)}")
    # the comparison is kept
    ws = writes_of(cx, evs, "AttributeSelector.comparison")
    cx.req(any("number" in txts(v) for _, v in ws), "selector-parser/AttributeSelector.comparison", at,
           "the comparison of an attribute selector is dropped")
    ws = writes_of(cx, evs, "ScopedAttributeSelector.key")
    cx.req(any("identifier" in txts(v) for _, v in ws),
           "selector-parser/ScopedAttributeSelector.key", at, "the key of a scoped attribute selector is dropped")
    for adt, r in (("AttributeComparison", "selector_attr_comparison"), ("ScopedAttributeAssertion", "selector_scoped_assertion")):
        fi = field_index(cx, adt)
        seen = set()
        for e in aggs.get(adt, []):
            for t in e.args[fi["case_insensitive"]].T:
                if t[0] == "c":
                    rs = rules_of(e.atoms()) | rules_of([unwrap_exit(a)[0] for a in atoms(t[2])])
                    seen.add(t[1])
                    if t[1] is True:
                        cx.req("case_comparison_suffix" in rs, f"selector-parser/{adt}/case", cx.at(e),
                               "the comparison ignores case although the source does not say so")
                    else:
                        cx.req("case_comparison_suffix" not in rs, f"selector-parser/{adt}/case", cx.at(e),
                               "the comparison does not ignore case although the source says so")
        for e in evs:
            if e.kind == "field" and e.name == f"{adt}.case_insensitive":
                v = e.args[0]
                rs = rules_of(e.atoms())
                seen |= {t[1] for t in v.T if t[0] == "c"}
                for t in v.T:
                    if t[0] == "c" and t[1] is True and not rs:
                        gs = rules_of([unwrap_exit(a)[0] for a in atoms(t[2])])
                        cx.req("case_comparison_suffix" in gs, f"selector-parser/{adt}/case", cx.at(e),
                               "the comparison ignores case although the source does not say so")
        if seen:
            cx.req(seen == {True, False}, f"selector-parser/{adt}/case/both", at, f"case is always {seen}")
        # what makes a number a float
    homes = {e.fn for e in aggs.get(VAL + "::Number", []) if e.fn in cx.db.fns}
    float_marks(cx, homes, "selector-parser/number/float marks", at)
    # the comparator is the one of the text
    for adt, table, holders in (("Comparator", COMPARATORS, ("AttributeComparison", "ScopedAttributeAssertion")),
                                ("ShapeType", SHAPE_TYPES, ("SelectorExpression::ShapeType",))):
        for h in holders:
            fi = field_index(cx, h) if "::" not in h else {"comparator": 0}
            got = {}
            for e in aggs.get(h, []):
                v = e.args[fi["comparator"]]
                for t in v.T:
                    if t[0] == "v" and t[1] == adt:
                        got.setdefault(t[2], set()).update(
                            eq_strs(atoms(t[3]), {"selector_comparator"} if adt == "Comparator" else {"identifier"}))
            if not got:
                cx.ok(f"selector-parser/{h}/{adt}", at, "not resolved")
                continue
            for k, w in table.items():
                if k == "Any" and got.get(k) == set():
                    continue
                g = got.get(k)
                if g is None:
                    cx.bad(f"selector-parser/{h}/{adt}::{k}", at, f"`{w}` is never read as {k}")
                elif g - {"*"} or w != "*":
                    cx.req(g <= {w, "*"} if w == "*" else g == {w}, f"selector-parser/{h}/{adt}::{k}", at,
                           f"{k} is read from {sorted(g)} instead of `{w}`")
    from_str_table(cx, "Comparator", COMPARATORS)
    from_str_table(cx, "ShapeType", SHAPE_TYPES)
    # the grammar
    g = pest.Grammar(os.path.join(REPO, "atelier-smithy/src/selector.pest"))
    shadows(cx, g, "selector-grammar")
    lits = set()
    for r in g.reachable("selector_comparator"):
        w = g.literals(g.rules[r][1])
        lits |= w or set()
    cx.req(lits == set(COMPARATORS.values()), "selector-grammar/comparators", "atelier-smithy/src/selector.pest",
           f"the grammar and the comparators differ in {sorted(lits ^ set(COMPARATORS.values()))}")
    from checks.c_errors import error_flow
    keys = {k for k in ip.visited if k in cx.db.fns and cx.db.fns[k].file.startswith("atelier-smithy/")}
    cx.floor("results of the parser followed", error_flow(cx, keys, "selector-parser/error of "), 10)


def shadows(cx, g, what):
    """In an ordered choice, a word of an earlier alternative must not start one of a later alternative."""
    n = 0
    rel = os.path.relpath(g.path, REPO)
    for r, ln, alts in g.alternatives():
        ls = [g.literals(a) for a in alts]
        for i, a in enumerate(ls):
            for b in ls[i + 1:]:
                if a and b:
                    n += 1
                    hid = sorted((x, y) for x in a for y in b if y.startswith(x))
                    cx.req(not hid, f"{what}/{r}/hidden", f"{rel}:{ln} ({r})",
                           f"`{hid[0][1] if hid else ''}` is never read: `{hid[0][0] if hid else ''}` comes first")
    cx.floor("pairs of alternatives compared", n, 10)


def from_str_table(cx, adt, table):
    f = next((x for x in cx.db.fns.values() if x.short == f"{adt} as FromStr::from_str"), None)
    if f is None:
        raise CheckError(f"`{adt}` can no longer be parsed")
    ret, evs, _ = run_named(cx, f)
    ok = ret.get("Ok") or BOT
    got = {}
    for t in ok.T:
        if t[0] == "v" and t[1] == adt:
            got.setdefault(t[2], set()).update(eq_strs(atoms(t[3])))
    if not got:
        cx.ok(f"selector-words/{adt}", cx.fnat(f), "not resolved")
        return
    for k, w in table.items():
        cx.req(got.get(k) == {w}, f"selector-words/{adt}::{k}", cx.fnat(f),
               f"{adt}::{k} is read from {sorted(got.get(k, []))} instead of `{w}`")


# ------------------------------------------------------------------------------------------------ printing
def fld(n):
    return mk(bit(("fld", n)))


def val(adt, variant):
    return mk(0, E, ((f"{variant}.0", fld(variant)),), frozenset([("v", adt, variant, 0)]))


def const(c):
    return mk(0, E, (), frozenset([("c", c, 0)]))


def opt(n):
    return mk(0, E, (("Some.0", fld(n)), ("Some", fld(n))), frozenset([("v", "Option", "Some", 0)])) if n else \
        mk(0, E, (), frozenset([("v", "Option", "None", 0)]))


def rec(**k):
    return mk(0, E, tuple(sorted(k.items())))


def print_tokens(v):
    """What a text is made of, in order: ('lit', constants) and ('f', fields)."""
    if v is None:
        return []
    kids = [(k, x) for k, x in v.F if k.startswith("#")]
    if kids:
        out = []
        for _, x in sorted(kids):
            out += print_tokens(x)
        return out
    cs = {t[1] for t in v.T if t[0] == "c" and isinstance(t[1], str)}
    fs = {l[1] for l in labels(v) if isinstance(l, tuple) and l[0] == "fld"}
    if fs:
        return [("f", fs, v)]
    if cs and not any(t[0] == "?" for t in v.T):
        return [("lit", cs, v)]
    if strs(v):
        return [("lit", strs(v), v)]
    return [("?", labels(v), v)] if labels(v) else []


P = ("sep",)
PRINT = []


def form(adt, self_, *want):
    PRINT.append((adt, self_, want))


for v_, w_ in SHAPE_TYPES.items():
    form("ShapeType", mk(0, E, (), frozenset([("v", "ShapeType", v_, 0)])), w_)
for v_, w_ in COMPARATORS.items():
    form("Comparator", mk(0, E, (), frozenset([("v", "Comparator", v_, 0)])), w_)
for v_ in ("Number", "RootShapeIdentifier", "AbsoluteRootShapeIdentifier"):
    form(VAL, val(VAL, v_), {v_})
form(VAL, val(VAL, "Text"), "Q", {"Text"}, "Q")
form("KeyPathSegment", val("KeyPathSegment", "Value"), {"Value"})
form("KeyPathSegment", val("KeyPathSegment", "FunctionProperty"), "(", {"FunctionProperty"}, ")")
form("AttributeComparison", rec(comparator=fld("comparator"), rhs_values=fld("rhs_values"), case_insensitive=const(False)),
     {"comparator"}, ({"rhs_values"}, ","))
form("AttributeComparison", rec(comparator=fld("comparator"), rhs_values=fld("rhs_values"), case_insensitive=const(True)),
     {"comparator"}, ({"rhs_values"}, ","), " i")
form("AttributeSelector", rec(key=fld("key"), comparison=opt(None)), "[", {"key"}, "]")
form("AttributeSelector", rec(key=fld("key"), comparison=opt("comparison")), "[", {"key"}, {"comparison"}, "]")
form("ScopedAttributeSelector", rec(key=opt(None), assertions=fld("assertions")), "[@:", ({"assertions"}, "&&"), "]")
form("ScopedAttributeSelector", rec(key=opt("key"), assertions=fld("assertions")), "[@", {"key"}, ":", ({"assertions"}, "&&"), "]")
form("ScopedValue", val("ScopedValue", "Value"), {"Value"})
form("ScopedValue", val("ScopedValue", "ContextValue"), "@{", ({"ContextValue"}, "|"), "}")
for c_, w_ in ((False, ()), (True, (" i",))):
    form("ScopedAttributeAssertion", rec(lhs_value=fld("lhs_value"), comparator=fld("comparator"), rhs_values=fld("rhs_values"),
                                         case_insensitive=const(c_)),
         {"lhs_value"}, {"comparator"}, ({"rhs_values"}, ","), *w_)
form("NeighborSelector", mk(0, E, (), frozenset([("v", "NeighborSelector", "ForwardUndirected", 0)])), ">")
form("NeighborSelector", mk(0, E, (), frozenset([("v", "NeighborSelector", "ReverseUndirected", 0)])), "<")
form("NeighborSelector", mk(0, E, (), frozenset([("v", "NeighborSelector", "ForwardRecursiveDirected", 0)])), "~>")
form("NeighborSelector", val("NeighborSelector", "ForwardDirected"), "-[", ({"ForwardDirected"}, ","), "]->")
form("NeighborSelector", val("NeighborSelector", "ReverseDirected"), "<-[", ({"ReverseDirected"}, ","), "]-")
form("Function", rec(name=fld("name"), arguments=fld("arguments")), ":", {"name"}, "(", ({"arguments"}, ","), ")")
form("VariableDefinition", rec(name=fld("name"), selector=fld("selector")), "$", {"name"}, "(", {"selector"}, ")")
form("VariableReference", rec(name=fld("name")), "${", {"name"}, "}")
for v_ in ("ShapeType", "AttributeSelector", "ScopedAttributeSelector", "NeighborSelector", "Function", "VariableDefinition",
           "VariableReference"):
    form("SelectorExpression", val("SelectorExpression", v_), {v_})
form("Selector", rec(expressions=fld("expressions")), ({"expressions"}, " "))


def describe(want):
    return " ".join(w if isinstance(w, str) else f"<{'/'.join(w)}>" if isinstance(w, set) else f"<{'/'.join(w[0])}>{w[1]}…"
                    for w in want)


def squeeze(s):
    return "".join(s.split())


def match_tokens(toks, want):
    """None, or what is wrong."""
    # separators written next to a repeated field belong to it
    ws = list(want)
    lits, got = "", []
    for k, x, v in toks:
        if k == "?":
            return None                      # text of unknown origin: not decided
        if k == "f":
            got.append((x, v))
    wf = [w if isinstance(w, set) else w[0] for w in ws if not isinstance(w, str)]
    gf = [x for x, _ in got]
    if gf != wf:
        return f"the fields written are {[sorted(x) for x in gf]}"
    # literals between the fields
    def gaps(seq, lit):
        out, cur = [], ""
        for s in seq:
            if lit(s) is None:
                out.append(cur)
                cur = ""
            else:
                cur += lit(s)
        return out + [cur]
    gl = gaps(toks, lambda t: None if t[0] == "f" else sorted(t[1])[0] if len(t[1]) == 1 else "Q" if t[1] <= {'"', "'"} else "?")
    wl = gaps(ws, lambda w: w if isinstance(w, str) else None)
    seps = [None if isinstance(w, set) else w[1] for w in ws if not isinstance(w, str)]
    fixed_ = {squeeze(w) for w in ws if isinstance(w, str)} - {squeeze(x) for x in seps if x} - {""}
    for k, x, v in toks:
        if k == "lit" and len(x) > 1 and "" in x:
            part = {squeeze(y) for y in x} & fixed_
            if part:
                return f"`{sorted(part)[0]}` is written only sometimes"
    if any("?" in x for x in gl):
        return None
    for i, (g, w) in enumerate(zip(gl, wl)):
        sg, sw = squeeze(g).replace('"', "Q") if "Q" in w else squeeze(g), squeeze(w)
        ok = {sw}
        if i < len(seps) and seps[i]:
            ok.add(sw + squeeze(seps[i]))
        if i and seps[i - 1]:
            ok.add(squeeze(seps[i - 1]) + sw)
        if sg not in ok:
            return f"it says `{g}` where the syntax has `{w}`"
        if w.startswith(" ") and not g[:1].isspace():
            return f"there is no space before `{w.strip()}`"
    for (x, v), sp in zip(got, seps):
        if sp is None:
            continue
        near_ = {squeeze(l) for l in gl}
        have = {s for s in strs(v)}
        if squeeze(sp):
            if squeeze(sp) not in {squeeze(s) for s in have} | near_ and not any(squeeze(sp) in n for n in near_):
                return f"the parts of {sorted(x)} are separated by {sorted(have)} instead of `{sp}`"
            if have and squeeze(sp) not in {squeeze(s) for s in have}:
                return f"the parts of {sorted(x)} are separated by {sorted(have)} instead of `{sp}`"
        elif not any(s.isspace() for s in have | set(gl)):
            return f"the parts of {sorted(x)} are not separated by a space"
    return None


@prop("Q02", "case-split MIR dataflow of every Display of a selector part against the selector syntax", "other")
def q02(cx):
    db = cx.db
    cx.rule("For every kind of selector part, and every combination of its optional parts, the sequence of constants and fields "
            "its Display writes (MIR dataflow, one run per case) is the one the selector syntax has.")
    n = 0
    for adt, self_, want in PRINT:
        fs = [x for x in db.fns.values() if x.short.endswith(f"{adt.rsplit(':', 1)[-1]} as Display::fmt")
              and x.self_adt and db.adt_short(x.self_adt) == adt]
        if not fs:
            cx.bad(f"selector-print/{adt}", "atelier-core/src/model/selector", f"a {adt} can no longer be printed")
            continue
        f = fs[0]
        others = lambda k, s, f=f: s.endswith(" as Display::fmt") and k != f.key
        ip = cx.interp(sink=is_write, opaque=others,
                       override={n: lambda *a: const("") for n in ("String::new", "String as Default::default")})
        ret, evs, _ = ip.run(f, args=[self_, None])
        toks = []
        for e in evs:
            if e.kind == "call" and len(e.args) > 1:
                ts = print_tokens(e.args[-1])
                toks += ts
        n += 1
        key = f"selector-print/{adt}/{describe(want)}"
        bad = match_tokens(toks, want)
        cx.req(bad is None, key, cx.fnat(f), f"printing {describe(want)}: {bad}")
        for k, x, v in toks:
            if k == "f":
                lz = lossy(v, {"[T]::join", "[T] as Join::join"})
                cx.req(not lz, key + "/whole", cx.fnat(f), f"what is printed passes through {sorted(lz)}")
                cx.req(("fmt", "debug") not in labels(v), key + "/form", cx.fnat(f), "it is printed in its debug form")
    cx.floor("forms printed", n, 60)
    # a text is quoted with a character it does not contain
    f = [x for x in db.fns.values() if x.self_adt and db.adt_short(x.self_adt) == VAL and x.short.endswith("Display::fmt")][0]
    for has in ('"', "'"):
        def contains(ip, fr, st, avs, args, short, has=has):
            v = avs[1] if len(avs) > 1 else None
            what = {s for s in strs(v) if len(s) == 1} | {chr(i) for i in ints(v) if 31 < i < 127} if v is not None else set()
            for t in v.T if v is not None else ():
                if t[0] == "c":
                    x = str(t[1])
                    what.add(chr(int(x)) if x.isdigit() and 31 < int(x) < 127 else x)
            if len(what) == 1:
                return const(what.pop() == has)
            return None
        ip = cx.interp(sink=is_write, override={"str::contains": contains, "String::contains": contains})
        ret, evs, _ = ip.run(f, args=[val(VAL, "Text"), None])
        qs = {c for e in evs for v in e.args[1:] for c, _ in text_parts(v) if c in ('"', "'")}
        cx.req(qs != {has}, f"selector-print/text/quotes/{'double' if has != chr(39) else 'single'}", cx.fnat(f),
               f"a text that contains {has} is printed between {has}")


# ------------------------------------------------------------------------------------------------ building
def A(i):
    return ("a", i)


def V(adt, variant, sub=None):
    return ("v", adt, variant, sub)


def R(**k):
    return ("r", k)


def EL(sub):
    return ("el", sub)


def some(sub):
    return ("v", "Option", "Some", sub)


NONE = ("v", "Option", "None", None)
SE = "SelectorExpression"


REORDER = {"rev", "reverse", "sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "rotate_left",
           "rotate_right", "swap", "cycle", "chain", "intersperse", "repeat"}


def left(ts, want, set_=True):
    """The alternatives of a value, but for the unconditional one a later store has replaced."""
    got = {x for x, g in ts}
    if want in got and set_:
        return {want} | {x for x, g in ts if any(unwrap_exit(a)[1] is None for a in atoms(g))}
    return got


def unlike(v, spec, path="", set_=frozenset()):
    """How a value differs from what it should be, or None."""
    if v is None:
        v = BOT
    kind = spec[0]
    here = f" in `{path}`" if path else ""
    if kind == "a":
        got = argn(v)
        if spec[1] not in got:
            return f"argument {spec[1] + 1} is not kept{here}"
        if got != {spec[1]}:
            return f"something else than argument {spec[1] + 1} is kept{here}"
        lz = lossy(v, {"bool as ToString::to_string", "ToString::to_string"})
        lz |= {x for x in xs(v) if x.rsplit("::", 1)[-1] in REORDER}
        if ("range",) in labels(v):
            return f"only a part of argument {spec[1] + 1} is kept{here}"
        return f"argument {spec[1] + 1} passes through {sorted(lz)}{here}" if lz else None
    if kind == "bool":
        if {t[1] for t in v.T if t[0] == "c"} == {"true", "false"}:
            return None
        return unlike(v, A(spec[1]), path, set_)
    if kind == "c":
        got = left({(t[1], t[2]) for t in v.T if t[0] == "c"}, spec[1], path in set_)
        other = {t for t in v.T if t[0] not in ("c", "?")}
        return None if got == {spec[1]} and not other else f"{sorted(map(str, got))} instead of `{spec[1]}` is kept{here}"
    if kind == "v":
        adt, variant, sub = spec[1:]
        got = left({(t[2], t[3]) for t in v.T if t[0] == "v" and t[1] == adt}, variant, path in set_)
        keys = {k.split(".")[0] for k, x in v.F if k.split(".")[0][:1].isupper()}
        got = got or keys
        if got and got != {variant}:
            return f"{sorted(got)} instead of `{variant}` is made{here}"
        if not got and (sub is None or not argn(v)):
            return f"no `{variant}` is made{here}"
        if sub is None:
            return None
        x = v.get(f"{variant}.0")
        x = x if x is not None else v.get(variant)
        if x is None and not got:
            return None
        return unlike(x if x is not None else v, sub, path or variant, set_)
    if kind == "r":
        for k, s in spec[1].items():
            r = unlike(v.get(k), s, k, set_)
            if r:
                return r
        return None
    if kind == "el":
        el = [x for k, x in v.F if k.startswith("[")]
        if len(el) > 1:
            return f"{len(el)} values instead of one are kept{here}"
        return unlike(el[0] if el else v, spec[1], path, set_)
    raise AssertionError(spec)


def camel(s):
    return "".join(w.capitalize() for w in s.split("_"))


COMPARE = {"string_equal": "StringEqual", "string_not_equal": "StringNotEqual", "string_starts_with": "StringStartsWith",
           "string_ends_with": "StringEndsWith", "string_contains": "StringContains", "string_exists": "StringExists",
           "number_greater": "NumberGreaterThan", "number_greater_or_equal": "NumberGreaterOrEqual",
           "number_less": "NumberLessThan", "number_less_or_equal": "NumberLessOrEqual",
           "projection_equal": "ProjectionEqual", "projection_not_equal": "ProjectionNotEqual",
           "projection_subset": "ProjectionSubset", "projection_proper_subset": "ProjectionProperSubset"}
FUNCTIONS = ["test", "is", "not", "topdown"]
FROM_VALUE = {"String": "Text", "str": "Text", "Number": "Number", "i64": "Number", "f64": "Number",
              "Identifier": "RootShapeIdentifier", "ShapeID": "AbsoluteRootShapeIdentifier"}


def build_table():
    """(function, arguments folded to constants, where it is kept, what is kept there)"""
    rows = []

    def ex(name, spec, st=None):
        """a static constructor and its add_ twin"""
        if st is None or st:
            rows.append((f"SelectorBuilder::{name}", {}, "ret.exs", EL(spec(0))))
    def add(name, spec):
        rows.append((f"SelectorBuilder::{name}", {}, "SelectorBuilder.exs push", spec(1)))
    for X in SHAPE_TYPES:
        w = "".join("_" + c.lower() if c.isupper() else c for c in X)[1:]
        n = {"Any": "any_shape", "Number": "any_number", "SimpleType": "any_simple_type",
             "Collection": "any_collection"}.get(X, w)
        s = lambda o, X=X: V(SE, "ShapeType", V("ShapeType", X))
        ex(n, s)
        add("add_" + n, s)
    for n, X in (("shape", "ShapeType"), ("neighbor", "NeighborSelector"), ("variable_reference", "VariableReference"),
                 ("variable_definition", "VariableDefinition"), ("attribute", "AttributeSelector"),
                 ("scoped_attribute", "ScopedAttributeSelector"), ("function", "Function")):
        s = lambda o, X=X: V(SE, X, A(o))
        ex(n, s)
        add("add_" + n, s)
    for n, X in (("forward_undirected", "ForwardUndirected"), ("reverse_undirected", "ReverseUndirected"),
                 ("forward_recursive_directed", "ForwardRecursiveDirected")):
        s = lambda o, X=X: V(SE, "NeighborSelector", V("NeighborSelector", X))
        ex(n, s)
        add("add_" + n, s)
    for n, X in (("forward_directed", "ForwardDirected"), ("reverse_directed", "ReverseDirected")):
        s = lambda o, X=X: V(SE, "NeighborSelector", V("NeighborSelector", X, A(o)))
        ex(n, s)
        add("add_" + n, s)
    for n in FUNCTIONS:
        s = lambda o, n=n: V(SE, "Function", R(name=R(**{"0": ("c", n)}), arguments=A(o)))
        ex("fn_" + n, s)
        add(f"add_{n}_function", s)
    s = lambda o: V(SE, "Function", R(name=A(o), arguments=A(o + 1)))
    ex("function_from", s)
    add("add_function_from", s)
    s = lambda o: V(SE, "VariableReference", R(name=A(o)))
    ex("variable_reference_from", s)
    add("add_variable_reference_from", s)
    s = lambda o: V(SE, "VariableDefinition", R(name=A(o), selector=A(o + 1)))
    ex("variable_definition_from", s)
    add("add_variable_definition_from", s)
    rows.append(("SelectorBuilder::add_attribute_from", {2: some(A(2))}, "SelectorBuilder.exs push",
                 V(SE, "AttributeSelector", R(key=A(1), comparison=some(A(2))))))
    rows.append(("SelectorBuilder::add_attribute_from", {2: NONE}, "SelectorBuilder.exs push",
                 V(SE, "AttributeSelector", R(key=A(1), comparison=NONE))))
    rows.append(("SelectorBuilder::add", {}, "SelectorBuilder.exs push", A(1)))
    rows.append(("SelectorBuilder::from", {}, "ret.exs", EL(A(0))))
    for b, root in (("AttributeBuilder", "ret.selector.key.identifier"), ("ScopedAttributeBuilder", "ret.key.Some.identifier")):
        p_ = "named_" if b == "AttributeBuilder" else "new_"
        rows.append((f"{b}::named", {}, root, A(0)))
        for k in ("id", "service", "trait", "var"):
            rows.append((f"{b}::{p_}{k}", {}, root + ".0", ("c", k)))
        K = "KeyPathSegment"
        for n, s in (("id", V(K, "Value", V(VAL, "RootShapeIdentifier", A(1)))),
                     ("shape", V(K, "Value", V(VAL, "AbsoluteRootShapeIdentifier", A(1)))),
                     ("text", V(K, "Value", V(VAL, "Text", A(1)))),
                     ("number", V(K, "Value", V(VAL, "Number", A(1)))),
                     ("function", V(K, "FunctionProperty", A(1)))):
            rows.append((f"{b}::path_segment_for_{n}", {}, "Key.path push", s))
        rows.append((f"{b}::path_segment", {}, "Key.path push", A(1)))
        rows.append((f"{b}::path", {}, "Key.path assign", A(1)))
        if b == "AttributeBuilder":
            rows.append((f"{b}::path", {}, "AttributeSelector.key assign", R(path=A(1))))
            rows.append((f"{b}::path_segment", {}, "AttributeSelector.key assign", R(path=A(1))))
    for n, X in COMPARE.items():
        cmp_ = V("Comparator", X)
        text, numb, pro = n.startswith("string"), n.startswith("number"), n.startswith("projection")
        ex_, sub = n == "string_exists", n.endswith("subset")

        def rhs(i, one, num_many, scoped=False):
            w = (lambda s: V("ScopedValue", "Value", s)) if scoped else (lambda s: s)
            if ex_:
                return EL(w(V(VAL, "Text", ("bool", i))))
            if numb:
                s = w(V(VAL, "Number", A(i)))
                return EL(s)
            return EL(A(i)) if one else A(i)
        # the comparisons of the model
        rows.append((f"AttributeComparison::{n}", {}, "ret", R(comparator=cmp_, rhs_values=rhs(0, not sub, False),
                                                               case_insensitive=("c", False))))
        rows.append((f"ScopedAttributeAssertion::{n}", {}, "ret",
                     R(lhs_value=A(0), comparator=cmp_, rhs_values=rhs(1, not sub, False, True), case_insensitive=("c", False))))
        # the builders
        for ci in ((True, False) if text else (False,)):
            rows.append((f"AttributeBuilder::{n}", {2: ("c", ci)} if text else {}, "AttributeSelector.comparison",
                         some(R(comparator=cmp_, rhs_values=rhs(1, False, True), case_insensitive=("c", ci)))))
            if ex_ and ci:
                continue
            rows.append((f"ScopedAttributeBuilder::{n}", {3: ("c", ci)} if text and not ex_ else {},
                         "ScopedAttributeBuilder.assertions push",
                         R(lhs_value=A(1), comparator=cmp_, rhs_values=rhs(2, not sub, False, True), case_insensitive=("c", ci))))
    for ci in (True, False):
        rows.append(("AttributeBuilder::string_compare", {3: ("c", ci)}, "AttributeSelector.comparison",
                     some(R(comparator=A(1), rhs_values=A(2), case_insensitive=("c", ci)))))
        rows.append(("ScopedAttributeBuilder::string_assertion", {4: ("c", ci)}, "ScopedAttributeBuilder.assertions push",
                     R(lhs_value=A(1), comparator=A(2), rhs_values=A(3), case_insensitive=("c", ci))))
        n = "new_case_insensitive" if ci else "new"
        rows.append((f"AttributeComparison::{n}", {}, "ret", R(comparator=A(0), rhs_values=A(1), case_insensitive=("c", ci))))
        rows.append((f"ScopedAttributeAssertion::{n}", {}, "ret",
                     R(lhs_value=A(0), comparator=A(1), rhs_values=A(2), case_insensitive=("c", ci))))
    rows.append(("AttributeBuilder::compare", {}, "AttributeSelector.comparison", some(A(1))))
    rows.append(("ScopedAttributeBuilder::assertion", {}, "ScopedAttributeBuilder.assertions push", A(1)))
    rows += [
        ("Key::new", {}, "ret", R(identifier=A(0))), ("Key::with_path", {}, "ret", R(identifier=A(0), path=A(1))),
        ("AttributeSelector::new", {}, "ret", R(key=A(0), comparison=NONE)),
        ("AttributeSelector::with_comparison", {}, "ret", R(key=A(0), comparison=some(A(1)))),
        ("ScopedAttributeSelector::new", {}, "ret", R(key=NONE, assertions=A(0))),
        ("ScopedAttributeSelector::with_key", {}, "ret", R(key=some(A(0)), assertions=A(1))),
        ("Function::new", {}, "ret", R(name=A(0), arguments=A(1))),
        ("VariableDefinition::new", {}, "ret", R(name=A(0), selector=A(1))),
        ("VariableReference::new", {}, "ret", R(name=A(0))),
    ]
    return rows


def type_word(db, t):
    while t and t.get("k") in ("ref", "slice", "array"):
        t = t.get("t") or {}
    if t.get("k") == "adt":
        w = db.adt_short(t["id"]) or ""
        return w
    return t.get("s", "?")


def at(ret, evs, where):
    """The values kept at a place: a path into what is returned, or the stores into a field."""
    if where.startswith("ret"):
        v = ret
        for k in where.split(".")[1:]:
            v = v.get(k) if v is not None else None
        return [v] if v is not None else []
    name, _, dest = where.partition(" ")
    return [e.args[0] for e in evs if e.kind == "field" and e.name == name and (not dest or (e.dest == "assign") == (dest == "assign"))]


@prop("Q03", "case-split MIR dataflow summaries of every selector constructor against the table of what its name promises", "other")
def q03(cx):
    db = cx.db
    cx.rule("Each constructor and builder method of selectors keeps what its name says: the kind of expression, shape type, "
            "comparator, function or key it is named after, with each argument in its own place, whole, and the case "
            "mark exactly as asked (interprocedural MIR dataflow per function and per value of its switches).")
    n = 0
    for short, fixed, where, spec in build_table():
        f = fn_named(cx, short)
        if f is None:
            continue
        args = []
        for i in range(f.argc):
            l = f.locals[i + 1]
            if i in fixed:
                s = fixed[i]
                args.append(const(s[1]) if s[0] == "c" else mk(0, E, (), frozenset([("v", "Option", "None", 0)])) if s == NONE
                            else mk(0, E, (("Some", src(f"a{i}")), ("Some.0", src(f"a{i}"))),
                                    frozenset([("v", "Option", "Some", 0)])))
            else:
                args.append(None if l.get("n") == "self" and l["t"].get("k") == "ref" else src(f"a{i}"))
        ip = cx.interp(fields=lambda s: s in ("SelectorBuilder.exs", "Key.path", "AttributeSelector.comparison",
                                              "ScopedAttributeBuilder.assertions", "AttributeSelector.key",
                                              "AttributeComparison.case_insensitive",
                                              "ScopedAttributeAssertion.case_insensitive"),
                       override=dict(ID_PARSERS))
        ret, evs, _ = ip.run(f, args=args)
        n += 1
        key = f"selector-build/{short}" + "".join(f"/{i}={s[1] if s[0] == 'c' else s[2]}" for i, s in sorted(fixed.items()))
        vs = at(ret, evs, where)
        if True:
            unsure = {gtext(a) for e in evs if e.kind == "field" for a in e.atoms() if not (unwrap_exit(a)[1] == "err" and (a[2][0] == "var" or presence(a[2])))}
            cx.req(not unsure, key + "/always", cx.fnat(f), f"`{short}` keeps it only when {'; '.join(sorted(unsure))}")
        if not cx.req(bool(vs), key, cx.fnat(f), f"`{short}` keeps nothing in `{where}`"):
            continue
        set_ = {e.name.split(".")[1] for e in evs if e.kind == "field"}
        bads = [unlike(v, spec, "", set_) for v in vs]
        cx.req(all(b is None for b in bads), key, cx.fnat(f), f"`{short}`: {next((b for b in bads if b), '')}")
    cx.floor("constructors", n, 130)
    # conversions of whole builders
    seen = set()
    some_key = mk(0, E, (("Some", src("a0")), ("Some.0", src("a0"))), frozenset([("v", "Option", "Some", 0)]))
    none = mk(0, E, (), frozenset([("v", "Option", "None", 0)]))
    for frm, to, self_, where, spec in (
            ("SelectorBuilder", "Selector", rec(exs=src("a0")), "ret.expressions", A(0)),
            ("AttributeBuilder", "AttributeSelector", rec(selector=src("a0")), "ret", A(0)),
            ("AttributeBuilder", SE, rec(selector=src("a0")), "ret", V(SE, "AttributeSelector", A(0))),
            ("AttributeBuilder", "SelectorBuilder", rec(selector=src("a0")), "ret.exs", EL(V(SE, "AttributeSelector", A(0)))),
            ("AttributeBuilder", "Selector", rec(selector=src("a0")), "ret.expressions", EL(V(SE, "AttributeSelector", A(0)))),
            ("ScopedAttributeBuilder", "ScopedAttributeSelector", rec(key=some_key, assertions=src("a1")), "ret",
             R(key=some(A(0)), assertions=A(1))),
            ("ScopedAttributeBuilder", "ScopedAttributeSelector", rec(key=none, assertions=src("a1")), "ret",
             R(key=NONE, assertions=A(1))),
            ("ScopedAttributeBuilder", SE, rec(key=some_key, assertions=src("a1")), "ret",
             V(SE, "ScopedAttributeSelector", R(key=some(A(0)), assertions=A(1)))),
            ("ScopedAttributeBuilder", "SelectorBuilder", rec(key=some_key, assertions=src("a1")), "ret.exs",
             EL(V(SE, "ScopedAttributeSelector", R(key=some(A(0)), assertions=A(1))))),
            ("ScopedAttributeBuilder", "Selector", rec(key=some_key, assertions=src("a1")), "ret.expressions",
             EL(V(SE, "ScopedAttributeSelector", R(key=some(A(0)), assertions=A(1))))),
            ("Vec", "Selector", src("a0"), "ret.expressions", A(0)),
            (SE, "Selector", src("a0"), "ret.expressions", EL(A(0)))):
        for f in db.fns.values():
            if not (f.short.endswith(" as From::from") and f.self_adt and db.adt_short(f.self_adt) == to
                    and f.argc == 1 and type_word(db, f.locals[1]["t"]) == frm):
                continue
            ip = cx.interp(override=dict(ID_PARSERS), fields=lambda s: s.split(".")[0] == to)
            ret, evs, _ = ip.run(f, args=[self_])
            key = f"selector-build/{to}/from/{frm}"
            vs = at(ret, evs, where)
            b = unlike(vs[0], spec, "", {e.name.split(".")[1] for e in evs if e.kind == "field"}) if vs else "nothing is kept"
            n += 1
            seen.add((frm, to))
            cx.req(b is None, key, cx.fnat(f), f"a {frm} made into a {to}: {b}")
    cx.floor("conversions of builders", len(seen), 9)
    f = fn_named(cx, "VariableDefinition::new_reference")
    if f:
        ip = cx.interp(override=dict(ID_PARSERS))
        ret, evs, _ = ip.run(f, args=[rec(name=src("a0"), selector=src("a1"))])
        b = unlike(ret, R(name=A(0)))
        cx.req(b is None, "selector-build/VariableDefinition::new_reference", cx.fnat(f), f"the reference to a variable: {b}")
    # conversions
    m = 0
    for f in sorted(db.fns.values(), key=lambda x: x.key):
        if not f.short.endswith(" as From::from") or not f.self_adt or f.argc != 1:
            continue
        to = db.adt_short(f.self_adt)
        if to not in (VAL, "ScopedValue", "KeyPathSegment", SE, "VariableReference", "Key", "AttributeSelector"):
            continue
        frm = type_word(db, f.locals[1]["t"])
        ret, evs, _ = run_named(cx, f)
        spec = None
        if to == VAL and frm in FROM_VALUE:
            spec = V(VAL, FROM_VALUE[frm], A(0))
        elif to == "ScopedValue" and frm in FROM_VALUE:
            spec = V(to, "Value", V(VAL, FROM_VALUE[frm], A(0)))
        elif to == "ScopedValue" and frm == VAL:
            spec = V(to, "Value", A(0))
        elif to == "ScopedValue" and frm in ("KeyPathSegment", "Vec"):
            spec = V(to, "ContextValue", A(0))
        elif to == "KeyPathSegment":
            spec = {"selector:Value": V(to, "Value", A(0)), VAL: V(to, "Value", A(0)),
                    "Identifier": V(to, "FunctionProperty", A(0))}.get(frm)
        elif to == SE and frm in ("ShapeType", "AttributeSelector", "ScopedAttributeSelector", "NeighborSelector", "Function",
                                  "VariableDefinition", "VariableReference"):
            spec = V(SE, frm, A(0))
        elif to == "VariableReference" and frm == "Identifier":
            spec = R(name=A(0))
        elif to == "Key" and frm == "Identifier":
            spec = R(identifier=A(0))
        elif to == "AttributeSelector" and frm == "Key":
            spec = R(key=A(0), comparison=NONE)
        if spec is None:
            continue
        m += 1
        b = unlike(ret, spec)
        cx.req(b is None, f"selector-build/{to}/from/{frm}", cx.fnat(f), f"a {frm} made into a {to}: {b}")
    cx.floor("conversions", m, 20)
