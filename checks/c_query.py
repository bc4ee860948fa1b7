"""Q04: selectors of shape types select the shapes of that type, and narrow one another."""
from core import *

SIMPLE = ["Blob", "Boolean", "Document", "String", "Integer", "Byte", "Short", "Long", "Float", "Double", "BigDecimal", "BigInteger", "Timestamp"]
NUMBER = {"Byte", "Short", "Integer", "Long", "Float", "Double", "BigInteger", "BigDecimal"}
KINDS = ["List", "Set", "Map", "Structure", "Union", "Service", "Operation", "Resource"]


def expected(st, kind, simple):
    if st == "Any":
        return True
    if st == "Number":
        return simple in NUMBER
    if st == "SimpleType":
        return kind == "Simple"
    if st == "Collection":
        return kind in ("List", "Set")
    if st == "Member":
        return False
    return st == (simple if kind == "Simple" else kind)


def vt(adt, v, label, F=()):
    return mk(bit(label), frozenset(), F, frozenset([("v", adt, v, 0)]))


def with_types(f, *names):
    if f.argc != len(names):
        return None
    tys = [f.locals[i]["s"] for i in range(1, f.argc + 1)]
    order = []
    for n in names:
        k = [i for i, t in enumerate(tys) if t.lstrip("&").rsplit("::", 1)[-1] == n]
        if len(k) != 1:
            return None
        order.append(k[0])
    return order


@prop("Q04")
def q04(cx):
    db = cx.db
    cx.rule("The function deciding whether a shape is of a selected type is interpreted once for every pair of a selector type and a kind of shape (and simple type), "
            "and its result compared with the table of the Smithy selector specification; evaluating a selector is interpreted as a whole: "
            "it starts from the shapes of the model, a shape is kept exactly if it matches, and each expression selects among what the one before selected.")
    found = []
    for f in db.fns.values():
        if f.crate != "atelier_query" or f.locals[0]["s"] != "bool":
            continue
        for body in ("TopLevelShape", "ShapeKind"):
            o = with_types(f, "ShapeType", body)
            if o:
                found.append((f, o, body))
    n = 0
    sts = [v for v in variants(cx, "ShapeType")]
    for f, order, body in found:
        for st in sts:
            for kind, simple in [("Simple", s) for s in SIMPLE] + [(k, None) for k in KINDS]:
                F = (("Simple.0", vt("Simple", simple, ("x", "simple"))),) if simple else ()
                b = mk(0 if simple else bit(("x", "body")), frozenset(), F, frozenset([("v", "ShapeKind", kind, 0)]))
                sh = mk(0, frozenset(), (("body", b),)) if body == "TopLevelShape" else b
                args = [None, None]
                args[order[0]] = vt("ShapeType", st, ("x", "st"))
                args[order[1]] = sh
                ip = cx.interp()
                ip.pure = True
                ret, _, _ = ip.run(f, args=args)
                got = {str(x) for x, _ in (const_terms(ret) or [])}
                n += 1
                want = expected(st, kind, simple)
                # a result that could be either way is not counted against it
                cx.req(not got or str(want) in got, f"type/{st}/{simple or kind}", cx.fnat(f),
                       f"the selector {st} {'does not match' if want else 'matches'} a shape of type {simple or kind}")
    if found:
        cx.floor("pairs of selector type and shape type", n, 400)
    qs = [f for f in db.fns.values() if f.short == "evaluate::query" or f.short.endswith("::evaluate::query")]
    if not cx.req(len(qs) == 1, "query", "atelier-query/src/evaluate.rs", "there is no function query"):
        return
    q = qs[0]
    names = {f.short for f, _, _ in found}
    if found:
        ip = cx.interp(sink=lambda s: s in names)
        ret, evs, _ = ip.run(q)
        if evs:
            cx.req(any(("f", "Selector.expressions") in labels(a) for e in evs for a in e.args), "query/expressions", cx.fnat(q), "the expressions of the selector are not used")
        cx.req(("f", "Model.shapes") in labels(ret) or not labels(ret), "query/result", cx.fnat(q), "the result holds no shapes of the model")
        # a shape is kept exactly if it matches
        import mir
        for g in db.fns.values():
            if g.crate != "atelier_query" or g.short in names or g.locals[0]["s"] != "bool" or not any(nm in names for _, nm, _ in mir.calls(db, g)):
                continue
            for val in (True, False):
                def fixed(ip_, fr, st, avs, args_, short):
                    return const_val(val)
                ov = {s: fixed for s in names}
                ip = cx.interp(override=ov)
                ip.pure = True
                r, _, _ = ip.run(g)
                got = {str(x) for x, _ in (const_terms(r) or [])}
                cx.req(not got or (("True" in got) == val), f"query/kept/{val}", cx.fnat(g),
                       "a shape that does not match is kept" if not val else "a shape that matches is dropped")
    # one step: an expression applied to what has been selected so far
    steps = {f.short for f in db.fns.values() if f.crate == "atelier_query" and "{closure" not in f.short and f.locals[0]["s"].endswith("Projection") and
             sorted(f.locals[i]["s"].lstrip("&").rsplit("::", 1)[-1] for i in range(1, f.argc + 1) if not f.locals[i]["s"].endswith("Model")) == ["Projection", "SelectorExpression"]}
    if len(steps) == 1:
        ov = {s: (lambda ip_, fr, st, avs, args_, short: mk(bit(("x", "step")))) for s in steps}
        ip = cx.interp(override=ov, sink=lambda s: s in steps)
        ret, evs, _ = ip.run(q)
        if cx.req(evs, "query/steps", cx.fnat(q), "no expression is evaluated"):
            ls = [labels(a) for e in evs for a in e.args]
            cx.req(any(("f", "Selector.expressions") in l for l in ls), "query/steps/expressions", cx.at(evs[0]), "the expressions of the selector are not used")
            cx.req(any(("x", "step") in l for l in ls), "query/narrows", cx.at(evs[0]), "an expression does not select among what the one before it selected")
            cx.req(("x", "step") in labels(ret), "query/steps/result", cx.fnat(q), "what the last expression selected is not the result")
            for e in evs:
                bad = [a for a in e.atoms() if not unwrap_exit(a)[1] and not (a[0] == "b" and a[1] in ("is_empty", "?", "len", "lt", "gt")) and
                       not (a[0] == "var" and a[1] == "Option" and "Some" in a[2])]
                cx.req(not bad, "query/steps/always", cx.at(e), f"an expression is evaluated only if {'; '.join(map(gtext, bad))}")
                for a in e.args:
                    if ("f", "Model.shapes") in labels(a) and ("f", "Selector.expressions") not in labels(a):
                        bad = [x for x in filts(a) if not (x[0] == "var" and x[1] == "ShapeKind" and set(x[2]) >= set(KINDS) | {"Simple"})]
                        cx.req(not bad, "query/start", cx.at(e), f"the shapes selected from are only those for which {'; '.join(map(gtext, bad))}")
        # within a step, and where one is called for the next expression, nothing starts again from the model
        import mir
        for g in db.fns.values():
            if g.crate != "atelier_query" or not ("{closure" in g.short and any(nm in steps for _, nm, _ in mir.calls(db, g))):
                continue
            ip = cx.interp(override=ov, sink=lambda s: s in steps)
            _, evs, _ = ip.run(g)
            for e in evs:
                cx.req(not any(("f", "Model.shapes") in labels(a) for a in e.args), "query/narrows/again", cx.at(e), "an expression may select from the whole model again")
        for g in [f for f in db.fns.values() if f.short in steps]:
            # (the attribute, neighbor and function expressions are not implemented)
            for v in ("ShapeType", "VariableDefinition", "VariableReference"):
                args = []
                for i in range(1, g.argc + 1):
                    t = g.locals[i]["s"].lstrip("&").rsplit("::", 1)[-1]
                    args.append(vt("SelectorExpression", v, ("x", "expression")) if t == "SelectorExpression" else
                                mk(bit(("x", "before")), frozenset(), (), frozenset([("v", "Projection", "Shapes", 0)])) if t == "Projection" else mk(bit(("x", "model"))))
                ip = cx.interp()
                ret, _, _ = ip.run(g, args=args)
                cx.req(("x", "before") in labels(ret), f"query/step/{v}", cx.fnat(g), "what was selected before is not in the result")
                cx.req(("f", "Model.shapes") not in labels(ret), f"query/step/{v}/again", cx.fnat(g), "the result holds shapes that were not selected before")
