"""S03: the readers and the parse trees the grammars can produce."""
import glob
import os

import lang
import pest
from core import *
from cursor import Automata, Cursor
from facts import REPO
from checks.c_selector import COMPARATORS

# texts a parser accepts: decided by M02 (identifiers) and Q01 (comparators)
TEXTS = {"Identifier": lang.ID, "NamespaceID": lang.NS, "ShapeID": lang.SHAPE}


def entries(db):
    """(function, rule type) of every call that has the grammar read a text."""
    out = {}
    for f in db.fns.values():
        for b in f.blocks:
            t = b["t"]
            if t[0] == "call" and isinstance(t[1], dict) and t[1].get("c") == "fn" and db.short(t[1]["id"]) == "Parser::parse":
                ta = t[1].get("ta") or []
                adt = ta[1].get("id") if len(ta) > 1 else None
                if adt in db.adts:
                    out.setdefault(adt, []).append(f)
    return out


@prop("S03")
def s03(cx):
    db = cx.db
    cx.rule("Every rule of a grammar gives an automaton of the parts its pairs can have. The readers are followed path by path, "
            "with each pair abstracted by its rule and each iterator by the automaton's states: a part is taken only where "
            "every tree has one, no tree leads to a refusal unless the text itself decides it, and texts read with a "
            "function that cannot fail are texts it accepts (inclusion of regular languages).")
    ents = entries(db)
    cx.req(len(ents) > 0, "trees/entries", "", "no call that parses a text with a grammar is found")
    done = 0
    for adt, fns in sorted(ents.items(), key=lambda x: x[1][0].file):
        names = {v["n"] for v in db.adts[adt]["v"]} - {"EOI"}
        src = None
        for d in sorted(glob.glob(os.path.join(REPO, "*", "src", "**", "*.pest"), recursive=True)):
            g = pest.Grammar(d)
            own = {r for r, (m, _, _) in g.rules.items()}
            if names <= own and (src is None or len(own) < len(src[1].rules)):
                src = (d, g)
        if src is None:
            continue
        path, g = src
        rel = os.path.relpath(path, REPO)
        tag = os.path.splitext(os.path.basename(path))[0]
        done += 1
        crate = fns[0].crate
        cur = Cursor(db, Automata(g), adt, lambda s: s.startswith("ParserError::"),
                     lambda h: h.crate == crate and "Parser::parse" not in h.short)
        for f in fns:
            cur.run(f.key, (None,) * f.argc)


        cx.req(len(cur.sites) > 10, f"trees/{tag}/followed", rel,
               f"the reader of {tag} could not be followed ({len(cur.sites)} operations on the parse tree)")
        cx.analysed |= cur.visited
        cx.counts[f"{tag}: functions followed"] = len(cur.visited)
        cx.counts[f"{tag}: operations on the tree"] = len(cur.sites)
        bad = {}
        for (kind, fk, line, det), why in cur.events.items():
            fn = db.fns[fk]
            where = f"{fn.file}:{line} {fn.short}"
            if kind == "missing":
                bad.setdefault((f"trees/{tag}/{fn.short}/missing/{det}", where),
                               f"a part is taken that need not be there ({why})")
            elif kind == "refused":
                bad.setdefault((f"trees/{tag}/{fn.short}/refused", where),
                               f"a tree the grammar produces is refused as impossible ({why})")
            elif kind == "panic":
                bad.setdefault((f"trees/{tag}/{fn.short}/panic", where), f"a tree the grammar produces panics ({why})")
            elif kind == "parsed":
                text(cx, g, tag, det, where)
            elif kind == "sliced" and det[0] == "1":
                words(cx, g, tag, det[1], where)
        hit = {(fk, line) for (kind, fk, line, _) in cur.events if kind in ("missing", "refused", "panic")}
        for fk, b in sorted(cur.sites):
            ln = db.fns[fk].blocks[b]["l"]
            if (fk, ln) not in hit:
                cx.ok(f"trees/{tag}/{db.fns[fk].short}/{b}", f"{db.fns[fk].file}:{ln}")
        for (k, where), msg in sorted(bad.items()):
            cx.req(False, k, where, msg)

    cx.floor("grammars", done, 2)


def union(g, rules):
    xs = [g.language(("ref", r)) for r in sorted(rules)]
    return None if None in xs or not xs else ("alt", xs)


def text(cx, g, tag, det, where):
    callee, rules = det
    ty = cx.db.short(callee).split(" ")[0]
    if ty in TEXTS:
        got = union(g, rules)
        if got is None:
            return
        w = lang.included(got, lang.parse(TEXTS[ty]))
        cx.req(w is None, f"trees/{tag}/text/{ty}/{'+'.join(sorted(rules))}", where,
               f"the text {w!r}, a {'/'.join(sorted(rules))}, is no {ty}, and the reader takes it for one")
    elif ty == "Comparator":
        got = g.literals(("alt", [("ref", r) for r in sorted(rules)]))
        if got is None:
            return
        bad = sorted(got - set(COMPARATORS.values()))
        cx.req(not bad, f"trees/{tag}/text/{ty}", where, f"the comparators {bad} of the grammar are none the reader knows")


def words(cx, g, tag, rules, where):
    got = union(g, rules)
    if got is None:
        return
    ascii_ = ("set", frozenset(range(128)))
    w = lang.included(got, ("seq", [ascii_, ("rep", ("set", lang.ALL), 0, None), ascii_]))
    cx.req(w is None, f"trees/{tag}/quotes/{'+'.join(sorted(rules))}", where,
           f"the first and last characters of {w!r}, a {'/'.join(sorted(rules))}, are taken for quotes")


