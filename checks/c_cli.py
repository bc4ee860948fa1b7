"""X02: the command line tool. X04: files are opened for what is done with them. X03: libraries have no effects of their own."""
import re

from core import *
from absint import payload
from checks.c_lines import pieces

CLI = "cargo_atelier"
WRITERS = {"Json": "JsonWriter", "Smithy": "SmithyWriter", "Uml": "PlantUmlWriter"}
NONE = mk(0, frozenset(), (), frozenset([("v", "Option", "None", 0)]))


def seg(s):
    return s.rsplit("::", 1)[-1]


def of(adt, *variants_, label):
    return mk(bit(label), frozenset(), (), frozenset(("v", adt, v, 0) for v in variants_))


def opaque(ip, fr, st, avs, args, short):
    """What another crate does: its result, whatever it was given."""
    return mk(bit(("x", short)))


def failing(ip, fr, st, avs, args, short):
    return mk(bit(("x", short)), frozenset(), (("Err", mk(bit(("x", short)))),), frozenset([("v", "Result", "Err", 0)]))


def boundary(db):
    """The operations of the other crates the tool is made of."""
    out = {}
    for f in db.fns.values():
        if f.crate == CLI:
            continue
        s = f.short
        if s.endswith(" as ModelWriter::write"):
            out[s] = "write"
        elif s in ("Model as TryFrom::try_from", "ModelAssembler as TryInto::try_into"):
            out[s] = "assemble"
        elif s.endswith("actions::standard_model_lint"):
            out[s] = "lint"
        elif s.endswith("actions::standard_model_validation"):
            out[s] = "validate"
        elif s in ("ModelAssembler::new", "ModelAssembler::push", "ModelAssembler::push_str", "ModelAssembler as Default::default"):
            out[s] = "assembler"
        elif s.endswith("::describe_model"):
            out[s] = "describe"
        elif s == "NamespaceID as FromStr::from_str":
            out[s] = "namespace"
        elif s.endswith("Writer::new"):
            out[s] = "writer"
    return out


def command(sub, fmt=None, ns=None, env=None, dflt=None, out=None):
    """A parsed command line: its sub-command, and what is set on it."""
    F = []

    def opt(n, on):
        if on is not None:
            inner = mk(bit(("f", n)))
            F.append((n.split(".")[-1], mk(0, frozenset(), (("Some", inner), ("Some.0", inner)), frozenset([("v", "Option", "Some", 0)])) if on else NONE))
    inp = []
    if env is not None:
        n = "FileInput.search_env"
        inp.append(("search_env", mk(0, frozenset(), (("Some", mk(bit(("f", n)))), ("Some.0", mk(bit(("f", n))))), frozenset([("v", "Option", "Some", 0)])) if env else NONE))
        inp.append(("default_search_env", const_val(bool(dflt))))
        inp.append(("in_file", mk(bit(("f", "FileInput.in_file")))))
        F.append(("file_input", mk(0, frozenset(), tuple(sorted(inp)))))
    opt(f"SubCommand::{sub}.out_file", out)
    opt(f"SubCommand::{sub}.namespace", ns)
    if fmt:
        F.append(("write_format", of("FileFormat", fmt, label=("f", f"SubCommand::{sub}.write_format"))))
    have = {n for n, _ in F}
    F += [(n, mk(bit(("f", f"SubCommand::{sub}.{n}")))) for n in ("file_input", "out_file", "write_format", "namespace") if n not in have]
    cmd = mk(0, frozenset(), tuple(sorted((f"{sub}.{n}", v) for n, v in F)), frozenset([("v", "SubCommand", sub, 0)]))
    return mk(0, frozenset(), (("cmd", cmd), ("no_color", mk(bit(("f", "CommandLine.no_color"))))))


def main_of(cx):
    fs = [f for f in cx.db.fns.values() if f.crate == CLI and seg(f.short) == "main"]
    return fs[0] if len(fs) == 1 else None


COLOURS = ["normal", "bold", "dimmed", "underline", "italic", "red", "yellow", "green", "blue", "cyan", "magenta", "white",
           "bright_red", "bright_yellow", "bright_green", "bright_blue", "bright_cyan", "clear"]


def same(ip, fr, st, avs, args, short):
    v = ip.deref_arg(st, avs[0], args[0], fr)
    return v if v.T or v.L else avs[0]


def opened(ip, fr, st, avs, args, short):
    return mk(bit(("x", short)) | ip.deref_arg(st, avs[0], args[0], fr).AL)


def labs(v, *names):
    ls = labels(v)
    return all(("f", n) in ls for n in names)


@prop("X02")
def x02(cx):
    db = cx.db
    f = main_of(cx)
    if not cx.req(f is not None, "cli/main", "cargo-atelier/src/bin/main.rs", "the tool has no main function"):
        return
    cx.rule("The tool's main function is interpreted once per sub-command and setting (output file, namespace, format, search path, colour; each "
            "operation of the other crates failing in turn): the inputs and search path reach the assembler, the assembled model reaches the action or "
            "writer of that sub-command and format and no other, its output goes to the file asked for or to standard output, every issue is "
            "printed with level, message, reporter and place, and every failure ends in a failure status without a panic.")
    bnd = boundary(db)
    kinds = {}
    for s, k in bnd.items():
        kinds.setdefault(k, set()).add(s)
    OUT = ("write_document", "_print", "exit", "create", "open", "stdout", "remove", "new_or_default", "new_or")

    def go(cmd, fail=(), panics=False):
        ov = {s: (failing if k in fail or s in fail else opaque) for s, k in bnd.items()}
        for s in ("File::create", "File::open", "write::write_document"):
            ov[s] = failing if s in fail else opened if s.startswith("File") else opaque
        for c in COLOURS:
            ov[f"Colorize::{c}"] = ov[f"str as Colorize::{c}"] = same
        ov["StructOpt::from_iter"] = ov["StructOpt::from_args"] = lambda *a: cmd
        ip = cx.interp(override=ov, panics=panics, sink=lambda s: s in bnd or seg(s) in OUT)
        ip.pure = True
        ret, evs, _ = ip.run(f)
        return ret, evs

    def kind(e):
        return bnd.get(e.name)

    def made(v, k):
        return bool({x[1] for x in labels(v) if x[0] == "x"} & kinds[k])

    def only_exits(e, ok=lambda a: False):
        return [a for a in e.atoms() if a[0] != "exit" and not ok(a)]
    W = {"lint": kinds.get("lint", set()), "validate": kinds.get("validate", set())}
    n = 0
    for sub in ("Lint", "Validate", "Convert", "Document"):
        fmts = ("Json", "Smithy", "Uml") if sub == "Convert" else (None,)
        for fmt in fmts:
            what = f"cli/{sub}" + (f"/{fmt}" if fmt else "")
            # ---- what goes in
            for env, dflt, nm in ((True, False, "variable"), (False, True, "default"), (False, False, "none")):
                if fmt in ("Smithy", "Uml"):
                    continue
                ret, evs = go(command(sub, fmt=fmt, env=env, dflt=dflt))
                n += 1
                mkr = [e for e in evs if kind(e) == "assembler" and seg(e.name) in ("new", "default")]
                if cx.req(mkr, f"{what}/assembler", cx.fnat(f), "no assembler is made"):
                    for e in mkr:
                        sp = e.args[1] if len(e.args) > 1 else None
                        if sp is None:
                            cx.req(False, f"{what}/search path/{nm}", cx.at(e), "the search path asked for is not given to the assembler")
                            continue
                        ls = labels(sp)
                        if nm == "variable":
                            cx.req(("f", "FileInput.search_env") in ls and not [t for t in sp.T if t[:3] == ("v", "Option", "None")],
                                   f"{what}/search path/{nm}", cx.at(e), "the variable named with --search-env is not the search path")
                        elif nm == "default":
                            cx.req(("s", "SMITHY_PATH") in ls or ("x", "env::var") in ls and "SMITHY_PATH" in strs(sp), f"{what}/search path/{nm}", cx.at(e),
                                   "--default-search-env does not lead to SMITHY_PATH")
                        else:
                            cx.req(("s", "SMITHY_PATH") not in ls and not (sp.T and all(t[:3] == ("v", "Option", "Some") for t in sp.T)),
                                   f"{what}/search path/{nm}", cx.at(e), "there is a search path though none was asked for")
                push = [e for e in evs if kind(e) == "assembler" and seg(e.name) in ("push", "push_str") and
                        any(labs(a, "FileInput.in_file") for a in e.args[1:])]
                if cx.req(push, f"{what}/inputs", cx.fnat(f), "the input files do not reach the assembler"):
                    bad = min((only_exits(e, lambda a: a[0] == "var" and a[1] == "Option" and a[2] == frozenset(["Some"])) for e in push), key=len)
                    cx.req(not bad, f"{what}/inputs/always", cx.at(push[0]), f"an input file is used only if {'; '.join(map(gtext, bad))}")
                    lz = set.intersection(*[set().union(*[cut(a, ("pop",), None) for a in e.args[1:]]) for e in push])
                    cx.req(not lz, f"{what}/inputs/all", cx.at(push[0]), f"the input files pass through {sorted(lz)}")
                asm = [e for e in evs if kind(e) == "assemble"]
                cx.req(asm, f"{what}/assembled", cx.fnat(f), "the model is not assembled")
            # ---- what is done
            if sub in ("Lint", "Validate"):
                mine, other = ("lint", "validate") if sub == "Lint" else ("validate", "lint")
                for colour in (True, False):
                    cmd = command(sub)
                    cmd = mk(0, frozenset(), tuple(sorted((k, const_val(colour) if k == "no_color" else v) for k, v in cmd.F)))
                    ret, evs = go(cmd)
                    n += 1
                    acts = [e for e in evs if kind(e) == mine]
                    if not cx.req(acts, f"{what}/action", cx.fnat(f), f"the {mine} action is never run"):
                        break
                    cx.req(not [e for e in evs if kind(e) == other], f"{what}/action/other", cx.at(acts[0]), f"the {other} action is run")
                    for e in acts:
                        cx.req(made(e.args[0], "assemble"), f"{what}/action/model", cx.at(e), "it is not the assembled model that is looked at")
                        bad = only_exits(e)
                        cx.req(not bad, f"{what}/action/always", cx.at(e), f"run only if {'; '.join(map(gtext, bad))}")
                        ff = const_terms(e.args[1]) if len(e.args) > 1 else None
                        cx.req(not (ff and all(c is True or c == "true" for c, _ in ff)), f"{what}/action/all", cx.at(e), "it stops at the first kind of failure")
                    prints = [e for e in evs if seg(e.name) == "_print"]
                    for fld in ("message", "reporter", "locus", "level"):
                        key = f"{what}/print/{fld}" + ("" if colour else "/colour")
                        at = [e for e in prints if any(labs(a, f"ActionIssue.{fld}") for a in e.args)]
                        if fld == "level":
                            at += [e for e in prints if any(has_word(sorted(strs(a)), w) for a in e.args for w in ("error", "Error"))]
                        if not cx.req(at, key, cx.fnat(f), f"the {fld} of an issue is not printed"):
                            continue
                        left = cover(cx, [({f"ActionIssue.{fld}"}, [a for a in e.atoms() if a[0] != "exit"]) for e in at],
                                     lambda a, o: not (atom_fields(a) & {f"ActionIssue.{x}" for x in ("message", "reporter", "locus", "level")}) and
                                     (a[0] == "var" and a[1] == "Option" or a[0] == "b" and a[1] == "is_empty" and not a[3] or a[0] not in ("b", "var"))
                                     or a[0] == "var" and a[1] == "Option" and fld == "locus" and "ActionIssue.locus" in atom_fields(a),
                                     lambda nm: variants(cx, nm))
                        left = [a for a in left if atom_fields(a) & {f"ActionIssue.{x}" for x in ("message", "reporter", "locus", "level")} or a[0] in ("b", "int")]
                        cx.req(not left, key + "/always", cx.at(at[0]), f"printed only if {'; '.join(map(gtext, left))}")
                        lz = set.intersection(*[set().union(*[cut(a, ("filter",), lambda x: not any(y.startswith("ActionIssue.") for y in atom_fields(x)))
                                                              for a in e.args]) for e in at])
                        cx.req(not lz, key + "/all", cx.at(at[0]), f"the issues pass through {sorted(lz)}")
                        if fld == "level":
                            for e in at:
                                for a in e.args:
                                    for t in [t for x in [a] + pieces(a)[1] for t in x.T if t[0] == "c" and isinstance(t[1], str)]:
                                        g = atoms(t[2])
                                        for v, w in (("Error", "error"), ("Warning", "warn"), ("Info", "info")):
                                            if any(x[0] == "var" and x[1] == "IssueLevel" for x in g) and admits(g, "IssueLevel", v):
                                                cx.req(w in t[1].lower(), f"{key}/{v}", cx.at(e), f"an issue of level {v} is printed as {t[1]}")
            for to in ((True, False) if sub in ("Convert", "Document") else ()):
                for ns in ((True, False) if fmt == "Smithy" else (None,)):
                    ret, evs = go(command(sub, fmt=fmt, out=to, ns=ns))
                    n += 1
                    tag = f"{what}/{'file' if to else 'stdout'}" + ({True: "/namespace", False: "/its namespace", None: ""}[ns])
                    ws = [e for e in evs if kind(e) == "write" or seg(e.name) == "write_document"]
                    want = {s for s in kinds["write"] if fmt and s.startswith(WRITERS[fmt])} if sub == "Convert" else {"write_document"}
                    mine = [e for e in ws if e.name in want or seg(e.name) in want]
                    if sub == "Document":
                        mine = mine or [e for e in ws if "Document" in e.name]
                    if not cx.req(mine, tag, cx.fnat(f), "nothing is written in the format asked for"):
                        continue
                    others = [e for e in ws if e not in mine]
                    cx.req(not others, tag + "/only", cx.at((others or mine)[0]), f"{others[0].name if others else ''} writes as well")
                    for e in mine:
                        args = e.args[1:] if kind(e) == "write" else e.args
                        cx.req(any(made(a, "assemble") or made(a, "describe") for a in args), tag + "/model", cx.at(e), "it is not the assembled model that is written")
                        xl = {x for a in args for x in labels(a)}
                        if to:
                            cx.req(("f", f"SubCommand::{sub}.out_file") in xl and ("x", "File::open") not in xl, tag + "/where", cx.at(e),
                                   "the file asked for is opened for reading" if ("x", "File::open") in xl else "the output does not go to the file asked for")
                        else:
                            cx.req(("x", "File::create") not in xl, tag + "/where", cx.at(e), "the output does not go to standard output")
                            cx.req([x for x in evs if seg(x.name) == "stdout"], tag + "/stdout", cx.at(e), "the output does not go to standard output")
                        bad = only_exits(e, lambda a: a[0] == "b" and (a[1] in ("eq", "is_empty", "len", "lt", "le", "gt", "ge") or "Model.shapes" in atom_fields(a)) or
                                         a[0] == "int" or a[0] == "var" and "Model.shapes" in atom_fields(a))
                        cx.req(not bad, tag + "/always", cx.at(e), f"written only if {'; '.join(map(gtext, bad))}")
                        if sub == "Document":
                            cx.req(any(labs(a, f"SubCommand::{sub}.write_format") for a in args) or seg(e.name) != "write_document", tag + "/format", cx.at(e),
                                   "the format asked for is not used")
                    if fmt == "Smithy":
                        nw = [e for e in evs if kind(e) == "writer" and e.name.startswith("SmithyWriter")]
                        if nw and ns:
                            cx.req(all(made(e.args[0], "namespace") for e in nw) and
                                   any(kind(e) == "namespace" and labs(e.args[0], "SubCommand::Convert.namespace") for e in evs),
                                   tag + "/used", cx.at(nw[0]), "the namespace asked for is not the one written")
                        elif nw:
                            cx.req(all(made(e.args[0], "assemble") for e in nw), tag + "/used", cx.at(nw[0]), "the namespace written is not that of the model")
            # ---- failures
            fails = {"Lint": ["assemble", "lint"], "Validate": ["assemble", "validate"], "Document": ["assemble", "describe", "write::write_document", "File::create"],
                     "Convert": ["assemble", "write", "File::create"] + (["namespace"] if fmt == "Smithy" else [])}[sub]
            for k in fails:
                ret, evs = go(command(sub, fmt=fmt, out=True, ns=True if fmt == "Smithy" else None), fail=(k,))
                n += 1
                key = f"{what}/failure/{seg(k)}"
                if k == "File::create" and not [e for e in evs if e.name == k]:
                    continue
                ex = [e for e in evs if seg(e.name) == "exit"]
                okret = [t for t in ret.T if t[:3] == ("v", "Result", "Ok")]
                cx.req(not okret, key, cx.fnat(f), "the tool succeeds")
                for e in ex:
                    c = const_terms(e.args[0]) if e.args else None
                    cx.req(not (c and any(str(x) == "0" for x, _ in c)), key + "/status", cx.at(e), "the tool exits with status 0")
            # ---- panics
            ret, evs = go(command(sub, fmt=fmt), panics=True)
            for e in evs:
                if e.kind != "panic" or db.fns[e.fn].crate != CLI or seg(e.name) in ("exit", "remove", "abort"):
                    continue
                sub_ = e.args[0] if e.args else None
                if seg(e.name) in ("unwrap", "expect") and sub_ is not None and e.name.startswith("Option") and \
                        (("f", "Model.shapes") in labels(sub_) or made(sub_, "assemble")) and any("Model.shapes" in atom_fields(a) for a in e.atoms()):
                    continue
                if "index" in e.name or "arith" in e.name or "overflow" in e.name:
                    continue
                cx.req(False, f"{what}/panic/{seg(db.short(e.fn))}/{seg(e.name)}", cx.at(e), f"{e.name} can panic")
    cx.floor("scenarios of the command line", n, 30)
    # ---- the name of the sub-command given by cargo
    ret, evs = go(command("Lint"))
    for e in evs:
        if seg(e.name) == "remove" and e.name.startswith("Vec") and any(("x", "env::args") in labels(a) for a in e.args):
            g = [a for a in e.atoms() if a[0] == "b" and a[1] in ("eq", "==") and a[3] and any(("s", "atelier") in labset(l) for l in a[2])]
            cx.req(g, "cli/arguments", cx.at(e), "an argument is dropped whatever it is")
            c = const_terms(e.args[1]) if len(e.args) > 1 else None
            cx.req(not c or all(str(x) == "1" for x, _ in c), "cli/arguments/which", cx.at(e), "it is not the first argument that is dropped")
    # ---- names of formats
    fm = [g for g in db.fns.values() if g.short == "FileFormat as FromStr::from_str"]
    for g in fm[:1]:
        ok = payload(cx.interp().run(g)[0], "Ok")
        for t in ok.T:
            if t[0] == "v" and t[1] == "FileFormat":
                ws = {x[1] for a in atoms(t[3]) for b in [unwrap_exit(a)[0]] if b[0] == "b" and b[1] in ("eq", "==") and b[3] for l in b[2]
                      for x in labset(l) if x[0] == "s"}
                cx.req(not ws or ws == {t[2].lower()}, f"cli/format/{t[2]}", cx.fnat(g), f"FileFormat::{t[2]} is read from {sorted(ws)}")
    fd = [g for g in db.fns.values() if g.short == "FileFormat as Display::fmt"]
    for g in fd[:1]:
        for v in sorted(WRITERS):
            ip = cx.interp(sink=lambda s: is_write(s) or seg(s) in ("fmt", "pad"))
            _, evs, _ = ip.run(g, args=[mk(0, frozenset(), (), frozenset([("v", "FileFormat", v, 0)])), src("f")])
            got = {c for e in evs for a in e.args for c in strs(a) if c.strip()}
            cx.req(not got or v.lower() in got and not got & {x.lower() for x in WRITERS} - {v.lower()}, f"cli/format/{v}/printed", cx.fnat(g),
                   f"FileFormat::{v} is printed as {sorted(got)}")


# ------------------------------------------------------------------ X04: the files of the io helpers




@prop("X04")
def x04(cx):
    db = cx.db
    cx.rule("Each of the four input and output helpers is interpreted with the reader or writer opaque: the file opened is the one at the path given, "
            "opened for what is done with it; that file, the text or a fresh buffer reaches the reader or writer with the model given, "
            "on every path that did not already fail, and what the reader made or the writer wrote is the result.")
    rw = {f.short for f in db.fns.values() if f.short.endswith((" as ModelReader::read", " as ModelWriter::write"))} | {"ModelReader::read", "ModelWriter::write"}
    n = 0
    for name_, what, mode in (("read_model_from_file", "read", "open"), ("read_model_from_string", "read", None),
                              ("write_model_to_file", "write", "create"), ("write_model_to_string", "write", None)):
        fs = [f for f in db.fns.values() if f.crate == "atelier_core" and seg(f.short) == name_]
        if not cx.req(len(fs) == 1, f"{name_}/exists", "atelier-core/src/io/mod.rs", "there is no such function"):
            continue
        f = fs[0]

        def go(fail=()):
            ov = {s: (failing if s in fail or "rw" in fail else opaque) for s in rw}
            for s in ("File::create", "File::open"):
                ov[s] = failing if s in fail else opened
            ip = cx.interp(override=ov, sink=lambda s: s in rw or s in ("File::create", "File::open") or seg(s) in ("from_utf8", "from_utf8_lossy"))
            args = [mk(bit(("p", i))) for i in range(f.argc)]
            return ip.run(f, args=args)[:2]

        def has(v, i):
            return ("p", i) in labels(v)
        model, place = (None, 1) if what == "read" else (1, 2)
        ret, evs = go()
        done = [e for e in evs if e.name in rw]
        n += len(done)
        if not cx.req(done, f"{name_}/{what}", cx.fnat(f), f"the model is never {'read' if what == 'read' else 'written'}"):
            continue
        for e in done:
            cx.req(seg(e.name) == what, f"{name_}/{what}/which", cx.at(e), "the wrong operation")
            xl = {x for a in e.args for x in labels(a)}
            if mode:
                other = "create" if mode == "open" else "open"
                cx.req(("x", f"File::{other}") not in xl, f"{name_}/mode", cx.at(e), f"the file is opened by File::{other}")
                op = [o for o in evs if o.name == f"File::{mode}"]
                cx.req(not op or any(has(o.args[0], place) for o in op), f"{name_}/path", cx.at(e), "it is not the file at the path given")
            elif what == "read":
                cx.req(any(has(a, place) for a in e.args), f"{name_}/text", cx.at(e), "it is not the text given that is read")
            if model is not None:
                cx.req(any(has(a, model) for a in e.args), f"{name_}/model", cx.at(e), "it is not the model given that is written")
            bad = [a for a in e.atoms() if not unwrap_exit(a)[1]]
            cx.req(not bad, f"{name_}/always", cx.at(e), f"only if {'; '.join(map(gtext, bad))}")
        if what == "read":
            cx.req(any(("x", e.name) in labels(ret) for e in done), f"{name_}/result", cx.fnat(f), "what the reader made is not the result")
        elif not mode:
            cx.req(any(e.name in ("String::from_utf8", "str::from_utf8") or seg(e.name) == "from_utf8" for e in evs) or labels(ret), f"{name_}/result", cx.fnat(f),
                   "what the writer wrote is not the result")
            okv = payload(ret, "Ok")
            cx.req(not okv.T or not [t for t in okv.T if t[0] == "c"], f"{name_}/result/constant", cx.fnat(f), "the result does not depend on what was written")
        for bad in ["rw"] + ([f"File::{mode}"] if mode else []):
            ret, evs = go((bad,))
            if bad != "rw" and not [e for e in evs if e.name == bad]:
                continue
            okret = [t for t in ret.T if t[:3] == ("v", "Result", "Ok")]
            cx.req(not okret, f"{name_}/failure/{'model' if bad == 'rw' else 'file'}", cx.fnat(f), "a failure is not reported")
    cx.floor("models read or written by the helpers", n, 3)


# ------------------------------------------------------------------ X03: libraries have no effects of their own
EFFECT = re.compile(r"(^|::)(stdio::_e?print|(io::)?(stdio::)?(stdout|stderr|stdin)|process::(exit|abort)|Command::(new|spawn|output|status)|env::(set_var|remove_var|set_current_dir)|"
                    r"fs::(write|copy|rename|create_dir|create_dir_all|remove_file|remove_dir|remove_dir_all|hard_link|set_permissions)|"
                    r"File::(create|create_new|set_len)|OpenOptions::(new|open)|thread::(spawn|sleep)|Builder::spawn)$")
APART = {"cargo_atelier", "atelier_test"}


@prop("X03")
def x03(cx):
    import mir
    db = cx.db
    cx.rule("Every call in every function of the libraries (all crates but the command-line tool and the test helpers) is looked at: none prints, reads standard "
            "input, ends the process, changes the environment, starts a thread or process, or creates, changes or removes a file; the one exception is the "
            "helper that writes a model to the file it was given.")
    nf = nc = 0
    per = {}
    for f in db.fns.values():
        if f.crate in APART:
            continue
        nf += 1
        per[f.crate] = per.get(f.crate, 0) + 1
        for j, nm, t in mir.calls(db, f):
            nc += 1
            if not EFFECT.search(nm):
                continue
            if seg(nm) in ("create", "new", "open") and f.crate == "atelier_core" and any(g in f.short for g in ("write_model_to_file",)):
                continue
            if seg(nm) in ("create", "new", "open") and f.crate == "atelier_core" and only_from(db, f, "write_model_to_file"):
                continue
            cx.req(False, f"{f.crate}/{f.short.split('::{')[0]}/{seg(nm)}", cx.fnat(f), f"{f.short} calls {nm}")
    for c, k in sorted(per.items()):
        cx.ok(f"crate/{c}", c, f"{k} functions")
    cx.floor("functions", nf, 800)
    cx.floor("calls", nc, 5000)


def only_from(db, f, root):
    """Whether only the function `root` (and helpers of it) calls f."""
    import mir
    todo, seen = [f], set()
    while todo:
        g = todo.pop()
        if g.short in seen:
            continue
        seen.add(g.short)
        cs = [h for h in db.fns.values() if h.short != g.short and any(nm == g.short for _, nm, _ in mir.calls(db, h))]
        if not cs:
            return False
        todo += [h for h in cs if seg(h.short) != root]
    return True
