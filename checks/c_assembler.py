"""X01: the assembler and its registry of file types."""
from core import *
from models import *
from mir import defs_of, operand_local
from checks.c_errors import error_flow
from checks.c_selector import fld

REG = "FileTypeRegistry"
FOLDS = {"str::to_lowercase", "str::to_ascii_lowercase", "str::to_uppercase", "str::to_ascii_uppercase",
         "str::make_ascii_lowercase", "str::make_ascii_uppercase"}
READERS = {"json": "JsonReader", "smithy": "SmithyReader"}
ADD = {"insert", "entry", "or_insert", "or_insert_with", "extend"}


def seg(s):
    return s.rsplit("::", 1)[-1]


def folds(v):
    return frozenset(xs(v)) & FOLDS


def closure_of(db, f, o, depth=0):
    """The function a function value is."""
    if depth > 6 or not isinstance(o, dict):
        return None
    if o.get("c") == "fn":
        return db.fns.get(o.get("r") or o.get("id"))
    l = operand_local(o)
    for _, r in (defs_of(f, l) if l is not None else []):
        if isinstance(r, (list, tuple)) and r[0] == "cast":
            for x in r[2:]:
                if isinstance(x, str) and x.startswith("{closure@"):
                    for g in db.fns.values():
                        if g.argc and "{closure" in g.short and x in str(g.locals[1].get("s")) and "#p" not in g.short:
                            return g
            return closure_of(db, f, r[1], depth + 1)
        if isinstance(r, (list, tuple)) and r[0] == "use":
            return closure_of(db, f, r[1], depth + 1)
    return None


def quiet(a):
    """conditions of logging"""
    return a[0] == "b" and a[1] in ("le", "lt", "ge", "gt", "eq") and (("x", "log::max_level") in atom_labs(a) or not any(
        l[0] in ("f", "fld", "arg", "x") for x in a[2] if isinstance(x, int) for l in labset(x)))


@prop("X01", technique="abstract interpretation of the file type registry and the assembler: the keys both sides of the registry use, "
      "the function each extension is given, what every path, file and model depends on from the paths added to the merge")
def x01(cx):
    db = cx.db

    def fn(short, recv=None):
        fs = [f for f in db.fns.values() if f.short == short and f.file.startswith("atelier-assembler/") and
              (recv is None or recv in str(f.locals[1].get("s")))]
        return fs[0] if fs else None

    def go(f, args=None, **kw):
        cx.analysed.add(f.key)
        ip = cx.interp(sink=lambda s: True, fields=lambda n: n.startswith((REG, "FileType", "ModelAssembler")), **kw)
        return ip.run(f, args=args)

    def here(cond, key, where, msg):
        cx.req(cond, "assembler/" + key, where, msg)

    # ---- the registry
    cx.rule("every key of the registry, stored or asked for, is the extension (or MIME type) folded to one case, and nothing else")
    used = {}
    want = {"register": [("by_extension", ADD), ("by_mime_type", ADD)], "register_all": [("by_extension", ADD), ("by_mime_type", ADD)],
            "contains": [("by_extension", {"contains_key", "get"})], "get": [("by_extension", {"get"})],
            "get_by_mime_type": [("by_mime_type", {"get"})], "remove": [("by_extension", {"remove", "remove_entry"})]}
    for name, rows in want.items():
        f = fn(f"{REG}::{name}")
        here(f is not None, f"registry/{name}", "atelier-assembler/src/lib.rs", f"{name} is gone")
        if f is None:
            continue
        args = [src("self")] + [fld("key" if "type" not in str(f.locals[i].get("s")).lower() and "str" in str(f.locals[i]["s"])
                                    else "the type") for i in range(2, f.argc + 1)]
        ret, evs, _ = go(f, args)
        for field, segs in rows:
            es = [e for e in evs if e.kind == "call" and seg(e.name) in segs and len(e.args) > 1 and
                  ("f", f"{REG}.{field}") in labels(e.args[0])]
            here(es, f"registry/{name}/{field}", cx.fnat(f), f"{name} does nothing with the {field[3:]} table")
            for e in es:
                k = e.args[1]
                mine = ("fld", "key") in labels(k) if field == "by_extension" or name == "get_by_mime_type" else \
                    ("f", "FileType.mime_type") in labels(k) or ("fld", "the type") in labels(k)
                here(mine, f"registry/{name}/{field}/key", cx.at(e), f"the key {name} uses for {field} is not its {field[3:]}")
                cut = {x for x in lossy(k) if x not in FOLDS}
                here(not cut, f"registry/{name}/{field}/whole", cx.at(e), f"the key is cut by {sorted(cut)}")
                used.setdefault(field, []).append((folds(k), e, name))
                ats = [a for a, ex in map(unwrap_exit, e.atoms()) if not quiet(a)]
                if name in ("register", "register_all"):
                    left = [a for a in ats if not (presence(a) and (field == "by_mime_type" or name == "register_all"))]
                    here(not left, f"registry/{name}/{field}/always", cx.at(e),
                         f"a file type is only registered when {' and '.join(map(gtext, left))}")
                    here(len(e.args) < 3 or ("fld", "the type") in labels(e.args[2]), f"registry/{name}/{field}/value", cx.at(e),
                         "what is registered is not the file type given")
                else:
                    here(not ats, f"registry/{name}/{field}/always", cx.at(e),
                         f"the table is only asked when {' and '.join(map(gtext, ats))}")
            if name in ("get", "get_by_mime_type", "remove"):
                here(("f", f"{REG}.{field}") in labels(ret), f"registry/{name}/result", cx.fnat(f),
                     f"{name} does not answer with what the table has")
            if name == "contains":
                bad = [t for t in ret.T if t[0] == "b" and t[3] is False and t[1] not in ("is_none",) or
                       t[0] == "c" and not any(True for _ in atoms(t[-1]))]
                here(not bad, f"registry/{name}/result", cx.fnat(f), "contains does not say what the table has")
    for field, us in used.items():
        kinds = {k for k, _, _ in us}
        odd = [(e, n) for k, e, n in us if not k or len(kinds) > 1 and k != max(kinds, key=lambda z: sum(1 for y, _, _ in us if y == z))]
        for e, n in odd:
            here(False, f"registry/{n}/{field}/case", cx.at(e), f"{n} uses another case for its key than the rest of the registry")
    cx.counts["registry operations"] = sum(len(u) for u in used.values())

    # ---- the default registry
    cx.rule("the default registry gives the extensions json and smithy their own readers")
    f = fn(f"{REG} as Default::default")
    here(f is not None, "default", "atelier-assembler/src/lib.rs", "there is no default registry")
    if f is not None:
        def made(ip, fr, st, avs, args, short):
            g = None
            for o in args:
                g = g or closure_of(db, fr.f, o)
            return mk(bit(("x", f"reader {g.key if g else '?'}")))
        _, evs, _ = go(f, None, override={"FileType::new": made, "FileType::new_with_mime_type": made})
        got = {}
        for e in evs:
            if e.kind == "call" and seg(e.name) in ADD and len(e.args) > 2 and ("f", f"{REG}.by_extension") in labels(e.args[0]):
                for k in strs(e.args[1]):
                    got.setdefault(k, []).append((e, {x[7:] for x in xs(e.args[2]) if x.startswith("reader ")}))
        for ext, reader in READERS.items():
            here(ext in got, f"default/{ext}", cx.fnat(f), f"files of extension {ext} have no reader")
            for e, ks in got.get(ext, []):
                for k in ks:
                    g = db.fns.get(k)
                    if g is None:
                        continue
                    cx.analysed.add(g.key)
                    rs = {db.short(b["t"][1].get("r") or b["t"][1].get("id") or "").split(" ")[0] for b in g.blocks
                          if b["t"][0] == "call" and db.short(b["t"][1].get("r") or b["t"][1].get("id") or "").endswith("ModelReader::read")}
                    here(not rs or rs == {reader}, f"default/{ext}/reader", cx.at(e), f"files of extension {ext} are read by {sorted(rs)}")

    # ---- the paths
    cx.rule("every path added is kept as it is; every file under them with a registered extension is in the list, once, whatever else it is")
    for name in ("push", "push_str"):
        f = fn(f"ModelAssembler::{name}")
        here(f is not None, name, "atelier-assembler/src/lib.rs", f"{name} is gone")
        if f is None:
            continue
        _, evs, _ = go(f, [src("self"), fld("path")])
        es = [e for e in evs if e.kind == "call" and seg(e.name) in ("insert", "push") and ("f", "ModelAssembler.paths") in labels(e.args[0])]
        here(es, name, cx.fnat(f), f"{name} does not keep the path")
        for e in es:
            here(("fld", "path") in labels(e.args[1]) and not lossy(e.args[1]), f"{name}/whole", cx.at(e), "what is kept is not the path given")
            left = [a for a in map(lambda a: unwrap_exit(a)[0], e.atoms()) if not quiet(a)]
            here(not left, f"{name}/always", cx.at(e), f"a path is only kept when {' and '.join(map(gtext, left))}")
    f = fn("ModelAssembler::new")
    if f is not None:
        _, evs, _ = go(f, [fld("types"), fld("search path")])
        es = [e for e in evs if e.kind == "call" and seg(e.name) in ("extend", "insert") and ("f", "ModelAssembler.paths") in labels(e.args[0])]
        here(es and all(("fld", "search path") in labels(e.args[1]) and not lossy(e.args[1]) and not filts(e.args[1]) for e in es), "new/search path",
             cx.fnat(f), "not all paths of the search path are added")
        for e in es:
            left = [a for a in map(lambda a: unwrap_exit(a)[0], e.atoms()) if not quiet(a) and not presence(a)]
            here(not left, "new/search path/always", cx.at(e), f"the search path is only added when {' and '.join(map(gtext, left))}")
    f = fn("ModelAssembler::expand_file_paths")
    here(f is not None, "expand", "atelier-assembler/src/lib.rs", "expand_file_paths is gone")
    DIR = ("x", "fs::read_dir")

    def walk_ok(a):
        labs = atom_labs(a)
        if quiet(a) or presence(a):
            return True
        if a[0] == "var" and a[1] in ("Option", "Result", "ControlFlow"):
            return bool({"Some", "Ok", "Continue"} & set(a[2])) and (("x", "Path::extension") in labs or ("f", "ModelAssembler.paths") in labs)
        return a[0] == "b" and a[1] in ("is_file", "is_dir", "contains_key") or a[0] == "b" and a[1] in ("is_some", "is_ok", "is_none", "is_err")
    if f is not None:
        ret, evs, _ = go(f)
        es = [e for e in evs if e.kind == "call" and seg(e.name) in ("push", "extend", "insert") and len(e.args) > 1 and
              ("f", "ModelAssembler.paths") in labels(e.args[1]) and ("fmt", "debug") not in labels(e.args[1])]
        direct = [e for e in es if DIR not in labels(e.args[1])]
        nested = [e for e in es if DIR in labels(e.args[1])]
        here(direct, "expand/files", cx.fnat(f), "a file that was added is not in the list")
        here(nested, "expand/directories", cx.fnat(f), "files in a directory that was added are not in the list")
        here(("f", "ModelAssembler.paths") in labels(ret) and DIR in labels(ret), "expand/result", cx.fnat(f), "the list given back lacks files")
        deep = [e for e in evs if e.kind == "call" and e.name == "fs::read_dir" and DIR in labels(e.args[0])]
        deep = [e for e in deep if not any(a[0] == "b" and a[1] == "is_file" and a[3] and DIR in atom_labs(a)
                                           for a in map(lambda a: unwrap_exit(a)[0], e.atoms()))]
        here(deep, "expand/recursive", cx.fnat(f), "directories in a directory are not read")
        for e in es + deep:
            v = e.args[1] if e not in deep else e.args[0]
            here(not lossy(v) and not [x for x in filts(v) if not walk_ok(x)], "expand/whole", cx.at(e), f"the paths are cut by {sorted(lossy(v))}")
            left = [a for a in map(lambda a: unwrap_exit(a)[0], e.atoms()) if not walk_ok(a)]
            here(not left, f"expand/always/{db.short(e.fn)}", cx.at(e), f"a file is left out unless {' and '.join(map(gtext, left))}")
        for e in es:
            guard = [a for a in map(lambda a: unwrap_exit(a)[0], e.atoms()) if ("f", f"{REG}.by_extension") in atom_labs(a) or
                     ("f", "ModelAssembler.file_types") in atom_labs(a)]
            guard += [x for x in filts(e.args[1]) if ("f", f"{REG}.by_extension") in atom_labs(x)]
            here(guard and all(a[0] != "b" or a[3] != (a[1] in ("is_none",)) for a in guard), "expand/supported", cx.at(e),
                 "a file is in the list whether or not its extension is registered")

    # ---- the models
    cx.rule("each file of the list is opened, read by the reader of its extension, and its model is merged into the result, or an error is given back")
    f = fn("Model as TryFrom::try_from", "&mut ModelAssembler") or fn("Model as TryFrom::try_from", "ModelAssembler")
    here(f is not None, "assemble", "atelier-assembler/src/lib.rs", "an assembler does not make a model")
    if f is not None:
        read = f"{REG}.by_extension"

        def merged(ip, fr, st, avs, args, short):
            return mk(0, E, (("Ok", mk(0)), ("Err", mk(bit(("x", "merge error"))))),
                      frozenset([("v", "Result", "Ok", 0), ("v", "Result", "Err", 0)]))

        def listed(ip, fr, st, avs, args, short):
            return mk(0, E, (("[]", fld("file")),)) if False else mk(bit(("fld", "file")))
        ret, evs, _ = go(f, None, override={"Model::merge": merged, "ModelAssembler::expand_file_paths": listed})
        opens = [e for e in evs if e.kind == "call" and e.name in ("File::open", "OpenOptions::open")]
        here(opens, "assemble/open", cx.fnat(f), "the files are not opened")
        for e in opens:
            here(("fld", "file") in labels(e.args[-1]) and not (lossy(e.args[-1])), "assemble/open/path", cx.at(e), "what is opened is not the file listed")
        got = payload(ret, "Ok")
        here(("f", "FileType.reader_fn") in labels(got), "assemble/result", cx.fnat(f), "the result is not what the readers read")
        ms = [e for e in evs if e.kind == "call" and e.name == "Model::merge"]
        here(ms, "assemble/merge", cx.fnat(f), "the models are not merged")

        def fine(a):
            labs = atom_labs(a)
            if quiet(a) or presence(a) or walk_ok(a):
                return True
            if a[0] == "var" and a[1] in ("Option", "Result", "ControlFlow"):
                return bool({"Some", "Ok", "Continue"} & set(a[2]))
            return a[0] == "b" and a[1] == "is_empty" and a[3] is False and (("f", "ModelAssembler.paths") in labs or ("f", "FileType.reader_fn") in labs)
        for e in ms:
            v = e.args[1]
            here(("f", "FileType.reader_fn") in labels(v), "assemble/merge/model", cx.at(e), "what is merged is not what was read")
            cut = {x for x in lossy(v) if seg(x) not in ("remove", "pop", "pop_front", "swap_remove", "drain", "split_first", "to_lowercase",
                                                        "to_ascii_lowercase")}
            here(not cut, "assemble/merge/all", cx.at(e), f"models are left out by {sorted(cut)}")
            left = [a for a, ex in map(unwrap_exit, e.atoms()) if not fine(a)]
            here(not left, "assemble/merge/always", cx.at(e), f"a model is only merged when {' and '.join(map(gtext, left))}")
        for o in opens:
            left = [a for a, ex in map(unwrap_exit, o.atoms()) if not fine(a) and not (ex and ("f", read) in atom_labs(a))]
            here(not left, "assemble/open/always", cx.at(o), f"a file is only read when {' and '.join(map(gtext, left))}")
            asked = [a for a in map(lambda a: unwrap_exit(a)[0], o.atoms()) if ("f", read) in atom_labs(a)]
            here(asked, "assemble/reader", cx.at(o), "a file is read without asking the registry for its extension")
            here(all(("x", "Path::extension") in atom_labs(a) and not {l[1] for l in atom_labs(a) if l[0] == "x" and l[1] in
                      ("Path::file_stem", "Path::file_name", "Path::parent", "Path::with_extension")} for a in asked), "assemble/reader/extension", cx.at(o),
                 "the registry is not asked for the extension of the file")
        cx.counts["merges"] = len(ms)
    inner = {g.key for g in db.fns.values() if g.file.startswith("atelier-assembler/src/")}
    cx.counts["fallible calls"] = error_flow(cx, inner, "assembler/error/")
    cx.rule("a failure of the file system while reading is an error of the result, not a panic")
    for g in db.fns.values():
        if g.key not in inner or "#" in g.key or g.derived:
            continue
        for b in g.blocks:
            t = b["t"]
            if t[0] == "call" and not b.get("u") and db.short(t[1].get("r") or t[1].get("id") or "") in ("Result::unwrap", "Result::expect"):
                l = operand_local(t[2][0])
                ty = str(g.locals[l]["s"]) if l is not None else ""
                here("fs::File" not in ty, f"assemble/panic/{g.short}", f"{g.file}:{b['l']} ({g.short})",
                     "a file that cannot be opened ends the program")
