"""Facts database: loads the JSON the rustc driver wrote for every workspace crate."""
import json, os, re, glob, hashlib, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class CheckError(Exception):
    """The check itself cannot give an answer (missing anchor, broken build...)."""


def strip_generics(s):
    """Remove turbofish generic argument lists `::<...>` (not impl qualifiers `<T as Tr>`)."""
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s.startswith("::<", i) and not s.startswith("::<impl ", i):
            d = 1
            j = i + 3
            while j < n and d:
                if s[j] == "<":
                    d += 1
                elif s[j] == ">" and s[j - 1] != "-":
                    d -= 1
                j += 1
            i = j
            continue
        out.append(s[i])
        i += 1
    return "".join(out)


_IMPL_FOR = re.compile(r"^(.*)::<impl (.*)>(::[^<>]*(?:\{.*\})?)?$")


def _split_top(s, sep):
    d = 0
    for i in range(len(s)):
        c = s[i]
        if c in "<([":
            d += 1
        elif c in ")]" or (c == ">" and s[i - 1] != "-"):
            d -= 1
        elif d == 0 and s.startswith(sep, i):
            return s[:i], s[i + len(sep):]
    return None


def last_seg(p):
    """Last path segment, generics dropped: `a::b::C<D>` -> `C`."""
    p = p.strip().lstrip("&").replace("mut ", "").strip()
    if p.startswith("'"):
        p = p.split(" ", 1)[-1]
    p = re.sub(r"<.*$", "", p)
    return p.split("::")[-1]


def short_name(full):
    """`<a::b::T as c::Tr<X>>::m` -> `T as Tr::m`;  `a::b::T::m` -> `T::m`; keeps closures."""
    s = strip_generics(full)
    m = _IMPL_FOR.match(s)
    if m and " for " in m.group(2):
        parts = _split_top(m.group(2), " for ")
        if parts:
            return f"{last_seg(parts[1])} as {last_seg(parts[0])}{m.group(3) or ''}"
    if m:
        return f"{last_seg(m.group(2))}{m.group(3) or ''}"
    if s.startswith("<"):
        d = 0
        for i, c in enumerate(s):
            if c == "<":
                d += 1
            elif c == ">" and s[i - 1] != "-":
                d -= 1
                if d == 0:
                    inner, rest = s[1:i], s[i + 1:]
                    parts = _split_top(inner, " as ")
                    if parts:
                        return f"{last_seg(parts[0])} as {last_seg(parts[1])}{rest}"
                    return f"{last_seg(inner)}{rest}"
    segs = s.split("::")
    # keep Type::method or module::function
    k = len(segs)
    # closures stay attached to their function
    i = k - 1
    while i > 0 and segs[i].startswith("{"):
        i -= 1
    return "::".join(segs[max(0, i - 1):])


class Fn:
    __slots__ = ("key", "j", "name", "short", "kind", "file", "line", "argc", "locals", "blocks",
                 "self_adt", "derived", "crate", "pub", "parent", "cfg", "dbg", "mac", "promoted_of")

    def __init__(self, db, j, crate):
        self.key = j["key"]
        self.j = j
        base = self.key.split("#")[0]
        self.name = db.names.get(base, base)
        self.short = short_name(self.name)
        if "#" in self.key:
            self.short += "#" + self.key.split("#")[1]
        self.kind = j.get("kind", "")
        self.file = j.get("file", "?")
        self.line = j.get("line", 0)
        self.argc = j["argc"]
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self.derived = j.get("derived", False)
        self.crate = crate
        self.pub = j.get("pub", False)
        self.parent = j.get("parent")
        self.mac = j.get("mac", [])
        self.dbg = j.get("dbg", [])
        st = j.get("self_ty")
        while st and st.get("k") == "ref":
            st = st["t"]
        self.self_adt = st.get("id") if st and st.get("k") == "adt" else None
        self.cfg = None

    @property
    def modpath(self):
        return self.name


class DB:
    def __init__(self, d):
        self.dir = d
        self.names = {}
        self.adts = {}
        self.fns = {}
        self.impls = []
        self.crates = []
        files = sorted(glob.glob(os.path.join(d, "*.json")))
        if not files:
            raise CheckError("no facts were produced in " + d)
        docs = []
        for f in files:
            with open(f) as fh:
                j = json.load(fh)
            docs.append(j)
            self.names.update(j["names"])
        for j in docs:
            self.crates.append(j["crate"])
            for k, v in j["adts"].items():
                if k not in self.adts or v["local"]:
                    self.adts[k] = v
            for im in j["impls"]:
                im["crate"] = j["crate"]
                self.impls.append(im)
        for j in docs:
            for f in j["fns"]:
                fn = Fn(self, f, j["crate"])
                self.fns[fn.key] = fn
        self.local_adts = {k for k, v in self.adts.items() if v["local"]}
        self.local_names = {self.names.get(k, k).split("::")[-1] for k in self.local_adts}
        last = [self.names.get(k, k).split("::")[-1] for k in self.local_adts]
        self.dup_names = {x for x in last if last.count(x) > 1}
        self._adts = {}
        self.short_cache = {}
        self.by_short = {}
        for fn in self.fns.values():
            self.by_short.setdefault(fn.short, []).append(fn)
        # trait method id -> [(impl, method id)]
        self.trait_impls = {}
        for im in self.impls:
            for tm, m in im["m"].items():
                self.trait_impls.setdefault(tm, []).append((im, m))
        self.impls_of_trait = {}
        for im in self.impls:
            self.impls_of_trait.setdefault(im["trait"], []).append(im)

    # ------------------------------------------------------------------ names
    def short(self, key):
        s = self.short_cache.get(key)
        if s is None:
            base = key.split("#")[0]
            s = short_name(self.names.get(base, base))
            self.short_cache[key] = s
        return s

    def adt_short(self, key):
        """Last path segment; types of other crates whose name a workspace type also has are `crate:Name`."""
        s = self._adts.get(key)
        if s is None:
            n = self.names.get(key, key)
            s = n.split("::")[-1]
            if key not in self.local_adts and s in self.local_names:
                s = n.split("::")[0] + ":" + s
            elif key in self.local_adts and s in self.dup_names and "::selector::" in n:
                s = "selector:" + s
            self._adts[key] = s
        return s

    def find(self, short, crate=None, many=False, module=None):
        v = [f for f in self.by_short.get(short, []) if crate is None or f.crate == crate]
        if module:
            v = [f for f in v if module in f.name]
        if many:
            return v
        if len(v) != 1:
            raise CheckError(f"anchor function `{short}`{' in '+crate if crate else ''} matched {len(v)} items")
        return v[0]

    def maybe(self, short, crate=None, module=None):
        v = [f for f in self.by_short.get(short, []) if crate is None or f.crate == crate]
        if module:
            v = [f for f in v if module in f.name]
        return v[0] if len(v) == 1 else None

    def find_adt(self, name, crate=None):
        v = [k for k in self.local_adts if self.adt_short(k) == name
             and (crate is None or self.names[k].startswith(crate + "::"))]
        if len(v) != 1:
            raise CheckError(f"anchor type `{name}` matched {len(v)} items")
        return v[0]

    def adt_fields(self, key, variant=None):
        a = self.adts[key]
        out = []
        for v in a["v"]:
            if variant is None or v["n"] == variant:
                out.extend((v["n"], f["n"], f) for f in v["f"])
        return out

    def variants(self, key):
        return [v["n"] for v in self.adts[key]["v"]]

    def impl_for(self, trait_name, self_adt):
        """Local impls of a trait (by last path segment) for an ADT id."""
        out = []
        for im in self.impls:
            if self.names.get(im["trait"], "").split("::")[-1] == trait_name:
                s = im["self"]
                while s.get("k") == "ref":
                    s = s["t"]
                if s.get("id") == self_adt:
                    out.append(im)
        return out


# ---------------------------------------------------------------------------- building

def source_hash(repo):
    h = hashlib.sha256()
    out = []
    for root, dirs, files in os.walk(repo):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target", "node_modules"))
        for f in sorted(files):
            if f.endswith((".rs", ".pest", ".toml", ".lock", ".smithy", ".json")) or f in ("build.rs",):
                out.append(os.path.join(root, f))
    for p in out:
        h.update(os.path.relpath(p, repo).encode())
        h.update(b"\0")
        with open(p, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.join(VERIF, "driver", "driver.rs"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:24]


def expected_crates(repo):
    with open(os.path.join(repo, "Cargo.toml")) as fh:
        m = re.search(r"members\s*=\s*\[(.*?)\]", fh.read(), re.S)
    if not m:
        raise CheckError("cannot read the workspace members from Cargo.toml")
    return [x.replace("-", "_") for x in re.findall(r'"([^"]+)"', m.group(1))]


def build_driver():
    src = os.path.join(VERIF, "driver", "driver.rs")
    out = os.path.join(BUILD, "driver")
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "driver.hash")
    with open(src, "rb") as fh:
        h = hashlib.sha256(fh.read()).hexdigest()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    tmp = out + f".tmp{os.getpid()}"
    r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tmp],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("the fact extractor does not compile:\n" + r.stderr[-3000:])
    os.replace(tmp, out)
    with open(stamp, "w") as fh:
        fh.write(h)
    return out


def load(repo=None, verbose=True):
    """Build (or reuse, keyed by a hash of the sources) the facts for the repository and load them."""
    import fcntl, shutil
    repo = repo or REPO
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        build_driver()
        h = source_hash(repo)
        d = os.path.join(BUILD, "facts", h)
        if not os.path.exists(os.path.join(d, "OK")):
            shutil.rmtree(d, ignore_errors=True)
            base = os.path.join(BUILD, "facts")
            if os.path.isdir(base):  # keep the cache small
                olds = sorted((os.path.join(base, x) for x in os.listdir(base)), key=os.path.getmtime)
                for o in olds[:-6]:
                    shutil.rmtree(o, ignore_errors=True)
            t = time.time()
            r = subprocess.run([os.path.join(VERIF, "gather.sh"), repo, d, os.path.join(BUILD, "target")],
                               capture_output=True, text=True)
            if r.returncode != 0:
                shutil.rmtree(d, ignore_errors=True)
                raise CheckError("cargo check of the workspace failed:\n" + r.stderr[-4000:])
            missing = [c for c in expected_crates(repo)
                       if not glob.glob(os.path.join(d, c + "-*.json"))]
            if missing:
                shutil.rmtree(d, ignore_errors=True)
                raise CheckError("no facts for workspace members: " + ", ".join(missing))
            with open(os.path.join(d, "OK"), "w") as fh:
                fh.write(h)
            if verbose:
                print(f"facts: extracted from {repo} in {time.time()-t:.1f}s ({h})")
        elif verbose:
            print(f"facts: reused for unchanged sources ({h})")
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
    return DB(d)
