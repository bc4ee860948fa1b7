"""Interprocedural provenance dataflow over MIR.

An abstract value says where a value can come from: which fields of the repository's types it was
read out of, which string/integer constants it can be, what it was built from, which closures it
can be.  Containers, Option, Box, references and iterators are transparent (their content is
collapsed), maps keep keys ('0') and values ('1') apart, tuples and structs keep their components.
Guards are the control dependences (post-dominance) of a construct, transitively and across calls.

Nothing is executed: every function body is a system of dataflow equations iterated to a fixpoint,
branches are joined, loops are joined, calls are summarised per abstract argument.
"""
import sys
import re as _re
from cfg import CFG
from facts import CheckError

sys.setrecursionlimit(20000)

# ------------------------------------------------------------------------- labels and atoms
_LAB = {}
_LABS = []


def bit(lab):
    i = _LAB.get(lab)
    if i is None:
        i = len(_LABS)
        _LAB[lab] = i
        _LABS.append(lab)
    return 1 << i


_SETS = {}


def labset(bits):
    s = _SETS.get(bits)
    if s is None:
        out = []
        b = bits
        while b:
            low = b & -b
            out.append(_LABS[low.bit_length() - 1])
            b ^= low
        s = frozenset(out)
        _SETS[bits] = s
    return s


_AT = {}
_ATS = []


def atombit(a):
    i = _AT.get(a)
    if i is None:
        i = len(_ATS)
        _AT[a] = i
        _ATS.append(a)
    return 1 << i


_ASETS = {}


def atoms(bits):
    s = _ASETS.get(bits)
    if s is None:
        out = []
        b = bits
        while b:
            low = b & -b
            out.append(_ATS[low.bit_length() - 1])
            b ^= low
        s = tuple(out)
        _ASETS[bits] = s
    return s


UNK = ("?",)
TUNK = frozenset([UNK])
E = frozenset()
MAXDEPTH = 7
MAXT = 48


class AV:
    """Hash-consed abstract value."""
    __slots__ = ("L", "P", "F", "T", "C", "K", "AL", "depth", "id", "AC", "PP")
    table = {}

    def __repr__(self):
        r = []
        if self.L:
            r.append("L=" + ",".join(sorted(map(labstr, labset(self.L)))))
        if self.P:
            r.append("P=%s" % (sorted(map(str, self.P)),))
        if self.C:
            r.append("C=%d" % len(self.C))
        if self.T - TUNK:
            r.append("T=" + ";".join(sorted(tstr(t) for t in self.T)))
        for k, v in self.F:
            r.append(f"{k}:{v!r}")
        return "{" + " ".join(r) + "}"

    def get(self, k):
        for n, v in self.F:
            if n == k:
                return v
        return None


def labstr(l):
    return l if isinstance(l, str) else ":".join(map(str, l))


def tstr(t):
    return "/".join(str(x) if not isinstance(x, tuple) else "(" + ",".join(
        ",".join(sorted(map(labstr, labset(y)))) if isinstance(y, int) else str(y) for y in x) + ")"
        for x in t if True)


def atomstr(a):
    out = []
    for x in a:
        if isinstance(x, bool):
            out.append(str(x))
        elif isinstance(x, int):
            out.append("[" + ",".join(sorted(map(labstr, labset(x)))) + "]")
        elif isinstance(x, tuple):
            out.append(atomstr(x))
        elif isinstance(x, frozenset):
            out.append("|".join(sorted(map(str, x))))
        else:
            out.append(str(x))
    return "(" + " ".join(out) + ")"


def mk(L=0, P=E, F=(), T=TUNK, C=E, K=E):
    if len(T) > MAXT:
        T = frozenset([UNK])
    key = (L, P, F, T, C, K)
    v = AV.table.get(key)
    if v is None:
        d = 0
        al = L
        ac = C
        pp = bool(P)
        for n, x in F:
            if x.depth + 1 > d:
                d = x.depth + 1
            al |= x.AL
            ac = ac | x.AC if x.AC else ac
            pp = pp or x.PP
        if d > MAXDEPTH:
            # collapse the deepest structure
            F = tuple((n, collapse(x, MAXDEPTH - 1)) for n, x in F)
            v = mk(L, P, F, T, C, K)
            AV.table[key] = v
            return v
        v = AV()
        v.L, v.P, v.F, v.T, v.C, v.K = key
        v.AL = al
        v.AC = ac
        v.PP = pp
        v.depth = d
        v.id = len(AV.table)
        AV.table[key] = v
    return v


def allptrs(v):
    if not v.PP:
        return E
    p = v.P
    for _, x in v.F:
        if x.PP:
            p = p | allptrs(x)
    return p


def collapse(v, depth):
    if v.depth <= depth:
        return v
    if depth <= 0:
        return mk(v.AL, allptrs(v), (), TUNK, v.AC, v.K)
    return mk(v.L, v.P, tuple((n, collapse(x, depth - 1)) for n, x in v.F), v.T, v.C, v.K)


BOT = mk(T=E)
MK = bit(("mk",))
MV = bit(("mv",))
TOP0 = mk()  # a value with no provenance, unknown content
_JC = {}


def join(a, b):
    if a is b or b is BOT:
        return a
    if a is BOT:
        return b
    k = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    v = _JC.get(k)
    if v is not None:
        return v
    if a.F is b.F or a.F == b.F:
        F = a.F
    elif not a.F:
        F = b.F
    elif not b.F:
        F = a.F
    else:
        d = dict(a.F)
        for n, x in b.F:
            y = d.get(n)
            d[n] = x if y is None else join(y, x)
        F = tuple(sorted(d.items(), key=lambda t: t[0]))
        if len(F) > 80:
            al = 0
            for n, x in F:
                al |= x.AL
            v = mk(a.L | b.L | al, a.P | b.P, (), TUNK, a.AC | b.AC, a.K | b.K)
            _JC[k] = v
            return v
    v = mk(a.L | b.L, a.P | b.P, F, joinT(a.T, b.T), a.C | b.C, a.K | b.K)
    _JC[k] = v
    return v


def joinT(a, b):
    if a == b:
        return a
    u = a | b
    # same constant under nested guards: keep the larger guard set
    by = {}
    for t in u:
        if t[0] in ("c", "v"):
            by.setdefault(t[:-1], []).append(t)
    drop = set()
    for g in by.values():
        if len(g) > 1:
            for x in g:
                for y in g:
                    if x is not y and x[-1] != y[-1] and (x[-1] & y[-1]) == x[-1]:
                        drop.add(x)
    return u - drop if drop else u


def joins(vs):
    r = BOT
    for v in vs:
        r = join(r, v)
    return r


def setF(v, name, x):
    d = dict(v.F)
    d[name] = x
    return mk(v.L, v.P, tuple(sorted(d.items(), key=lambda t: t[0])), v.T, v.C, v.K)


def dropF(v, names):
    F = tuple((n, x) for n, x in v.F if n not in names)
    return v if len(F) == len(v.F) else mk(v.L, v.P, F, v.T, v.C, v.K)


def struct(d, T=TUNK, K=E, L=0):
    return mk(L, E, tuple(sorted(d.items(), key=lambda t: t[0])), T, E, K)


def lab(v, l):
    b = bit(l)
    if v.L & b:
        return v
    return mk(v.L | b, v.P, v.F, v.T, v.C, v.K)


def labb(v, bits):
    if v.L & bits == bits:
        return v
    return mk(v.L | bits, v.P, v.F, v.T, v.C, v.K)


def noT(v):
    return mk(v.L, v.P, v.F, TUNK, v.C, v.K)


def flat(v, T=TUNK):
    return mk(v.AL, E, (), T)


def definite(v):
    """The one variant an option or result is, if it is known."""
    got = {t[2] for t in v.T if t[0] == "v" and t[1] in ("Option", "Result")}
    return got.pop() if len(got) == 1 and all(t[0] == "v" for t in v.T) else None


def src(name, K=E):
    return mk(bit(("arg", name)), E, (), TUNK, E, K)


def const_str(s, G=0):
    return mk(bit(("s", s)), E, (), frozenset([("c", s, G)]))


def const_val(x, G=0):
    if isinstance(x, bool):
        return mk(0, E, (), frozenset([("c", x, G)]))
    return mk(bit(("i", x)), E, (), frozenset([("c", x, G)]))


def is_elem(n):
    return n.startswith("[")


def elem(v):
    """Content of a container."""
    if not v.F:
        return v
    es = [x for n, x in v.F if is_elem(n)]
    if not es:
        return v
    rest = tuple((n, x) for n, x in v.F if not is_elem(n))
    r = joins(es)
    if v.L or rest or v.P:
        r = join(r, mk(v.L, v.P, rest, TUNK if v.L else E, v.C, v.K))
    return r


def payload(v, comp):
    """Payload of Option/Result component ('Some', 'Ok', 'Err'...)."""
    x = v.get(comp)
    others = tuple((n, y) for n, y in v.F if n not in ("Some", "Ok", "Err", "Continue", "Break"))
    wrapped = len(others) != len(v.F)
    if x is None:
        if wrapped and not v.L and not others and not v.P:
            return BOT
        T = frozenset(t for t in v.T if not (t[0] == "v" and t[1] in ("Option", "Result", "ControlFlow")))
        return mk(v.L, v.P, others, T or TUNK, v.C, v.K)
    if v.L or others or v.P:
        return join(x, mk(v.L, v.P, others, TUNK, v.C, v.K))
    return x


def okof(v):
    """Success payload of either Option or Result (or the value itself)."""
    n = {k for k, _ in v.F}
    if "Some" in n and "Ok" in n:
        return join(payload(v, "Some"), payload(v, "Ok"))
    if "Some" in n:
        return payload(v, "Some")
    if "Ok" in n or "Err" in n:
        return payload(v, "Ok")
    return payload(v, "Some")


# ------------------------------------------------------------------------- externals tables
def S(x):
    return set(x.split())


# result = the argument's content, structure kept
IDENT = S("""clone cloned copied to_owned into from as_ref as_str as_deref deref borrow iter into_iter next
 collect to_vec to_string into_inner as_slice peekable by_ref fuse into_boxed_slice from_iter
 as_bytes into_bytes must_use to_string_lossy as_path to_path_buf new_display new_debug values_iter
 into_string as_os_str as_any box_assume_init_into_vec_unsafe into_vec write as_mut_slice
 source peek chars char_indices next_back stdout lock drain get_ref as_object as_array as_os_string
 from_str try_into try_from parse into_values into_keys chain extend_from_slice upgrade downgrade as_str_slice
 fields""")
# structure kept, provenance tag added (part of the content may be missing or changed)
TAGGED = S("""take skip first last nth filter dedup take_while skip_while step_by retain truncate remove
 swap_remove pop split_first split_last find max min max_by min_by rev zip enumerate windows chunks to_lowercase to_uppercase
 to_ascii_lowercase to_ascii_uppercase trim trim_start trim_end trim_matches replace split splitn rsplit
 strip_prefix strip_suffix split_off drain_filter dedup_by dedup_by_key split_at join concat get""")
POINTER_KEEP = S("""as_mut iter_mut get_mut last_mut first_mut deref_mut borrow_mut as_deref_mut get_or_insert_with
 or_insert or_insert_with or_default entry values_mut and_modify by_ref get_or_insert into_mut insert_entry
 index_mut as_mut_slice next find nth last peek_mut unwrap expect or_insert_with_key stdout lock
 into_iter peekable map_err ok_or as_mut_ptr chain""")
UNWRAPS = S("""unwrap expect unwrap_or_default ok unwrap_unchecked""")
SORTS = S("""sort sort_by sort_by_key sort_unstable sort_unstable_by sort_unstable_by_key""")
MAPTY = {"HashMap", "BTreeMap", "Map", "IndexMap", "Entry", "OccupiedEntry", "VacantEntry", "LinkedHashMap"}
HASHTY = {"HashMap", "HashSet"}
PANICS_CALL = {
    "Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Result::unwrap_err",
    "Result::expect_err", "panicking::panic", "panicking::panic_fmt", "panicking::panic_display",
    "panicking::begin_panic", "panicking::assert_failed", "panicking::panic_str",
    "panicking::unreachable_display", "panicking::panic_explicit", "option::unwrap_failed",
    "result::unwrap_failed", "option::expect_failed", "panicking::panic_bounds_check",
    "panicking::begin_panic_fmt", "panicking::panic_nounwind", "panicking::panic_str_2015", "panicking::unreachable_display",
    "Vec::remove", "Vec::swap_remove", "Vec::split_off", "[T]::split_at", "str::split_at",
    "String::remove", "String::insert_str", "String::insert", "Vec::insert", "Vec::drain",
    "[T]::copy_from_slice", "[T]::swap", "Iterator::step_by", "[T]::chunks", "[T]::windows",
    "process::exit", "process::abort", "String::truncate", "Vec::truncate_", "char::from_digit",
}


class Event:
    __slots__ = ("kind", "name", "args", "G", "fn", "line", "dest")

    def __init__(self, kind, name, args, G, fn, line, dest=None):
        self.kind, self.name, self.args, self.G, self.fn, self.line, self.dest = kind, name, args, G, fn, line, dest

    def key(self):
        return (self.kind, self.name, tuple(a.id for a in self.args), self.G, self.fn, self.line)

    def atoms(self):
        return atoms(self.G)

    def __repr__(self):
        return (f"<{self.kind} {self.name} @{self.fn}:{self.line} args={list(self.args)} "
                f"G={[atomstr(a) for a in self.atoms()]}>")


class Summary:
    __slots__ = ("ret", "heap", "events", "final", "used", "deps", "dependents")

    def __init__(self):
        self.deps = set()           # unfinished evaluations this one relies on
        self.dependents = set()     # finished evaluations that relied on this one before it was finished
        self.ret = BOT
        self.heap = {}
        self.events = {}
        self.final = False
        self.used = False


def adt_of(t):
    while t and t.get("k") in ("ref", "ptr"):
        t = t["t"]
    return t


def unordered(v, depth=0):
    """A sorted sequence no longer depends on the order of a hash map: neither it nor the text of its elements."""
    hb = bit(("hashorder",))
    if not v.AL & hb or depth > 12:
        return v
    return mk(v.L & ~hb, v.P, tuple((n, unordered(x, depth + 1)) for n, x in v.F), v.T, v.C, v.K)


class Interp:
    """One analysis run.

    sink(name) -> truthy: record an event for each call of a function with that short name
    opaque(fn key, short) -> truthy: do not look inside the callee
    agg: set of ADT short names whose construction is recorded
    panics: record panic sites
    """

    def __init__(self, db, sink=None, opaque=None, agg=None, panics=False, fields=None, budget=400000,
                 override=None, keep_through=None, pairs=None, outer=False, under=False):
        self.db = db
        self.under = under          # label what is wrapped in Some with the strings it was chosen by
        self.outer = outer
        self.sink = sink or (lambda s: False)
        self.opaque = opaque or (lambda k, s: False)
        self.agg = agg or set()
        self.panics = panics
        self.fields = fields or (lambda nm: False)
        self.cur = None
        self.budget = budget
        self.steps = 0
        self.memo = {}
        self.stack = []
        self.cfgs = {}
        self.override = override or {}
        self.visited = set()
        self.calls_resolved = 0
        self.calls_external = 0
        self.ext_seen = {}
        self.cellty = {}
        self.vcache = {}
        self.conjcache = {}
        self.xcache = {}
        self.hcfgs = {}
        self.alias = {}

    # ------------------------------------------------------------------ helpers
    def cfg(self, f):
        if f.cfg is None:
            f.cfg = CFG(f.blocks)
        return f.cfg

    def has_cell(self, t, depth=0):
        if t is None or depth > 6:
            return False
        k = t.get("k")
        if k in ("ref", "ptr"):
            return self.has_cell(t["t"], depth + 1)
        if k == "adt":
            i = t["id"]
            key = i + "|" + str(t.get("a"))
            if key in self.cellty:
                return self.cellty[key]
            self.cellty[key] = False
            nm = self.db.adt_short(i)
            r = nm in ("RefCell", "Cell", "Mutex", "RwLock", "UnsafeCell", "RefMut", "MutexGuard")
            if not r:
                r = any(self.has_cell(x, depth + 1) for x in t.get("a", []) if isinstance(x, dict))
            if not r and i in self.db.local_adts:
                r = any(self.field_has_cell(f, depth + 1) for v in self.db.adts[i]["v"] for f in v["f"])
            self.cellty[key] = r
            return r
        if k in ("tuple",):
            return any(self.has_cell(x, depth + 1) for x in t.get("a", []))
        if k in ("slice", "array") and isinstance(t.get("t"), dict):
            return self.has_cell(t["t"], depth + 1)
        return False

    def field_has_cell(self, f, depth):
        if _re.search(r"\b(RefCell|Cell|Mutex|RwLock|RefMut)<", f["t"]):
            return True
        a = f.get("a")
        return bool(a and a in self.db.local_adts and self.has_cell({"k": "adt", "id": a, "a": []}, depth))

    def is_ptr_ty(self, t):
        if t.get("k") == "ref":
            return t.get("m") or self.has_cell(t["t"])
        return t.get("k") == "ptr"

    # ------------------------------------------------------------------ places
    def fieldname(self, e):
        adt, variant, field = e[1], e[2], e[3]
        return adt, variant, field

    def read_path(self, st, cell, path):
        v = st.get(cell, BOT)
        for p in path:
            v = self.step(v, p)
        return v

    pure = False      # a part that is a structure of its own is read as just that, without the mark of the field it was in

    def step(self, v, p):
        """One path element: ('F', adtshort, variant, field) | ('t', i) | ('some',) | ('[]',) | ('v',)"""
        k = p[0]
        if k == "F":
            return self.read_field(v, p[1], p[2], p[3])
        if k == "t":
            return self.read_tuple(v, p[1])
        if k == "some":
            return okof(v)
        if k == "[]":
            return elem(v)
        return v

    def read_field(self, v, adts, variant, field):
        name = f"{variant}.{field}" if variant else field
        L = bit(("f", f"{adts}::{variant}.{field}" if variant else f"{adts}.{field}"))
        x = v.get(name)
        if x is not None:
            if not x.F and not x.P and not x.C:
                x = labb(x, L)
            elif not self.pure or not x.F:
                x = mk(x.L | L, x.P, x.F, x.T, x.C, x.K)
        if v.L or x is None:
            if v.L:
                d = mk(v.L | L, E, (), TUNK)
            elif v.F:
                # a component never written: other variant or default
                d = mk(L, E, (), TUNK) if False else BOT
                # enum value joined with unknown content keeps L, so a pure struct here lacks the field
            else:
                d = mk(L, E, (), TUNK) if v.T else BOT
            # pointers stored in unknown structure
            if v.P:
                d = join(d, mk(0, v.P, (), TUNK))
            x = d if x is None else join(x, d)
        return x

    def read_tuple(self, v, i):
        x = v.get(str(i))
        if x is not None:
            if v.L:
                return join(x, mk(v.L, v.P, (), TUNK))
            return x
        if v.L or v.P:
            return mk(v.L, v.P, (), TUNK)
        if v.F:
            # tuple field of something that lost its shape
            return flat(v) if not v.PP else mk(v.AL, allptrs(v), (), TUNK)
        return v

    def resolve_place(self, st, place, frame):
        """Read a place."""
        v = st.get(place[0], BOT)
        n = len(place)
        i = 1
        while i < n:
            e = place[i]
            if e == "*":
                if v.P:
                    r = BOT
                    for c, path in v.P:
                        r = join(r, self.read_path(st, c, path))
                    if v.L or v.F or v.C:
                        r = join(r, mk(v.L, E, v.F, v.T, v.C, v.K))
                    elif v.K and not r.K:
                        r = mk(r.L, r.P, r.F, r.T, r.C, v.K)
                    v = r
            elif isinstance(e, str):
                pass
            else:
                v = self.step_elem(v, e)
            i += 1
        return v

    def step_elem(self, v, e):
        k = e[0]
        if k == "f":
            adt, variant, field = e[1], e[2], e[3]
            if adt in self.db.local_adts:
                return self.read_field(v, self.db.adt_short(adt), variant, field)
            nm = self.db.adt_short(adt)
            if nm in ("Option", "Result", "ControlFlow"):
                return payload(v, variant)
            return v
        if k == "t":
            return self.read_tuple(v, e[1])
        if k == "d":
            return v
        if k in ("i", "sub"):
            return elem(v)
        if k == "ci":
            x = v.get(f"[{e[1]}]") if len(e) > 1 else None
            return x if x is not None and not v.L else elem(v)
        return v

    def path_elem(self, e):
        if e == "*" or isinstance(e, str):
            return None
        k = e[0]
        if k == "f":
            adt, variant, field = e[1], e[2], e[3]
            if adt in self.db.local_adts:
                return ("F", self.db.adt_short(adt), variant, field)
            nm = self.db.adt_short(adt)
            if nm in ("Option", "Result", "ControlFlow"):
                return ("some",)
            return None
        if k == "t":
            return ("t", e[1])
        if k in ("i", "ci", "sub"):
            return ("[]",)
        return None

    def addr(self, st, place):
        """Addresses of a place: set of (cell, path); may be empty for opaque memory."""
        cur = {(place[0], ())}
        for e in place[1:]:
            if e == "*":
                nxt = set()
                for c, path in cur:
                    v = self.read_path(st, c, path)
                    nxt |= v.P
                cur = nxt
            else:
                p = self.path_elem(e)
                if p is not None:
                    cur = {(c, (path + (p,))[:12]) for c, path in cur}
        return frozenset(cur)

    def write_in(self, v, path, x, strong):
        if not path:
            return x if strong else join(v, x)
        p = path[0]
        k = p[0]
        if k == "F":
            name = f"{p[2]}.{p[3]}" if p[2] else p[3]
            old = v.get(name)
            if old is None:
                old = BOT
            return setF(v, name, self.write_in(old, path[1:], x, strong))
        if k == "t":
            old = v.get(str(p[1])) or BOT
            return setF(v, str(p[1]), self.write_in(old, path[1:], x, strong))
        if k == "some":
            n = "Some" if v.get("Some") is not None else ("Ok" if v.get("Ok") is not None else None)
            if n:
                return setF(v, n, self.write_in(v.get(n), path[1:], x, False))
            return self.write_in(v, path[1:], x, False)
        if k == "[]":
            for n, y in v.F:
                if is_elem(n):
                    return setF(v, n, self.write_in(y, path[1:], x, False))
            return self.write_in(v, path[1:], x, False)
        return self.write_in(v, path[1:], x, False)

    def write_addr(self, st, addrs, x, how="write"):
        fr = self.cur
        for c, path in addrs:
            old = st.get(c, BOT)
            st[c] = self.write_in(old, path, x, False)
            if fr is not None and fr.record:
                self.path_event(fr, path, x, how)

    def path_event(self, fr, path, x, how):
        for p in reversed(path):
            if p[0] == "F":
                nm = f"{p[1]}::{p[2]}.{p[3]}" if p[2] else f"{p[1]}.{p[3]}"
                if self.fields(nm):
                    if self.outer:
                        # the whole path to the field, outermost first
                        nm = "/".join(f"{q[1]}::{q[2]}.{q[3]}" if q[2] else f"{q[1]}.{q[3]}"
                                      for q in path if q[0] == "F")
                    self.emit(fr, "field", nm, [x], None, how)
                return

    def assign(self, st, place, x):
        if len(place) == 1:
            st[place[0]] = x
            return
        if "*" not in place[1:]:
            path = tuple(p for p in (self.path_elem(e) for e in place[1:]) if p is not None)
            ok = all(p[0] in ("F", "t") for p in path)
            st[place[0]] = self.write_in(st.get(place[0], BOT), path, x, ok)
            if self.cur is not None and self.cur.record:
                self.path_event(self.cur, path, x, "assign")
            return
        self.write_addr(st, self.addr(st, place), x, "assign")

    # ------------------------------------------------------------------ operands
    def operand(self, st, o, fr):
        c = o["c"]
        if c in ("mv", "cp"):
            return self.resolve_place(st, o["p"], fr)
        if c == "fn":
            return mk(0, E, (), TUNK, frozenset([o.get("via") or o.get("r") or o["id"]]))
        G = fr.curG
        if "str" in o:
            return const_str(o["str"], G)
        if "strs" in o and o["strs"] is not None:
            return struct({f"[{i}]": const_str(s, G) for i, s in enumerate(o["strs"][:256])})
        if "int" in o and "promoted" not in o:
            t = o.get("t", {})
            x = o["int"]
            if t.get("s") == "bool":
                return const_val(bool(x), G)
            if t.get("k") == "adt" and t["id"] in self.db.adts:
                a = self.db.adts[t["id"]]
                for vr in a["v"]:
                    if vr.get("d") is not None and str(vr["d"]) == str(x):
                        return mk(0, E, (), frozenset([("v", self.db.adt_short(t["id"]), vr["n"], G)]),
                                  E, frozenset([t["id"]]) if t["id"] in self.db.local_adts else E)
            return const_val(x, G)
        key = o.get("promoted") or o.get("item")
        if key and key in self.db.fns:
            s = self.call_fn(key, (), {}, fr)
            self.cur = fr
            v = s.ret
            if "item" in o:
                v = mk(v.L | bit(("k", self.db.short(key))), v.P, v.F, v.T, v.C, v.K)
            return self.reguard(v, G)
        if "static" in o and o["static"]:
            key = o["static"]
            K = frozenset([o["t"]["t"]["id"]]) if o.get("t", {}).get("k") in ("ref", "ptr") and \
                o["t"]["t"].get("k") == "adt" else E
            return mk(bit(("st", self.db.short(key))), E, (), TUNK, E, K)
        if key:
            return mk(bit(("k", self.db.short(key))), E, (), TUNK)
        if "bytes" in o and o["bytes"] is not None:
            return mk(bit(("b", o["bytes"])), E, (), TUNK)
        t = o.get("t", {})
        if t.get("k") == "closure":
            return mk(0, E, (), TUNK, frozenset([t["id"]]))
        if t.get("k") == "fndef":
            return mk(0, E, (), TUNK, frozenset([t["id"]]))
        if t.get("k") == "adt" and t["id"] in self.db.local_adts:
            return mk(0, E, (), TUNK, E, frozenset([t["id"]]))
        return TOP0

    def reguard(self, v, G):
        if not G or not v.T:
            return v
        T = frozenset((t[:-1] + (t[-1] | G,)) if t[0] in ("c", "v") else t for t in v.T)
        F = v.F
        return mk(v.L, v.P, F, T, v.C, v.K)

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, r, fr, place):
        k = r[0]
        if k == "use" or k == "cast":
            o = r[1] if k == "use" else next((x for x in r[1:] if isinstance(x, dict) and "c" in x), None)
            v = self.operand(st, o, fr)
            if k == "cast" and "BoxDerefTransmute" in r and o["c"] in ("mv", "cp"):
                # the pointer a box holds, about to be written through: the box is its own memory
                return mk(v.L, self.addr(st, [o["p"][0]]), (), E)
            if k == "cast" and fr.f.locals[place[0]]["t"].get("k") == "prim" and len(place) == 1:
                tgt = fr.f.locals[place[0]]["s"]
                v = mk(v.AL | bit(("cast", tgt)), E, (), v.T)
            return v
        if k == "ref":
            mutable, p = r[1], r[2]
            t = None
            if not mutable:
                # a shared reference is a snapshot unless the referent has interior mutability
                dt = fr.f.locals[place[0]]["t"] if len(place) == 1 else None
                if dt is not None and dt.get("k") == "ref" and self.has_cell(dt["t"]):
                    mutable = True
            if mutable:
                a = self.addr(st, p)
                if a:
                    v = mk(0, a, (), E)
                    return v
                return self.resolve_place(st, p, fr)
            return self.resolve_place(st, p, fr)
        if k == "bin":
            op = r[1]
            a, b = self.operand(st, r[2], fr), self.operand(st, r[3], fr)
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                pol = True
                o = op.lower()
                if op == "Ne":
                    o, pol = "eq", False
                # fold comparisons of constants
                return mk(a.AL | b.AL, E, (), frozenset([("b", o, (a.AL, b.AL), pol)]))
            if op in ("BitAnd", "BitOr"):
                for x, y in ((a, b), (b, a)):
                    cs = {t[1] for t in x.T if t[0] == "c" and isinstance(t[1], bool)}
                    if len(cs) == 1 and len(x.T) == 1:
                        if (op == "BitAnd") == cs.copy().pop():
                            return y
                        return x
            out = mk(a.AL | b.AL | bit(("op", op)), E, (), TUNK)
            if op.endswith("WithOverflow"):
                return struct({"0": out, "1": TOP0})
            return out
        if k == "un":
            a = self.operand(st, r[2], fr)
            if r[1] == "Not":
                T = set()
                for t in a.T:
                    if t[0] == "c" and isinstance(t[1], bool):
                        T.add(("c", not t[1], t[2]))
                    elif t[0] == "b":
                        T.add(("b", t[1], t[2], not t[3]))
                    elif t[0] == "tv":
                        T.add(("tv", t[1], t[2], t[3], not t[4]))
                    else:
                        T.add(t)
                if T & TUNK:
                    return mk(a.AL | bit(("op", "Not")), E, (), frozenset(T))
                return mk(a.L, E, a.F, frozenset(T))
            if r[1] == "PtrMetadata":
                return mk(a.AL | bit(("len",)), E, (), TUNK)
            return mk(a.AL | bit(("op", r[1])), E, (), TUNK)
        if k == "discr":
            v = self.resolve_place(st, r[1], fr)
            adt = self.db.adt_short(r[2]) if len(r) > 2 and r[2] else "?"
            ents = frozenset(t for t in v.T if t[0] == "v" and t[1] == adt) if adt != "?" else E
            full = bool(v.T) and all(t[0] == "v" and t[1] == adt for t in v.T)
            return mk(v.AL, E, (), frozenset([("d", r[2] if len(r) > 2 else None, v.AL, ents, full)]))
        if k == "agg":
            return self.aggregate(st, r, fr)
        if k == "setdiscr":
            return TOP0
        if k == "len":
            v = self.resolve_place(st, r[1], fr)
            return mk(v.AL | bit(("len",)), E, (), TUNK)
        vs = [self.operand(st, x, fr) for x in r[1:] if isinstance(x, dict) and "c" in x]
        return flat(joins(vs)) if vs else TOP0

    def aggregate(self, st, r, fr):
        a = r[1]
        ops = [self.operand(st, x, fr) for x in r[2]]
        if a[0] == "tuple":
            return struct({str(i): v for i, v in enumerate(ops)})
        if a[0] == "array":
            if len(ops) <= 40:
                return struct({f"[{i:02d}]": v for i, v in enumerate(ops)})
            return joins(ops)
        if a[0] == "closure" or a[0] == "coroutine":
            d = {str(i): v for i, v in enumerate(ops)}
            return mk(0, E, tuple(sorted(d.items())), TUNK, frozenset([a[1]]))
        if a[0] == "adt":
            adt, variant, fnames = a[1], a[2], a[3]
            nm = self.db.adt_short(adt)
            if adt in self.db.local_adts:
                isenum = self.db.adts[adt]["kind"] == "enum" or bool(variant)
                d = {}
                for n, v in zip(fnames, ops):
                    d[f"{variant}.{n}" if variant else n] = v
                T = frozenset([("v", nm, variant, fr.curG)]) if variant else TUNK
                if nm in self.agg and fr.record:
                    self.emit(fr, "agg", f"{nm}::{variant}" if variant else nm, ops)
                return struct(d, T, frozenset([adt]))
            if self.agg and fr.record:
                xn = nm if ":" in nm else self.db.names.get(adt, "").split("::")[0] + ":" + nm
                if xn in self.agg:
                    self.emit(fr, "agg", f"{xn}::{variant}", ops)
            if nm in ("Option", "Result", "ControlFlow"):
                T = frozenset([("v", nm, variant, fr.curG)])
                if self.under and variant == "Some" and ops:
                    u = {l[1] for a in atoms(fr.curG) if a[0] == "b" and a[1] == "eq" and a[3] is True
                         for x in a[2] for l in labset(x) if isinstance(l, tuple) and l[0] == "s"}
                    if u:
                        ops = [lab(ops[0], ("under", frozenset(u)))]
                if ops:
                    return struct({variant: ops[0]}, T)
                return mk(0, E, (), T)
            if nm in ("Range", "RangeInclusive", "RangeFrom", "RangeTo"):
                v = joins(ops)
                return mk(v.AL | bit(("range",)), E, (), TUNK)
            v = joins(ops)
            return v
        return joins(ops)

    # ------------------------------------------------------------------ events
    def emit(self, fr, kind, name, args, line=None, dest=None):
        e = Event(kind, name, tuple(args), fr.curG, fr.f.key, line if line is not None else fr.line, dest)
        fr.events[e.key()] = e

    # ------------------------------------------------------------------ calls
    def call_fn(self, key, args, heap, fr):
        """Evaluate function `key` on canonical args; heap: canonical cells."""
        f = self.db.fns[key]
        mkey = (key, tuple(a.id for a in args), tuple(sorted((k, v.id) for k, v in heap.items())))
        s = self.memo.get(mkey)
        if s is not None:
            if not s.final:
                s.used = True
                if self.stack:
                    self.memo[self.stack[-1][1]].deps.add(mkey)
            elif s.deps and self.stack:
                live = {m for m in s.deps if m in self.memo and not self.memo[m].final}
                s.deps = live
                self.memo[self.stack[-1][1]].deps |= live
            return s
        depth = sum(1 for k, _ in self.stack if k == key)
        if depth >= 2:
            # deep recursion: fall back on the outermost approximation of this function
            for k, m in reversed(self.stack):
                if k == key:
                    s0 = self.memo[m]
                    s0.used = True
                    self.memo[self.stack[-1][1]].deps.add(m)
                    al = 0
                    for a in args:
                        al |= a.AL
                    s = Summary()
                    s.ret = join(s0.ret, mk(al, E, (), TUNK))
                    s.heap = {c: v for c, v in heap.items()}
                    for c, v in s0.heap.items():
                        if c in s.heap:
                            s.heap[c] = join(s.heap[c], v)
                    return s
        s = Summary()
        s.heap = dict(heap)
        self.memo[mkey] = s
        self.stack.append((key, mkey))
        self.visited.add(key)
        try:
            for it in range(6):
                s.used = False
                before = (s.ret.id, tuple(sorted((k, v.id) for k, v in s.heap.items())))
                self.eval_body(f, args, heap, s)
                after = (s.ret.id, tuple(sorted((k, v.id) for k, v in s.heap.items())))
                if not s.used or before == after:
                    break
                # what was computed from the approximation so far is computed again
                for m in s.dependents:
                    self.memo.pop(m, None)
                s.dependents = set()
        finally:
            self.stack.pop()
        s.final = True
        s.deps.discard(mkey)
        s.deps = {m for m in s.deps if m in self.memo and not self.memo[m].final}
        if s.deps:
            for m in s.deps:
                self.memo[m].dependents.add(mkey)
            if self.stack:
                self.memo[self.stack[-1][1]].deps |= s.deps
        return s

    def eval_body(self, f, args, heap, s):
        cfg = self.cfg(f)
        blocks = f.blocks
        fr = Frame(self, f)
        init = dict(heap)
        for i, a in enumerate(args):
            init[i + 1] = a
        edge_atoms = {}
        phases = 2 if any(len(cfg.succ[b]) > 1 for b in cfg.rpo) else 1
        guards = {}
        errx = self.err_exit(f, cfg)
        hard = self.hard_cfg(f, cfg, errx)
        ins = None
        for ph in range(phases):
            ins = {0: init}
            outs_seen = {}
            work = set([0])
            rounds = 0
            prevG = dict(guards) if ph else None
            edge_atoms = {} if ph == 0 else edge_atoms
            while work:
                rounds += 1
                if rounds > 60:
                    break
                todo = sorted(work, key=lambda b: cfg.index[b])
                work = set()
                pend = set(todo)
                heapq = todo
                i = 0
                import heapq as hq
                h = [(cfg.index[b], b) for b in todo]
                hq.heapify(h)
                inh = set(todo)
                while h:
                    _, b = hq.heappop(h)
                    inh.discard(b)
                    self.steps += 1
                    if self.steps > self.budget:
                        raise CheckError(f"analysis budget exceeded in {f.short}")
                    fr.curG = prevG.get(b, 0) if ph else self.block_guard(cfg, b, edge_atoms, errx, hard)
                    fr.bb = b
                    st = dict(ins[b])
                    edges = self.exec_block(fr, b, blocks[b], st, edge_atoms)
                    for (e, t), st2 in edges:
                        old = ins.get(t)
                        if old is None:
                            ins[t] = dict(st2)
                            ch = True
                        else:
                            ch = False
                            for c, v in st2.items():
                                o = old.get(c)
                                if o is None:
                                    old[c] = v
                                    ch = True
                                elif o is not v:
                                    n = join(o, v)
                                    if n is not o:
                                        old[c] = n
                                        ch = True
                        if ch:
                            if cfg.index[t] > cfg.index[b]:
                                if t not in inh:
                                    inh.add(t)
                                    hq.heappush(h, (cfg.index[t], t))
                            else:
                                work.add(t)
            guards = {b: self.block_guard(cfg, b, edge_atoms, errx, hard) for b in ins}
        # final pass: events, return value, heap
        fr.record = True
        ret = BOT
        hp = {}
        for b in cfg.rpo:
            if b not in ins:
                continue
            fr.curG = guards.get(b, 0)
            fr.bb = b
            st = dict(ins[b])
            self.exec_block(fr, b, blocks[b], st, {})
            if blocks[b]["t"][0] == "ret":
                ret = join(ret, st.get(0, BOT))
                for c in heap:
                    hp[c] = join(hp.get(c, BOT), st.get(c, BOT))
        s.ret = join(s.ret, self.strip_locals(ret))
        for c in heap:
            s.heap[c] = join(s.heap.get(c, BOT), self.strip_locals(hp.get(c, heap[c])))
        s.events = fr.events

    def strip_locals(self, v):
        """Forget pointers to the callee's own locals."""
        if not v.PP:
            return v
        P = frozenset(p for p in v.P if isinstance(p[0], str))
        F = tuple((n, self.strip_locals(x)) for n, x in v.F)
        return mk(v.L, P, F, v.T, v.C, v.K)

    def err_exit(self, f, cfg):
        """Blocks from which every path returns an error (or never returns)."""
        if not hasattr(f, "cfg") or f.cfg is None:
            return {}
        x = self.cfgs.get(f.key)
        if x is not None:
            return x
        s0 = f.locals[0]["s"]
        isres = "result::Result" in s0.split("<")[0]
        mark = {}
        for b in cfg.rpo:
            bl = f.blocks[b]
            m = None
            for stt in bl["s"]:
                if stt[0] == [0]:
                    r = stt[1]
                    m = "err" if (r[0] == "agg" and r[1][0] == "adt" and r[1][2] == "Err") else "ok"
            t = bl["t"]
            if t[0] == "call" and t[3] == [0]:
                m = "err" if self.db.short(t[1].get("r") or t[1].get("id") or "").endswith("from_residual") else "ok"
            mark[b] = m
        out = {}
        for b in cfg.rpo:
            if b not in cfg.can_return:
                out[b] = "div"
                continue
            if not isres:
                continue
            seen = set()
            work = [b]
            ok = True
            while work and ok:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                if mark[x] == "err":
                    continue
                if mark[x] == "ok" or f.blocks[x]["t"][0] == "ret":
                    ok = False
                    break
                work.extend(t for _, t in cfg.succ[x])
            if ok:
                out[b] = "err"
        self.cfgs[f.key] = out
        return out

    def hard_cfg(self, f, cfg, errx):
        """The graph without the ways into an error: what decides here, errors apart."""
        h = self.hcfgs.get(f.key)
        if h is None:
            h = CFG(f.blocks, frozenset(errx)) if errx and 0 not in errx else cfg
            self.hcfgs[f.key] = h
        return h

    def deps(self, cfg, b, edge_atoms):
        """The conditions under which block b runs: alternatives joined along the forward control
        dependences where they reduce to one condition, and the conditions under which each loop
        around b goes round again; otherwise every condition met on the way."""
        order, latches, own = cfg.fwd_plan(b)
        G = {}
        V = dict(order)
        dead = set()
        for x, ds in order:
            rows = set()
            if ds:
                ds = self.fold_edges(cfg, dict(ds), V, edge_atoms)
                if not ds:
                    G[x] = 0
                    continue
            for c, es in ds:
                if c in dead:
                    continue
                ats = [edge_atoms[(c, e)] for e in es if (c, e) in edge_atoms]
                if ats:
                    rows.add(self.conj(G.get(c, 0), self.edge_bits(ats)))
            if ds and not rows:
                dead.add(x)
                G[x] = 0
                continue
            r = alt(frozenset(rows), self) if rows else 0
            if r is None:
                if x in own:
                    return self.closure_deps(cfg, b, edge_atoms)
                r = common(rows)
            G[x] = r
        g = G.get(b, 0)
        for us in latches:
            rows = frozenset(G[u] for u in us if u not in dead)
            if rows:
                r = alt(rows, self)
                g |= common(rows) if r is None else r
        return g

    def closure_deps(self, cfg, b, edge_atoms):
        g = 0
        for c, es in cfg.closure_cd(b).items():
            ats = [edge_atoms[(c, e)] for e in es if (c, e) in edge_atoms]
            if ats:
                g |= self.edge_bits(ats)
        return g

    def fold_edges(self, cfg, d, V, edge_atoms):
        """A switch all of whose live branches lead here decides nothing."""
        while True:
            for c, es in d.items():
                live = {e for e, _ in cfg.succ[c] if (c, e) in edge_atoms}
                if live and live <= es:
                    break
            else:
                return list(d.items())
            del d[c]
            if not V.get(c):
                return []
            for c2, es2 in V[c]:
                d[c2] = d.get(c2, frozenset()) | es2

    def edge_bits(self, ats):
        g = 0
        for a in merge_atoms(ats):
            if a[0] == "var":
                vo = self.variants_of(a[1])
                if vo and a[2] >= vo:
                    continue
            g |= atombit(a)
        return g | disj(frozenset(a[1] for a in ats), self)

    def conj(self, g, h):
        """Both; None when they contradict each other."""
        r = g | h
        if r == g or r == h:
            return r
        k = (g, h)
        v = self.conjcache.get(k, 0)
        if v != 0:
            return v
        by = {}
        drop = 0
        add = 0
        for a in atoms(r):
            if a[0] == "var":
                by.setdefault((a[1], a[3]), []).append(a)
        for (n, L), xs_ in by.items():
            if len(xs_) > 1 and L:
                vs = xs_[0][2]
                for a in xs_:
                    vs = vs & a[2]
                    drop |= atombit(a)
                if not vs:
                    self.conjcache[k] = r       # keep both: the labels do not tell the values apart
                    return r
                add |= atombit(("var", n, vs, L))
        r = (r & ~drop) | add
        self.conjcache[k] = r
        return r

    def block_guard(self, cfg, b, edge_atoms, errx, h):
        full = self.deps(cfg, b, edge_atoms)
        if not errx or b in errx:
            return full
        if h is cfg or b not in h.cd:
            return full
        hard = self.deps(h, b, edge_atoms)
        rest = full & ~hard
        return hard | self.as_exit(rest, "err") if rest else hard

    # ------------------------------------------------------------------ blocks
    def exec_block(self, fr, b, bl, st, edge_atoms):
        f = fr.f
        self.cur = fr
        for stt in bl["s"]:
            place, r = stt[0], stt[1]
            fr.line = stt[2]
            v = self.rvalue(st, r, fr, place)
            self.assign(st, place, v)
        t = bl["t"]
        fr.line = bl["l"]
        k = t[0]
        cfg = self.cfg(f)
        succ = cfg.succ[b] if b in cfg.pred else []
        if k == "call":
            self.do_call(fr, st, t, bl)
            return [((None, x), st) for _, x in succ]
        if k == "switch":
            return self.do_switch(fr, b, t, st, succ, edge_atoms)
        if k == "assert":
            if fr.record and self.panics:
                c = self.operand(st, t[1], fr) if isinstance(t[1], dict) else TOP0
                self.emit(fr, "panic", "assert:" + str(assert_kind(t)), [c])
            return [((None, x), st) for _, x in succ]
        return [((None, x), st) for _, x in succ]

    def do_switch(self, fr, b, t, st, succ, edge_atoms):
        v = self.operand(st, t[1], fr)
        ty = t[4] if len(t) > 4 else ""
        out = []
        vals = [x for x, _ in t[2]]
        dents = [x for x in v.T if x[0] == "d"]
        if dents:
            # discriminant of an enum
            d = dents[0]
            adt = d[1]
            names = {}
            short = "?"
            if adt and adt in self.db.adts:
                short = self.db.adt_short(adt)
                for vr in self.db.adts[adt]["v"]:
                    names[str(vr["d"])] = vr["n"]
            known = None
            G = 0
            L = 0
            if all(x[4] for x in dents) and len(dents) == len(v.T):
                known = {e[2] for x in dents for e in x[3]}
            ents = [e for x in dents for e in x[3]]
            for x in dents:
                L |= x[2]
            for e, tgt in succ:
                if e == "else":
                    vs = frozenset(n for dv, n in names.items() if dv not in vals) or frozenset(["?"])
                else:
                    vs = frozenset([names.get(str(e), str(e))])
                if known is not None and not (vs & known):
                    continue
                gx = disj(frozenset(en[3] for en in ents if en[2] in vs), self)
                a = ("var", short, vs, L)
                # a value that is known here only through constants carries their guards instead
                if known is not None and L == 0:
                    edge_atoms[(b, e)] = (None, gx)
                else:
                    edge_atoms[(b, e)] = (a, gx)
                out.append(((e, tgt), st))
            return out
        if ty == "bool":
            consts = [x for x in v.T if x[0] == "c" and isinstance(x[1], bool)]
            allc = bool(v.T) and len(consts) == len(v.T)
            for e, tgt in succ:
                pol = (e != "0") if e != "else" else ("0" in vals)
                if allc and not any(c[1] == pol for c in consts):
                    continue
                alts = []
                extra = 0
                for x in v.T:
                    if x[0] == "c" and isinstance(x[1], bool):
                        if x[1] == pol:
                            alts.append(x[2])
                        elif len(v.T) > 1:
                            extra |= self.negated(x[2] & ~fr.curG)
                    elif x[0] == "b":
                        alts.append(atombit(("b", x[1], x[2], x[3] == pol)))
                    elif x[0] == "tv":
                        names = x[2] if x[4] == pol else TV_NEG.get(x[2]) or self.variants_of(x[1]) - x[2]
                        alts.append(atombit(("var", x[1], names, x[3])))
                    elif x[0] == "?":
                        alts.append(atombit(("b", "?", (v.AL,), pol)))
                g = disj(frozenset(alts), self)
                if not allc:
                    g |= extra
                else:
                    # a value set first and overwritten under further conditions
                    for x in v.T:
                        if x[1] != pol and any(y & x[2] == y for y in alts):
                            g |= self.negated(x[2] & ~fr.curG & ~g)
                edge_atoms[(b, e)] = (None, g)
                out.append(((e, tgt), st))
            return out
        for e, tgt in succ:
            consts = [x for x in v.T if x[0] == "c"]
            if v.T and len(consts) == len(v.T) and v.T:
                okv = {str(int(c[1])) if isinstance(c[1], bool) else str(c[1]) for c in consts}
                if e == "else":
                    if okv <= set(vals):
                        continue
                elif str(e) not in okv:
                    continue
            vs = frozenset([str(e)]) if e != "else" else frozenset(["!" + ",".join(map(str, vals))])
            edge_atoms[(b, e)] = (("int", vs, v.AL), 0)
            out.append(((e, tgt), st))
        return out

    def variants_of(self, short):
        if short in ("Option", "Result"):
            return frozenset(("None", "Some") if short == "Option" else ("Ok", "Err"))
        r = self.vcache.get(short)
        if r is None:
            r = E
            for k in self.db.adts:
                if self.db.adt_short(k) == short:
                    r = frozenset(v["n"] for v in self.db.adts[k]["v"])
                    break
            self.vcache[short] = r
        return r

    def as_exit(self, G, kind):
        """The same conditions, when failing them ends in an error."""
        r = self.xcache.get((G, kind))
        if r is None:
            r = 0
            for a in atoms(G):
                r |= atombit(a if a[0] == "exit" else ("exit", kind, a))
            self.xcache[(G, kind)] = r
        return r

    def negated(self, G):
        """Atoms whose failing lets a value be something other than a constant met under G."""
        g = 0
        for a in atoms(G):
            if a[0] == "b":
                g |= atombit(("b", a[1], a[2], not a[3]))
            elif a[0] == "var":
                rest = self.variants_of(a[1]) - a[2]
                if rest:
                    g |= atombit(("var", a[1], rest, a[3]))
        return g

    # ------------------------------------------------------------------ call dispatch
    def do_call(self, fr, st, t, bl):
        fo, args, dest = t[1], t[2], t[3]
        avs = []
        for a in args:
            v = self.operand(st, a, fr)
            if a["c"] in ("mv", "cp") and len(a["p"]) == 1:
                ty = adt_of(fr.f.locals[a["p"][0]]["t"])
                if ty and ty.get("k") == "adt" and ty["id"] in self.db.local_adts and ty["id"] not in v.K:
                    v = mk(v.L, v.P, v.F, v.T, v.C, frozenset([ty["id"]]))
                elif ty and ty.get("k") == "closure" and not v.C:
                    v = mk(v.L, v.P, v.F, v.T, frozenset([ty["id"]]), v.K)
            avs.append(v)
        rty = fr.f.locals[dest[0]]["t"] if len(dest) == 1 else None
        rs = fr.f.locals[dest[0]]["s"] if len(dest) == 1 else ""
        if fo["c"] != "fn":
            # call through a function value
            fv = self.operand(st, fo, fr)
            res = self.invoke(fv, avs, st, fr)
            self.assign(st, dest, res)
            return
        key = fo.get("r") or fo["id"]
        res = self.apply(fr, st, fo, key, avs, args, rty, rs, bl)
        self.assign(st, dest, res)

    def candidates(self, fo, key, avs):
        """Workspace bodies a call can reach; None when external."""
        db = self.db
        if fo.get("rk") in ("item",) and key in db.fns and db.fns[key].kind != "Static":
            # a trait method resolved to its default body may still be overridden by K
            return [key]
        if fo.get("rk") in ("virtual", "unresolved") or fo.get("trait"):
            tm = fo["id"]
            impls = db.trait_impls.get(tm)
            K = avs[0].K if avs else E
            tr = fo.get("trait")
            local_trait = tr and any(im["trait"] == tr for im in db.impls) and tr in self.local_traits()
            if fo.get("rk") == "item":
                return None
            if K and tr:
                out = []
                for k in K:
                    for im in db.impls_of_trait.get(tr, []):
                        s = adt_of(im["self"])
                        if s and s.get("id") == k:
                            m = im["m"].get(tm)
                            if m and m in db.fns:
                                out.append(m)
                            elif tm in db.fns:
                                out.append(tm)
                if out:
                    return out
            if local_trait:
                out = [m for _, m in (impls or []) if m in db.fns]
                # impls that rely on the default body
                if tm in db.fns:
                    out.append(tm)
                return sorted(set(out)) or None
        return None

    def local_traits(self):
        lt = getattr(self, "_lt", None)
        if lt is None:
            lt = set()
            crates = set(self.db.crates)
            for im in self.db.impls:
                n = self.db.names.get(im["trait"], "")
                if n.split("::")[0] in crates:
                    lt.add(im["trait"])
            self._lt = lt
        return lt

    def apply(self, fr, st, fo, key, avs, args, rty, rs, bl):
        db = self.db
        short = db.short(key)
        via = fo.get("via")
        if fr.record:
            nm = short
            if via and via in db.fns:
                nm = short
            tag = self.sink(nm)
            if not tag and db.short(fo["id"]) != nm:
                tag = self.sink(db.short(fo["id"]))
                if tag:
                    nm = db.short(fo["id"])
            if tag:
                ev = [self.deref_arg(st, v, a, fr) for v, a in zip(avs, args)]
                self.emit(fr, "call", nm, ev, bl["l"], rs)
        if self.panics and fr.record:
            self.panic_call(fr, st, short, avs, args, bl)
        ov = self.override.get(short)
        if ov is None and db.short(fo["id"]) in self.override:
            ov = self.override[db.short(fo["id"])]
        if ov is not None:
            r = ov(self, fr, st, avs, args, short)
            if r is not None:
                return r
        # derived / handwritten equality on workspace types stays a comparison
        seg = short.rsplit("::", 1)[-1]
        if rs == "bool" and seg in ("eq", "ne") and len(avs) == 2 and "PartialEq" in short:
            return self.cmp(seg, avs, st, args, fr)
        if via and via in db.fns and not self.opaque(via, db.short(via)):
            # a blanket std function that ends in a workspace impl
            if seg in ("to_string", "new_display", "new_debug"):
                v = self.deref_arg(st, avs[0], args[0], fr)
                return lab(noT(v), ("fmt", "debug")) if seg == "new_debug" else noT(v)
            if seg in ("into", "try_into", "parse"):
                self.calls_resolved += 1
                return self.run_cands(fr, st, [via], avs)
        cands = self.candidates(fo, key, avs)
        if cands and not (len(cands) == 1 and self.opaque(cands[0], db.short(cands[0]))):
            live = [c for c in cands if not self.opaque(c, db.short(c))]
            if live:
                self.calls_resolved += 1
                return self.run_cands(fr, st, live, avs)
        if cands or self.opaque(key, short):
            # opaque workspace function: tagged union of the arguments; writes through &mut
            self.calls_external += 1
            vs = [self.deref_arg(st, v, a, fr) for v, a in zip(avs, args)]
            al = bit(("c", short))
            for v in vs:
                al |= v.AL
            for v, a in zip(avs, args):
                if v.P and self.arg_is_mut(a, fr):
                    self.write_addr(st, v.P, mk(al, E, (), TUNK))
            if rs == "bool":
                return mk(al, E, (), frozenset([("b", short, tuple(v.AL for v in vs), True)]))
            K = E
            return mk(al, E, (), TUNK)
        self.calls_external += 1
        self.ext_seen[short] = self.ext_seen.get(short, 0) + 1
        return self.external(fr, st, fo, short, seg, avs, args, rty, rs)

    def run_cands(self, fr, st, cands, avs):
        ret = BOT
        for c in cands:
            ret = join(ret, self.inline(fr, st, c, avs))
        return ret

    def reach_cells(self, st, avs):
        order = []
        seen = set()

        def visit(v):
            if not v.PP:
                return
            for c, path in sorted(v.P, key=str):
                if c not in seen:
                    seen.add(c)
                    order.append(c)
                    visit(st.get(c, BOT))
            for _, x in v.F:
                visit(x)
        for v in avs:
            visit(v)
        return order

    def rename(self, v, m):
        if not v.PP:
            return v
        P = frozenset((m[c], p) for c, p in v.P if c in m)
        F = tuple((n, self.rename(x, m)) for n, x in v.F)
        return mk(v.L, P, F, v.T, v.C, v.K)

    def inline(self, fr, st, key, avs):
        f = self.db.fns[key]
        cells = self.reach_cells(st, avs)
        m = {c: f"p{i}" for i, c in enumerate(cells)}
        inv = {p: c for c, p in m.items()}
        heap = {m[c]: self.rename(st.get(c, BOT), m) for c in cells}
        cargs = tuple(self.rename(v, m) for v in avs)
        # spread tuple argument for closures called through Fn traits is done by invoke()
        s = self.call_fn(key, cargs, heap, fr)
        self.cur = fr
        for p, v in s.heap.items():
            if p in inv:
                c = inv[p]
                st[c] = join(st.get(c, BOT), self.rename(v, inv))
        if fr.record:
            for e in s.events.values():
                e2 = Event(e.kind, e.name, tuple(self.rename(a, inv) if a.PP else a for a in e.args),
                           e.G | fr.curG, e.fn, e.line, e.dest)
                fr.events[e2.key()] = e2
        return self.rename(s.ret, inv)

    def invoke(self, fv, argv, st, fr):
        """Invoke every callable in fv."""
        ret = BOT
        hit = False
        for c in sorted(fv.AC if not fv.C else fv.C):
            f = self.db.fns.get(c)
            if f is None or f.kind.startswith("Ctor"):
                # external function item, or enum/struct constructor
                r = self.ctor(c, argv, fr)
                if r is None:
                    vs = joins(argv)
                    nm = self.db.short(c)
                    r = self.external_simple(nm, argv)
                ret = join(ret, r)
                hit = True
                continue
            hit = True
            if self.opaque(c, f.short):
                al = bit(("c", f.short))
                for v in argv:
                    al |= v.AL
                ret = join(ret, mk(al, E, (), TUNK))
                continue
            if f.kind == "Closure":
                ty = f.locals[1]["t"]
                cv = mk(fv.L, fv.P, fv.F, TUNK, frozenset([c]), fv.K)
                if ty.get("k") == "ref" and ty.get("m"):
                    # FnMut: give the closure a cell of its own
                    cell = ("clo", c)
                    st[cell] = join(st.get(cell, BOT), mk(fv.L, E, fv.F, TUNK, frozenset([c])))
                    cv = mk(0, frozenset([(cell, ())]), (), E)
                al = [cv] + list(argv)
                n = f.argc
                if len(al) > n:
                    al = al[:n]
                while len(al) < n:
                    al.append(TOP0)
                ret = join(ret, self.inline(fr, st, c, al))
            else:
                al = list(argv)
                while len(al) < f.argc:
                    al.append(TOP0)
                ret = join(ret, self.inline(fr, st, c, al[:f.argc]))
        if not hit:
            r = flat(joins([*argv, fv]))
            return r
        return ret

    def ctor(self, c, argv, fr):
        """Tuple-struct / variant constructor used as a function."""
        nm = self.db.names.get(c, "")
        segs = nm.split("::")
        if len(segs) >= 2:
            for a in self.db.local_adts:
                an = self.db.names[a]
                for vr in self.db.adts[a]["v"]:
                    full = an + "::" + vr["n"]
                    if full == nm and argv:
                        d = {f"{vr['n']}.{i}": v for i, v in enumerate(argv)}
                        if fr.record and self.db.adt_short(a) in self.agg:
                            self.emit(fr, "agg", f"{self.db.adt_short(a)}::{vr['n']}", argv)
                        return struct(d, frozenset([("v", self.db.adt_short(a), vr["n"], fr.curG)]), frozenset([a]))
                if an == nm and self.db.adts[a]["kind"] == "struct" and argv:
                    if fr.record and self.db.adt_short(a) in self.agg:
                        self.emit(fr, "agg", self.db.adt_short(a), argv)
                    return struct({str(i): v for i, v in enumerate(argv)}, TUNK, frozenset([a]))
        if len(segs) >= 2 and argv and self.agg and fr.record:
            xn = segs[0] + ":" + segs[-2]
            if xn in self.agg:
                self.emit(fr, "agg", f"{xn}::{segs[-1]}", argv)
                return joins(argv)
        if nm.endswith("Option::Some") and argv:
            return struct({"Some": argv[0]}, frozenset([("v", "Option", "Some", fr.curG)]))
        if nm.endswith("Result::Ok") and argv:
            return struct({"Ok": argv[0]}, frozenset([("v", "Result", "Ok", fr.curG)]))
        if nm.endswith("Result::Err") and argv:
            return struct({"Err": argv[0]}, frozenset([("v", "Result", "Err", fr.curG)]))
        return None

    def external_simple(self, short, argv):
        seg = short.rsplit("::", 1)[-1]
        v = joins(argv)
        if seg in IDENT:
            return noT(v)
        return mk(v.AL | bit(("x", short)), allptrs(v), (), TUNK)

    def arg_is_mut(self, a, fr):
        if a["c"] in ("mv", "cp") and len(a["p"]) == 1:
            return self.is_ptr_ty(fr.f.locals[a["p"][0]]["t"])
        return True

    def deref_arg(self, st, v, a, fr):
        """The content an argument stands for: look through the reference itself."""
        if v.P and self.arg_is_mut(a, fr):
            r = BOT
            for c, path in v.P:
                r = join(r, self.read_path(st, c, path))
            if v.L or v.F:
                r = join(r, mk(v.L, E, v.F, TUNK, v.C))
            if v.K and not r.K:
                r = mk(r.L, r.P, r.F, r.T, r.C, v.K)
            # second level (e.g. &mut &mut iterator)
            ty = fr.f.locals[a["p"][0]]["t"] if a["c"] in ("mv", "cp") and len(a["p"]) == 1 else None
            if ty and ty.get("k") == "ref" and ty["t"].get("k") == "ref" and r.P:
                r2 = BOT
                for c, path in r.P:
                    r2 = join(r2, self.read_path(st, c, path))
                r = join(r2, mk(r.L, E, r.F, TUNK, r.C)) if (r.L or r.F) else r2
            return r
        return v

    def cmp(self, seg, avs, st, args, fr):
        vs = [self.deref_arg(st, v, a, fr) for v, a in zip(avs, args)]
        for a, b in ((vs[0], vs[1]), (vs[1], vs[0])):
            # comparing with a plain variant tells which variant it is
            if len(b.T) == 1 and not b.L and not b.F:
                x = next(iter(b.T))
                if x[0] == "v" and x[1] not in ("Option", "Result", "ControlFlow") and a.AL:
                    return mk(a.AL, E, (), frozenset([("tv", x[1], frozenset([x[2]]), a.AL, seg == "eq")]))
        return mk(vs[0].AL | vs[1].AL, E, (), frozenset([("b", "eq", (vs[0].AL, vs[1].AL), seg == "eq")]))

    def external(self, fr, st, fo, short, seg, avs, args, rty, rs):
        ty0 = short.split("::")[0].split(" as ")[0]
        vs = [self.deref_arg(st, v, a, fr) for v, a in zip(avs, args)]
        a0 = vs[0] if vs else BOT
        a1 = vs[1] if len(vs) > 1 else BOT
        p0 = avs[0].P if avs and args and self.arg_is_mut(args[0], fr) else E
        # ---- formatting
        if short == "Arguments::new":
            return self.fmt_args(a0, a1)
        if short in ("Arguments::from_str", "Arguments::from_str_nonconst"):
            return struct({"#00": a0})
        if short in ("fmt::format", "hint::must_use"):
            return noT(a0)
        if seg in ("new_display", "new_debug", "new_lower_hex"):
            if seg == "new_display" and a0.T and all(t[0] == "c" and isinstance(t[1], str) for t in a0.T):
                return a0
            return lab(noT(a0), ("fmt", "debug")) if seg == "new_debug" else noT(a0)
        if seg == "write_box_via_move" and len(vs) > 1:
            return a1
        if seg == "box_assume_init_into_vec_unsafe":
            for _ in range(3):
                inner = [y for n, y in a0.F if n.split(".")[-1] == "value"]
                if len(inner) != 1:
                    break
                a0 = inner[0]
            return a0
        # ---- panics that end the path produce nothing
        if rs == "!":
            return BOT
        # ---- lazily initialised statics
        if short in ("Lazy::get", "Once::call_once") and len(vs) > 1:
            return self.invoke(avs[1], [], st, fr)
        if seg in ("deref",) and a0.L and not a0.F:
            for l in labset(a0.L):
                if isinstance(l, tuple) and l[0] == "st":
                    ini = self.lazy_init(l[1])
                    if ini:
                        return self.inline(fr, st, ini, [])
        # ---- Try
        if short.endswith("Try::branch"):
            T = set()
            for t in a0.T:
                if t[0] == "v" and t[1] in ("Result", "Option"):
                    T.add(("v", "ControlFlow", "Continue" if t[2] in ("Ok", "Some") else "Break", t[3]))
                else:
                    T.add(UNK)
            if " Option" in " " + short:
                return mk(0, E, tuple(sorted({"Continue": okof(a0), "Break": mk(0, E, (), frozenset([("v", "Option", "None", 0)]))}.items())), frozenset(T) or TUNK)
            return struct({"Continue": payload(a0, "Ok"), "Break": struct({"Err": payload(a0, "Err")})}, frozenset(T) or TUNK)
        if short.endswith("from_residual"):
            if "Option" in short:
                return mk(0, E, (), frozenset([("v", "Option", "None", fr.curG)]))
            er = a0.get("Err")
            return struct({"Err": er if er is not None else flat(a0)}, frozenset([("v", "Result", "Err", fr.curG)]))
        # ---- bool results
        if rs == "bool":
            if seg in ("eq", "ne"):
                return self.cmp(seg, avs, st, args, fr)
            if seg in ("is_some", "is_none", "is_ok", "is_err"):
                adt, pos = ("Option", "Some") if "so" in seg or "none" in seg else ("Result", "Ok")
                neg = seg in ("is_none", "is_err")
                ents = [t for t in a0.T if t[0] == "v" and t[1] == adt]
                if a0.T and len(ents) == len(a0.T):
                    return mk(a0.AL, E, (), frozenset(("c", (t[2] == pos) != neg, t[3]) for t in ents))
                return mk(a0.AL, E, (), frozenset([("tv", adt, frozenset([pos]), a0.AL, not neg)]))
            if seg in ("any", "all", "is_some_and", "is_none_or", "is_ok_and") and len(vs) > 1 and avs[1].AC:
                r = self.invoke(avs[1], [elem(okof(a0))], st, fr)
                return mk(a0.AL | r.AL, E, (), r.T | frozenset([("b", seg, (a0.AL,), True)]))
            if seg in ("map_or", "map_or_else") and len(vs) > 2 and avs[-1].AC:
                ty0 = "Result" if short.startswith("Result") else "Option"
                pos, neg = ("Ok", "Err") if ty0 == "Result" else ("Some", "None")
                saved = fr.curG
                fr.curG = saved | atombit(("var", ty0, frozenset([pos]), a0.AL))
                r = self.invoke(avs[-1], [okof(a0)], st, fr)
                fr.curG = saved
                d = vs[1] if seg == "map_or" else self.invoke(avs[1], [payload(a0, "Err")], st, fr)
                d = self.reguard(d, atombit(("var", ty0, frozenset([neg]), a0.AL)))
                return mk(a0.AL | r.AL | d.AL, E, (), (r.T or TUNK) | (d.T or TUNK))
            if seg in ("insert",) and p0:
                self.mutate(st, p0, short, seg, vs, avs)
            elif seg in ("remove",) and p0:
                self.write_addr(st, p0, mk(bit(("x", short)), E, (), TUNK))
            hof = [v for v in avs[1:] if v.AC]
            T = set()
            al = 0
            for v in vs:
                al |= v.AL
            for c in hof:
                r = self.invoke(c, [elem(okof(a0))], st, fr)
                T |= {t for t in r.T}
                al |= r.AL
            T.add(("b", seg if seg not in ("gt", "lt", "ge", "le") else seg, tuple(v.AL for v in vs), True))
            return mk(al, E, (), frozenset(T))
        if seg in ("len", "count", "capacity"):
            return mk(a0.AL | bit(("len",)), E, (), TUNK)
        # ---- interior mutability
        if ty0 in ("RefCell", "Cell", "Mutex", "RwLock") and seg in ("borrow", "borrow_mut", "lock", "get_mut"):
            return mk(0, p0, (), E) if p0 else a0
        if ty0 in ("RefMut", "Ref") and seg in ("deref", "deref_mut"):
            x = avs[0]
            # the guard itself is held in a local: look through that cell
            r = BOT
            pp = set()
            for c, path in x.P:
                y = self.read_path(st, c, path)
                pp |= y.P
                if not y.P:
                    r = join(r, y)
            if not x.P:
                return x
            if pp:
                return mk(0, frozenset(pp), (), E)
            return mk(0, x.P, (), E) if r is not BOT and seg == "deref_mut" else r
        if ty0 == "Cell" and seg == "set":
            self.write_addr(st, p0, a1)
            return TOP0
        # ---- mem
        if short in ("mem::replace", "mem::take", "mem::swap"):
            if len(vs) > 1:
                self.write_addr(st, p0, a1)
                if seg == "swap":
                    self.write_addr(st, avs[1].P, a0)
            return a0
        # ---- map types
        if ty0 in MAPTY:
            r = self.map_op(fr, st, short, ty0, seg, vs, avs, p0)
            if r is not None:
                return r
        # ---- higher-order functions
        if any(v.AC for v in avs[1:]) or (avs and avs[0].AC and seg.startswith("call")):
            return self.hof(fr, st, short, seg, vs, avs, p0)
        # ---- pointer-preserving accessors
        if p0 and seg in POINTER_KEEP and ("&mut" in rs or "Mut" in rs or "Entry" in rs or "&'a mut" in rs):
            if seg in ("deref_mut", "by_ref", "as_mut_slice", "into_iter"):
                # deref of Box/Vec/String: same memory
                inner = a0.P
                return mk(0, p0, (), E)
            if seg == "next":
                return noT(elem(okof(a0)))
            sub = ("some",) if seg in ("as_mut", "as_deref_mut", "get_or_insert_with", "get_or_insert") else ("[]",)
            return mk(0, frozenset((c, path + (sub,)) for c, path in p0), (), E)
        # ---- identity-like
        if seg in UNWRAPS or seg == "unwrap_or":
            r = okof(a0)
            if seg == "unwrap_or":
                r = join(r, a1)
            return r
        if seg == "next" or seg == "next_back":
            return noT(elem(a0)) if not a0.P else elem(a0)
        if seg == "or" and ty0 in ("Option", "Result"):
            return join(a0, a1)
        if seg in ("ok_or",):
            return struct({"Ok": okof(a0), "Err": a1})
        if seg == "err":
            return payload(a0, "Err")
        if seg in SORTS:
            if p0:
                for c, path in p0:
                    old = st.get(c, BOT)
                    if not path:
                        st[c] = unordered(old)
            return TOP0
        if p0 and rs in ("()",) or (p0 and seg in ("push", "push_str", "insert", "extend", "append", "push_back")):
            self.mutate(st, p0, short, seg, vs, avs)
            return TOP0
        if ty0 in HASHTY and seg in ("iter", "into_iter", "drain", "keys", "values", "into_keys", "into_values"):
            return lab(noT(a0), ("hashorder",))
        if seg in IDENT or short in ("Box::new", "Rc::new", "Arc::new", "RefCell::new", "Some", "Cell::new", "Mutex::new"):
            if len(vs) == 1:
                if seg in ("clone", "into", "new", "deref", "as_ref", "to_owned", "cloned", "copied", "must_use", "borrow", "as_str", "to_string", "from"):
                    return a0
                return noT(a0)
            return noT(joins(vs))
        if seg == "flatten":
            return noT(okof(elem(a0)))
        if seg == "default" and not vs:
            # an empty value of the type
            return mk(0, E, (), TUNK)
        if seg == "new" and not vs:
            return mk(0, E, (), TUNK)
        if seg in TAGGED and vs:
            if seg == "get" and ty0 not in ("[T]", "Vec"):
                pass
            else:
                extra = 0
                for v in vs[1:]:
                    extra |= v.AL
                if seg == "concat" and a0.F and all(n[0] == "[" and n[1:-1].isdigit() for n, _ in a0.F):
                    # a text made of its parts in order
                    return struct({f"#{int(n[1:-1]):02d}": x for n, x in a0.F})
                if seg in ("zip", "chain", "join", "concat"):
                    if seg == "zip":
                        return struct({"0": elem(a0), "1": elem(a1)})
                    return mk(a0.L | extra | (bit(("x", short)) if seg != "chain" else 0), a0.P | a1.P, join(a0, a1).F if seg == "chain" else a0.F, TUNK)
                if seg == "enumerate":
                    return struct({"0": mk(bit(("index",)), E, (), TUNK), "1": elem(a0)})
                e0 = a0
                if seg in ("first", "last", "nth", "get", "pop"):
                    e0 = elem(a0)
                elif seg in ("find", "max", "min"):
                    e0 = elem(a0)
                r = mk(e0.L | extra | bit(("x", short)), e0.P, e0.F, TUNK, e0.C, e0.K)
                return r
        # ---- default: union of everything, tagged; may write through &mut arguments
        al = bit(("x", short))
        P = E
        C = E
        for v in vs:
            al |= v.AL
            C = C | v.AC
        for v, a in zip(avs, args):
            if v.P and self.arg_is_mut(a, fr):
                self.write_addr(st, v.P, mk(al, E, (), TUNK))
                P = P | v.P
        F = ()
        return mk(al, P if ("&mut" in rs or "Mut" in rs) else E, F, TUNK, C)

    def lazy_init(self, short):
        c = getattr(self, "_lazy", None)
        if c is None:
            c = {}
            for f in self.db.fns.values():
                if f.name.endswith("__static_ref_initialize"):
                    m = f.name.split(" as ")[0].lstrip("<")
                    c.setdefault(m.split("::")[-1], []).append(f.key)
            self._lazy = c
        nm = short.split("::")[-1]
        v = c.get(nm, [])
        return v[0] if len(v) == 1 else None

    def append(self, st, p0, x):
        """Text appended to a text: one more piece, unless this place has appended to it before (a loop)."""
        fr = self.cur
        if fr is None or len(p0) != 1:
            return False
        c, path = next(iter(p0))
        if path or getattr(fr, "bb", None) is None:
            return False
        old = st.get(c, BOT)
        if any(not (n[:1] == "#" and n[1:].isdigit()) for n, _ in old.F):
            return False
        ps = dict(old.F)
        if not ps and (old.AL or any(t[0] == "c" for t in old.T)):
            ps = {"#00": mk(old.L, E, (), old.T, E, old.K)}
        own = fr.own
        mine = own.setdefault((fr.bb, c), set())
        again = [n for n in ps if n in mine]
        x = mk(x.L, E, x.F, x.T, E, x.K)
        if again:
            for n in again:
                ps[n] = join(ps[n], x)
        else:
            n = 1 + max([int(k[1:]) for k in ps], default=-1)
            if n >= 24:
                return False
            mine.add(f"#{n:02d}")
            ps[f"#{n:02d}"] = x
        st[c] = mk(0, old.P, tuple(sorted(ps.items())), TUNK, old.C, old.K)
        return True

    def mutate(self, st, p0, short, seg, vs, avs):
        if seg in ("push_str", "push") and short.startswith("String") and len(vs) > 1 and self.append(st, p0, vs[1]):
            return
        if seg in ("push_str", "write_str", "push") and short.startswith("String"):
            x = joins(vs[1:])
            x = mk(x.AL, E, x.F, TUNK)
        elif seg in ("append", "extend", "extend_from_slice"):
            x = joins([elem(v) for v in vs[1:]])
            x = noT(x)
        elif seg in ("insert",) and short.startswith("Vec"):
            x = vs[2] if len(vs) > 2 else BOT
        elif seg in ("clear", "truncate", "shrink_to_fit", "reserve", "dedup"):
            x = mk(bit(("x", short)), E, (), TUNK)
        elif seg == "retain":
            x = mk(bit(("x", short)), E, (), TUNK)
        else:
            x = joins(vs[1:]) if len(vs) > 1 else BOT
        # a weak update: pushes land in the element slot of literal vectors
        self.write_addr(st, p0, mk(x.L, x.P, x.F, x.T | TUNK, x.C, x.K), seg)
        if seg == "append" and len(avs) > 1 and avs[1].P:
            self.write_addr(st, avs[1].P, mk(bit(("emptied",)), E, (), TUNK))

    def map_op(self, fr, st, short, ty0, seg, vs, avs, p0):
        a0 = vs[0] if vs else BOT
        a1 = vs[1] if len(vs) > 1 else BOT
        ho = bit(("hashorder",)) if ty0 == "HashMap" else 0

        def val(m):
            x = m.get("1")
            ml = m.L | MV if m.L else 0
            if x is None:
                return mk(ml, m.P, m.F, TUNK, m.C)
            if m.L or m.P:
                return join(x, mk(ml, m.P, (), TUNK))
            return x

        def keyv(m):
            x = m.get("0")
            ml = m.L | MK if m.L else 0
            if x is None:
                return mk(ml, E, (), TUNK)
            if m.L:
                return join(x, mk(ml, E, (), TUNK))
            return x
        if ty0 == "Map" and seg in ("next", "map", "filter", "collect", "into_iter", "fold", "count") and " as Iterator" in short:
            return None
        if seg == "insert" and p0 and len(vs) == 3:
            self.write_addr(st, p0, struct({"0": noT(a1), "1": noTkeep(vs[2])}))
            return val(a0)
        if seg in ("get", "remove", "get_key_value"):
            r = val(a0)
            if seg == "remove":
                pass
            return mk(r.L | (a1.AL if seg == "get" else a1.AL), r.P, r.F, TUNK, r.C, r.K) if True else r
        if seg in ("get_mut",):
            return mk((a0.L | a1.AL) & ~(MV | MK), frozenset((c, p + (("t", 1),)) for c, p in p0), (), E) if p0 else val(a0)
        if seg in ("keys", "into_keys"):
            return labb(noT(keyv(a0)), ho)
        if seg in ("values", "into_values"):
            return labb(noT(val(a0)), ho)
        if seg == "values_mut":
            return mk(0, frozenset((c, p + (("t", 1),)) for c, p in p0), (), E)
        if seg == "iter_mut":
            return struct({"0": keyv(a0), "1": mk(0, frozenset((c, p + (("t", 1),)) for c, p in p0), (), E)})
        if seg in ("iter", "into_iter", "drain"):
            return labb(struct({"0": keyv(a0), "1": val(a0)}), ho)
        if seg == "entry":
            self.write_addr(st, p0, struct({"0": noT(a1)}))
            return mk(0, p0, (), E) if p0 else a0
        if seg in ("or_insert", "or_insert_with", "or_default", "or_insert_entry"):
            pp = avs[0].P
            tgt = frozenset((c, p + (("t", 1),)) for c, p in pp)
            x = a1
            if len(avs) > 1 and avs[1].AC:
                x = self.invoke(avs[1], [], st, fr)
            self.write_addr(st, tgt, x)
            return mk(0, tgt, (), E) if tgt else x
        if seg == "and_modify":
            pp = avs[0].P
            tgt = frozenset((c, p + (("t", 1),)) for c, p in pp)
            self.invoke(avs[1], [mk(0, tgt, (), E)], st, fr)
            return avs[0]
        if seg == "extend" and p0:
            x = elem(a1)
            self.write_addr(st, p0, noT(x))
            return TOP0
        if seg == "clone" or seg == "from_iter":
            return a0
        if seg in ("new", "with_capacity", "default"):
            return mk(0, E, (), TUNK)
        return None

    def hof(self, fr, st, short, seg, vs, avs, p0):
        a0 = vs[0] if vs else BOT
        fns = [v for v in avs[1:] if v.AC]
        others = [v for v in vs[1:] if not v.AC]
        ty0 = short.split("::")[0].split(" as ")[0]
        if seg.startswith("call") and avs[0].AC:
            argv = []
            if len(avs) > 1:
                tup = avs[1]
                i = 0
                while tup.get(str(i)) is not None:
                    argv.append(tup.get(str(i)))
                    i += 1
                if not argv and (tup.L or tup.P):
                    argv = [tup]
            fv = avs[0]
            if fv.P and not fv.C:
                r = BOT
                for c, path in fv.P:
                    r = join(r, self.read_path(st, c, path))
                fv = r
            return self.invoke(fv, argv, st, fr)
        f = fns[0]
        opt = ty0 in ("Option", "Result")
        it = okof(a0) if opt else elem(a0)
        if seg in ("map", "and_then", "flat_map", "filter_map", "map_while", "then", "and_then_"):
            saved = fr.curG
            if opt:
                pos = "Some" if ty0 == "Option" else "Ok"
                fr.curG = saved | atombit(("var", ty0, frozenset([pos]), a0.AL))
            r = self.invoke(f, [it], st, fr)
            fr.curG = saved
            if seg == "map":
                if ty0 == "Result":
                    return struct({"Ok": r, "Err": payload(a0, "Err")})
                if ty0 == "Option":
                    return struct({"Some": r}, a0.T)
                return r
            if seg == "and_then":
                if ty0 == "Result":
                    er = a0.get("Err")
                    return join(r, struct({"Err": er}, E)) if er is not None else r
                return r
            if seg == "filter_map":
                ex = 0
                g = self.presence_guard(r)
                r = payload(r, "Some")
                return labb(r, g)
            return okof(r) if seg == "flat_map" else r
        if seg in ("filter", "take_while", "skip_while", "find", "partition", "retain", "position", "take_if", "rposition", "skip_while"):
            r = self.invoke(f, [it], st, fr)
            g = 0
            for t in r.T:
                if t[0] == "b":
                    g |= bit(("filt", ("b", t[1], t[2], t[3])))
                elif t[0] == "c" and t[1] is True:
                    for a in atoms(t[2]):
                        g |= bit(("filt", a))
                elif t[0] == "tv":
                    g |= bit(("filt", ("var", t[1], t[2] if t[4] else TV_NEG.get(t[2]) or self.variants_of(t[1]) - t[2], t[3])))
                elif t[0] == "?":
                    g |= bit(("filt", ("b", "?", (r.AL,), True)))
            g |= bit(("x", short))
            if seg == "retain":
                self.write_addr(st, p0, mk(g, E, (), TUNK))
                return TOP0
            if seg in ("position", "rposition"):
                return mk(a0.AL | r.AL | bit(("x", short)), E, (), TUNK)
            return mk(a0.L | g, a0.P, a0.F, TUNK, a0.C, a0.K)
        if seg in ("map_err",):
            r = self.invoke(f, [payload(a0, "Err")], st, fr)
            return struct({"Ok": payload(a0, "Ok"), "Err": r}, a0.T)
        if seg == "unwrap_or_else" and definite(a0) in ("Some", "Ok"):
            return okof(a0)
        if seg in ("unwrap_or_else", "or_else", "or_insert_with"):
            r = self.invoke(f, [payload(a0, "Err")], st, fr)
            return join(okof(a0), r) if seg == "unwrap_or_else" else join(a0, r)
        if seg in ("ok_or_else",):
            r = self.invoke(f, [], st, fr)
            return struct({"Ok": okof(a0), "Err": r})
        if seg in ("map_or", "map_or_else"):
            d = definite(a0)
            if d in ("None", "Err"):
                return joins(others) if seg == "map_or" else self.invoke(fns[0], [payload(a0, "Err")], st, fr)
            r = self.invoke(fns[-1], [it], st, fr)
            if d in ("Some", "Ok"):
                return r
            if seg == "map_or":
                return join(r, joins(others))
            return join(r, self.invoke(fns[0], [payload(a0, "Err")], st, fr))
        if seg in ("fold", "try_fold", "rfold"):
            acc = joins(others)
            for _ in range(3):
                r = self.invoke(f, [acc, it], st, fr)
                n = join(acc, r)
                if n is acc:
                    break
                acc = n
            return acc
        if seg in ("for_each", "try_for_each", "inspect"):
            saved = fr.curG
            r = self.invoke(f, [it], st, fr)
            return a0 if seg == "inspect" else r
        if seg in SORTS or seg in ("max_by", "min_by", "max_by_key", "min_by_key", "dedup_by_key", "dedup_by"):
            r = self.invoke(f, [it, it], st, fr)
            if seg in SORTS:
                # an order by size alone leaves elements of one size in the order they came
                sized = ("len",) in labset(r.AL)
                for c, path in p0:
                    old = st.get(c, BOT)
                    if not path and not sized:
                        st[c] = unordered(old)
                return TOP0
            return mk(it.L | bit(("x", short)), it.P, it.F, TUNK, it.C, it.K)
        if seg in ("resize_with", "from_fn", "repeat_with", "get_or_insert_with"):
            r = self.invoke(f, [], st, fr)
            self.write_addr(st, p0, r)
            return r
        if seg == "then_some":
            return a0
        # unknown: hand the closures everything
        allv = joins([it] + others)
        r = BOT
        for g in fns:
            r = join(r, self.invoke(g, [allv, allv], st, fr))
        # values the callee passes through (builders such as ParserState::sequence)
        r = join(r, mk(allv.AL | bit(("x", short)), E, (), TUNK))
        for v in avs:
            if v.P:
                self.write_addr(st, v.P, mk(r.AL, E, (), TUNK))
        return r

    def presence_guard(self, v):
        g = 0
        for t in v.T:
            if t[0] == "v" and t[2] == "Some":
                for a in atoms(t[3]):
                    g |= bit(("filt", a))
        return g

    def fmt_args(self, tmpl, argv):
        """format_args!: interleave literal pieces and arguments."""
        hexs = [l[1] for l in labset(tmpl.AL) if isinstance(l, tuple) and l[0] == "b"]
        args = [argv.get(f"[{i:02d}]") for i in range(40)]
        if len(hexs) != 1:
            return flat(join(tmpl, argv))
        b = bytes.fromhex(hexs[0])
        parts = []
        i = 0
        ai = 0
        while i < len(b):
            n = b[i]
            i += 1
            if n == 0:
                break
            if n < 0x80:
                parts.append(const_str(b[i:i + n].decode("utf8", "replace")))
                i += n
            elif n == 0x80:
                ln = int.from_bytes(b[i:i + 2], "little")
                i += 2
                parts.append(const_str(b[i:i + ln].decode("utf8", "replace")))
                i += ln
            else:
                fl = n
                if fl & 1:
                    i += 4
                if fl & 2:
                    i += 2
                if fl & 4:
                    i += 2
                idx = ai
                if fl & 8:
                    idx = int.from_bytes(b[i:i + 2], "little")
                    i += 2
                ai = idx + 1
                a = args[idx] if idx < len(args) else None
                parts.append(a if a is not None else flat(argv))
        d = {f"#{j:02d}": p for j, p in enumerate(parts[:90])}
        return struct(d)

    # ------------------------------------------------------------------ panics
    def panic_call(self, fr, st, short, avs, args, bl):
        seg = short.rsplit("::", 1)[-1]
        hit = short in PANICS_CALL
        if not hit and seg in ("index", "index_mut") and " as Index" in short:
            hit = True
        if not hit and short.startswith("panicking::"):
            hit = True
        if hit:
            ev = [self.deref_arg(st, v, a, fr) for v, a in zip(avs, args)]
            self.emit(fr, "panic", short, ev, bl["l"])

    # ------------------------------------------------------------------ entry points
    def run(self, f, args=None, heap=None):
        """Analyse function f with symbolic arguments; returns (ret, events, heap)."""
        avs = []
        hp = dict(heap or {})
        for i in range(f.argc):
            if args and i < len(args) and args[i] is not None:
                avs.append(args[i])
                continue
            l = f.locals[i + 1]
            t = l["t"]
            ad = adt_of(t)
            K = frozenset([ad["id"]]) if ad and ad.get("k") == "adt" and ad["id"] in self.db.local_adts else E
            s = mk(bit(("arg", l.get("n") or f"#{i+1}")), E, (), TUNK, E, K)
            if self.is_ptr_ty(t):
                c = f"p{len(hp)}"
                hp[c] = s
                s = mk(0, frozenset([(c, ())]), (), E, E, K)
            avs.append(s)
        fr = Frame(self, f)
        s = self.call_fn(f.key, tuple(avs), hp, fr)
        return s.ret, list(s.events.values()), s.heap


TV_NEG = {frozenset(["Some"]): frozenset(["None"]), frozenset(["Ok"]): frozenset(["Err"]),
          frozenset(["None"]): frozenset(["Some"]), frozenset(["Err"]): frozenset(["Ok"])}


def noTkeep(v):
    return v


def assert_kind(t):
    m = t[2] if len(t) > 2 else ""
    for x in t[1:]:
        if isinstance(x, str):
            return x.split("(")[0].split(" ")[0][:30]
    return "assert"


def merge_atoms(ats):
    """Atoms of several edges of one switch: merge enum variants into one atom."""
    out = []
    vs = {}
    for a, _ in ats:
        if a is None:
            continue
        if a[0] == "var":
            k = (a[1], a[3])
            vs[k] = vs.get(k, frozenset()) | a[2]
        elif a[0] == "int":
            k = ("int", a[2])
            vs[k] = vs.get(k, frozenset()) | a[1]
        else:
            out.append(a)
    for k, v in vs.items():
        if k[0] == "int":
            out.append(("int", v, k[1]))
        else:
            out.append(("var", k[0], v, k[1]))
    return out


_DJ = {}


def weaker(y, x):
    """Does guard row y hold whenever row x does?"""
    for a in y:
        if a in x:
            continue
        if a[0] == "var" and any(b[0] == "var" and b[1] == a[1] and b[3] == a[3] and b[2] <= a[2] for b in x):
            continue
        return False
    return True



def disj(Gs, ip):
    """What several alternative guard sets have in common, plus whatever they disagree on without
    the alternatives together covering every case."""
    if not Gs:
        return 0
    if len(Gs) == 1:
        return next(iter(Gs))
    r = _DJ.get(Gs)
    if r is not None:
        return r
    r = alt(Gs, ip)
    if r is not None:
        _DJ[Gs] = r
        return r
    common = -1
    union = 0
    for g in Gs:
        common &= g
        union |= g
    r = union
    rows = {g & ~common for g in Gs}
    if 0 in rows:
        r = common
    elif len(rows) <= 40:
        rows = {frozenset(atoms(x)) for x in rows}
        done = False
        for _ in range(12):
            uni = {}
            for row in rows:
                for a in row:
                    rest = row - {a}
                    if a[0] == "b":
                        uni.setdefault((rest, "b", a[1], a[2]), set()).add(a[3])
                    elif a[0] == "var":
                        uni.setdefault((rest, "var", a[1], a[3]), set()).update(a[2])
            new = set()
            for k, vals in uni.items():
                if k[1] == "b":
                    full = len(vals) == 2
                else:
                    vo = ip.variants_of(k[2])
                    full = bool(vo) and vals >= vo
                if full:
                    new.add(k[0])
            if frozenset() in new:
                done = True
                break
            if new <= rows or len(rows) > 200:
                break
            rows |= new
        if done:
            r = common
    _DJ[Gs] = r
    return r



def common(Gs):
    g = -1
    for x in Gs:
        g &= x
    return g


def alt(Gs, ip):
    """The alternatives as one conjunction, or None when they do not reduce to one."""
    if len(Gs) == 1:
        return next(iter(Gs))
    if len(Gs) > 12:
        return None
    if Gs in _ALT:
        return _ALT[Gs]
    common = -1
    for g in Gs:
        common &= g
    rows = {frozenset(atoms(g & ~common)) for g in Gs}
    r = None
    if frozenset() in rows:
        r = common
    elif max(map(len, rows)) <= 8:
        for _ in range(6):
            cnt, uni = {}, {}
            for row in rows:
                for a in row:
                    if a[0] == "var":
                        k = (row - {a}, a[1], a[3])
                        uni.setdefault(k, set()).update(a[2])
                        cnt[k] = cnt.get(k, 0) + 1
            new = set(rows)
            for (rest, n, L), vals in uni.items():
                if cnt[(rest, n, L)] > 1:
                    vo = ip.variants_of(n)
                    new.add(rest if vo and vals >= vo else rest | {("var", n, frozenset(vals), L)})
            for row in rows:
                for a in row:
                    rest = row - {a}
                    if a[0] == "b":
                        n = ("b", a[1], a[2], not a[3])
                        if any(n in y and y - {n} <= rest for y in rows):
                            new.add(rest)
                    elif a[0] == "var":
                        vo = ip.variants_of(a[1])
                        if not vo:
                            continue
                        got = set(a[2])
                        for y in rows:
                            for b in y:
                                if b[0] == "var" and b[1] == a[1] and b[3] == a[3] and y - {b} <= rest:
                                    got |= b[2]
                        if got >= vo:
                            new.add(rest)
            new = {x for x in new if not any(y != x and weaker(y, x) for y in new)}
            if new == rows or len(new) > 40:
                rows = new
                break
            rows = new
        if len(rows) == 1:
            r = common
            for a in next(iter(rows)):
                r |= atombit(a)
    _ALT[Gs] = r
    return r


_ALT = {}


class Frame:
    __slots__ = ("f", "curG", "record", "events", "line", "uid", "bb", "own")
    n = 0

    def __init__(self, ip, f):
        self.f = f
        self.curG = 0
        self.record = False
        self.events = {}
        self.line = f.line
        Frame.n += 1
        self.uid = Frame.n
        self.bb = None
        self.own = {}
