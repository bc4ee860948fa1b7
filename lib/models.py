"""Models of calls that the checks share (overrides for the interpreter)."""
from absint import *


def key_consts(v):
    ks = {t[1] for t in v.T if t[0] == "c" and isinstance(t[1], str)}
    if not ks or any(t[0] != "c" for t in v.T):
        ks |= {l[1] for l in labset(v.AL) if isinstance(l, tuple) and l[0] == "s"}
    return ks


def json_get(ip, fr, st, avs, args, short):
    """serde_json `get(key)`: content found under `key`."""
    v = mk(avs[0].AL & ~MK & ~MV)
    for s in (key_consts(avs[1]) or {"?"}):
        v = lab(v, ("get", s))
    return v


def parse_id(ip, fr, st, avs, args, short):
    """Identifier parsers keep (or reject) the text."""
    return mk(avs[0].AL, E, (("Err", mk(bit(("iderr",)))), ("Ok", mk(avs[0].AL))),
              frozenset([("v", "Result", "Ok", 0), ("v", "Result", "Err", 0)]))


ID_PARSERS = {f"{t} as FromStr::from_str": parse_id for t in ("ShapeID", "Identifier", "NamespaceID")}
JSON_GET = {"Map::get": json_get, "Value::get": json_get}


def write_ok(ip, fr, st, avs, args, short):
    """The sink accepts everything (what happens when it does not is another question)."""
    return mk(bit(("io",)), E, (("Err", mk(0)), ("Ok", mk(0))), frozenset([("v", "Result", "Ok", 0)]))


WRITES_OK = {k: write_ok for k in ("Write::write_fmt", "Write::write_all", "Write::flush")}
