"""Plain-data cases <-> JSON (tagged), with exact leaf types."""
import enum, math, pathlib

ENUMS = {}


def register_enum(cls):
    ENUMS[cls.__name__] = cls
    return cls


def enc(v):
    if isinstance(v, enum.Enum):
        return {"$e": [type(v).__name__, v.name]}
    if v is None or v is True or v is False or type(v) is int:
        return v if not (type(v) is int and abs(v) > 2**53) else {"$i": str(v)}
    if type(v) is str:
        try:
            v.encode("utf-8")
            return v
        except UnicodeEncodeError:
            return {"$s": [ord(c) for c in v]}
    if type(v) is float:
        return {"$f": repr(v)}
    if type(v) is bytes:
        return {"$b": v.hex()}
    if isinstance(v, pathlib.PurePath):
        return {"$p": str(v)}
    if type(v) is list:
        return [enc(x) for x in v]
    if type(v) is tuple:
        return {"$t": [enc(x) for x in v]}
    if type(v) is dict:
        return {"$d": [[enc(k), enc(x)] for k, x in v.items()]}
    raise TypeError(f"cannot encode {type(v)}")


def dec(j):
    if isinstance(j, list):
        return [dec(x) for x in j]
    if isinstance(j, dict):
        (t, v), = j.items()
        if t == "$e":
            return ENUMS[v[0]][v[1]]
        if t == "$i":
            return int(v)
        if t == "$s":
            return "".join(map(chr, v))
        if t == "$f":
            return float(v)
        if t == "$b":
            return bytes.fromhex(v)
        if t == "$p":
            return pathlib.Path(v)
        if t == "$t":
            return tuple(dec(x) for x in v)
        if t == "$d":
            return {dec(k): dec(x) for k, x in v}
        raise ValueError(t)
    return j
