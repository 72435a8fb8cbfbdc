"""C01: DictConfig against a Python dict, over operation histories."""
import copy, dataclasses
from typing import Dict, Optional, Union
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.errors import MissingMandatoryValue
from ..core import Leg, fail
from ..gen import *

MISSING = "???"
# few distinct keys, so that operations meet; True/1/1.0 and 0/False are the same key in a dict
key = one_of(st.sampled_from(["a", "b", "c"]), st.sampled_from(["a", "b", "c"]), st.sampled_from([1, True, 1.0, 0, False, b"k", Color.RED, "1", "RED", ""]), any_keys)
skey = one_of(st.sampled_from(["a", "b", "c"]), st.sampled_from(["a", "b", "c", "d"]), str_keys)
leaf = one_of(st.integers(0, 4), st.sampled_from(["x", "", None, MISSING, True, 1.0, b"b", Color.RED, Path("p")]), scalars)
value = one_of(leaf, leaf, trees(leaf=leaf, keys=key, max_leaves=5, width=3, tuples=True))
default = one_of(st.none(), st.integers(5, 8), st.sampled_from([[], "dflt"]))
wrap = st.sampled_from([False, False, True])
where = st.integers(0, 5)
bad_key = st.sampled_from([None, (1, 2)])
def ops_of(key, skey, value, leaf=None):
    return one_of(
        st.tuples(st.just("setitem"), where, key, value, wrap), st.tuples(st.just("setattr"), where, skey, value, wrap),
        st.tuples(st.just("setitem"), where, key, value, wrap), st.tuples(st.just("getitem"), where, key), st.tuples(st.just("getattr"), where, skey),
        st.tuples(st.just("delitem"), where, key), st.tuples(st.just("delattr"), where, skey),
        st.tuples(st.just("pop"), where, key), st.tuples(st.just("popd"), where, key, default),
        st.tuples(st.just("get"), where, key), st.tuples(st.just("getd"), where, key, default),
        st.tuples(st.just("setdefault"), where, key, value), st.tuples(st.just("in"), where, key),
        st.tuples(st.just("update"), where, st.dictionaries(key, value, max_size=3), st.sampled_from(["dict", "pairs", "cfg"])),
        st.tuples(st.just("update_kw"), where, st.dictionaries(ids, value, max_size=3)),
        st.tuples(st.just("views"), where), st.tuples(st.just("copy"), where),
        st.tuples(st.just("badval"), where, key, st.sampled_from(["setitem", "setattr", "setdefault", "nested"])),
        st.tuples(st.just("badkey"), where, bad_key, st.sampled_from(["set", "get", "getitem", "pop", "in", "nested"])),
        st.tuples(st.just("lappend"), where, value), st.tuples(st.just("lset"), where, value),
        st.tuples(st.just("moved"), where, where, key), st.tuples(st.just("clear"), where),
    )


case_st = st.tuples(st.dictionaries(key, value, max_size=5), st.lists(ops_of(key, skey, value), min_size=1, max_size=16))


class Unsupported:
    pass


def pure(v):
    if isinstance(v, (list, tuple)):
        return [pure(x) for x in v]
    if isinstance(v, dict):
        return {k: pure(x) for k, x in v.items()}
    return v


def is_miss(v):
    return type(v) is str and v == MISSING


def containers(model, kinds):
    """Paths of all containers of the model of the given kinds, top first."""
    out = []

    def rec(v, path):
        if isinstance(v, kinds):
            out.append(path)
        if isinstance(v, dict):
            for k, x in v.items():
                rec(x, path + (k,))
        elif isinstance(v, list):
            for i, x in enumerate(v):
                rec(x, path + (i,))
    rec(model, ())
    return out


def walk(root, path):
    for p in path:
        root = root[p]
    return root


def same(a, b):
    return cs(a) == cs(b)


RESERVED = set(dir(DictConfig)) | {"_metadata", "_content", "_parent", "_flags_cache"}


def run(case, ctx):
    init, prog = case
    drive(init, prog, ctx, OmegaConf.create, copy.deepcopy)


# ------------------------------------------- typed dicts, and values that are interpolations
@dataclasses.dataclass
class Typed:
    f_int: Dict[str, int] = dataclasses.field(default_factory=dict)
    f_optstr: Dict[int, Optional[str]] = dataclasses.field(default_factory=dict)
    f_color: Dict[Color, Color] = dataclasses.field(default_factory=dict)
    f_union: Dict[str, Union[int, str, bool, float]] = dataclasses.field(default_factory=dict)
    f_optunion: Dict[float, Optional[Union[bool, int, bytes]]] = dataclasses.field(default_factory=dict)
    f_nested: Dict[str, Dict[str, int]] = dataclasses.field(default_factory=dict)


abc = st.sampled_from(["a", "b", "c", "d"])
small = st.integers(0, 4)
texts = st.sampled_from(["a", "b", "", "1", "true", "x y"])
KINDS = {
    "int": (abc, abc, one_of(small, small, st.just(MISSING))),
    "optstr": (st.integers(-1, 3), None, one_of(texts, texts, st.none(), st.just(MISSING))),
    "color": (st.sampled_from(list(Color)), None, st.sampled_from(list(Color))),
    "union": (abc, abc, one_of(small, small, texts, st.booleans(), st.sampled_from([1.0, 0.5]), st.just(MISSING))),
    "optunion": (st.sampled_from([0.5, 1.0, 2.5]), None, one_of(small, st.booleans(), st.none(), st.sampled_from([b"", b"a"]))),
    "nested": (abc, abc, st.dictionaries(abc, small, max_size=2)),
    "inter": (abc, abc, one_of(small, small, small, texts, st.none())),
}
TOP_ONLY = ("lappend", "lset", "moved")


def kind_case(k):
    key, skey, value = KINDS[k]
    ops = ops_of(key, abc if skey is None else skey, value).filter(lambda op: op[0] not in TOP_ONLY and (skey is not None or not op[0].endswith("attr") and op[0] != "update_kw"))
    return st.tuples(st.just(k), st.dictionaries(key, value, max_size=4), st.lists(ops, min_size=1, max_size=10))


kinds_st = one_of(*[kind_case(k) for k in KINDS])


def refer(v):
    """Small integers become interpolations of the same value."""
    if isinstance(v, dict):
        return {k: refer(x) for k, x in v.items()}
    if type(v) is int and 0 <= v <= 4:
        return "${v[%d]}" % v if v % 2 else "${v.%d}" % v
    return v


def run_kinds(case, ctx):
    k, init, prog = case
    ctx.label(k)
    root = OmegaConf.create({"v": [0, 1, 2, 3, 4], "f_inter": {}}) if k == "inter" else OmegaConf.structured(Typed)
    conv = refer if k == "inter" else copy.deepcopy

    def make(v):
        root["f_" + k] = v
        return root["f_" + k]
    out = []
    for op in prog:
        if op[0] == "badval" and (k == "optstr" or op[3] == "nested"):
            continue
        if op[0] == "badkey" and op[3] == "nested":
            continue
        if op[0] == "update" and op[3] == "cfg" and k == "inter":
            op = op[:3] + ("dict",)
        out.append(("update", op[1], op[2], "dict") if op[0] == "update_kw" else op)
    drive(init, [(op[0], 0) + tuple(op[2:]) for op in out], ctx, make, conv)


def drive(init, prog, ctx, make, conv):
    def plain(v):
        return OmegaConf.to_container(v, resolve=True) if OmegaConf.is_config(v) else v

    model = pure(init)
    cfg = make(conv(init))
    if not same(plain(cfg), model):
        fail(f"created from {show(init)}: {show(plain(cfg))}")
    mutated = nested = 0
    for op in prog:
        kind, w = op[0], op[1]
        args = list(op[2:])
        paths = containers(model, list if kind in ("lappend", "lset") else dict)
        if not paths:
            continue
        path = paths[w % len(paths)]
        m, c = walk(model, path), walk(cfg, path)
        before = copy.deepcopy(model)
        k = args[0] if args else None
        keyerr, any_err = (KeyError,), (Exception,)
        fam = None
        if kind in ("setitem", "setattr"):
            v, wr = args[1], args[2]
            rv = conv(v)
            if wr and isinstance(rv, (dict, list, tuple)):
                rv = OmegaConf.create(rv)
            want = attempt(lambda: m.__setitem__(k, pure(v)))
            real = attempt(lambda: c.__setitem__(k, rv) if kind == "setitem" else setattr(c, k, rv))
        elif kind in ("getitem", "getattr"):
            if kind == "getattr" and k in RESERVED:
                continue
            fam = KeyError if kind == "getitem" else AttributeError
            want = attempt(lambda: m[k])
            if want[0] == "ok" and is_miss(want[1]):
                fam, want = MissingMandatoryValue, ("exc", None)
            real = attempt(lambda: c[k] if kind == "getitem" else getattr(c, k))
            if isinstance(k, str) and k not in RESERVED:
                other = attempt(lambda: getattr(c, k) if kind == "getitem" else c[k])
                if real[0] != other[0] or (real[0] == "ok" and not same(real[1], other[1])):
                    fail(f"item and attribute access to {k!r} differ: {show(real)} vs {show(other)}")
                if real[0] == "ok" and OmegaConf.is_config(real[1]) and real[1] is not other[1]:
                    fail(f"item and attribute access to {k!r} give different objects")
        elif kind in ("delitem", "delattr"):
            fam = KeyError if kind == "delitem" else AttributeError
            want = attempt(lambda: m.__delitem__(k))
            real = attempt(lambda: c.__delitem__(k) if kind == "delitem" else delattr(c, k))
        elif kind == "pop":
            fam = KeyError
            if k in m and is_miss(m[k]):
                want, fam = ("exc", None), MissingMandatoryValue
            else:
                want = attempt(lambda: m.pop(k))
            real = attempt(lambda: c.pop(k))
        elif kind == "popd":
            want = ("ok", m.pop(k, args[1]))
            if is_miss(want[1]):
                want = ("ok", args[1])
            real = attempt(lambda: c.pop(k, args[1]))
        elif kind in ("get", "getd"):
            d = args[1] if kind == "getd" else None
            want = ("ok", d if k not in m or is_miss(m[k]) else m[k])
            real = attempt(lambda: c.get(k, d) if kind == "getd" else c.get(k))
        elif kind == "setdefault":
            v = args[1]
            if k in m and not is_miss(m[k]):
                want = ("ok", m[k])
            else:
                m[k] = pure(v)
                want = ("ok", pure(v))
            real = attempt(lambda: c.setdefault(k, copy.deepcopy(v)))
        elif kind == "in":
            want = ("ok", k in m and not is_miss(m[k]))
            real = attempt(lambda: k in c)
        elif kind in ("update", "update_kw"):
            d = args[0]
            how = args[1] if kind == "update" else "kw"
            if how == "cfg" and any(is_miss(x) for x in d.values()):
                continue
            want = ("ok", m.update(pure(d)))
            rv = conv(d)
            if how == "kw":
                real = attempt(lambda: c.update(**rv))
            elif how == "pairs":
                real = attempt(lambda: c.update(list(rv.items())))
            else:
                real = attempt(lambda: c.update(OmegaConf.create(rv) if how == "cfg" else rv))
        elif kind == "views":
            missing = any(is_miss(x) for x in m.values())
            for name, f, g in [
                ("iter", lambda: list(c), lambda: list(m)), ("keys", lambda: list(c.keys()), lambda: list(m.keys())),
                ("len", lambda: len(c), lambda: len(m)), ("bool", lambda: bool(c), lambda: bool(m)),
                ("items", lambda: list(c.items()), None if missing else lambda: [(a, b) for a, b in m.items()]),
                ("values", lambda: list(c.values()), None if missing else lambda: list(m.values())),
                ("items_ex", lambda: c.items_ex(resolve=False), lambda: list(m.items())),
                ("dict()", lambda: dict(c), None if missing else lambda: m),
                ("**", lambda: (lambda **kw: kw)(**c), None if missing or not all(type(a) is str for a in m) else lambda: m),
            ]:
                if name == "items_ex" and make is not OmegaConf.create:
                    continue  # gives raw values: expressions and union nodes
                r = attempt(f)
                if g is None:
                    if missing and not (r[0] == "exc" and isinstance(r[1], MissingMandatoryValue)):
                        fail(f"{name} of {show(m)} with a missing value: {show(r)}")
                    continue
                if r[0] != "ok":
                    fail(f"{name} of {show(m)} raised {r[1]!r}")
                got = r[1]
                if isinstance(got, list):
                    got = [tuple(plain(y) for y in x) if isinstance(x, tuple) else plain(x) for x in got]
                elif isinstance(got, dict):
                    got = {a: plain(b) for a, b in got.items()}
                if not same(got, g()):
                    fail(f"{name} of {show(m)}: {show(got)}")
            if all(type(a) is str for a in m) and dir(c) != sorted(m):
                fail(f"dir() of {show(m)}: {show(dir(c))}")
            ctx.label("op:views")
            continue
        elif kind == "clear":
            want, real = ("ok", m.clear()), attempt(lambda: c.clear())
        elif kind == "copy":
            o = c.copy()
            if not same(plain(o), m):
                fail(f"copy() of {show(m)}: {show(plain(o))}")
            attempt(lambda: o.__setitem__("a", 99))
            attempt(lambda: o.__setitem__("zz", 1))
            o.clear()
            if len(o) or not same(plain(o), {}):
                fail(f"a copy of {show(m)}, cleared: {show(plain(o))}")
            want = real = ("ok", None)
        elif kind == "badval":
            u = Unsupported()
            want, fam = ("exc", None), Exception
            how = args[1]
            if how == "setattr" and not isinstance(k, str):
                continue
            if how == "setdefault" and k in m and not is_miss(m[k]):
                continue
            real = attempt({"setitem": lambda: c.__setitem__(k, u), "setattr": lambda: setattr(c, k, u),
                            "setdefault": lambda: c.setdefault(k, u), "nested": lambda: c.__setitem__(k, {"q": [1, u]})}[how])
        elif kind == "badkey":
            how = args[1]
            if how == "in":
                want, real = ("ok", False), attempt(lambda: k in c)
            else:
                want, fam = ("exc", None), Exception
                real = attempt({"set": lambda: c.__setitem__(k, 1), "get": lambda: c.get(k), "getitem": lambda: c[k], "pop": lambda: c.pop(k),
                                "nested": lambda: c.__setitem__("a", {"q": {k: 1}})}[how])
        elif kind == "lappend":
            want = ("ok", m.append(pure(args[0])))
            real = attempt(lambda: c.append(copy.deepcopy(args[0])))
        elif kind == "lset":
            if not m:
                continue
            i = w % len(m)
            m[i] = pure(args[0])
            want, real = ("ok", None), attempt(lambda: c.__setitem__(i, copy.deepcopy(args[0])))
        elif kind == "moved":  # cfg[k] = <container taken from elsewhere in the same config>
            src = paths[args[0] % len(paths)]
            k = args[1]
            want = ("ok", m.__setitem__(k, copy.deepcopy(walk(model, src))))
            real = attempt(lambda: c.__setitem__(k, walk(cfg, src)))
        tag = f"{show(op)} at {path} of {show(before)}"
        if want[0] == "exc":
            if real[0] != "exc":
                fail(f"{tag}: expected an exception, got {show(real[1])}")
            if isinstance(real[1], AssertionError):
                fail(f"{tag}: AssertionError")
            f = fam or type(want[1])
            if not isinstance(real[1], f):
                fail(f"{tag}: expected {f.__name__}, got {type(real[1]).__name__}: {real[1]}")
            model = before
            ctx.label("raises")
        else:
            if real[0] == "exc":
                fail(f"{tag}: a dict succeeds, the config raised {type(real[1]).__name__}: {real[1]}")
            if not same(want[1], plain(real[1])):
                fail(f"{tag}: expected {show(want[1])}, got {show(plain(real[1]))}")
            if not same(model, before):
                mutated += 1
                nested += bool(path)
        got = plain(cfg)
        if not same(got, model):
            fail(f"after {tag}: contents {show(got, 600)} but a dict has {show(model, 600)}")
        if list(cfg) != list(model) or len(cfg) != len(model):
            fail(f"after {tag}: keys {list(cfg)} but a dict has {list(model)}")
        ctx.label("op:" + kind)
    if mutated >= 2:
        ctx.hit("mutated>=2")
    if nested:
        ctx.label("nested-mutation")


LEGS = [
    Leg("history", lambda: case_st, run, quick=16000,
        rule="histories of 1-16 dict operations at generated places of generated nested dicts, compared with a Python dict after every step; non-trivial: at least two operations changed the contents"),
    Leg("kinds", lambda: kinds_st, run_kinds, quick=7000,
        rule="the same histories on dicts with declared key and value types (primitive, optional, enum, union, nested dict) holding values of these types, and on dicts whose values are interpolations; non-trivial: at least two operations changed the contents"),
]
