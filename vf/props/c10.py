"""C10: declared types convert or reject values by their documented rule, through every entry point."""
import copy, dataclasses
import attr
from hypothesis import strategies as st
from omegaconf import (AnyNode, BooleanNode, BytesNode, DictConfig, EnumNode, FloatNode, IntegerNode, ListConfig, OmegaConf, PathNode, StringNode)
from omegaconf.errors import InterpolationValidationError, KeyValidationError, ValidationError
from ..core import Leg, fail
from ..gen import *
from .. import schema as S

NODES = {"int": IntegerNode, "float": FloatNode, "bool": BooleanNode, "str": StringNode, "bytes": BytesNode, "Path": PathNode}
_ret = [None]
_cls = {}


def repr_t(t):
    return repr(t)


def cls_of(t, kind, default=S.MISS):
    """Class with x: t, l: List[t], d: Dict[str, t] (cached by type)."""
    k = (repr(t), kind)
    if k not in _cls:
        h = S.hint(t)
        if kind == "dc":
            c = dataclasses.make_dataclass("D", [("x", h, dataclasses.field(default=S.MISS)), ("l", S.List[h], dataclasses.field(default_factory=list)),
                                                 ("d", S.Dict[str, h], dataclasses.field(default_factory=dict)), ("y", S.Any, dataclasses.field(default=None))])
        else:
            c = attr.make_class("A", {"x": attr.ib(default=S.MISS, type=h), "l": attr.ib(factory=list, type=S.List[h]),
                                      "d": attr.ib(factory=dict, type=S.Dict[str, h]), "y": attr.ib(default=None, type=S.Any)})
        _cls[k] = c
    return _cls[k]


ROUTES = ["ctor", "attr", "item", "merge", "merge_cfg", "update", "dict_item", "dict_ctor", "dict_field", "dict_merge", "list_append", "list_item",
          "list_insert", "list_ctor", "list_slice", "list_extend", "list_field", "list_merge", "interp", "resolver", "node", "node_set", "dictconfig", "listconfig"]
OLD = {"int": 7, "float": 7.5, "bool": True, "str": "old", "bytes": b"old", "Path": Path("old"), "Color": Color.BLUE, "Shape": Shape.CIRCLE}


def old_for(t):
    o, t = S.strip(t)
    if t == "any":
        return "old"
    return OLD[t if isinstance(t, str) else t[1][0]]


def enc_type(t):
    return t


def run(case, ctx):
    t, v, route, kind = case
    t = tuple(t) if isinstance(t, list) else t
    opt_, base = S.strip(t)
    try:
        want = ("ok", S.conv(t, v))
    except S.Bad:
        want = ("bad",)
    except S.Skip:
        return
    val = S.value(v)
    if v is not None and S.is_special(v) or isinstance(v, Path) and base == "str" and S.is_special(str(v)):
        return
    C = cls_of(t, kind)
    old = old_for(t)
    h = S.hint(t)
    if route in ("node", "node_set") and not isinstance(base, str):
        return
    def mk(**kw):
        return OmegaConf.structured(C(**{"x": old, **kw}))
    keep = None  # (config, contents before)
    if route == "ctor":
        def f(): return OmegaConf.structured(C(x=val)).x
    elif route in ("attr", "item", "merge", "merge_cfg", "update"):
        cfg = mk()
        keep = cfg
        if route == "merge_cfg" and (S.is_obj(v) or not isinstance(v, (dict, list)) and v is not None and not isinstance(v, (int, float, str, bytes, bool, Path, enum.Enum))):
            return

        def f():
            if route == "attr":
                cfg.x = val
            elif route == "item":
                cfg["x"] = val
            elif route == "merge":
                cfg.merge_with({"x": val})
            elif route == "merge_cfg":
                cfg.merge_with(OmegaConf.create({"x": val}))
            elif route == "update":
                OmegaConf.update(cfg, "x", val)
            return cfg.x
    elif route == "dict_item":
        keep = mk(d={"a": old})

        def f():
            keep.d["a"] = val
            a = keep.d["a"]
            keep.d["b"] = val
            if canon(keep.d["b"]) != canon(a) and not isinstance(a, (DictConfig, ListConfig)):
                fail(f"a new and an existing entry of {t} store {v!r} differently: {keep.d['b']!r} {a!r}")
            return a
    elif route == "dict_ctor":
        def f(): return OmegaConf.structured(C(x=old, d={"a": val})).d["a"]
    elif route == "dict_field":
        keep = mk(d={"a": old})

        def f():
            keep.d = {"a": val}
            return keep.d["a"]
    elif route == "dict_merge":
        keep = mk(d={"a": old})

        def f():
            keep.merge_with({"d": {"a": val}})
            return keep.d["a"]
    elif route.startswith("list_"):
        keep = mk(l=[old])

        def f():
            if route == "list_append":
                keep.l.append(val)
                return keep.l[1]
            if route == "list_item":
                keep.l[0] = val
            elif route == "list_insert":
                keep.l.insert(0, val)
            elif route == "list_slice":
                keep.l[0:1] = [val]
            elif route == "list_extend":
                keep.l.extend([val])
                return keep.l[1]
            elif route == "list_field":
                keep.l = [val]
            elif route == "list_merge":
                keep.merge_with({"l": [val]})
            else:
                return OmegaConf.structured(C(x=old, l=[val])).l[0]
            return keep.l[0]
    elif route in ("interp", "resolver"):
        if not isinstance(base, str) or base == "any":
            return  # only values of simple types are validated when an interpolation is read
        if route == "interp":
            if isinstance(v, (dict, list, tuple)):
                return
            keep = mk(x="${y}", y=val)
        else:
            if not OmegaConf.has_resolver("vf_ret"):
                OmegaConf.register_new_resolver("vf_ret", lambda: _ret[0])
            _ret[0] = val
            keep = mk(x="${vf_ret:}")

        def f(): return keep.x
    elif route in ("node", "node_set"):
        def node(x):
            if base == "any":
                return AnyNode(x)
            if base in ("Color", "Shape"):
                return EnumNode(S.SIMPLE[base], x, is_optional=opt_)
            return NODES[base](x, is_optional=opt_)
        if base == "any" and isinstance(v, (dict, list)):
            return  # a value node cannot hold a container

        def f():
            if route == "node":
                return node(val)._value()
            n = node(old)
            try:
                n._set_value(val)
            except Exception:
                if canon(n._value()) != canon(old):
                    fail(f"rejecting {v!r} changed a {t} node from {old!r} to {n._value()!r}")
                raise
            return n._value()
    elif route == "dictconfig":
        def f(): return DictConfig({"a": val}, element_type=h)["a"]
    else:
        def f(): return ListConfig([val], element_type=h)[0]
    before = cs(keep) if keep is not None else None
    r = attempt(f)
    where = f"{route} of {show(v)} ({type(v).__name__}) to {t} ({kind})"
    if want[0] == "bad":
        exc = InterpolationValidationError if route in ("interp", "resolver") else ValidationError
        if r[0] == "ok":
            fail(f"{where} should be rejected, gives {show(plain(r[1]))}")
        if not isinstance(r[1], exc):
            fail(f"{where} should raise {exc.__name__}, raised {type(r[1]).__name__}: {r[1]}")
        if keep is not None and route not in ("list_merge", "dict_merge", "merge", "merge_cfg") and cs(keep) != before:
            fail(f"{where} was rejected but changed the config from {before} to {show(plain(keep))}")
        if keep is not None and route in ("merge", "merge_cfg") and canon(keep.x) != canon(old):
            fail(f"{where} was rejected but changed the field to {show(plain(keep.x))}")
        ctx.hit("rejected")
        return
    if r[0] != "ok":
        fail(f"{where} should give {show(want[1])}, raised {type(r[1]).__name__}: {r[1]}")
    if cs(r[1]) != cs(want[1]):
        fail(f"{where} should give {want[1]!r}, gives {show(plain(r[1]))}")
    if canon(want[1]) != canon(v):
        ctx.hit("converted")
    else:
        ctx.hit("kept")
    ctx.label(route)


def run_key(case, ctx):
    kt, k, route = case
    try:
        want = S.conv_key(kt, k)
        ok = True
    except S.Bad:
        ok = False
    h = S.hint(kt)
    d = DictConfig({}, key_type=h, element_type=int)
    if route == "set":
        def f(): d[k] = 1
    elif route == "ctor":
        def f():
            d.__dict__["_content"].update(DictConfig({k: 1}, key_type=h, element_type=int).__dict__["_content"])
    elif route == "update":
        def f(): d.update({k: 1})
    elif route == "merge":
        def f(): d.merge_with({k: 1})
    else:
        C = dataclasses.make_dataclass("K", [("d", S.Dict[h, int], dataclasses.field(default_factory=dict))])
        cfg = OmegaConf.structured(C)
        d = cfg.d

        def f():
            nonlocal d
            cfg.d = {k: 1}
            d = cfg.d
    r = attempt(f)
    where = f"{route} of key {k!r} in a dict with {kt} keys"
    if not ok:
        if r[0] == "ok":
            fail(f"{where} should be rejected, gives {d}")
        if not isinstance(r[1], KeyValidationError):
            fail(f"{where} should raise KeyValidationError, raised {type(r[1]).__name__}: {r[1]}")
        if len(d):
            fail(f"{where} was rejected but gives {d}")
        if k in d:
            fail(f"{k!r} in a dict with {kt} keys is True")
        g = attempt(lambda: d[k])
        if g[0] == "ok" or not isinstance(g[1], (KeyError, KeyValidationError)):
            fail(f"reading key {k!r} in a dict with {kt} keys: {show(g)}")
        ctx.hit("rejected")
        return
    if r[0] != "ok":
        fail(f"{where} raised {type(r[1]).__name__}: {r[1]}")
    if canon(list(d.keys())) != canon([want]) or k not in d or d[k] != 1 or d.get(k) != 1:
        fail(f"{where} gives {show(plain(d))}, expected key {want!r}")
    if d.pop(k) != 1 or len(d):
        fail(f"{where}: pop gives {show(plain(d))}")
    ctx.hit("accepted")


types_ = one_of(S.leaf_types, S.leaf_types, st.just("any"))


@st.composite
def cases(draw):
    t = draw(types_)
    o, b = S.strip(t)
    pool = [S.wild_values, S.wild_values]
    if isinstance(b, str) and b != "any":
        pool.append(S.convertible(b))
    elif isinstance(b, tuple):
        pool.append(st.sampled_from(b[1]).flatmap(S.exactly))
        pool.append(st.sampled_from(b[1]).flatmap(S.convertible))
    v = draw(one_of(*pool))
    return t, v, draw(st.sampled_from(ROUTES)), draw(st.sampled_from(["dc", "attr"]))


keys_ = one_of(st.sampled_from(["a", "", "RED", "Color.RED", "Color.Color.RED", "red", "1", "true", 0, 1, 2, 5, -1, True, False, 0.0, 1.0, 1.5, b"a", Color.RED, Shape.CIRCLE]), any_keys)
WORDS = ["yes", "y", "on", "true", "no", "n", "off", "false", "t", "f", "ok", "1", "0", "2", "-1", "12", "007", "1.5", ".5", "5.", "1.0", "0.0", "1e3", "1E-2", "inf", "nan", "infinity", "0x1f", "0b1", "1_000",
         "1__0", "\u0661", "\xbd", "\u212a", "RED", "GREEN", "CIRCLE", "Color.RED", "Shape.CIRCLE", "Shape.RED", "color.RED", "Color.Color.RED", "Color", "Color.", "none", "null", "???", "abc", "a/b", "/x/", "b'x'", "1 2", "True False", ""]
DECOR = [lambda w: w, lambda w: " " + w, lambda w: w + " ", lambda w: "\t" + w + "\n", lambda w: w + "\n", lambda w: "+" + w, lambda w: "-" + w, lambda w: "_" + w, lambda w: w + "_", lambda w: w.upper(), lambda w: w.lower(),
         lambda w: w.capitalize(), lambda w: w.swapcase(), lambda w: w + "x", lambda w: "0" + w, lambda w: w + "0", lambda w: w + ".", lambda w: w + ".0", lambda w: w + "e1", lambda w: w * 2, lambda w: w[:-1], lambda w: "'" + w + "'", lambda w: "Color." + w,
         lambda w: w + "\0", lambda w: "\ufeff" + w, lambda w: w + "\u3000", lambda w: w.encode("utf-8"), lambda w: Path(w.replace("\0", ""))]


def enum_texts_(tier):
    out, seen = [], set()
    routes = ["node", "attr", "merge"] if tier == "quick" else ["node", "attr", "merge", "ctor", "update", "dict_item", "list_append", "interp", "resolver", "node_set"]
    for d in DECOR:
        for w in WORDS:
            v = d(w)
            if repr(v) in seen:
                continue
            seen.add(repr(v))
            for t in ("int", "float", "bool", "str", "bytes", "Path", "Color", "Shape", ("union", ("int", "float")), ("union", ("bool", "str"))):
                for r in routes:
                    if r.startswith("node") and isinstance(t, tuple):
                        continue
                    out.append((t, v, r, "dc"))
    return out


LEGS = [
    Leg("texts", None, run, quick=0, enumerated=enum_texts_,
        rule="every one of about 1000 texts (words a type accepts or nearly accepts, with spaces, signs, case, digits, dots, quotes or class names added or removed, and their bytes and paths) given to each simple type and two unions through 3 entry points (10 in the thorough tier)"),
    Leg("values", lambda: cases(), run, quick=32000,
        rule="one value given to a place of one declared type (simple, Optional, Union, Any) through one of 25 entry points of dataclass and attrs configs, typed dicts and lists, nodes, interpolations and resolvers; every accepted, converted or rejected case is non-trivial"),
    Leg("keys", lambda: st.tuples(st.sampled_from(["str", "int", "float", "bool", "bytes", "Color", "Shape", "any"]), keys_, st.sampled_from(["set", "ctor", "update", "merge", "field"])), run_key, quick=6000,
        rule="one key given to a dict with one declared key type by 5 entry points"),
]
