"""Generated structured config classes (from plain data), and a reference model of what their fields accept.

A type is plain data: "int", "float", "bool", "str", "bytes", "Path", "Color", "Shape", "any",
("opt", T), ("union", [names]), ("dict", keytype, T), ("list", T), ("cls", index of an earlier class).
A schema is a list of classes {"kind": "dc"|"attr", "base": index|None, "frozen": bool, "fields": [[name, T, default]]}
with default ("req",) | ("val", data) | ("inst", [overrides])."""
import copy, dataclasses, enum, itertools, sys, typing
from typing import Any, Dict, List, Optional, Union

import attr
from hypothesis import strategies as st
from .gen import *

SIMPLE = {"int": int, "float": float, "bool": bool, "str": str, "bytes": bytes, "Path": Path, "Color": Color, "Shape": Shape}
MISS = "???"
_n = itertools.count()


class Bad(Exception):
    """The reference rejects the value."""


class Skip(Exception):
    """The reference does not say."""


class Obj:
    """An object of an unsupported type."""
    def __repr__(self):
        return "Obj()"


OBJS = {"obj": Obj, "complex": lambda: 1j, "set": lambda: {1}, "bytearray": lambda: bytearray(b"x"),
        "fraction": lambda: __import__("fractions").Fraction(1, 2), "function": lambda: len, "range": lambda: range(2), "frozenset": lambda: frozenset([1])}


def value(v):
    """Plain data -> value passed to omegaconf: ("O", kind) becomes an unsupported object; tuples otherwise lists."""
    if isinstance(v, tuple) and len(v) == 2 and v[0] == "O":
        return OBJS[v[1]]()
    if isinstance(v, dict):
        return {k: value(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [value(x) for x in v]
    return v


def is_obj(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == "O"


def hint(t, classes=()):
    """Type data -> annotation."""
    if isinstance(t, str):
        return Any if t == "any" else SIMPLE[t]
    if t[0] == "opt":
        return Optional[hint(t[1], classes)]
    if t[0] == "union":
        return Union[tuple(SIMPLE[x] for x in t[1])]
    if t[0] == "dict":
        return Dict[hint(t[1], classes), hint(t[2], classes)]
    if t[0] == "list":
        return List[hint(t[1], classes)]
    if t[0] == "cls":
        return classes[t[1]]
    raise ValueError(t)


def strip(t):
    """(optional, T)"""
    if isinstance(t, tuple) and t[0] == "opt":
        return True, t[1]
    return t == "any", t


# ---------------------------------------------------------------- documented conversions of simple values
def conv_simple(t, v):
    """Value stored in a field of simple type t for a non-None value v; Bad when it is rejected."""
    if isinstance(v, (dict, list)) or (isinstance(v, tuple) and not is_obj(v)):
        raise Bad
    obj = is_obj(v)
    if t == "str":
        if isinstance(v, bytes):
            raise Bad
        if obj:
            raise Skip
        return str(v)
    if obj:
        raise Bad
    if t == "int":
        if type(v) is int:
            return v
        if type(v) is str:
            try:
                return int(v)
            except ValueError:
                raise Bad
        raise Bad
    if t == "float":
        if type(v) in (int, float, str):
            try:
                return float(v)
            except (ValueError, OverflowError):
                raise Bad
        raise Bad
    if t == "bool":
        if type(v) is bool:
            return v
        if type(v) is int:
            return v != 0
        if type(v) is str:
            try:
                return int(v) != 0
            except ValueError:
                pass
            if v.lower() in ("yes", "y", "on", "true"):
                return True
            if v.lower() in ("no", "n", "off", "false"):
                return False
        raise Bad
    if t == "bytes":
        if type(v) is bytes:
            return v
        raise Bad
    if t == "Path":
        if isinstance(v, Path) or type(v) is str:
            return Path(v)
        raise Bad
    e = SIMPLE[t]
    if isinstance(v, e):
        return v
    if type(v) is int:
        for m in e:
            if type(m.value) is int and m.value == v:
                return m
        raise Bad
    if type(v) is str:
        n = v[len(e.__name__) + 1:] if v.startswith(e.__name__ + ".") else v
        if n in e.__members__:
            return e[n]
    raise Bad


def exact_simple(t, v):
    """v is an exact instance of simple type t (for unions)"""
    e = SIMPLE[t]
    if isinstance(v, Path):
        return t == "Path"
    return type(v) is e


def conv_key(kt, k):
    """Key stored in a dict with key type kt."""
    if kt == "any":
        return k
    if kt == "bool":
        if not is_obj(k) and not isinstance(k, (str, bytes)) and k in (0, 1):
            return bool(k)
        raise Bad
    if kt in ("Color", "Shape"):
        return conv_simple(kt, k)
    if isinstance(k, SIMPLE[kt]):
        return k
    raise Bad


def is_special(v):
    return isinstance(v, str) and (v == MISS or "${" in v)


def conv(t, v, sch=None, how="set"):
    """Plain data stored for v in a place of declared type t. Containers become plain dicts/lists.
    how: "set" (assignment) - plain dicts are not accepted at class-typed places."""
    opt, t = strip(t)
    if v is None:
        if opt:
            return None
        raise Bad
    if is_special(v):
        return v
    if t == "any":
        return conv_any(v)
    if isinstance(t, str):
        return conv_simple(t, v)
    if t[0] == "union":
        if isinstance(v, (dict, list)) or isinstance(v, tuple):
            raise Bad
        for x in t[1]:
            if exact_simple(x, v):
                return v
        raise Bad
    if t[0] == "dict":
        if not isinstance(v, dict):
            raise Bad
        out = {}
        for k, x in v.items():
            out[conv_key(t[1], k)] = conv(t[2], x, sch, how)
        return out
    if t[0] == "list":
        if not isinstance(v, (list, tuple)) or is_obj(v):
            raise Bad
        return [conv(t[1], x, sch, how) for x in v]
    raise Skip


def conv_any(v):
    if is_obj(v):
        raise Bad
    if isinstance(v, dict):
        return {k: conv_any(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [conv_any(x) for x in v]
    return v


# ---------------------------------------------------------------- generation of types
simple_types = st.sampled_from(list(SIMPLE))
unions = st.lists(simple_types, min_size=2, max_size=4, unique=True).map(lambda l: ("union", l))
key_types = st.sampled_from(["str", "str", "str", "int", "float", "bool", "bytes", "Color", "any"])


def opt(s):
    return one_of(s, s, s.map(lambda t: ("opt", t)))


leaf_types = opt(one_of(simple_types, simple_types, unions))
any_leaf_types = one_of(leaf_types, leaf_types, st.just("any"))


def types(ncls=0, depth=2):
    """Any supported annotation, with references to classes below ncls."""
    base = [leaf_types, leaf_types, st.just("any")]
    if ncls:
        base.append(opt(st.integers(0, ncls - 1).map(lambda i: ("cls", i))))
        base.append(st.integers(0, ncls - 1).map(lambda i: ("cls", i)))
    t = one_of(*base)
    for _ in range(depth):
        t = one_of(*base, opt(st.tuples(st.just("dict"), key_types, t)), opt(st.tuples(st.just("list"), t)))
    return t


# ---------------------------------------------------------------- values
int_texts = one_of(st.integers(-10**6, 10**6).map(str), st.sampled_from(["0", "-0", "+1", " 12 ", "1_000", "0x10", "1e3", "007", "1.0", "", "-", "१२", "--1", "1__0", "0b1", "\n5", "9" * 30]))
float_texts = one_of(st.floats().map(repr), st.sampled_from(["1e3", "1E-7", "inf", "-Infinity", "nan", "1_0.5", " .5 ", "5.", "1e999", ".", "e5", "0x1p3", "1,5", "infinit", "1 2"]))
bool_texts = st.sampled_from(["yes", "Yes", "YES", "y", "Y", "on", "On", "oN", "true", "TRUE", "True", "no", "No", "n", "N", "off", "OFF", "false", "False", "t", "f", "yess", " yes", "2", "0", "-1", "1", "ye", "enable", "00", "none", "null"])
enum_texts = st.sampled_from(["RED", "Color.RED", "GREEN", "Color.GREEN", "red", "Color.", "Color.Color.RED", "Colour.RED", "Shape.SQUARE", "SQUARE", "sq", "Shape.sq", "CIRCLE", "Shape.CIRCLE", "1", "2", ".RED", "color.RED", "name", "_name_", "__class__", "mro", "Color.name"])
objs = st.sampled_from(sorted(OBJS)).map(lambda k: ("O", k))
simple_values = one_of(ints, st.booleans(), st.floats(), floats, plain_text, int_texts, float_texts, bool_texts, enum_texts, bytes_, paths, enums,
                          st.sampled_from([10**400, -10**25, 3, 0, 1, 2, True, False]))
small_containers = one_of(st.dictionaries(st.sampled_from(["a", "x", 1]), st.integers(0, 2), max_size=2), st.lists(st.integers(0, 2), max_size=2))
wild_values = one_of(simple_values, simple_values, simple_values, simple_values, st.none(), small_containers, objs)


def exactly(t):
    """Values of exactly the simple type t."""
    return {"int": ints, "float": st.floats(), "bool": st.booleans(), "str": plain_text, "bytes": bytes_, "Path": paths,
            "Color": st.sampled_from(list(Color)), "Shape": st.sampled_from(list(Shape))}[t]


def convertible(t):
    """Values accepted by the simple type t."""
    return one_of(exactly(t), {"int": st.integers(-99, 99).map(str), "float": one_of(st.integers(-9, 9), st.floats(allow_nan=False).map(repr)),
                                  "bool": one_of(st.integers(-2, 2), st.sampled_from(["yes", "Off", "TRUE", "n", "0"])),
                                  "str": one_of(ints, st.booleans(), floats, paths, enums), "bytes": bytes_, "Path": plain_text,
                                  "Color": st.sampled_from(["RED", "Color.BLUE", 2]), "Shape": st.sampled_from(["SQUARE", "Shape.CIRCLE"])}[t])


def key_of(kt):
    return {"str": st.sampled_from(["a", "b", "c", "k d", ""]), "int": st.integers(-2, 4), "float": st.sampled_from([0.5, 1.0, -2.5]), "bool": st.booleans(),
            "bytes": st.sampled_from([b"a", b"", b"\xff"]), "Color": st.sampled_from(list(Color)), "Shape": st.sampled_from(list(Shape)),
            "any": st.sampled_from(["a", "b", 1, 2.5, b"k", True, Color.RED])}[kt]


def good(t, exact=False, missing=True, depth=3):
    """Plain data legal for t (no class references).  exact: of the stored type already."""
    o, t = strip(t)
    alts = []
    if t == "any":
        alts = [trees(leaf=scalars, keys=str_keys, max_leaves=3, width=2)]
    elif isinstance(t, str):
        alts = [exactly(t)] * 3 if exact else [exactly(t), convertible(t)]
    elif t[0] == "union":
        alts = [exactly(x) for x in t[1]]
    elif t[0] == "dict":
        alts = [st.dictionaries(key_of(t[1]), good(t[2], exact, missing, depth - 1), max_size=3 if depth > 1 else 1)]
    elif t[0] == "list":
        alts = [st.lists(good(t[1], exact, missing, depth - 1), max_size=3 if depth > 1 else 1)]
    else:
        raise ValueError(t)
    alts = alts * 2
    if o:
        alts.append(st.none())
    if missing:
        alts.append(st.just(MISS))
    return one_of(*alts)


# ---------------------------------------------------------------- classes
# class spec: {"kind": "dc"|"attr", "base": index|None (same kind), "frozen": bool, "fields": [[name, T, default]]}
# default: REQ (no default) or plain data.  Instance data: ("I", class index, {field: data}); class object: ("C", index).
REQ = ("REQ",)


class SNode:
    """Reference contents of a structured config node: class index and field values in order."""
    __slots__ = ("i", "f")

    def __init__(self, i, f):
        self.i, self.f = i, f

    def __repr__(self):
        return f"<{self.i}: {self.f!r}>"


def is_inst(v):
    return isinstance(v, tuple) and len(v) == 3 and v[0] == "I"


def is_cls(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == "C"


def fields_of(specs, i):
    """[(name, T, default)] of class i with inherited ones, in declaration order."""
    return [f[:3] for f in all_fields(specs, i) if not f[3]]


def all_fields(specs, i):
    """[(name, T, default, ignored)] with the ignored fields"""
    s = specs[i]
    own = [tuple(f) + (f[0] in s.get("ignore", ()),) for f in s["fields"]]
    if s["base"] is None:
        return own
    base = all_fields(specs, s["base"])
    d = {f[0]: f for f in own}
    if s["kind"] == "dc":
        out = [d.pop(f[0], f) for f in base]
        return out + [f for f in own if f[0] in d]
    return [f for f in base if f[0] not in d] + own


def is_sub(specs, i, j):
    """class i is class j or derives from it"""
    while i is not None:
        if i == j:
            return True
        i = specs[i]["base"]
    return False


def subs(specs, j):
    return [i for i in range(len(specs)) if is_sub(specs, i, j)]


def hint_in(t, classes, i):
    if t == ("opt", ("cls", i)) or t == ("cls", i):  # the class itself: a forward reference
        return Optional[f"C{i}"] if t[0] == "opt" else f"C{i}"
    return hint(t, classes)


def realize(specs):
    """Class specs -> classes, importable from this module as C<i> (until the next call)."""
    mod = sys.modules[__name__]
    classes = []
    for i, s in enumerate(specs):
        base = (classes[s["base"]],) if s["base"] is not None else ()
        frozen, kw = s.get("frozen", False), s.get("kw", True)
        ns = {}
        if s["kind"] == "dc":
            fl = []
            for name, t, d in s["fields"]:
                o = {"metadata": {"omegaconf_ignore": True} if name in s.get("ignore", ()) else None, "init": name not in s.get("noinit", ())}
                f = dataclasses.field(**o) if d == REQ else _default(d, classes, lambda v: dataclasses.field(default=v, **o), lambda g: dataclasses.field(default_factory=g, **o))
                fl.append((name, hint_in(t, classes, i), f))
            c = dataclasses.make_dataclass(f"C{i}", fl, bases=base, frozen=frozen, kw_only=kw)
            c.__module__ = __name__
        else:
            fl = {}
            for name, t, d in s["fields"]:
                h = hint_in(t, classes, i)
                o = {"type": h, "metadata": {"omegaconf_ignore": True} if name in s.get("ignore", ()) else None, "init": name not in s.get("noinit", ())}
                fl[name] = attr.ib(**o) if d == REQ else _default(d, classes, lambda v: attr.ib(default=v, **o), lambda g: attr.ib(factory=g, **o))
            c = attr.make_class(f"C{i}", fl, bases=base or (object,), frozen=frozen, kw_only=kw)
            c.__module__ = __name__
        setattr(mod, f"C{i}", c)
        if any(isinstance(hint_in(t, classes, i), str) or "C%d" % i in repr(hint_in(t, classes, i)) for _, t, _ in s["fields"]) and s["kind"] == "attr":
            attr.resolve_types(c, vars(mod), {})
        classes.append(c)
    return classes


def _default(d, classes, plain_, factory):
    if isinstance(d, (dict, list)) or is_inst(d):
        return factory(lambda: inst_value(d, classes))
    return plain_(inst_value(d, classes))


def inst_value(v, classes, specs=None):
    """Plain data -> Python value, with instances of the classes."""
    if is_inst(v):
        c = classes[v[1]]
        kw = {k: inst_value(x, classes) for k, x in v[2].items()}
        for name, has in _init_fields(c):
            if name not in kw and not has:
                kw[name] = MISS
        if not dataclasses.is_dataclass(c):
            names = {a.name: a.alias for a in attr.fields(c)}
            kw = {names[k]: x for k, x in kw.items()}
        return c(**kw)
    if is_cls(v):
        return classes[v[1]]
    if is_obj(v):
        return OBJS[v[1]]()
    if isinstance(v, dict):
        return {k: inst_value(x, classes) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [inst_value(x, classes) for x in v]
    return v


def _init_fields(c):
    if dataclasses.is_dataclass(c):
        return [(f.name, f.default is not dataclasses.MISSING or f.default_factory is not dataclasses.MISSING) for f in dataclasses.fields(c)]
    return [(a.name, a.default is not attr.NOTHING) for a in attr.fields(c)]


# ---------------------------------------------------------------- reference contents
def inst(specs, i, ov=None):
    """Reference contents of a config made of an instance of class i (or the class itself, ov None)."""
    ov = ov or {}
    f = {}
    for name, t, d in fields_of(specs, i):
        v = ov[name] if name in ov else d
        f[name] = MISS if v == REQ else typed(specs, t, v)
    return SNode(i, f)


def typed(specs, t, v):
    """Reference contents of a place of declared type t when v is assigned to it (Bad: rejected)."""
    o, t = strip(t)
    if is_inst(v) or is_cls(v):
        if not (t == "any" or t[0] == "cls" and is_sub(specs, v[1], t[1])):
            raise Bad
        return inst(specs, v[1], v[2] if is_inst(v) else None)
    if v is None:
        if o:
            return None
        raise Bad
    if is_special(v):
        return v
    if t == "any":
        if isinstance(v, dict):
            return {k: typed(specs, "any", x) for k, x in v.items()}
        if isinstance(v, (list, tuple)) and not is_obj(v):
            return [typed(specs, "any", x) for x in v]
        return conv_any(v)
    if isinstance(t, str) or t[0] == "union":
        return conv(t, v)
    if t[0] == "dict":
        if not isinstance(v, dict):
            raise Bad
        return {conv_key(t[1], k): typed(specs, t[2], x) for k, x in v.items()}
    if t[0] == "list":
        if not isinstance(v, (list, tuple)) or is_obj(v):
            raise Bad
        return [typed(specs, t[1], x) for x in v]
    raise Bad  # plain data at a class


def flat(v):
    """Reference contents -> plain data."""
    if isinstance(v, SNode):
        return {k: flat(x) for k, x in v.f.items()}
    if isinstance(v, dict):
        return {k: flat(x) for k, x in v.items()}
    if isinstance(v, list):
        return [flat(x) for x in v]
    return v


# ---------------------------------------------------------------- type conformance of a real config
def conforms(specs, classes, t, node, path="", done=False):
    """None, or what is wrong with the contents of a node held at a place of declared type t."""
    from omegaconf import DictConfig, ListConfig
    from omegaconf.base import UnionNode
    o, t = strip(t)
    if isinstance(node, UnionNode) and not isinstance(node._value(), (str, type(None))):
        node = node._value()
    if node._is_none():
        return None if o else f"{path}: None at a place of type {t}"
    if node._is_missing() or node._is_interpolation():
        return None
    if t[0] != "dict" and isinstance(node, DictConfig) and isinstance(node._metadata.object_type, type) and node._metadata.object_type in classes:
        i = classes.index(node._metadata.object_type)
        if not (t == "any" or t[0] == "cls" and is_sub(specs, i, t[1])):
            return f"{path}: an instance of C{i} at a place of type {t}"
        ft = {n: ty for n, ty, _ in fields_of(specs, i)}
        for k in node.keys():
            if k not in ft and t != "any":
                return f"{path}: C{i} holds the unknown key {k!r}"
            e = conforms(specs, classes, ft.get(k, "any"), node._get_node(k), f"{path}.{k}")
            if e:
                return e
        return None
    if t == "any":
        if isinstance(node, (DictConfig, ListConfig)):
            for k in (node.keys() if isinstance(node, DictConfig) else range(len(node))):
                e = conforms(specs, classes, "any", node._get_node(k), f"{path}.{k}")
                if e:
                    return e
        return None
    if isinstance(t, str) or t[0] == "union":
        if isinstance(node, (DictConfig, ListConfig)):
            return f"{path}: a container at a place of type {t}"
        v = node._value()
        if any(exact_simple(x, v) for x in ([t] if isinstance(t, str) else t[1])):
            return None
        return f"{path}: {v!r} ({type(v).__name__}) at a place of type {t}"
    if t[0] == "cls":
        return f"{path}: a {type(node).__name__} of type {getattr(node._metadata, 'object_type', None)} holding {show(node)} at a place of type C{t[1]}"
    if t[0] == "dict":
        if not isinstance(node, DictConfig):
            return f"{path}: {type(node).__name__} at a place of type {t}"
        for k in node.keys():
            if t[1] != "any" and not isinstance(k, SIMPLE[t[1]]):
                return f"{path}: key {k!r} in {t}"
            e = conforms(specs, classes, t[2], node._get_node(k), f"{path}.{k!r}")
            if e:
                return e
        return None
    if not isinstance(node, ListConfig):
        return f"{path}: {type(node).__name__} at a place of type {t}"
    for k in range(len(node)):
        e = conforms(specs, classes, t[1], node._get_node(k), f"{path}[{k}]")
        if e:
            return e
    return None


def places(specs, classes, t, node, path=()):
    """(path, declared type, node) of every place of a config, the root first."""
    from omegaconf import DictConfig, ListConfig
    yield path, t, node
    if not isinstance(node, (DictConfig, ListConfig)) or special(node):
        return
    _, t = strip(t)
    ot = node._metadata.object_type if isinstance(node, DictConfig) and t[0] != "dict" else None
    if isinstance(ot, type) and ot in classes:
        ft = {n: ty for n, ty, _ in fields_of(specs, classes.index(ot))}
        for k in list(node.keys()):
            yield from places(specs, classes, ft.get(k, "any"), node._get_node(k), path + (k,))
    else:
        et = t[2] if t[0] == "dict" else t[1] if t[0] == "list" else "any"
        for k in (list(node.keys()) if isinstance(node, DictConfig) else range(len(node))):
            yield from places(specs, classes, et, node._get_node(k), path + (k,))


# ---------------------------------------------------------------- generation of schemas
FIELDS = ["a", "b", "c", "x", "y"]


@st.composite
def schemas(draw, max_cls=3, frozen=False, req=True, interps=True, max_fields=4, attr_too=True, selfref=True, kinds=None):
    n = draw(st.integers(1, max_cls))
    specs = []
    for i in range(n):
        kind = kinds or (draw(st.sampled_from(["dc", "dc", "attr"])) if attr_too else "dc")
        bases = [j for j, s in enumerate(specs) if s["kind"] == kind]
        base = draw(st.sampled_from([None, None] + bases)) if bases else None
        fz = specs[base]["frozen"] if base is not None else frozen and draw(st.integers(0, 4)) == 0
        s = {"kind": kind, "base": base, "frozen": fz, "kw": True, "fields": []}
        specs.append(s)
        names = draw(st.lists(st.sampled_from(FIELDS), min_size=0 if base is not None else 1, max_size=max_fields, unique=True))
        inherited = {f[0]: f for f in fields_of(specs, base)} if base is not None else {}
        for name in names:
            if name in inherited:  # an override keeps the type
                t = inherited[name][1]
            elif selfref and draw(st.integers(0, 14)) == 0:
                t = ("opt", ("cls", i))
            else:
                t = draw(types(i, 2))
            d = draw(default(specs, t, i, req))
            s["fields"].append([name, t, d])
    return specs


def default(specs, t, i, req=True):
    alts = [data(specs, t, i, exact=True)] * 3
    if req:
        alts.append(st.just(REQ))
    return one_of(*alts)


def data(specs, t, i=None, exact=False, missing=True, depth=2):
    """Data legal for a place of type t by assignment (class references: instances of classes below i)."""
    o, b = strip(t)
    i = len(specs) if i is None else i
    if b == "any":
        alts = [trees(leaf=scalars, keys=st.sampled_from(IDS), max_leaves=3, width=2)] * 2
        if i and depth > 0:
            alts.append(instances(specs, i, depth=depth - 1))
    elif isinstance(b, str) or b[0] == "union":
        return good(t, exact, missing)
    elif b[0] == "dict":
        alts = [st.dictionaries(key_of(b[1]), data(specs, b[2], i, exact, missing, depth - 1), max_size=2 if depth > 0 else 1)]
    elif b[0] == "list":
        alts = [st.lists(data(specs, b[1], i, exact, missing, depth - 1), max_size=2 if depth > 0 else 1)]
    else:
        c = [j for j in subs(specs, b[1]) if j < i]
        alts = [instances(specs, i, c, depth - 1)] if c else []
        if not alts or depth < 0:
            alts = [st.none() if o else st.just(MISS)]
    alts = alts * 2
    if o:
        alts.append(st.none())
    if missing:
        alts.append(st.just(MISS))
    return one_of(*alts)


@st.composite
def instances(draw, specs, i=None, among=None, depth=1, exact=True):
    """("I", class, {field: data})"""
    i = len(specs) if i is None else i
    j = draw(st.sampled_from(list(range(i)) if among is None else among))
    ov = {}
    if depth >= 0:
        for name, t, d in fields_of(specs, j):
            if draw(st.integers(0, 2)) == 0:
                ov[name] = draw(data(specs, t, i, exact=exact, depth=depth))
    return ("I", j, ov)


@st.composite
def broken(draw, specs, base):
    """Data of base in which one item at some depth (of an instance, dict or list) is replaced by an arbitrary value."""
    v = draw(base)
    spots = []

    def walk(x, path):
        items = x[2].items() if is_inst(x) else x.items() if isinstance(x, dict) else enumerate(x) if isinstance(x, list) else ()
        if is_inst(x):
            spots.extend(path + (f[0],) for f in fields_of(specs, x[1]) if f[0] not in x[2])
        for k, y in items:
            spots.append(path + (k,))
            walk(y, path + (k,))
    walk(v, ())
    if not spots:
        return v
    at = spots[draw(st.integers(0, 20)) % len(spots)]
    w = draw(wild_values)

    def put(x, path):
        if not path:
            return w
        if is_inst(x):
            return ("I", x[1], put({**x[2], path[0]: x[2].get(path[0])}, path))
        if isinstance(x, dict):
            return {k: put(y, path[1:]) if k == path[0] and type(k) is type(path[0]) else y for k, y in x.items()}
        return [put(y, path[1:]) if k == path[0] else y for k, y in enumerate(x)]
    return put(v, at)


def subtypes(specs):
    """Every type at which something can be held, in a stable order."""
    out = []

    def add(t):
        if t not in out:
            out.append(t)
        _, b = strip(t)
        if isinstance(b, tuple) and b[0] in ("dict", "list"):
            add(b[-1])
    for s in specs:
        for f in s["fields"]:
            add(f[1])
    return out


# ---------------------------------------------------------------- reference typed merge
def merged(specs, t, dest, v, mode="REPLACE"):
    """Reference contents of a place of declared type t holding dest after merging plain data v over it."""
    o, b = strip(t)
    if isinstance(v, str) and v == MISS:
        return dest
    if isinstance(dest, str) and "${" in dest and (isinstance(v, (dict, list)) or is_inst(v) or is_cls(v)):
        raise Skip  # merges into a copy of the target
    if isinstance(v, dict):
        if isinstance(dest, SNode):
            return merge_fields(specs, dest, v, mode)
        if isinstance(dest, dict):
            return merge_dict(specs, b, dest, v, mode)
        if isinstance(dest, list):
            raise Bad
        if b == "any":
            return typed(specs, "any", v)
        if isinstance(b, tuple) and b[0] == "cls":
            return merge_fields(specs, inst(specs, b[1]), v, mode)
        if isinstance(b, tuple) and b[0] == "dict":
            return merge_dict(specs, b, {}, v, mode)
        raise Bad
    if isinstance(v, (list, tuple)) and not (is_obj(v) or is_inst(v) or is_cls(v)):
        if isinstance(dest, (dict, SNode)):
            raise Bad
        if b == "any":
            et = "any"
            if not isinstance(dest, list):
                return typed(specs, "any", v)
        elif isinstance(b, tuple) and b[0] == "list":
            et = b[1]
        else:
            raise Bad
        new = [new_item(specs, et, x, "REPLACE") for x in v]
        if mode == "REPLACE" or mode == "EXTEND" and not isinstance(dest, list):
            return new
        if mode == "EXTEND":
            return dest + new
        raise Skip
    if is_inst(v) or is_cls(v):
        s = inst(specs, v[1], v[2] if is_inst(v) else None)
        if isinstance(dest, SNode):
            if not is_sub(specs, s.i, dest.i):
                raise Bad
            return merge_inst(specs, dest, s, mode)
        if isinstance(b, tuple) and b[0] == "cls":
            if not is_sub(specs, s.i, b[1]):
                raise Bad
            return merge_inst(specs, inst(specs, b[1]), s, mode)
        if isinstance(b, tuple) and b[0] == "dict" or isinstance(dest, dict):
            raise Skip  # a structured config merged into a dict
        if b == "any" and not isinstance(dest, list):
            return s
        raise Bad
    if isinstance(dest, SNode) and isinstance(v, str) and "${" in v:
        raise Skip  # judged by what it resolves to in the source
    if b == "any" and isinstance(dest, SNode) and v is not None:
        raise Skip  # replacing a structured config held in an untyped place by a value
    return typed(specs, t, v)


def new_item(specs, et, x, mode="REPLACE"):
    """A new list item or dict entry created by merging."""
    _, b = strip(et)
    if isinstance(x, dict) and isinstance(b, tuple) and b[0] == "cls":
        return merge_fields(specs, inst(specs, b[1]), x, mode)
    if isinstance(b, tuple) and (isinstance(x, dict) and b[0] == "dict" or isinstance(x, list) and b[0] == "list"):
        return merged(specs, et, {} if b[0] == "dict" else [], x, mode)
    if (is_inst(x) or is_cls(x)) and isinstance(b, tuple) and b[0] == "cls":
        return merged(specs, et, None, x, mode)
    if (is_inst(x) or is_cls(x)) and isinstance(b, tuple) and b[0] == "dict":
        raise Skip
    return typed(specs, et, x)


def merge_fields(specs, dest, v, mode):
    ft = {n: t for n, t, _ in fields_of(specs, dest.i)}
    out = dict(dest.f)
    for k, x in v.items():
        if k not in ft:
            raise Bad
        out[k] = merged(specs, ft[k], out[k], x, mode)
    return SNode(dest.i, out)


def merge_inst(specs, dest, s, mode):
    out = dict(dest.f)
    ft = {n: t for n, t, _ in fields_of(specs, s.i)}
    for k, x in s.f.items():
        if k not in out:
            out[k] = x
        else:
            out[k] = merged_node(specs, ft[k], out[k], x, mode)
    return SNode(s.i, out)


def merged_node(specs, t, d, x, mode):
    """Merging contents that already are typed."""
    if isinstance(x, str) and x == MISS:
        return d
    if isinstance(d, str) and "${" in d and isinstance(x, (SNode, dict, list)):
        raise Skip
    _, b = strip(t)
    if isinstance(x, SNode):
        if isinstance(d, SNode):
            if not is_sub(specs, x.i, d.i):
                raise Bad
            return merge_inst(specs, d, x, mode)
        if isinstance(d, (dict, list)):
            raise Skip
        if isinstance(b, tuple) and b[0] == "cls":
            return merge_inst(specs, inst(specs, b[1]), x, mode)
        return x
    if isinstance(x, dict):
        if isinstance(d, dict):
            out = dict(d)
            for k, y in x.items():
                if k not in out and y == MISS:
                    out[k] = y
                elif k in out:
                    out[k] = merged_node(specs, b[2] if isinstance(b, tuple) and b[0] == "dict" else "any", out[k], y, mode)
                else:
                    raise_if_cls(b, y)
                    out[k] = y
            return out
        if isinstance(d, (SNode, list)):
            raise Skip
        return x
    if isinstance(x, list):
        if isinstance(d, (SNode, dict)):
            raise Skip
        raise_if_cls(b, x)
        if mode == "REPLACE" or mode == "EXTEND" and not isinstance(d, list):
            return x
        if mode == "EXTEND":
            return d + x
        raise Skip
    if isinstance(d, SNode) and x is not None and not is_special(x):
        raise Skip
    return x


def raise_if_cls(b, x):
    """New entries of a class-typed container are merged over the defaults of the class."""
    if isinstance(b, tuple) and b[0] in ("dict", "list") and has_cls(b[-1]):
        raise Skip


def has_cls(t):
    _, b = strip(t)
    return isinstance(b, tuple) and (b[0] == "cls" or b[0] in ("dict", "list") and has_cls(b[-1]))


def merge_dict(specs, b, dest, v, mode):
    kt, et = (b[1], b[2]) if isinstance(b, tuple) and b[0] == "dict" else ("any", "any")
    out = dict(dest)
    for k, x in v.items():
        if is_obj(k):
            raise Bad
        k = conv_key(kt, k)
        if k in out:
            out[k] = merged(specs, et, out[k], x, mode)
        elif isinstance(x, str) and x == MISS:
            out[k] = x
        else:
            out[k] = new_item(specs, et, x, mode)
    return out


def same_types(specs, classes, ref, node, path=""):
    """The classes of the structured nodes of a config are those of the reference contents."""
    from omegaconf import DictConfig, ListConfig
    if isinstance(ref, SNode):
        if not isinstance(node, DictConfig) or node._metadata.object_type is not classes[ref.i]:
            return f"{path}: {getattr(node._metadata, 'object_type', type(node))} instead of C{ref.i}"
        items = ref.f.items()
    elif isinstance(ref, dict):
        items = ref.items()
    elif isinstance(ref, list):
        items = enumerate(ref)
    else:
        return None
    for k, x in items:
        e = same_types(specs, classes, x, node._get_node(k), f"{path}.{k}")
        if e:
            return e
    return None


GOOD = {"int": ("7", 7), "float": (7, 7.0), "bool": ("on", True), "str": (7, "7"), "bytes": (b"x", b"x"), "Path": ("x", Path("x")),
        "Color": ("RED", Color.RED), "Shape": ("SQUARE", Shape.SQUARE)}


def parent_of(cfg, path):
    for x in path[:-1]:
        cfg = cfg._get_node(x)
    return cfg


BAD_KEY = {"str": 5, "int": "k", "float": "k", "bool": "k", "bytes": "k", "Color": "NOPE", "Shape": "NOPE"}
GOOD_KEY = {"str": "fresh", "int": 77, "float": 7.75, "bool": True, "bytes": b"fresh", "Color": Color.BLUE, "Shape": Shape.CIRCLE, "any": "fresh"}


def bad_for(t):
    """A value illegal for type t, or None when everything is legal."""
    _, b = strip(t)
    if b == "any":
        return None
    if isinstance(b, str):
        return b"no" if b != "bytes" else "no"
    if b[0] == "union":
        return [1]
    return {"dict": [1], "list": {"k": 1}, "cls": 5}[b[0]]


def enforced(specs, classes, rt, cfg):
    """None, or where the declared type of a place is not enforced any more.  Changes the config."""
    from omegaconf.errors import KeyValidationError, ValidationError
    for p, t, n in list(places(specs, classes, rt, cfg)):
        o, b = strip(t)
        if b == "any":
            continue
        if p:
            par = parent_of(cfg, p)
            bad = bad_for(t)
            r = attempt(lambda: par.__setitem__(p[-1], bad))
            if r[0] == "ok":
                return f"{p} of type {t} accepted {bad!r}"
            if not isinstance(r[1], ValidationError):
                return f"assigning {bad!r} to {p} of type {t} raised {type(r[1]).__name__}: {r[1]}"
        if isinstance(b, tuple) and b[0] == "list" and not special(n):
            bad = bad_for(b[1])
            if bad is not None:
                for how, f in (("append", lambda: n.append(bad)), ("insert", lambda: n.insert(0, bad)), ("extend", lambda: n.extend([bad]))):
                    r = attempt(f)
                    if r[0] == "ok" or not isinstance(r[1], ValidationError):
                        return f"{how} of {bad!r} to {p} of type {t}: {show(r)}"
        elif isinstance(b, tuple) and b[0] == "dict" and not special(n):
            bad = bad_for(b[2])
            if bad is not None:
                r = attempt(lambda: n.__setitem__(GOOD_KEY[b[1]], bad))
                if r[0] == "ok" or not isinstance(r[1], ValidationError):
                    return f"{p} of type {t} at {GOOD_KEY[b[1]]!r} given {bad!r}: {show(r)}"
            if b[1] != "any":
                r = attempt(lambda: n.__setitem__(BAD_KEY[b[1]], None))
                if r[0] == "ok" or not isinstance(r[1], KeyValidationError):
                    return f"{p} of type {t} given the key {BAD_KEY[b[1]]!r}: {show(r)}"
        elif isinstance(b, tuple) and b[0] == "cls" and p:
            for v in ({}, *(c for i, c in enumerate(classes) if not is_sub(specs, i, b[1]))):
                r = attempt(lambda: par.__setitem__(p[-1], v))
                if r[0] == "ok" or not isinstance(r[1], ValidationError):
                    return f"{p} of type {t} given {v!r}: {show(r)}"
    for p, t, n in list(places(specs, classes, rt, cfg)):
        o, b = strip(t)
        if not p or not isinstance(b, str) or b == "any":
            continue
        par = parent_of(cfg, p)
        par[p[-1]] = GOOD[b][0]
        if canon(par[p[-1]]) != canon(GOOD[b][1]):
            return f"{p} of type {t} stored {GOOD[b][0]!r} as {par[p[-1]]!r}"
        r = attempt(lambda: par.__setitem__(p[-1], None))
        if (r[0] == "ok") != o:
            return f"{p} of type {t} {'rejected' if o else 'accepted'} None"
    return None
