"""C30: the config of a class depends on what the class declares, not on how its source is written."""
import copy, dataclasses, itertools, pickle, sys, types, typing
import attr
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, OmegaConf
from ..core import Leg, fail
from ..gen import *
from .. import schema as S
from .c26 import obj_data

ASSUMPTIONS = ["the spellings are those of Python 3.12: typing and builtin generics, `|` unions, quoted annotations, `from __future__ import annotations`"]
MODULE = "vf_spelled"

# annotations the classes may carry besides their fields: {0} is the class name
NOISE_DC = ["_z1: typing.ClassVar[int] = 5", "_z2: typing.ClassVar[typing.Dict[str, int]] = {{}}", "def _z3(self):\n        return 1", "@property\n    def _z4(self):\n        return self.a",
            "@staticmethod\n    def _z5(x):\n        return x", "_Z6 = 3", "class Inner:\n        q: int = 1", "'''A docstring.'''",
            "def __getitem__(self, k):\n        return 7", "def __len__(self):\n        return 0", "def __iter__(self):\n        return iter(())", "def __bool__(self):\n        return False",
            "def keys(self):\n        return []", "@classmethod\n    def _z7(cls):\n        return cls", "_iv: dataclasses.InitVar[int] = 3\n    def __post_init__(self, _iv):\n        self.__dict__['_seen'] = _iv",
            "def __eq__(self, other):\n        return True", "def __contains__(self, k):\n        return False", "def __getattr__(self, k):\n        raise AttributeError(k)"]
NOISE_ATTR = [n for n in NOISE_DC if "InitVar" not in n]


class Pen:
    """Choices of the writer, 0 (the plainest) when they run out."""
    def __init__(self, picks):
        self.p = list(picks)
        self.used = set()

    def pick(self, what, *alts):
        n = self.p.pop(0) % len(alts) if self.p else 0
        if n:
            self.used.add(what)
        return alts[n]


def simple_name(t):
    return {"Path": "pathlib.Path"}.get(t, t)


def ann(t, pen, me, future, top=True):
    """Annotation text for type t; in quotes where `me` (the class being written) is meant."""
    if isinstance(t, str):
        return pen.pick("any", "typing.Any", "Any") if t == "any" else pen.pick("simple", simple_name(t), simple_name(t), '"%s"' % simple_name(t) if not future else simple_name(t)) if top else simple_name(t)
    if t[0] == "cls":
        n = f"C{t[1]}"
        return pen.pick("quoted", n, '"%s"' % n) if t[1] != me else '"%s"' % n
    if t[0] == "opt":
        x = ann(t[1], pen, me, future, None if top else False)
        return union([x, "None"], pen, "opt", future)
    if t[0] == "union":
        return union([simple_name(x) for x in t[1]], pen, "union", future)
    if t[0] == "dict":
        k, v = ann(t[1], pen, me, future, False), ann(t[2], pen, me, future, False)
        full = [f"typing.Dict[{k}, {v}]", f"dict[{k}, {v}]"]
        return pen.pick("dict", *full, *(["dict", "typing.Dict"] if t[1] == "any" and t[2] == "any" else full))
    v = ann(t[1], pen, me, future, False)
    full = [f"typing.List[{v}]", f"list[{v}]"]
    return pen.pick("list", *full, *(["list", "typing.List"] if t[1] == "any" else full), *([f"typing.Tuple[{v}, ...]", f"tuple[{v}, ...]"] if top is not False else full))


def union(parts, pen, what, future):
    """Optional[..], Union[..] or `|` of annotation texts"""
    alts = [f"typing.Union[{', '.join(parts)}]"]
    if what == "opt":
        alts.insert(0, f"typing.Optional[{parts[0]}]")
        alts.append(f"typing.Union[None, {parts[0]}]")
    # "C0" | None does not evaluate; as a whole string it does
    if not any('"' in p for p in parts):
        alts += [" | ".join(parts)]
        if what == "opt":
            alts.append(f"None | {parts[0]}")
    return pen.pick(what, *alts)


def requote(a):
    """An annotation without inner quotes, in quotes as a whole"""
    return '"%s"' % a.replace('"', "")


def source(specs, pen):
    future = pen.pick("future", False, True)
    out = ["from __future__ import annotations"] if future else []
    out += ["import typing, dataclasses, pathlib, attr, attrs", "from typing import Any", "from vf.gen import Color, Shape, Path", ""]
    for i, s in enumerate(specs):
        base = f"(C{s['base']})" if s["base"] is not None else pen.pick("base", "", "(object)", "()")
        body, mut = [], False
        noise = NOISE_DC if s["kind"] == "dc" else NOISE_ATTR
        for _ in range(pen.pick("noise", 0, 0, 1, 1, 2)):
            n = noise[pen.pick("which", *range(len(noise)))].format(f"C{i}")
            if not ("InitVar" in n and any("InitVar" in b for j in range(i) for b in out)) and n not in body:
                body.append(n)
        auto = s["kind"] == "dc" or pen.pick("auto", False, True)
        for name, t, d in s["fields"]:
            a = ann(t, pen, i, future)
            if not future and '"' not in a or a.count('"') > 2:
                a = pen.pick("whole", a, requote(a))
            if future:
                a = a.replace('"', "")
            body.append(f"{name}: {a}{field_dc(i, name, d, pen, s['base'] is not None)}" if s["kind"] == "dc" else field_attr(i, name, a, d, pen, auto))
        fz, kw = s["frozen"], "kw_only=True"
        if s["kind"] == "dc":
            deco = "dataclasses.dataclass(%s)" % ", ".join(([kw] if True else []) + (["frozen=True"] if fz else []) + pen.pick("dcargs", [], ["eq=False"], ["order=True"] if not any("__eq__" in b for b in body) else [], ["unsafe_hash=True"] if False else [],
                                                                                                                             ["slots=True"] if s["base"] is None and not any("InitVar" in b or "_z4" in b for b in body) and not any(x["base"] == i for x in specs) else []))
        else:
            args = [kw] + (["frozen=True"] if fz else [])
            if auto:
                deco = pen.pick("attrdeco", "attr.s(%s)" % ", ".join(args + ["auto_attribs=True"]), "attr.dataclass(%s)" % ", ".join(args), "attr.s(%s)" % ", ".join(args + ["auto_attribs=True", "eq=False"]),
                                *(["attr.define(%s)" % ", ".join(args + ["slots=False"]), "attrs.mutable(%s)" % ", ".join(args + ["slots=False"])] if not fz else ["attr.frozen(kw_only=True, slots=False)"]))
            else:
                deco = pen.pick("attrdeco", "attr.s(%s)" % ", ".join(args), "attr.attrs(%s)" % ", ".join(args))
        out += [f"@{deco}", f"class C{i}{base}:"] + ["    " + b for b in body] + (["    pass"] if not body else []) + [""]
    return "\n".join(out)


def mutable(d):
    return isinstance(d, (dict, list)) or S.is_inst(d)


def field_dc(i, name, d, pen, over):
    v = f"_D({i}, '{name}')"
    if d == S.REQ:
        return pen.pick("req", " = dataclasses.field()" if over else "", " = dataclasses.field()", " = dataclasses.field(compare=False)", " = dataclasses.field(metadata={'help': 'x'})")
    if mutable(d):
        return pen.pick("factory", f" = dataclasses.field(default_factory=lambda: {v})", f" = dataclasses.field(default_factory=lambda: {v}, metadata={{'omegaconf_ignore': False}})", f" = dataclasses.field(default_factory=lambda: {v}, compare=False)")
    return pen.pick("default", f" = {v}", f" = dataclasses.field(default={v})", f" = dataclasses.field(default_factory=lambda: {v})", f" = dataclasses.field(default={v}, hash=False, metadata={{'help': 'x'}})")


def field_attr(i, name, a, d, pen, auto):
    v = f"_D({i}, '{name}')"
    if d == S.REQ:
        args = pen.pick("req", "", "eq=False", "metadata={'help': 'x'}")
    elif mutable(d):
        args = pen.pick("factory", f"factory=lambda: {v}", f"default=attr.Factory(lambda: {v})", f"factory=lambda: {v}, eq=False")
    else:
        args = pen.pick("default", f"default={v}", f"factory=lambda: {v}", f"default={v}, metadata={{'help': 'x'}}")
    if pen.pick("alias", False, False, False, True):
        args = ", ".join(x for x in [args, f"alias='init_{name}'"] if x)
    if auto:
        if d == S.REQ and not args:
            return f"{name}: {a}"
        if d != S.REQ and args == f"default={v}" and pen.pick("plain", True, False):
            return f"{name}: {a} = {v}"
        return f"{name}: {a} = {pen.pick('attrib', 'attr.ib', 'attrs.field', 'attr.attrib')}({args})"
    return f"{name}: {a} = attr.ib({args})"


def write(specs, picks):
    """(classes, source, spellings used)"""
    pen = Pen(picks)
    text = source(specs, pen)
    m = types.ModuleType(MODULE)
    classes = []

    def default(i, name):
        d = next(f[2] for f in specs[i]["fields"] if f[0] == name)
        return S.inst_value(d, [getattr(m, f"C{j}") for j in range(len(specs)) if hasattr(m, f"C{j}")])
    m._D = default
    sys.modules[MODULE] = m
    exec(compile(text, MODULE, "exec"), vars(m))
    return [getattr(m, f"C{i}") for i in range(len(specs))], text, pen.used


def tnorm(t):
    """A declared type of the code under test as data, whatever its spelling."""
    if t in (dict, typing.Dict):
        return ("dict", "Any", "Any")
    if t in (list, typing.List, tuple, typing.Tuple):
        return ("list", "Any")
    if t is typing.Any:
        return "Any"
    o, a = typing.get_origin(t), typing.get_args(t)
    if o is dict:
        return ("dict",) + tuple(tnorm(x) for x in a)
    if o is list:
        return ("list", tnorm(a[0]))
    if o is tuple:
        return ("list", tnorm(a[0]))
    if o in (typing.Union, types.UnionType):
        return ("union", sorted(repr(tnorm(x)) for x in a))
    if isinstance(t, typing.ForwardRef):
        return t.__forward_arg__
    return t.__name__ if isinstance(t, type) else str(t)


def tname(t):
    """object types: a class by name"""
    return t.__name__ if isinstance(t, type) else None if t is None else str(t)


def types_of(cfg):
    return [(p, type(n).__name__, tnorm(n._metadata.ref_type), n._metadata.optional, tname(getattr(n._metadata, "object_type", None)),
             tnorm(getattr(n._metadata, "key_type", typing.Any)), tnorm(getattr(n._metadata, "element_type", typing.Any)), dict(n._metadata.flags or {})) for p, n in nodes_of(cfg)]


def play(specs, classes, root, how, ops):
    src = classes[root[1]] if how.startswith("class") else S.inst_value(root, classes)
    log = []

    def make():
        if how == "class-merge":
            return OmegaConf.merge(OmegaConf.structured(src), {})
        if how.endswith("nested"):
            return OmegaConf.create({"n": [src]}).n[0]
        return OmegaConf.structured(src)
    r = attempt(make)
    if r[0] == "exc":
        return [("exc", type(r[1]).__name__)]
    cfg = r[1]
    log.append(canon(cfg))
    for kind, bi, key, v in ops:
        boxes = [n for _, n in nodes_of(cfg) if isinstance(n, (DictConfig, ListConfig)) and not special(n)]
        n = boxes[bi % len(boxes)]
        val = S.inst_value(v, classes)

        def op():
            if kind == "set":
                n[key] = val
            elif kind == "merge":
                n.merge_with({key: val} if isinstance(n, DictConfig) else [val])
            elif kind == "append":
                n.append(val) if isinstance(n, ListConfig) else n.__setitem__(key, val)
            elif kind == "del":
                del n[key]
            elif kind == "pop":
                n.pop(key)
            elif kind == "update":
                OmegaConf.update(n, str(key), val)
            elif kind == "mergeobj":
                return OmegaConf.merge(n, val)
        r = attempt(op)
        log.append((r[0], type(r[1]).__name__ if r[0] == "exc" else canon(r[1]) if kind == "mergeobj" else None, canon(cfg)))
    log.append(types_of(cfg))
    for f in (copy.deepcopy, lambda c: pickle.loads(pickle.dumps(c))):
        r = attempt(lambda: f(cfg))
        log.append(types_of(r[1]) + [canon(r[1]), r[1] == cfg] if r[0] == "ok" else ("exc", type(r[1]).__name__))
    o = attempt(lambda: OmegaConf.to_object(cfg))
    log.append(("ok", obj_data(classes, o[1], specs)) if o[0] == "ok" else ("exc", type(o[1]).__name__))
    r = attempt(lambda: OmegaConf.to_yaml(cfg))
    log.append(r if r[0] == "ok" else r[0])
    return log


def renamed(x):
    """The classes' module in texts made of them"""
    if isinstance(x, str):
        return x.replace(MODULE + ".", "vf.schema.")
    if isinstance(x, (list, tuple)):
        return type(x)(renamed(y) for y in x)
    return x


@st.composite
def cases(draw):
    specs = draw(S.schemas(max_cls=3, frozen=True))
    root = draw(S.instances(specs))
    ops = draw(st.lists(st.tuples(st.sampled_from(["set", "set", "merge", "append", "del", "pop", "update", "mergeobj"]), st.integers(0, 12), st.sampled_from(["a", "b", "c", "x", "y", "zz", 0, 1]),
                                  one_of(S.wild_values, S.wild_values, S.instances(specs, depth=0), st.integers(0, len(specs) - 1).map(lambda i: ("C", i)))), max_size=6))
    return specs, root, draw(st.sampled_from(["class", "class", "class-merge", "class-nested", "instance", "instance", "instance-nested"])), ops, draw(st.lists(st.integers(0, 17), min_size=15, max_size=60))


def run(case, ctx):
    specs, root, how, ops, picks = case
    a = play(specs, S.realize(specs), root, how, ops)
    try:
        classes, text, used = write(specs, picks)
        b = play(specs, classes, root, how, ops)
    finally:
        sys.modules.pop(MODULE, None)
    b = renamed(b)
    if a != b:
        d = [(i, x, y) for i, (x, y) in enumerate(itertools.zip_longest(a, b)) if x != y][0]
        fail(f"{how} {root} {ops}: the same declarations written as\n{text}\ndiffer at step {d[0]}: {show(d[2], 900)}, plainly written {show(d[1], 900)}")
    if used:
        ctx.hit()
    for u in used:
        ctx.label(u)


LEGS = [
    Leg("spelling", cases, run, quick=3000,
        rule="generated class declarations written as Python source in a random spelling (generics, unions, quoting, decorators, defaults, methods and class variables) and plainly, driven through the same "
             "operations; non-trivial: the spelling differs from the plainest one"),
]
