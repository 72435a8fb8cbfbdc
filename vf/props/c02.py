"""C02: ListConfig against a Python list, over operation histories."""
import copy, dataclasses
from typing import Any, Dict, List, Optional, Union
from hypothesis import strategies as st
from omegaconf import ListConfig, OmegaConf
from omegaconf.errors import MissingMandatoryValue, OmegaConfBaseException
from ..core import Leg, fail
from ..gen import *

MISSING = "???"
item = one_of(st.integers(0, 4), st.integers(0, 4), st.sampled_from(["a", "b", "", None, True, False, 1.0, 2.5, b"x", Color.RED, Path("p")]),
                 st.just(MISSING), scalars, trees(leaf=scalars, keys=str_keys, max_leaves=4, width=3), st.lists(st.integers(0, 3), max_size=3))
sidx = one_of(st.none(), st.integers(-9, 9), st.sampled_from([-100, 100]))
step = one_of(st.none(), st.none(), st.integers(-4, 4), st.sampled_from([0, -1, 7]))
idx = one_of(st.integers(-7, 7), st.sampled_from([100, -100]))
def ops_of(item):
    return one_of(
        st.tuples(st.just("get"), idx), st.tuples(st.just("getslice"), sidx, sidx, step),
        st.tuples(st.just("set"), idx, item), st.tuples(st.just("setslice"), sidx, sidx, step, st.lists(item, max_size=4)),
        st.tuples(st.just("del"), idx), st.tuples(st.just("delslice"), sidx, sidx, step),
        st.tuples(st.just("append"), item), st.tuples(st.just("insert"), idx, item), st.tuples(st.just("extend"), st.lists(item, max_size=3)),
        st.tuples(st.just("extend_cfg"), st.lists(item, max_size=3)), st.tuples(st.just("extend_self")),
        st.tuples(st.just("iadd"), st.lists(item, max_size=3)), st.tuples(st.just("add"), st.lists(item, max_size=3)),
        st.tuples(st.just("radd"), st.lists(item, max_size=3)),
        st.tuples(st.just("pop"), idx), st.tuples(st.just("pop0")), st.tuples(st.just("remove"), item), st.tuples(st.just("clear")),
        st.tuples(st.just("sort"), st.booleans()), st.tuples(st.just("sortkey"), st.booleans()),
        st.tuples(st.just("index"), item), st.tuples(st.just("index2"), item, st.integers(0, 5), st.integers(0, 5)), st.tuples(st.just("count"), item), st.tuples(st.just("in"), item),
        st.tuples(st.just("iter")), st.tuples(st.just("bad"), st.sampled_from(["append", "insert", "set", "setslice", "extend"]), idx),
        st.tuples(st.just("reverse")), st.tuples(st.just("badkey"), st.sampled_from(["a", 1.0, None, (1,)])),
        st.tuples(st.just("swap"), idx, idx),
    )


case_st = st.tuples(st.lists(item, max_size=6), st.lists(ops_of(item), min_size=1, max_size=14))


class Unsupported:
    pass


def sortkey(x):
    return len(repr(x)) if not isinstance(x, (list, dict)) else len(x)


def has_missing(xs):
    return any(x == MISSING and isinstance(x, str) for x in xs)


def pure(v):
    """tuples -> lists"""
    if isinstance(v, (list, tuple)):
        return [pure(x) for x in v]
    if isinstance(v, dict):
        return {k: pure(x) for k, x in v.items()}
    return v


def deep_missing(v):
    if isinstance(v, dict):
        return any(deep_missing(x) for x in v.values())
    if isinstance(v, list):
        return any(deep_missing(x) for x in v)
    return isinstance(v, str) and v == MISSING


def same(a, b):
    return cs(a) == cs(b)


def positions(c, path=()):
    """every element's reported key is its position"""
    from omegaconf import DictConfig, ListConfig
    names = OmegaConf.missing_keys(c)
    return names


def missing_names(v, pre=""):
    out = set()
    items = v.items() if isinstance(v, dict) else enumerate(v)
    for k, x in items:
        if isinstance(v, dict):
            if not isinstance(k, str):
                return None
            name = f"{pre}.{k}" if pre else k
        else:
            name = f"{pre}[{k}]"
        if isinstance(x, str) and x == MISSING:
            out.add(name)
        elif isinstance(x, (dict, list)):
            out |= missing_names(x, name)
    return out


def simple_keys(v):
    if isinstance(v, dict):
        return all(k in IDS for k in v) and all(simple_keys(x) for x in v.values())
    if isinstance(v, list):
        return all(simple_keys(x) for x in v)
    return True


def eqv(a, b):
    return a == b


def run(case, ctx):
    init, prog = case
    drive(init, prog, ctx, lambda v: OmegaConf.create(v), copy.deepcopy, "")


# ------------------------------------------- typed lists, and items that are interpolations
@dataclasses.dataclass
class Typed:
    f_int: List[int] = dataclasses.field(default_factory=list)
    f_optstr: List[Optional[str]] = dataclasses.field(default_factory=list)
    f_color: List[Color] = dataclasses.field(default_factory=list)
    f_union: List[Union[int, str, bool, float]] = dataclasses.field(default_factory=list)
    f_optunion: List[Optional[Union[bool, int, bytes]]] = dataclasses.field(default_factory=list)
    f_dictint: List[Dict[str, int]] = dataclasses.field(default_factory=list)


small = st.integers(0, 4)
texts = st.sampled_from(["a", "b", "", "1", "true", "x y"])
KINDS = {
    "int": small,
    "optstr": one_of(texts, texts, st.none(), st.just(MISSING)),
    "color": st.sampled_from(list(Color)),
    "union": one_of(small, small, texts, st.booleans(), st.sampled_from([1.0, 0.5]), st.just(MISSING)),
    "optunion": one_of(small, st.booleans(), st.none(), st.sampled_from([b"", b"a"])),
    "dictint": st.dictionaries(st.sampled_from(["a", "b"]), small, max_size=2),
    "inter": one_of(small, small, small, texts, st.none()),
    "numbers": one_of(small, small, small, small),
}


def kind_case(k):
    item = KINDS[k]
    return st.tuples(st.just(k), st.lists(item, max_size=6), st.lists(ops_of(item), min_size=1, max_size=10))


kinds_st = one_of(*[kind_case(k) for k in KINDS])


def refer(v):
    """Small integers become interpolations of the same value."""
    if isinstance(v, list):
        return [refer(x) for x in v]
    if type(v) is int and 0 <= v <= 4:
        return "${v[%d]}" % v if v % 2 else "${v.%d}" % v
    return v


def run_kinds(case, ctx):
    k, init, prog = case
    ctx.label(k)
    if k == "optstr":
        prog = [op for op in prog if op[0] != "bad"]  # a string field accepts any object, as its text
    if k == "dictint":
        prog = [op for op in prog if op[0] != "swap"]  # leg "swap"
    if k in ("inter", "numbers"):
        root = OmegaConf.create({"v": [0, 1, 2, 3, 4], "l": []})
        conv = refer
    else:
        root = OmegaConf.structured(Typed)
        conv = copy.deepcopy

    def make(v):
        key = "l" if k in ("inter", "numbers") else "f_" + k
        root[key] = conv(v)
        return root[key]
    drive(init, prog, ctx, make, conv, "l" if k in ("inter", "numbers") else "f_" + k)


def drive(init, prog, ctx, make, conv, pre):
    init = pure(init)
    model = list(init)
    cfg = make(list(init))

    def plain(v):
        return OmegaConf.to_container(v, resolve=True) if OmegaConf.is_config(v) else v
    mutated = 0
    for op in prog:
        kind, args = op[0], [pure(a) for a in op[1:]]
        before = list(model)
        want = real = None
        miss = has_missing(model)
        # ---- expected
        skip_state = False
        if kind == "get":
            i, = args
            want = attempt(lambda: model[i])
            if want[0] == "ok" and want[1] == MISSING and isinstance(want[1], str):
                want = ("exc", MissingMandatoryValue())
            real = attempt(lambda: cfg[i])
        elif kind == "getslice":
            s = slice(*args)
            want = attempt(lambda: model[s])
            if want[0] == "ok" and has_missing(want[1]):
                want = ("exc", MissingMandatoryValue())
            real = attempt(lambda: cfg[s])
            if real[0] == "ok":
                real = ("ok", [plain(x) for x in real[1]])
        elif kind == "set":
            want = attempt(lambda: model.__setitem__(args[0], args[1]))
            real = attempt(lambda: cfg.__setitem__(args[0], conv(args[1])))
        elif kind == "setslice":
            s = slice(*args[:3])
            want = attempt(lambda: model.__setitem__(s, args[3]))
            real = attempt(lambda: cfg.__setitem__(s, conv(args[3])))
        elif kind == "del":
            want = attempt(lambda: model.__delitem__(args[0]))
            real = attempt(lambda: cfg.__delitem__(args[0]))
        elif kind == "delslice":
            s = slice(*args)
            want = attempt(lambda: model.__delitem__(s))
            real = attempt(lambda: cfg.__delitem__(s))
        elif kind in ("append",):
            want = attempt(lambda: model.append(args[0]))
            real = attempt(lambda: cfg.append(conv(args[0])))
        elif kind == "insert":
            want = attempt(lambda: model.insert(args[0], args[1]))
            real = attempt(lambda: cfg.insert(args[0], conv(args[1])))
        elif kind == "extend":
            want = attempt(lambda: model.extend(args[0]))
            real = attempt(lambda: cfg.extend(conv(args[0])))
        elif kind == "extend_cfg":
            o = OmegaConf.create(args[0])
            if has_missing(args[0]):
                want = ("exc", MissingMandatoryValue())
            else:
                want = attempt(lambda: model.extend(args[0]))
            real = attempt(lambda: cfg.extend(o))
        elif kind == "extend_self":
            if len(model) > 12:
                continue
            if miss:
                want = ("exc", MissingMandatoryValue())
            else:
                want = attempt(lambda: model.extend(list(model)))
            real = attempt(lambda: cfg.extend(cfg))
        elif kind == "iadd":
            def f():
                nonlocal cfg
                o = cfg
                cfg += conv(args[0])
                if cfg is not o:
                    fail("+= rebound to another object")
            want = attempt(lambda: model.extend(args[0]))
            real = attempt(f)
        elif kind in ("add", "radd"):
            if miss:
                want = ("exc", MissingMandatoryValue())
            else:
                want = ("ok", model + args[0] if kind == "add" else args[0] + model)
            real = attempt(lambda: (cfg + conv(args[0])) if kind == "add" else (conv(args[0]) + cfg))
            if real[0] == "ok":
                if not isinstance(real[1], ListConfig):
                    fail(f"{kind} gives {type(real[1]).__name__}")
        elif kind in ("pop", "pop0"):
            a = args
            want = attempt(lambda: model.pop(*a))
            if want[0] == "ok" and isinstance(want[1], str) and want[1] == MISSING:
                want = ("any", None)
            real = attempt(lambda: cfg.pop(*a))
        elif kind == "remove":
            # items before the match must be readable
            j = next((k for k, x in enumerate(model) if x == MISSING or eqv(x, args[0])), None)
            x = args[0]
            if isinstance(x, str) and x == MISSING or deep_missing(x) or deep_missing(model):
                continue
            want = attempt(lambda: model.remove(x))
            real = attempt(lambda: cfg.remove(x))
        elif kind == "clear":
            want = attempt(lambda: model.clear())
            real = attempt(lambda: cfg.clear())
        elif kind in ("sort", "sortkey"):
            if any(isinstance(x, (list, dict)) for x in model):
                continue
            kw = {"reverse": args[0]}
            if kind == "sortkey":
                kw["key"] = sortkey
            m2 = list(model)
            want = attempt(lambda: m2.sort(**kw))
            if want[0] == "ok":
                model = m2
            real = attempt(lambda: cfg.sort(**kw))
        elif kind == "reverse":
            want = attempt(lambda: model.reverse())
            real = attempt(lambda: cfg.reverse())
        elif kind in ("index", "index2", "count", "in"):
            x = args[0]
            if deep_missing(x) or deep_missing(model):
                continue
            if kind == "index":
                want, real = attempt(lambda: model.index(x)), attempt(lambda: cfg.index(x))
            elif kind == "index2":
                lo, hi = args[1], args[2]
                if hi > len(model):
                    continue
                want, real = attempt(lambda: model.index(x, lo, hi)), attempt(lambda: cfg.index(x, lo, hi))
            elif kind == "count":
                want, real = attempt(lambda: model.count(x)), attempt(lambda: cfg.count(x))
            else:
                want, real = attempt(lambda: x in model), attempt(lambda: x in cfg)
        elif kind == "iter":
            want = ("exc", MissingMandatoryValue()) if miss else ("ok", list(model))
            real = attempt(lambda: [plain(x) for x in cfg])
        elif kind == "swap":
            i, j = args
            def sw(t):
                t[i], t[j] = t[j], t[i]

            def swm():
                x = model[j]
                if isinstance(x, str) and x == MISSING:
                    raise MissingMandatoryValue()
                y = model[i]
                if isinstance(y, str) and y == MISSING:
                    raise MissingMandatoryValue()
                model[i], model[j] = x, y
            want = attempt(swm)
            real = attempt(lambda: sw(cfg))
        elif kind == "bad":
            i = args[1]
            m, o = args[0], Unsupported()
            want = ("exc", TypeError())
            real = attempt(lambda: {"append": lambda: cfg.append(o), "insert": lambda: cfg.insert(i, o), "set": lambda: cfg.__setitem__(i, o),
                                    "setslice": lambda: cfg.__setitem__(slice(i, None), [1, o]), "extend": lambda: cfg.extend([o, 1])}[m]())
        elif kind == "badkey":
            want = ("exc", TypeError())
            real = attempt(lambda: cfg[args[0]])
        # ---- compare
        tag = f"{show(op)} on {show(before)}"
        if want[0] == "exc":
            if real[0] != "exc":
                fail(f"{tag}: a list raises {type(want[1]).__name__}, the config returned {show(real[1])}")
            e = real[1]
            model = before  # failing operations change nothing
            if isinstance(e, AssertionError):
                fail(f"{tag}: AssertionError")
            if isinstance(want[1], MissingMandatoryValue) and not isinstance(e, MissingMandatoryValue):
                fail(f"{tag}: expected MissingMandatoryValue, got {type(e).__name__}: {e}")
            if isinstance(want[1], IndexError) and not isinstance(e, IndexError):
                fail(f"{tag}: expected an IndexError, got {type(e).__name__}: {e}")
            if isinstance(want[1], ValueError) and not isinstance(e, ValueError):
                fail(f"{tag}: expected a ValueError, got {type(e).__name__}: {e}")
            ctx.label("raises")
        else:
            if real[0] == "exc":
                fail(f"{tag}: a list succeeds, the config raised {type(real[1]).__name__}: {real[1]}")
            if want[0] == "ok" and not same(want[1], plain(real[1])):
                fail(f"{tag}: expected {show(want[1])}, got {show(real[1])}")
            if model != before:
                mutated += 1
        got = plain(cfg)
        if not same(got, model):
            fail(f"after {tag}: contents {show(got)} but a list has {show(model)}")
        if len(cfg) != len(model):
            fail(f"after {tag}: len {len(cfg)} != {len(model)}")
        if simple_keys(model):
            names = OmegaConf.missing_keys(cfg)
            if names != missing_names(model, pre):
                fail(f"after {tag}: missing positions reported as {sorted(names)} for {show(model)}")
        for i, x in enumerate(model):
            fk = attempt(lambda: cfg._get_full_key(i))
            if fk != ("ok", f"{pre}[{i}]"):
                fail(f"after {tag}: element {i} of {show(model)} reports full key {fk}")
            if isinstance(x, (dict, list)):
                fk = attempt(lambda: cfg[i]._get_full_key(None))
                if fk != ("ok", f"{pre}[{i}]"):
                    fail(f"after {tag}: container element {i} of {show(model)} reports full key {fk}")
        ctx.label("op:" + kind)
    if mutated >= 2 or (mutated and len(model) >= 3):
        ctx.hit("mutated>=2")


def run_slice(case, ctx):
    n, a, b, c = case
    model = list(range(n))
    cfg = OmegaConf.create(model)
    s = slice(a, b, c)
    want = attempt(lambda: model[s])
    real = attempt(lambda: cfg[s])
    if (want[0] != real[0]) or (want[0] == "ok" and want[1] != list(real[1])):
        fail(f"[{n} items][{a}:{b}:{c}]: expected {want}, got {real}")
    if want[0] == "exc" and type(want[1]) is ValueError and not isinstance(real[1], ValueError):
        fail(f"[{n} items][{a}:{b}:{c}]: expected ValueError, got {type(real[1]).__name__}")
    for vals in ([], [7], [7, 8]):
        m2, c2 = list(model), OmegaConf.create(model)
        w = attempt(lambda: m2.__setitem__(s, vals))
        r = attempt(lambda: c2.__setitem__(s, vals))
        if w[0] != r[0] or m2 != list(c2):
            fail(f"[{n} items][{a}:{b}:{c}] = {vals}: expected {w} {m2}, got {r} {list(c2)}")
    if want[0] == "ok" and len(want[1]) not in (0, n):
        ctx.hit("proper-sub-slice")


@dataclasses.dataclass
class Item:
    x: int = 0


@dataclasses.dataclass
class Swapped:
    any: "List[Any]" = dataclasses.field(default_factory=lambda: [{"x": 1}, {"x": 2}])
    dict: List[Dict[str, int]] = dataclasses.field(default_factory=lambda: [{"x": 1}, {"x": 2}])
    list: List[List[int]] = dataclasses.field(default_factory=lambda: [[1], [2]])
    cls: List[Item] = dataclasses.field(default_factory=lambda: [Item(1), Item(2)])


def run_swap(case, ctx):
    """l[i], l[j] = l[j], l[i]"""
    k, i, j = case
    l = OmegaConf.structured(Swapped)[k]
    m = OmegaConf.to_container(l)
    m[i], m[j] = m[j], m[i]
    l[i], l[j] = l[j], l[i]
    if plain(l) != m:
        fail(f"l[{i}], l[{j}] = l[{j}], l[{i}] on a list of {k} leaves {plain(l)}, expected {m}")
    if i != j:
        ctx.hit("swapped")


def enum_swap(tier):
    return [("any", 0, 1), ("any", 1, 0)] + [(k, i, j) for k in ("dict", "list", "cls") for i, j in ((0, 0), (0, 1))]


def enum_slices(tier):
    m = 4 if tier == "quick" else 6
    r = [None] + list(range(-m - 2, m + 3))
    steps = [None, 0] + [x for x in range(-m, m + 1) if x]
    if tier == "quick":
        steps = [None, 0, 1, 2, 3, -1, -2, -3]
    return [(n, a, b, c) for n in range(0, m + 1) for a in r for b in r for c in steps]


LEGS = [
    Leg("history", lambda: case_st, run, quick=14000,
        rule="operation histories (1-14 list operations) on generated lists, compared with a Python list after every step; non-trivial: at least two operations changed the contents"),
    Leg("kinds", lambda: kinds_st, run_kinds, quick=7000,
        rule="the same histories on lists with a declared element type (primitive, optional, enum, union, dict) holding values of that type, and on lists whose items are interpolations; non-trivial: at least two operations changed the contents"),
    Leg("swap", None, run_swap, quick=0, enumerated=enum_swap, rule="swapping two container items; non-trivial: different items"),
    Leg("slices", None, run_slice, quick=0, enumerated=enum_slices,
        rule="all (length, start, stop, step) up to the bound, read and assigned; non-trivial: the slice selects some but not all items"),
]
