"""C22: missing values: every way of asking agrees, at every place, after every assignment."""
import copy, pickle
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, MissingMandatoryValue, OmegaConf, SCMode
from omegaconf.errors import InterpolationToMissingValueError, InterpolationResolutionError
from ..core import Leg, fail
from ..gen import *
from .. import ops as O, schema as S, snap
from .c14 import raw_node

MISS = "???"
ASSUMPTIONS = ["a missing dict config has no keys, so iterating over its keys is empty (the existing tests say so); its items and items of lists raise"]


def raw_missing(n):
    """Is the node itself '???'?"""
    v = n._value()
    if v is not None and hasattr(v, "_value") and not isinstance(v, (dict, list)):
        v = v._value()  # a union's value
    return isinstance(v, str) and v == MISS


def missing_places(cfg):
    """[(path of the container, key)] of all missing values, in containers that are there."""
    return [(p[:-1], p[-1]) for p, n in nodes_of(cfg) if p and raw_missing(n)]


def text_path(path):
    return "".join(f"[{k}]" if isinstance(k, int) and not isinstance(k, bool) else f".{k}" for k in path).lstrip(".")


def writable(cfg, path):
    """Can the path be written as a text?"""
    for i, k in enumerate(path):
        if isinstance(raw_node(cfg, path[:i]), ListConfig):
            continue
        if not (isinstance(k, str) and k.isidentifier()):
            return False
    return True


def raises(f, cls, tag):
    r = attempt(f)
    if r[0] != "exc" or not isinstance(r[1], cls):
        fail(f"{tag}: expected {cls}, got {show(r)}")


def is_val(f, v, tag):
    r = attempt(f)
    if r[0] != "ok" or r[1] is not v:
        fail(f"{tag}: expected {v!r}, got {show(r)}")


def reported(p, k, cfg, path, tag):
    """Key k of container p of cfg is missing: every way of asking says so."""
    d = object()
    # (an interpolation beside it may fail first)
    whole = (MissingMandatoryValue, InterpolationResolutionError) if any(p._get_node(q)._is_interpolation() for q in (p.keys() if isinstance(p, DictConfig) else range(len(p)))) else MissingMandatoryValue
    raises(lambda: p[k], MissingMandatoryValue, f"{tag}: reading the item")
    is_val(lambda: p.get(k, "dflt"), "dflt", f"{tag}: get with a default")
    is_val(lambda: p.get(k), None, f"{tag}: get without a default")
    is_val(lambda: OmegaConf.is_missing(p, k), True, f"{tag}: is_missing")
    is_val(lambda: OmegaConf.is_interpolation(p, k), False, f"{tag}: is_interpolation")
    if isinstance(p, DictConfig):
        if isinstance(k, str) and not k.startswith("__"):
            raises(lambda: getattr(p, k), MissingMandatoryValue, f"{tag}: reading the attribute")
        is_val(lambda: k in p, False, f"{tag}: in")
        if k not in list(p) or k not in p.keys():
            fail(f"{tag}: not among the keys")
        raises(lambda: list(p.items()), whole, f"{tag}: items()")
        raises(lambda: list(p.values()), whole, f"{tag}: values()")
        raises(lambda: dict(p), whole, f"{tag}: dict()")
        t = copy.deepcopy(p)
        OmegaConf.set_struct(t, False)
        OmegaConf.set_readonly(t, False)
        if not t._is_typed():
            raises(lambda: t.pop(k), MissingMandatoryValue, f"{tag}: pop")
            is_val(lambda: t.pop(k, "dflt"), "dflt", f"{tag}: pop with a default")
    else:
        raises(lambda: p[k - len(p)], MissingMandatoryValue, f"{tag}: reading the item from the end")
        raises(lambda: list(p), whole, f"{tag}: iterating the list")
        raises(lambda: [*p], whole, f"{tag}: unpacking the list")
    n = p._get_node(k)
    if not n._is_missing() or n._is_none() or n._is_interpolation():
        fail(f"{tag}: the node says missing={n._is_missing()} none={n._is_none()} interpolation={n._is_interpolation()}")
    if writable(cfg, path):
        key = text_path(path)
        is_val(lambda: OmegaConf.select(cfg, key), None, f"{tag}: select")
        is_val(lambda: OmegaConf.select(cfg, key, default=d), d, f"{tag}: select with a default")
        raises(lambda: OmegaConf.select(cfg, key, throw_on_missing=True), MissingMandatoryValue, f"{tag}: select that throws on missing")
        is_val(lambda: OmegaConf.select(cfg, key + ("[0]" if isinstance(n, ListConfig) else ".q.r"), default=d), d, f"{tag}: select below it")
        ref = OmegaConf.create({"r": cfg, "m": "${r" + (key if key[0] == "[" else "." + key) + "}", "t": "x${.m}", "l": ["${m}"]})
        raises(lambda: ref.m, InterpolationToMissingValueError, f"{tag}: an interpolation to it")
        raises(lambda: ref.t, InterpolationResolutionError, f"{tag}: a text with an interpolation to it")
        raises(lambda: ref.l[0], InterpolationResolutionError, f"{tag}: an interpolation to it in a list")
        raises(lambda: list(ref.l), InterpolationResolutionError, f"{tag}: iterating a list with an interpolation to it")


def present(p, k, tag):
    """Key k is not missing."""
    is_val(lambda: OmegaConf.is_missing(p, k), False, f"{tag}: is_missing")
    r = attempt(lambda: p[k])
    if r[0] == "exc" and isinstance(r[1], MissingMandatoryValue):
        fail(f"{tag}: reading raised {r[1]!r}")
    if r[0] == "ok" and isinstance(r[1], str) and r[1] == MISS and not p._get_node(k)._is_interpolation():
        fail(f"{tag}: reading gave '???'")
    if isinstance(p, DictConfig):
        is_val(lambda: k in p, True, f"{tag}: in")


def container_missing(v, path=()):
    """Paths of '???' in a converted config"""
    if isinstance(v, (dict, list)):
        return {q for k, x in (v.items() if isinstance(v, dict) else enumerate(v)) for q in container_missing(x, path + (k,))}
    return {path} if isinstance(v, str) and v == MISS else set()


def check_all(cfg, ctx, tag, deep=True):
    """All the ways of asking, at all places of a config."""
    before = snap.walk(cfg)
    places = missing_places(cfg)
    where = {p + (k,) for p, k in places}
    tag = f"{tag}: {show(plain(cfg), 500)}"
    for p, k in places[:4] if deep else places:
        reported(raw_node(cfg, p), k, cfg, p + (k,), f"{tag}, missing {p + (k,)}")
    for p, n in nodes_of(cfg):
        if p and p not in where:
            present(raw_node(cfg, p[:-1]), p[-1], f"{tag}, {p} = {show(plain(n), 60)}")
    mk = attempt(lambda: OmegaConf.missing_keys(cfg))
    if mk[0] != "ok" or len(mk[1]) > len(where) or all(writable(cfg, w) for w in where) and mk[1] != {text_path(w) for w in where}:
        fail(f"{tag}: missing_keys gives {show(mk)}, missing are {sorted(where, key=str)}")
    if special(cfg):
        return
    raw = OmegaConf.to_container(cfg)
    if container_missing(raw) != where:
        fail(f"{tag}: to_container has '???' at {container_missing(raw)}")
    r = attempt(lambda: OmegaConf.to_container(cfg, throw_on_missing=True))
    if (r[0] == "exc" and isinstance(r[1], MissingMandatoryValue)) != bool(where):
        fail(f"{tag}: to_container(throw_on_missing=True) gives {show(r)}")
    if where:
        raises(lambda: OmegaConf.to_container(cfg, structured_config_mode=SCMode.DICT, throw_on_missing=True, enum_to_str=True), MissingMandatoryValue, f"{tag}: to_container(throw_on_missing=True)")
    if not deep:
        return
    for name, f in [("deepcopy", copy.deepcopy), ("copy", copy.copy), ("create", OmegaConf.create), ("merge", lambda c: OmegaConf.merge(c)), ("merge empty", lambda c: OmegaConf.merge(c, {} if isinstance(c, DictConfig) else [])) if isinstance(cfg, DictConfig) else ("create", OmegaConf.create)]:
        r = attempt(lambda: f(cfg))
        if r[0] != "ok" or {p + (k,) for p, k in missing_places(r[1])} != where:
            fail(f"{tag}: {name} gives {show(r)}")
    if all(isinstance(k, (str, int)) for w, _ in nodes_of(cfg) for k in w):
        y = attempt(lambda: OmegaConf.create(OmegaConf.to_yaml(cfg)))
        if y[0] != "ok" or {p + (k,) for p, k in missing_places(y[1])} != where:
            fail(f"{tag}: YAML gives {show(y)}")
    if snap.walk(cfg) != before:
        fail(f"{tag}: asking changed the config to {show(plain(cfg))}")


# ---------------------------------------------------------------- histories
@st.composite
def cases(draw):
    if draw(st.integers(0, 2)) == 0:
        keys = one_of(O.st.sampled_from(["a", "b", "c", "x"]), st.sampled_from(["a", "b", "y z", 1, Color.RED, True, 2.5, b"k"]))
        leaf = one_of(st.just(MISS), st.just(MISS), I_plain)
        specs, roots = [], [draw(one_of(dict_trees(leaf=leaf, keys=keys, max_leaves=8, width=4, min_size=1), list_trees(leaf=leaf, keys=keys, max_leaves=6, min_size=1)))]
    else:
        specs, roots = draw(O.environments(n=1))
    vals = one_of(O.plain_values, O.plain_values, S.instances(specs, depth=0)) if specs else O.plain_values
    op = one_of(O.edits(vals, ncfg=0), st.tuples(st.just("unset"), st.integers(0, 30), st.sampled_from(["item", "item", "attr", "update", "merge0", "node"])), st.tuples(st.just("unset"), st.integers(0, 30), st.just("item")),
                st.tuples(st.just("assign"), st.integers(0, 30), one_of(vals, S.simple_values, st.sampled_from([1, "x", 2.5, True, b"x", Color.RED, Path("p"), None, {}, [], {"a": MISS}])), st.sampled_from(["item", "attr", "update", "mergekey"])))
    return specs, roots, draw(st.lists(op, min_size=1, max_size=7))


I_plain = st.sampled_from([None, 1, "s", True, 1.5, "${a}", "${b}", "x${c}", "", b"x"])


def run(case, ctx):
    specs, roots, ops = case
    env = O.start(specs, roots)
    cfg = env.cfgs[0]
    log = [show(roots, 300)]
    if missing_places(cfg):
        ctx.hit("initial")
    check_all(cfg, ctx, "at the start")
    for op in ops:
        if op[0] == "op":
            d = O.apply(env, op)
            if d is None:
                continue
            log.append(d.desc)
        else:
            places = [(p[:-1], p[-1]) for p, n in nodes_of(cfg) if p]
            if not places:
                continue
            if op[0] == "assign" and missing_places(cfg):
                places = missing_places(cfg)
            path, k = places[op[1] % len(places)]
            p = raw_node(cfg, path)
            how = op[-1]
            if how == "attr" and not (isinstance(p, DictConfig) and isinstance(k, str)) or how == "update" and not writable(cfg, path + (k,)) or how in ("mergekey",) and not isinstance(p, DictConfig):
                how = "item"
            if op[0] == "assign":
                v = O.value_of(env, op[2], [])
                f = {"item": lambda: p.__setitem__(k, v), "attr": lambda: setattr(p, k, v), "update": lambda: OmegaConf.update(cfg, text_path(path + (k,)), v), "mergekey": lambda: p.merge_with({k: v})}[how]
                was = snap.walk(cfg)
                r = attempt(f)
                log.append(f"assign {show(v, 80)} at {path + (k,)} by {how}: {r[0]}")
                tag = " ; ".join(log)
                if r[0] == "ok":
                    miss = isinstance(v, str) and v == MISS
                    if miss and how != "mergekey":
                        reported(p, k, cfg, path + (k,), tag)
                    elif not miss:
                        present(p, k, tag)
                        ctx.hit("assigned")
                elif how == "item" and snap.walk(cfg) != was:
                    fail(f"{tag}: the failing assignment changed the config to {show(plain(cfg))}")
            else:
                node = p._get_node(k)
                if how == "merge0" or how == "node" and isinstance(node, (DictConfig, ListConfig)):
                    # a missing value merged over a value does not change it
                    if not isinstance(p, DictConfig) or node._is_interpolation():
                        continue
                    was = snap.raw(node) if not isinstance(node, (DictConfig, ListConfig)) else canon(plain(node)) if not special(node) else canon(node._value())
                    r = attempt(lambda: p.merge_with({k: MISS}))
                    now = p._get_node(k)
                    now = snap.raw(now) if not isinstance(now, (DictConfig, ListConfig)) else canon(plain(now)) if not special(now) else canon(now._value())
                    log.append(f"merge ??? at {path + (k,)}")
                    if r[0] != "ok" or was != now:
                        fail(f"{' ; '.join(log)}: {show(r)}, {was} became {now}")
                else:
                    f = {"item": lambda: p.__setitem__(k, MISS), "attr": lambda: setattr(p, k, MISS), "update": lambda: OmegaConf.update(cfg, text_path(path + (k,)), MISS, merge=False), "node": lambda: node._set_value(MISS)}[how]
                    r = attempt(f)
                    log.append(f"unset {path + (k,)} by {how}")
                    tag = " ; ".join(log)
                    if r[0] != "ok":
                        fail(f"{tag}: assigning '???' raised {type(r[1]).__name__}: {r[1]}")
                    reported(p, k, cfg, path + (k,), tag)
                    ctx.hit("unset")
        check_all(cfg, ctx, " ; ".join(log), deep=op[0] != "op")


# ---------------------------------------------------------------- a declared type, unset, set and unset again
@st.composite
def typed_cases(draw):
    specs = draw(S.schemas(max_cls=2))
    t = draw(S.types(len(specs)))
    where = draw(st.sampled_from(["field", "field", "dict", "list", "nested"]))
    return specs, t, where, draw(S.data(specs, t, missing=False)), draw(st.sampled_from(["default", "set", "ctor", "yaml", "merge"]))


def run_typed(case, ctx):
    specs, t, where, v, how = case
    rt = {"field": t, "dict": ("dict", "str", t), "list": ("list", t), "nested": ("dict", "str", ("list", t))}[where]
    try:
        classes = S.realize(specs + [{"kind": "dc", "base": None, "frozen": False, "kw": True, "fields": [["f", rt, S.REQ], ["g", rt, S.REQ]]}])
    except S.Skip:
        return
    cls = classes[-1]
    inner = {"field": MISS, "dict": {"k": MISS}, "list": [MISS], "nested": {"k": [MISS]}}[where]
    loc = {"field": ("f",), "dict": ("f", "k"), "list": ("f", 0), "nested": ("f", "k", 0)}[where]
    tag = f"type {t} in {where}, by {how}, value {show(v)}"
    if how == "default" and where == "field":
        cfg = OmegaConf.structured(cls)
    elif how == "ctor":
        cfg = OmegaConf.structured(cls(f=copy.deepcopy(inner), g=MISS))
    elif how == "yaml":
        cfg = OmegaConf.merge(cls, OmegaConf.create(OmegaConf.to_yaml(OmegaConf.create({"f": inner}))))
    elif how == "merge":
        cfg = OmegaConf.merge(cls, {"f": inner})
    else:
        cfg = OmegaConf.structured(cls)
        cfg.f = copy.deepcopy(inner)
    got = {p + (k,) for p, k in missing_places(cfg)}
    if loc not in got:
        fail(f"{tag}: the config is {show(plain(cfg))}, missing {got}")
    p, k = raw_node(cfg, loc[:-1]), loc[-1]
    meta = snap.meta(p._get_node(k))
    for again in range(2):
        reported(p, k, cfg, loc, f"{tag} (round {again})")
        check_all(cfg, ctx, f"{tag} (round {again})")
        val = S.inst_value(v, classes)
        r = attempt(lambda: p.__setitem__(k, val))
        if r[0] != "ok":
            fail(f"{tag}: assigning raised {type(r[1]).__name__}: {r[1]}")
        p = raw_node(cfg, loc[:-1])
        if S.is_special(v) and v == MISS:
            return
        present(p, k, tag)
        check_all(cfg, ctx, f"{tag} (assigned)")
        r = attempt(lambda: p.__setitem__(k, MISS))
        if r[0] != "ok":
            fail(f"{tag}: assigning '???' raised {type(r[1]).__name__}: {r[1]}")
    now = snap.meta(p._get_node(k))
    if now[2] != meta[2] or now[4] != meta[4]:
        fail(f"{tag}: after unsetting the declared type is {now}, it was {meta}")
    reported(p, k, cfg, loc, f"{tag} (unset)")
    # the place still accepts and refuses the same values
    twin = OmegaConf.structured(cls(f=copy.deepcopy(inner), g=MISS))
    tp = raw_node(twin, loc[:-1])
    for x in (1, "x", 2.5, True, None, b"x", Path("p"), Color.RED, [], {}, [1], {"a": 1}):
        a, b = attempt(lambda: p.__setitem__(k, x)), attempt(lambda: tp.__setitem__(k, x))
        if a[0] != b[0] or cs(plain(cfg.f) if where != "field" else snapv(p, k)) != cs(plain(twin.f) if where != "field" else snapv(tp, k)):
            fail(f"{tag}: after unsetting, assigning {x!r} gives {show(a)} / {show(plain(cfg))}, in a new config {show(b)} / {show(plain(twin))}")
        p[k] = MISS
        tp[k] = MISS
    ctx.hit(how)
    ctx.label("type " + (t if isinstance(t, str) else t[0]))


def snapv(p, k):
    return OmegaConf.to_container(OmegaConf.create({"v": p._get_node(k)}))


# ---------------------------------------------------------------- missing containers by themselves
def run_bare(case, ctx):
    kind, el, vals, k = case
    mk = {"dict": lambda: DictConfig(MISS, element_type=el), "list": lambda: ListConfig(MISS, element_type=el), "class": lambda: DictConfig(MISS, ref_type=BareCls)}[kind]
    c = mk()
    d = isinstance(c, DictConfig)
    tag = f"a missing {kind} config"
    key = k if d else 0
    raises(lambda: c[key], MissingMandatoryValue, f"{tag}: [{key!r}]")
    if d and isinstance(k, str):
        raises(lambda: getattr(c, k), MissingMandatoryValue, f"{tag}: attribute")
    raises(lambda: list(c.items()) if d else list(c), MissingMandatoryValue, f"{tag}: iterating")
    raises(lambda: OmegaConf.to_container(c, throw_on_missing=True), MissingMandatoryValue, f"{tag}: to_container")
    raises(lambda: OmegaConf.to_object(c), MissingMandatoryValue, f"{tag}: to_object")
    is_val(lambda: OmegaConf.select(c, "a" if d else "0", default="D"), "D", f"{tag}: select")
    if len(c) != 0 or bool(c) or not c._is_missing() or OmegaConf.to_container(c) != MISS or OmegaConf.to_yaml(c) not in ("???\n", "'???'\n") or OmegaConf.missing_keys(c) != set():
        fail(f"{tag}: len {len(c)}, to_container {OmegaConf.to_container(c)!r}")
    r = attempt(lambda: c.__setitem__(key, 1))
    if r[0] == "ok" or not c._is_missing():
        fail(f"{tag}: assigning a key gives {show(r)}, {show(c)}")
    if not isinstance(r[1], MissingMandatoryValue):
        fail(f"{tag}: assigning a key raised {r[1]!r}")
    for f in (copy.deepcopy, copy.copy, lambda x: pickle.loads(pickle.dumps(x)) if kind != "class" else copy.copy(x)):
        if not f(c)._is_missing():
            fail(f"{tag}: copied to {show(f(c))}")
    holder = OmegaConf.create({"h": c, "l": [c], "i": "${h}"})
    reported(holder, "h", holder, ("h",), f"{tag} in a dict")
    reported(holder.l, 0, holder, ("l", 0), f"{tag} in a list")
    if kind != "class":
        m = OmegaConf.merge(c, vals if d else list(vals.values()))
        if cs(m) != cs(vals if d else list(vals.values())):
            fail(f"{tag}: merged with {vals} gives {show(m)}")
        holder.h = vals if d else list(vals.values())
        if "h" not in holder or cs(holder.h) != cs(vals if d else list(vals.values())) or cs(holder.i) != cs(holder.h):
            fail(f"{tag} in a dict, assigned {vals}: {show(holder)}")
    ctx.hit(kind)


from dataclasses import dataclass, field
from typing import Any, Dict, List, Optional, Union


@dataclass
class BareCls:
    a: int = 1
    b: str = "x"


BareCls.__module__ = __name__
bare_case = st.tuples(st.sampled_from(["dict", "list", "class"]), st.sampled_from([int, "any"]).map(lambda x: int if x is int else "any"), st.dictionaries(st.sampled_from("abc"), st.integers(0, 3), max_size=3), st.sampled_from(["a", "b", "?", "??", "zz", "a b"]))


def bare(case, ctx):
    from typing import Any
    kind, el, vals, k = case
    run_bare((kind, Any if el == "any" else int, vals, k), ctx)


# ---------------------------------------------------------------- texts that are almost '???'
NEAR = [" ???", "??? ", " ??? ", "\t???", "???\n", "\n???\n", "\u00a0???", "????", "??", "?", "? ? ?", "???x", "x???", "'???'", '"???"', "\\???", "???\\", "\uff1f\uff1f\uff1f", "??\u200b?", "?\u0301??", "???.", "?!?", "*", "MISSING", "missing", "???,???", "[???]", "???\0"]
SAME = [MISS, "?" + "?" * 2, "".join(["?", "??"])]
ROUTES = ["create", "item", "attr", "update", "merge", "merge_with", "structured", "instance", "list", "append", "node", "dotlist", "yaml", "dict", "union", "any", "optional"]


@dataclass
class NearCls:
    s: str = "d"
    o: Optional[str] = None
    a: Any = None
    u: Union[int, str] = 1
    d: Dict[str, str] = field(default_factory=dict)
    l: List[str] = field(default_factory=list)


NearCls.__module__ = __name__


def enum_near(tier):
    return [(t, r) for t in NEAR + SAME for r in ROUTES]


def run_near(case, ctx):
    t, route = case
    t = "".join(list(t))
    key, p = "k", None
    if route == "create":
        cfg = OmegaConf.create({"k": t})
    elif route in ("item", "attr", "update", "merge", "merge_with", "node"):
        cfg = OmegaConf.create({"k": "x"})
        if route == "item":
            cfg["k"] = t
        elif route == "attr":
            cfg.k = t
        elif route == "update":
            OmegaConf.update(cfg, "k", t)
        elif route == "node":
            cfg._get_node("k")._set_value(t)
        elif t == MISS:
            return  # (a missing value merged over a value does not change it)
        elif route == "merge":
            cfg = OmegaConf.merge(cfg, {"k": t})
        else:
            cfg.merge_with({"k": t})
    elif route == "dotlist":
        if any(c in t for c in "\n\t\0\\'\"[*") or t != t.strip() or t == "?" or t.startswith("? "):
            return  # (YAML syntax)
        cfg = OmegaConf.from_dotlist(["k=" + t])
    elif route == "yaml":
        if "\0" in t:
            return
        cfg = OmegaConf.create(OmegaConf.to_yaml(OmegaConf.create({"k": t})))
    elif route in ("list", "append"):
        cfg, key = OmegaConf.create([t] if route == "list" else []), 0
        if route == "append":
            cfg.append(t)
    else:
        cfg = OmegaConf.structured(NearCls)
        key = {"structured": "s", "instance": "s", "any": "a", "union": "u", "optional": "o", "dict": "k", "list": 0}[route]
        if route == "instance":
            cfg = OmegaConf.structured(NearCls(s=t))
        elif route == "dict":
            cfg.d = {"k": t}
            p = cfg.d
        else:
            cfg[key] = t
    p = cfg if p is None else p
    tag = f"the text {t!r} by {route}"
    n = p._get_node(key)
    if t == MISS:
        is_val(lambda: OmegaConf.is_missing(p, key), True, f"{tag}: is_missing")
        raises(lambda: p[key], MissingMandatoryValue, f"{tag}: reading")
        ctx.hit("missing")
        return
    present(p, key, tag)
    r = attempt(lambda: p[key])
    if r != ("ok", t) or n._is_missing() or n._is_none():
        fail(f"{tag}: reads as {show(r)}")
    if isinstance(p, DictConfig) and (p.get(key, "dflt") != t or p.pop(key) != t if not p._is_typed() else False):
        fail(f"{tag}: get or pop differ")
    p = cfg
    if key != "k" or not isinstance(cfg, DictConfig):
        mk = {k for k in OmegaConf.missing_keys(cfg) if str(key) in k}
        if mk:
            fail(f"{tag}: missing_keys {mk}")
        c = attempt(lambda: OmegaConf.to_container(cfg, throw_on_missing=True))
        if c[0] != "ok":
            fail(f"{tag}: to_container raises {c[1]!r}")
    ref = OmegaConf.create({"v": t, "r": "${v}", "t": "x${v}"})
    if attempt(lambda: (ref.r, ref.t, OmegaConf.select(ref, "v"), OmegaConf.to_container(OmegaConf.merge({"v": 1}, {"v": t}))["v"])) != ("ok", (t, "x" + t, t, t)):
        fail(f"{tag}: interpolations, select or merge: {attempt(lambda: (ref.r, ref.t))}")
    ctx.hit("present")


LEGS = [
    Leg("near", None, run_near, quick=0, enumerated=enum_near,
        rule="texts that almost are '???' (blanks, newlines, fewer or more marks, quotes, other question marks) and '???' built at run time, by every route a value takes into a config: only exactly '???' is missing; non-trivial: all"),
    Leg("history", lambda: cases(), run, quick=1600,
        rule="untyped and structured configs rich in '???' at every position; after each of 1-7 edits (assigning values and '???' through items, attributes, update, merge and nodes, and arbitrary edits) all reports of "
             "every place are compared with its raw value; non-trivial: some '???' at the start, an assignment over one, or one unset"),
    Leg("typed", lambda: typed_cases(), run_typed, quick=1200,
        rule="a place of every declared type (field, dict value, list item, nested) made missing by default, constructor, YAML, merge or assignment; set and unset twice; afterwards it keeps its type; non-trivial: all"),
    Leg("bare", lambda: bare_case.map(lambda c: (c[0], "int" if c[1] is int else "any", c[2], c[3])), bare, quick=300,
        rule="missing dict, list and structured config objects by themselves and held in other configs"),
]
