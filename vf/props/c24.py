"""C24: masked copies, against picking the keys by hand."""
import copy
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, OmegaConf
from ..core import Leg, fail
from ..gen import *
from .. import schema as S, snap, ops as O
from .c05 import build

ASSUMPTIONS = ["the copy is an untyped dict: single values keep their raw value, not their declared type"]


class Thing:
    """An object only allowed by the allow_objects flag."""
    def __init__(self, n=0):
        self.n = n

    def __eq__(self, o):
        return type(o) is Thing and o.n == self.n

    def __hash__(self):
        return hash(self.n)


LEAF = one_of(scalars, st.sampled_from(["???", "${a}", "${b.a}", "${.c}", "${..d}", "x${a}", "${oc.env:NOPE}", "${foo:1}", "\\${a}", "\\\\${a}"]))


@st.composite
def cases(draw):
    specs = draw(S.schemas(max_cls=2, frozen=True))
    kind = draw(st.sampled_from(["inst", "tree", "tree", "typed", "nested"]))
    leaf = one_of(LEAF, LEAF, LEAF, S.instances(specs, depth=0))
    tree = one_of(LEAF, trees(leaf=leaf, keys=any_keys, max_leaves=5, width=3))
    ks = one_of(st.sampled_from(["a", "b", "c", "d", 1, True, Color.RED, 2.5, b"k", "ab", "a,b", "a.b", "a b", "a[b]", "1", "RED"]), any_keys)
    if kind == "inst":
        root = draw(S.instances(specs))
    elif kind == "typed":
        t = draw(st.tuples(st.just("dict"), S.key_types, S.types(len(specs), 1)))
        root = [t, draw(S.data(specs, t, missing=False).filter(lambda v: v is not None))]
    else:
        root = draw(st.dictionaries(ks, tree, min_size=2, max_size=6))
    picks = draw(st.lists(one_of(st.integers(0, 30), st.integers(0, 30), st.integers(0, 30), st.tuples(st.just("k"), ks)), min_size=1, max_size=5))
    return (specs, kind, root, draw(st.lists(st.tuples(st.integers(0, 20), st.sampled_from(["readonly", "struct", "allow_objects"]), st.booleans()), max_size=3)), picks,
            draw(st.sampled_from(["list", "list", "one", "tuple", "set", "config"])), draw(st.integers(0, 30)))


def put_objects(c):
    """Objects at places of an untyped config"""
    OmegaConf.set_readonly(c, False)
    c._set_flag("allow_objects", True)
    c["obj"] = Thing(1)
    c["box"] = {"o": Thing(2), "l": [Thing(3)]}


def raw_of(n):
    v = snap.raw(n)
    if type(n).__name__ == "UnionNode" and isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], tuple) and len(v[0]) > 5:
        v = v[1]
    return v


def picture(n):
    """raw value of a single value; every node below a container with its type"""
    if isinstance(n, (DictConfig, ListConfig)):
        def m(x):
            x = snap.meta(x)
            return x[:6]
        return [(p, m(x), snap.raw(x)) for p, x in nodes_of(n)]
    return raw_of(n)


def run(case, ctx):
    specs, kind, root, flags, picks, how, ed = case
    classes = S.realize(specs)
    r = attempt(lambda: build(specs, classes, "tree" if kind == "nested" else kind, root))
    if r[0] != "ok":
        return
    cfg = r[1][0]
    if kind == "tree" and len(picks) % 3 == 0 and not special(cfg):
        put_objects(cfg)
    conf = cfg
    if kind == "nested":
        outer = OmegaConf.create({"n": 5, "x": cfg, "l": [cfg]})
        conf = outer.x if ed % 2 else outer.l[0]
    nodes = [n for _, n in nodes_of(conf)]
    for i, f, v in flags:
        nodes[i % len(nodes)]._set_flag(f, v or f == "allow_objects")
    if special(conf):
        return
    have = list(conf.keys())
    want = []
    for p in picks:
        if isinstance(p, tuple):
            want.append(p[1])
        elif have:
            want.append(have[p % len(have)])
    arg = want
    if how == "one":
        strs = [k for k in want if isinstance(k, str)]
        if not strs:
            return
        want, arg = strs[:1], strs[0]
    elif how == "tuple":
        arg = tuple(want)
    elif how == "set":
        arg = set(want)
    elif how == "config" and not any(isinstance(k, str) and ("${" in k or k == "???") for k in want):
        arg = OmegaConf.create(list(want))
    before = snap.walk(conf)
    was = copy.deepcopy(arg)
    tag = f"masked_copy({show(conf, 500)}, {arg!r})"
    r = attempt(lambda: OmegaConf.masked_copy(conf, arg))
    if r[0] != "ok":
        fail(f"{tag} raised {type(r[1]).__name__}: {r[1]}")
    m = r[1]
    if type(m) is not DictConfig or m is conf:
        fail(f"{tag} is {m!r}")
    keep = [k for k in have if any(k == w for w in want)]
    got = list(m.keys())
    if [canon(k) for k in got] != [canon(k) for k in keep]:
        fail(f"{tag} has the keys {got}, expected {keep}")
    for k in keep:
        a, b = conf._get_node(k), m._get_node(k)
        if picture(a) != picture(b):
            fail(f"{tag}: at {k!r} {picture(b)}, the source has {picture(a)}")
        if a is b:
            fail(f"{tag}: shares the node at {k!r}")
        if b._get_parent() is not m or b._key() != k:
            fail(f"{tag}: the node at {k!r} has key {b._key()!r}")
    if snap.walk(conf) != before or was != arg or type(was) is not type(arg):
        fail(f"{tag} changed its arguments: {show(conf)}, {arg!r}")
    mine = {id(n) for _, n in nodes_of(conf)}
    if any(id(n) in mine for _, n in nodes_of(m)):
        fail(f"{tag} shares nodes with the source")
    if m._get_parent() is not None:
        fail(f"{tag} has a parent")
    if how != "set" and want and snap.walk(OmegaConf.masked_copy(conf, list(want) * 2)) != snap.walk(m):
        fail(f"{tag}: repeating the keys changes it")
    # independent
    mw = snap.walk(m)
    wreck(conf)
    if snap.walk(m) != mw:
        fail(f"{tag}: editing the source changed the copy to {show(m)}")
    conf2 = build(specs, classes, "tree" if kind == "nested" else kind, root)[0]
    m2 = OmegaConf.masked_copy(conf2, list(want))
    w2 = snap.walk(conf2)
    wreck(m2)
    if snap.walk(conf2) != w2:
        fail(f"{tag}: editing the copy changed the source to {show(conf2)}")
    if keep and len(keep) < len(have):
        ctx.hit("some")
    elif keep:
        ctx.label("all")
    if len(want) > len({canon(w) for w in want}):
        ctx.label("repeated")
    if any(not any(k == w for k in have) for w in want):
        ctx.label("absent")


def wreck(c):
    """Edits everything in a config."""
    for _, n in reversed(list(nodes_of(c))):
        n._set_flag(["readonly", "struct", "allow_objects"], [False, False, True])
        if isinstance(n, ListConfig) and not special(n):
            n._content.clear()
        elif isinstance(n, DictConfig) and not special(n):
            n._content.clear()
        elif not isinstance(n, (DictConfig, ListConfig)) and type(n).__name__ != "UnionNode":
            n._val = "???"


# ---------------------------------------------------------------- not a dict config, or none there
def run_bad(case, ctx):
    what, keys = case
    f = {"list": lambda: OmegaConf.create([1, 2]), "dict": lambda: {"a": 1}, "none": lambda: None, "str": lambda: "a", "cls": lambda: Thing, "listnode": lambda: OmegaConf.create({"a": ["a"]}).a}[what]
    c = f()
    r = attempt(lambda: OmegaConf.masked_copy(c, keys))
    if r[0] == "ok" or not isinstance(r[1], ValueError):
        fail(f"masked_copy({c!r}, {keys!r}): expected a ValueError, got {show(r)}")
    ctx.hit(what)


LEGS = [
    Leg("masked", lambda: cases(), run, quick=6000,
        rule="untyped, structured, typed and nested dict configs (all key kinds, missing values, interpolations, None/missing containers, objects, flags) with key lists, tuples, sets and list configs of present, absent and repeated keys: "
             "keys, order, raw values, node types below, no sharing, edits on either side; non-trivial: some but not all keys kept"),
    Leg("bad", lambda: st.tuples(st.sampled_from(["list", "dict", "none", "str", "cls", "listnode"]), one_of(st.just("a"), st.lists(ids, max_size=2))), run_bad, quick=200, rule="arguments that are not dict configs"),
]
