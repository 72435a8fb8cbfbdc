"""C29: what the debugger extension shows, against the config read by its public API."""
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, Node, OmegaConf
from pydevd_plugins.extensions.pydevd_plugin_omegaconf import OmegaConfDeveloperResolver, OmegaConfUserResolver
from ..core import Leg, fail
from ..gen import *
from .. import schema as S, snap, ops as O, interp as I

ASSUMPTIONS = ["the extension's methods are called as pydevd calls them: get_dictionary for the children, resolve for one child, get_str for the text; pydevd itself is not run"]
MISS = "???"
REFS = ["${a}", "${b}", "${c}", "${.a}", "${..b}", "x${a}", "${a}${b}", "${a.b}", "${b[0]}", "${a.0.c}", "${zz_nope}", "${oc.env:ZZ_NOPE}", "${oc.decode:'[1,{a:2}]'}", "${oc.create:${a}}", "${oc.dict.keys:a}", "${oc.dict.values:a}", "${zz_res:1}"]
LEAF = one_of(scalars, scalars, st.sampled_from(["???", None] + REFS), st.sampled_from(REFS))
KEYS = one_of(st.sampled_from(["a", "b", "c"]), st.sampled_from(["a", "b", "c"]), any_keys)
# ("box", "dict"|"list", content): a container node given as None, missing or an interpolation
BOX = st.tuples(st.just("box"), st.sampled_from(["dict", "list"]), st.sampled_from([None, "???"] + REFS[:12]))


@st.composite
def cases(draw):
    if draw(st.integers(0, 3)) == 0:
        specs, roots = draw(O.environments(n=1))
        return specs, roots[0], draw(st.lists(st.tuples(st.integers(0, 30), st.sampled_from(["???", None] + REFS)), max_size=4))
    leaf = one_of(LEAF, LEAF, LEAF, BOX)
    tree = dict_trees(leaf=leaf, keys=KEYS, max_leaves=12, width=4, min_size=2) if draw(st.integers(0, 3)) else list_trees(leaf=leaf, keys=KEYS, max_leaves=12, width=4)
    return [], draw(tree), []


def boxed(v):
    if isinstance(v, tuple) and v and v[0] == "box":
        return (DictConfig if v[1] == "dict" else ListConfig)(v[2])
    if isinstance(v, dict):
        return {k: boxed(x) for k, x in v.items()}
    if isinstance(v, list):
        return [boxed(x) for x in v]
    return v


def target(n, parent, key):
    """What node n (held by parent under key; the root when parent is None) stands for: ("ok", value or config) | ("missing",) | ("err",)"""
    if OmegaConf.is_missing(parent, key) if parent is not None else False:
        return ("missing",)
    if parent is None:
        return ("ok", n)
    r = attempt(lambda: OmegaConf.select(parent, "") if False else parent[key])
    return r if r[0] == "ok" else ("err",)


def keys_of(c):
    """[(name in the debugger, key)] of a config"""
    if isinstance(c, DictConfig):
        return [(k, k) for k in c.keys()]
    return [(str(i), i) for i in range(len(c))]


def nodes(cfg):
    return [n[1] if isinstance(n, tuple) else n for n in O.all_nodes(cfg)]


def same(a, b, c, cfg):
    """a is node b of config c; a copy of it when c was made by a resolver just now"""
    if a is b:
        return True
    if any(x is c for x in nodes(cfg)) or type(a) is not type(b):
        return False
    return canon(a) == canon(b) if OmegaConf.is_config(a) else a._key() == b._key() and canon(snap.raw(a)) == canon(snap.raw(b))


def inspect(R, n, parent, key, path, depth, ctx, cfg, tag):
    where = f"{path} of {tag}"
    t = target(n, parent, key)
    text = R.get_str(n)
    val = snap.raw(n) if not isinstance(n, (DictConfig, ListConfig)) else None
    interp = parent is not None and OmegaConf.is_interpolation(parent, key)
    if t == ("missing",):
        want = "??? <MISSING>"
    elif interp:
        raw = plain(parent)[key]
        want = f"{raw} -> {t[1]}" if t[0] == "ok" else f"{raw} -> ERR: "
    else:
        want = str(t[1])
    if not (text == want or interp and t[0] == "err" and text.startswith(want)):
        fail(f"text at {where}: {text!r}, expected {want!r}")
    d = R.get_dictionary(n)
    if type(d) is not dict:
        fail(f"children at {where}: {d!r}")
    c = t[1] if t[0] == "ok" else None
    if not OmegaConf.is_config(c):
        if d:
            fail(f"children at {where}: {show(d)}, expected none")
        ctx.label("no children" if not interp else "interpolation without children")
        return
    names = keys_of(c)
    if [(type(k), k) for k in d] != [(type(k), k) for k, _ in names]:
        fail(f"children at {where}: {list(d)!r}, expected {[k for k, _ in names]!r}")
    if interp and names:
        ctx.hit("through an interpolation")
    for name, k in names:
        held, got = c._get_node(k), d[name]
        one = R.resolve(n, name)
        if not same(one, held, c, cfg):
            fail(f"child {name!r} at {where}: resolve gives {show(one)}, which is not the node of {k!r}")
        simple = not isinstance(held, (DictConfig, ListConfig)) and not OmegaConf.is_interpolation(c, k) and not OmegaConf.is_missing(c, k) and c[k] is not None
        if simple and not isinstance(got, Node):
            if canon(got) != canon(c[k]) or type(got) is not type(c[k]):
                fail(f"child {name!r} at {where}: shown as {got!r}, expected {c[k]!r}")
        elif not same(got, held, c, cfg) or simple and type(held).__name__ != "UnionNode":
            fail(f"child {name!r} at {where}: shown as {show(got)} ({type(got).__name__}) of {show(plain(c))}")
        if isinstance(got, Node) and not R.can_provide(type(got), type(got).__name__):
            fail(f"child {name!r} at {where}: no view for {type(got).__name__}")
        if depth:
            inspect(R, held, c, k, path + (name,), depth - 1, ctx, cfg, tag)
            if OmegaConf.is_missing(c, k) or OmegaConf.is_interpolation(c, k):
                ctx.hit("special")


def run(case, ctx):
    specs, root, edits = case
    if specs:
        env = O.start(specs, [root])
        cfg = env.cfgs[0]
        for n, v in edits:
            ns = [x for x in O.boxes(cfg)]
            if ns:
                b = ns[n % len(ns)]
                b = b[1] if isinstance(b, tuple) else b
                ks = list(b.keys()) if isinstance(b, DictConfig) and not b._is_none() and not b._is_missing() and not b._is_interpolation() else []
                if ks:
                    attempt(lambda: b.__setitem__(ks[n % len(ks)], v))
    else:
        cfg = OmegaConf.create(boxed(root))
    tag = show(plain(cfg), 700)
    R, D = OmegaConfUserResolver(), OmegaConfDeveloperResolver()
    before = snap.walk(cfg)
    inspect(R, cfg, None, None, (), 4, ctx, cfg, tag)
    for n in nodes(cfg):
        if D.get_dictionary(n) is not n.__dict__ or D.resolve(n, "__dict__") is not n.__dict__:
            fail(f"developer view of {show(plain(n))}")
        for r in (R, D):
            if not r.can_provide(type(n), type(n).__name__):
                fail(f"no view for {type(n).__name__}")
    for x in (cfg._get_node, {}, 1, "s", Color.RED, type):
        if R.can_provide(type(x), type(x).__name__) or D.can_provide(type(x), type(x).__name__):
            fail(f"a view for {type(x).__name__}, which is no node")
    if snap.walk(cfg) != before:
        fail(f"inspecting {tag} changed it to {show(plain(cfg), 700)}")


LEGS = [Leg("view", lambda: cases(), run, quick=6000,
            rule="generated configs (any keys and leaves, valid and broken interpolations of values and containers, missing and None containers, structured) expanded in the debugger to depth 5; children, values, texts and resolve compared with the public API; "
                 "non-trivial: a missing value, an interpolation, or children seen through an interpolation")]
