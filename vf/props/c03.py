"""C03: create and to_container round-trip, and share nothing."""
import copy
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, OmegaConf
from ..core import Leg, fail
from ..gen import *

leaf = one_of(scalars, scalars, interp_text, st.just("???"))
tree = one_of(dict_trees(leaf=leaf, tuples=True), list_trees(leaf=leaf, tuples=True))
VICTIMS = ["input", "cfg", "cfg2", "out", "out2", "sub"]
case_st = st.tuples(tree, st.sampled_from(["create", "ctor", "embedded", "wrapped"]), st.permutations(VICTIMS).map(lambda p: p[:3]))


def embed(v):
    """A plain container with configs inside: every second container becomes a config."""
    if isinstance(v, dict):
        return {k: (OmegaConf.create(x) if isinstance(x, (dict, list, tuple)) else x) for k, x in v.items()}
    return [OmegaConf.create(x) if isinstance(x, (dict, list, tuple)) else x for x in v]


def run(case, ctx):
    tree, how, order = case
    snap = pure(tree)
    want = cs(snap)
    src = copy.deepcopy(tree)
    if how == "embedded":
        src = embed(src)
    elif how == "wrapped":
        src = OmegaConf.create({"top": src})["top"]
    if how == "ctor":
        cfg = DictConfig(src) if isinstance(src, dict) else ListConfig(src)
    else:
        cfg = OmegaConf.create(src)
    if type(cfg) is not (DictConfig if isinstance(tree, dict) else ListConfig):
        fail(f"create({show(tree)}) gives {type(cfg).__name__}")
    if cfg._get_parent() is not None and how != "wrapped":
        fail("a created config has a parent")
    out, out2 = OmegaConf.to_container(cfg), OmegaConf.to_container(cfg)
    if canon(out) != canon(snap):
        fail(f"{how}: {show(tree)} comes back as {show(out)}")
    if not exact_types(out):
        fail(f"to_container of {show(tree)} is not made of plain dicts and lists")
    cfg2 = OmegaConf.create(cfg)
    if cfg2 is cfg or type(cfg2) is not type(cfg) or cs(cfg2) != want:
        fail(f"create(config) of {show(tree)} gives {show(plain(cfg2))}")
    # sub-containers convert to the same data as the corresponding part
    for path, n in nodes_of(cfg):
        if OmegaConf.is_config(n) and not special(n):
            part = snap
            for p in path:
                part = part[p]
            if canon(OmegaConf.to_container(n)) != canon(part):
                fail(f"to_container of the node at {path} of {show(tree)} differs")
    sub = None
    things = {"input": src, "cfg": cfg, "cfg2": cfg2, "out": out, "out2": out2, "sub": OmegaConf.create(out)}
    alive = dict(things)
    for v in order:
        scramble(alive.pop(v))
        for name, o in alive.items():
            if cs(o) != want and not (name == "input" and how == "embedded" and cs({"x": deep_plain(o)}) == cs({"x": snap})):
                fail(f"{how}: changing {v} changed {name}: {show(plain(o))} was {show(snap)}")
    if depth(snap) >= 2 and leaves(snap) >= 2:
        ctx.hit(how)
    ctx.label("depth%d" % min(depth(snap), 5))


def deep_plain(v):
    if OmegaConf.is_config(v):
        return OmegaConf.to_container(v)
    if isinstance(v, dict):
        return {k: deep_plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [deep_plain(x) for x in v]
    return v


LEGS = [
    Leg("roundtrip", lambda: case_st, run, quick=6400,
        rule="generated nested structures (all key and leaf types, tuples, configs inside plain data), converted to a config and back; then three of {input, config, second config, outputs} are changed everywhere; non-trivial: nesting depth >= 2 and at least 2 leaves"),
]
