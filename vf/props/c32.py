"""C32: the query functions tell what a config holds: kinds of objects, missing and interpolated values, types."""
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.errors import KeyValidationError, OmegaConfBaseException
from ..core import Leg, fail
from ..gen import *
from .. import schema as S, ops as O

MISS = "???"
REFS = ["${a}", "${.b}", "x${a}", "${zz_nope}", "${a.b}", "${oc.env:ZZ_NOPE}"]
BOX = st.tuples(st.just("box"), st.sampled_from(["dict", "list"]), st.sampled_from([None, MISS] + REFS))
LEAF = one_of(scalars, scalars, st.sampled_from([MISS, None] + REFS), BOX)


def boxed(v):
    if isinstance(v, tuple) and v and v[0] == "box":
        return (DictConfig if v[1] == "dict" else ListConfig)(v[2])
    if isinstance(v, dict):
        return {k: boxed(x) for k, x in v.items()}
    if isinstance(v, list):
        return [boxed(x) for x in v]
    return v


@st.composite
def cases(draw):
    vals = one_of(O.plain_values, st.sampled_from([MISS, None] + REFS), scalars)
    if draw(st.booleans()):
        specs, roots = draw(O.environments(n=2))
        vals = O.with_nodes(one_of(vals, S.instances(specs, depth=0)) if specs else vals)
    else:
        specs, roots = [], draw(st.lists(one_of(dict_trees(leaf=LEAF, max_leaves=10, width=4), list_trees(leaf=LEAF, max_leaves=10, width=4)), min_size=1, max_size=2))
    return specs, roots, draw(st.lists(O.edits(vals, ncfg=1), max_size=5)), draw(st.lists(one_of(any_keys, st.integers(-6, 6)), max_size=4))


def kinds(x, d, l, tag):
    for name, f, w in [("is_dict", OmegaConf.is_dict, d), ("is_list", OmegaConf.is_list, l), ("is_config", OmegaConf.is_config, d or l)]:
        r = attempt(lambda: f(x))
        if r != ("ok", w):
            fail(f"{name} of {tag} is {show(r)}, expected {w}")


def walk(raw, cfg, classes, ctx, tag, extra):
    """raw: plain contents of the container cfg"""
    isd = isinstance(raw, dict)
    kinds(cfg, isd, not isd, tag)
    own = cfg._metadata.object_type if isd else list
    want = own if isd and own in classes else dict if isd else list
    r = attempt(lambda: OmegaConf.get_type(cfg))
    if r != ("ok", want):
        fail(f"get_type of {tag} is {show(r)}, expected {want}")
    for k, v in (list(raw.items()) if isd else list(enumerate(raw))):
        names = [k] if isd else [k, k - len(raw)]
        for q in names:
            miss, interp = isinstance(v, str) and v == MISS, isinstance(v, str) and "${" in v
            r = attempt(lambda: OmegaConf.is_missing(cfg, q))
            if r != ("ok", miss):
                fail(f"is_missing({q!r}) of {tag} is {show(r)}; it holds {v!r}")
            r = attempt(lambda: OmegaConf.is_interpolation(cfg, q))
            if r != ("ok", interp):
                fail(f"is_interpolation({q!r}) of {tag} is {show(r)}; it holds {v!r}")
            node = cfg._get_node(q)
            r = attempt(lambda: OmegaConf.is_interpolation(node))
            if r != ("ok", interp):
                fail(f"is_interpolation of the node {q!r} of {tag} is {show(r)}; it holds {v!r}")
            if isinstance(v, (dict, list)):
                wt = node._metadata.object_type if isinstance(node, DictConfig) and node._metadata.object_type in classes else type(v)
            elif isinstance(node, (DictConfig, ListConfig)):
                continue  # a container that holds no container: the type is not specified, and its class may be remembered
            else:
                wt = type(v)
            r = attempt(lambda: OmegaConf.get_type(cfg, q))
            if r[0] != "ok" or r[1] is not wt and not (wt is type(None) and r[1] is None) and not issubclass(r[1] or object, wt):
                fail(f"get_type({q!r}) of {tag} is {show(r)}; it holds {v!r}")
            if miss or interp:
                ctx.hit("special")
            if not miss and not interp and not isinstance(v, (dict, list)):
                r = attempt(lambda: cfg[q])
                if r[0] == "ok":
                    kinds(r[1], False, False, f"{q!r} of {tag}")
        if isinstance(v, (dict, list)):
            walk(v, cfg._get_node(k), classes, ctx, f"{k!r} of {tag}", extra)
    for k in extra:
        present = k in raw if isd else isinstance(k, int) and not isinstance(k, bool) and -len(raw) <= k < len(raw)
        if present or not isd and isinstance(k, bool):
            continue
        if isd:
            if cfg._get_node(k, validate_access=False) is not None:  # another name of a key: an enum member's name or value
                continue
        for f in (OmegaConf.is_missing, OmegaConf.is_interpolation, OmegaConf.get_type):
            r = attempt(lambda: f(cfg, k))
            if r[0] == "ok" and r[1]:
                fail(f"{f.__name__}({k!r}) of {tag}, which has no such item, is {show(r)}")
            if r[0] == "exc" and (not isinstance(r[1], OmegaConfBaseException) or "$KEY" in str(r[1])):
                fail(f"{f.__name__}({k!r}) of {tag}, which has no such item, raises {show(r)}")
            if isd and f is OmegaConf.is_missing and r[0] == "exc" and not isinstance(r[1], KeyValidationError):
                fail(f"is_missing({k!r}) of {tag}, which has no such key, raises {show(r)}")


def run(case, ctx):
    specs, roots, ops, extra = case
    classes = S.realize(specs) if specs else ()
    env = O.Env([OmegaConf.create(boxed(S.inst_value(r, classes) if specs else r)) for r in roots], classes)
    log = []
    for op in ops:
        d = O.apply(env, op)
        if d is not None:
            log.append(d.desc + f": {d.out[0]}")
    for c in env.cfgs:
        if special(c):
            kinds(c, isinstance(c, DictConfig), isinstance(c, ListConfig), f"{c!r}")
            continue
        raw = OmegaConf.to_container(c)
        before = canon(c)
        walk(raw, c, classes, ctx, f"{show(c, 600)} after {log}", extra)
        kinds(raw, False, False, "a plain container")
        if canon(c) != before:
            fail(f"queries changed {show(c)} after {log}")
        if log:
            ctx.label("edited")


LEGS = [
    Leg("queries", cases, run, quick=5000,
        rule="generated configs (all kinds of contents, structured, None/missing/interpolated containers), edited, every place queried with present and absent keys; non-trivial: a place is missing or an interpolation"),
]
