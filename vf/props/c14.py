"""C14: interpolation against a reference resolver."""
from hypothesis import strategies as st
from omegaconf import OmegaConf
from omegaconf.errors import InterpolationKeyError, InterpolationResolutionError, InterpolationToMissingValueError, MissingMandatoryValue
from ..core import Leg, fail
from ..gen import *
from .. import interp as I, snap

MISS = "???"

KINDS = {"key": InterpolationKeyError, "missing": InterpolationToMissingValueError, "cycle": InterpolationResolutionError,
         "other": InterpolationResolutionError, "key-or-other": InterpolationResolutionError}
step = st.tuples(st.sampled_from(["set", "set", "expr", "del", "container"]), st.integers(0, 40), one_of(I.plain_leaf, I.trees(leaf=I.plain_leaf, keys=I.keys, max_leaves=3)), I.ref_spec)
case_st = st.tuples(I.skeleton(), st.lists(step, max_size=3))


def raw_node(cfg, loc):
    for k in loc:
        cfg = cfg._get_node(k)
    return cfg


def check(cfg, tree, ctx):
    before = cs(cfg)
    for loc, v in list(I.paths(tree)):
        if not loc or not (isinstance(v, I.Expr) or v == I.MISS and isinstance(v, str)):
            continue
        parent, key = raw_node(cfg, loc[:-1]), loc[-1]
        routes = [("item", lambda: parent[key])]
        if isinstance(key, str):
            routes.append(("attr", lambda: getattr(parent, key)))
            routes.append(("get", lambda: parent.get(key)))
        if all(isinstance(k, int) or k for k in loc):
            routes.append(("select", lambda: OmegaConf.select(cfg, I.spell(None, [str(k) for k in loc], 0), throw_on_missing=True)))
        if not isinstance(v, I.Expr):
            for name, f in routes:
                r = attempt(f)
                if name != "get" and not (r[0] == "exc" and isinstance(r[1], MissingMandatoryValue)):
                    fail(f"missing value at {loc} of {show(I.raw(tree))} read by {name}: {show(r)}")
            continue
        try:
            want = I.ev_loc(tree, loc, frozenset())
            err = None
        except I.Err as e:
            err = e.kind
        except I.Skip:
            ctx.label("undefined")
            continue
        where = f"{'.'.join(map(str, loc))} = {v.text!r} in {show(I.raw(tree), 700)}"
        for name, f in routes:
            r = attempt(f)
            if err:
                if r[0] != "exc":
                    fail(f"{name} of {where}: expected an interpolation error ({err}), got {show(r[1])}")
                if not isinstance(r[1], KINDS[err]):
                    fail(f"{name} of {where}: expected {KINDS[err].__name__} ({err}), got {type(r[1]).__name__}: {r[1]}")
                continue
            if r[0] != "ok":
                fail(f"{name} of {where}: expected {show(want)}, raised {type(r[1]).__name__}: {r[1]}")
            if want[0] == "val":
                if canon(r[1]) != canon(want[1]):
                    fail(f"{name} of {where}: expected {want[1]!r}, got {show(r[1])}")
            elif r[1] is not raw_node(cfg, want[1]):
                fail(f"{name} of {where}: expected the container at {want[1]}, got {show(plain(r[1]))}")
        if err:
            ctx.label("error:" + err)
        else:
            ctx.hit("container" if want[0] == "loc" else "value")
            if v.ast[0] == "cat":
                ctx.label("concatenation")
            elif any(not isinstance(e, str) for e in v.ast[2]):
                ctx.label("nested")
    try:
        want = ("ok", I.convert(tree, ()))
    except I.Err as e:
        want = ("exc", e.kind)
    except I.Skip:
        want = None
    if want:
        r = attempt(lambda: OmegaConf.to_container(cfg, resolve=True))
        if want[0] == "ok":
            if r[0] != "ok" or cs(r[1]) != cs(want[1]):
                fail(f"resolved conversion of {show(I.raw(tree), 700)}: {show(r)} expected {show(want[1])}")
        elif r[0] != "exc" or not isinstance(r[1], InterpolationResolutionError):
            fail(f"resolved conversion of {show(I.raw(tree), 700)}: {show(r)} expected an interpolation error")
    if cs(cfg) != before or cs(cfg) != cs(I.raw(tree)):
        fail(f"reading changed the config {show(I.raw(tree))}: {show(plain(cfg))}")


def apply(cfg, tree, s):
    kind, n, val, ref = s
    ps = [p for p, _ in I.paths(tree) if p]
    if not ps:
        return
    loc = ps[n % len(ps)]
    par = I.at(tree, loc[:-1])
    cpar = raw_node(cfg, loc[:-1])
    if kind == "del":
        if isinstance(par, list):
            par.pop(loc[-1])
            del cpar[loc[-1]]
        else:
            del par[loc[-1]]
            del cpar[loc[-1]]
        return
    if kind == "expr":
        helpers = {}
        e = I.make_expr(tree, loc, ref, helpers)
        for k, x in helpers.items():
            k2 = k
            tree[k2] = x
            cfg[k2] = x.text if isinstance(x, I.Expr) else x
        par[loc[-1]] = e
        cpar[loc[-1]] = e.text
        return
    par[loc[-1]] = pure(val)
    cpar[loc[-1]] = val


def run(case, ctx):
    skel, steps = case
    tree = I.build(skel)
    cfg = OmegaConf.create(I.raw(tree))
    check(cfg, tree, ctx)
    for s in steps:
        apply(cfg, tree, s)
        check(cfg, tree, ctx)
        ctx.label("after-change")


# ---------------------------------------------------------------- nested keys: only strings are keys
KEY_VALUES = ["a", "1", "True", "true", "None", "null", "", "x y", True, False, None, 0, 1, -1, 7, 1.5, 0.0, -0.0, 1e20, float("inf"), b"a", b"", Color.RED, Path("a"), {}, [], {"a": 1}, ["a"], MISS]
KEY_SHAPES = ["${d.${b}}", "${d[${b}]}", "x${d.${b}}", "${.d.${.b}}", "${d.${b}.e}", "${d[${b}][e]}", "${${b}}", "${${b}.e}", "${d.${c}}", "${l.${b}}", "${l[${b}]}", "${d.${b}}${d.${b}}", "${vf_id14:${d.${b}}}"]


def enum_keys(tier):
    return [(i, s, how) for i in range(len(KEY_VALUES)) for s in KEY_SHAPES for how in ("item", "node", "select", "container")]


def run_keys(case, ctx):
    i, text, how = case
    v = KEY_VALUES[i]
    names = {str(v), repr(v), str(v).lower(), "RED", "0", "1", "-1", "7", "a", "", "None", "null", "True", "true", "1.5"}
    inner = {n: "hit " + n for n in names}
    if ".e}" in text or "[e]" in text:
        inner = {n: {"e": "hit " + n} for n in names}
    tree = {**{n: x for n, x in inner.items() if n not in "bcdlr"}, "b": v, "c": "${b}", "d": inner, "l": ["hit 0", "hit 1"], "r": text}
    OmegaConf.register_new_resolver("vf_id14", lambda x: x, replace=True)
    try:
        cfg = OmegaConf.create(tree)
        before = snap.walk(cfg)
        r = attempt({"item": lambda: cfg.r, "node": lambda: cfg._get_node("r")._dereference_node()._value(), "select": lambda: OmegaConf.select(cfg, "r"), "container": lambda: OmegaConf.to_container(OmegaConf.masked_copy(cfg, list(tree)), resolve=True)["r"] if not (isinstance(v, str) and v == MISS) else cfg.r}[how])
        tag = f"b is {v!r}, reading {text!r} by {how}"
        if not isinstance(v, str) or v == MISS:
            if r[0] != "exc" or not isinstance(r[1], InterpolationResolutionError):
                fail(f"{tag}: only a string can be a key, got {show(r)}")
            ctx.hit("refused")
        else:
            hit = "hit " + v
            if v == "":
                return  # (an empty key is not judged)
            if "${l" in text:
                if v == "1":
                    hit = "hit 1"
                else:
                    if r[0] != "exc" or not isinstance(r[1], InterpolationResolutionError):
                        fail(f"{tag}: {show(r)}")
                    return
            want = {"x${d.${b}}": "x" + hit, "${d.${b}}${d.${b}}": hit + hit}.get(text, hit)
            if r[0] != "ok" or r[1] != want:
                fail(f"{tag}: expected {want!r}, got {show(r)}")
            ctx.hit("resolved")
        if snap.walk(cfg) != before:
            fail(f"{tag}: reading changed the config")
    finally:
        OmegaConf.clear_resolver("vf_id14")


LEGS = [
    Leg("keys", None, run_keys, quick=0, enumerated=enum_keys,
        rule="the part of a reference that is itself a reference, to values of every type (with the tree holding the key spelled as the value's text), in every syntactic place: a string is the key, anything else raises; non-trivial: all"),
    Leg("graphs", lambda: case_st, run, quick=4000,
        rule="generated configs with absolute, relative, bracketed, nested and concatenated references (valid, dangling, cyclic, to missing, through other interpolations), every interpolation read by several routes, again after up to 3 changes; non-trivial: some interpolation resolves to a value"),
]
