"""C19: OmegaConf.resolve against the reference resolver, and against reads on typed configs."""
import copy
from typing import Any
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.errors import InterpolationResolutionError, InterpolationToMissingValueError, KeyValidationError, ReadonlyConfigError, ValidationError
from ..core import Leg, fail
from ..gen import *
from .. import interp as I, schema as S, snap
from .c14 import raw_node

MISS = "???"


def has_interp(cfg):
    return next((p for p, n in nodes_of(cfg) if n._is_interpolation()), None)


def well_formed(cfg):
    """Every node appears once, in the container it calls its parent, under its key."""
    seen = {}
    for p, n in nodes_of(cfg):
        if id(n) in seen:
            return f"the node at {p} is also at {seen[id(n)]}"
        seen[id(n)] = p
        if p:
            par = raw_node(cfg, p[:-1])
            if n._get_parent() is not par:
                return f"the parent of {p} is not its container"
            if n._key() != p[-1]:
                return f"the key of {p} is {n._key()!r}"
    return None


def independent(cfg, pick, tag):
    """Changing everything in one container leaves the rest alone."""
    cs_ = [(p, n) for p, n in nodes_of(cfg) if isinstance(n, (DictConfig, ListConfig)) and not special(n)]
    p0, n0 = cs_[pick % len(cs_)]
    outside = [(p, canon_leaf(n)) for p, n in nodes_of(cfg) if p[:len(p0)] != p0]
    r = attempt(lambda: scramble(n0))
    if [(p, canon_leaf(n)) for p, n in nodes_of(cfg) if p[:len(p0)] != p0] != outside:
        fail(f"{tag}: changing {p0} afterwards changed something else: {show(plain(cfg))}")


def canon_leaf(n):
    return snap.raw(n), type(n).__name__


# ---------------------------------------------------------------- untyped graphs
def expected(tree, loc):
    """Reference contents after resolution of the subtree at loc."""
    v = I.at(tree, loc)
    if isinstance(v, dict):
        return {k: expected(tree, loc + (k,)) for k in v}
    if isinstance(v, list):
        return [expected(tree, loc + (i,)) for i in range(len(v))]
    if not isinstance(v, I.Expr):
        return v
    try:
        r = I.ev_loc(tree, loc, frozenset())
    except I.Err as e:
        if e.kind == "missing":
            return MISS
        raise
    if r[0] == "val":
        return r[1]
    return follow(tree, r[1], 0)


def follow(tree, loc, depth):
    """Resolved contents of a container referred to."""
    if depth > 20:
        raise I.Skip
    v = I.at(tree, loc)
    if isinstance(v, dict):
        return {k: follow(tree, loc + (k,), depth + 1) for k in v}
    if isinstance(v, list):
        return [follow(tree, loc + (i,), depth + 1) for i in range(len(v))]
    if not isinstance(v, I.Expr):
        return v
    try:
        r = I.ev_loc(tree, loc, frozenset())
    except I.Err as e:
        if e.kind == "missing":
            return MISS
        raise
    return r[1] if r[0] == "val" else follow(tree, r[1], depth + 1)


def hidden(tree):
    """Text values that read as interpolations are out of the domain."""
    return any(isinstance(v, str) and "${" in v for _, v in I.paths(tree))


def put(tree, loc, v):
    t = copy.deepcopy(tree)
    if not loc:
        return v
    I.at(t, loc[:-1])[loc[-1]] = v
    return t


kind_ref = st.tuples(st.just("R"), st.integers(0, 40), st.sampled_from(["abs", "abs", "rel"]), st.integers(0, 255), st.sampled_from(["", "", "", "", "", "nested", "alias"]))
kind_leaf = one_of(I.plain_leaf.filter(lambda v: v != MISS), I.plain_leaf, kind_ref, kind_ref, kind_ref,
                      st.tuples(st.just("C"), st.lists(one_of(st.sampled_from(["x", "-", " ", "é:"]), kind_ref), min_size=2, max_size=3)))
graph_case = st.tuples(one_of(I.skeleton(), I.skeleton(leaf=kind_leaf), I.skeleton(leaf=kind_leaf), I.skeleton(leaf=kind_leaf)), st.integers(0, 60), st.lists(st.tuples(st.integers(0, 12), st.sampled_from(["struct", "struct", "readonly"]), st.sampled_from([True, False])), max_size=2), st.integers(0, 20))


def run_graph(case, ctx):
    skel, at, flags, pick = case
    tree = I.build(skel)
    if hidden(tree):
        return
    boxes = [p for p, v in I.paths(tree) if isinstance(v, (dict, list))]
    loc = boxes[at % len(boxes)] if at % 3 == 0 else ()
    tag = f"resolving {'.'.join(map(str, loc)) or 'all'} of {show(I.raw(tree), 800)}"
    try:
        want = put(tree, loc, expected(tree, loc))
        err = None
    except I.Err as e:
        err = e.kind
    except (I.Skip, RecursionError):
        ctx.label("undefined")
        return
    cfg = OmegaConf.create(I.raw(tree))
    cont = [n for _, n in nodes_of(cfg) if isinstance(n, (DictConfig, ListConfig))]
    ro = False
    for n, name, val in flags:
        cont[n % len(cont)]._set_flag(name, val)
        ro = ro or name == "readonly" and val
    sub = raw_node(cfg, loc)
    before = {p: (snap.meta(n), snap.raw(n)) for p, n in nodes_of(cfg)}
    plain_before = cs(cfg)
    try:
        conv = ("ok", OmegaConf.to_container(sub, resolve=True))
    except Exception as e:
        conv = ("exc", e)
    if cs(cfg) != plain_before:
        fail(f"{tag}: converting changed the config")
    protected = ro and any(raw_node(cfg, p)._get_flag("readonly") for p, v in I.paths(tree) if isinstance(v, I.Expr) and p[:len(loc)] == loc)
    r = attempt(lambda: OmegaConf.resolve(sub))
    if err:
        if r[0] != "exc":
            fail(f"{tag}: expected an interpolation error ({err}), got {show(plain(cfg))}")
        if not isinstance(r[1], InterpolationResolutionError) and not (ro and isinstance(r[1], ReadonlyConfigError)):
            fail(f"{tag}: expected an interpolation error ({err}), got {type(r[1]).__name__}: {r[1]}")
        ctx.label("error")
        outside = {p: s for p, s in before.items() if p[:len(loc)] != loc}
        if {p: (snap.meta(n), snap.raw(n)) for p, n in nodes_of(cfg) if p[:len(loc)] != loc} != outside:
            fail(f"{tag}: the failing call changed the config outside: {show(plain(cfg))}")
        return
    if r[0] == "exc" and isinstance(r[1], ReadonlyConfigError) and protected:
        ctx.label("read-only")
        return
    if r[0] == "exc" and isinstance(r[1], ReadonlyConfigError) and ro:  # a copy of a read-only container with interpolations
        if any(before[p] != (snap.meta(n), snap.raw(n)) for p, n in nodes_of(cfg) if p[:len(loc)] != loc):
            fail(f"{tag}: the failing call changed the config outside: {show(plain(cfg))}")
        ctx.label("read-only target")
        return
    if protected:
        fail(f"{tag}: {show(r)} changed read-only values: {show(plain(cfg))}")
    if r[0] != "ok":
        fail(f"{tag}: raised {type(r[1]).__name__}: {r[1]}; expected {show(I.raw(want))}")
    check_result(cfg, sub, loc, I.raw(want), before, {p for p, v in I.paths(tree) if isinstance(v, I.Expr)}, tag, ctx)
    if conv[0] == "ok" and cs(plain(sub)) != cs(conv[1]):
        fail(f"{tag}: gives {show(plain(sub))}, resolved conversion gave {show(conv[1])}")
    independent(cfg, pick, tag)
    n = sum(isinstance(v, I.Expr) for _, v in I.paths(I.at(tree, loc)))
    if n:
        ctx.hit("resolved")
        if loc:
            ctx.label("sub-config")
        if conv[0] == "exc":
            ctx.label("reference to a missing value")
        if flags:
            ctx.label("flags")


def check_result(cfg, sub, loc, want, before, exprs, tag, ctx):
    if want is not None and cs(plain(cfg)) != cs(want):
        fail(f"{tag}: gives {show(plain(cfg), 600)}, expected {show(want, 600)}")
    p = has_interp(sub)
    if p is not None:
        fail(f"{tag}: {p} is still an interpolation")
    e = well_formed(cfg)
    if e:
        fail(f"{tag}: {e} in {show(plain(cfg))}")
    after = {p: (snap.meta(n), snap.raw(n)) for p, n in nodes_of(cfg)}
    for p, (m, v) in before.items():
        if p not in after:
            fail(f"{tag}: {p} is gone")
        m2, v2 = after[p]
        if p in exprs and p[:len(loc)] == loc:
            # name, ref_type, object_type, optional, key, flags
            # an untyped value takes over the type of the config it referred to, as when that config is assigned
            if m[5] != m2[5] or m[2] is not Any and (m[1:3] != m2[1:3] or m[4] != m2[4]):
                fail(f"{tag}: metadata of {p} changed from {m} to {m2}")
            own = {k: x for k, x in m[6].items() if x is not None}
            if {k: m2[6].get(k) for k in own} != own:
                fail(f"{tag}: flags of {p} changed from {m[6]} to {m2[6]}")
            continue
        if m != m2:
            fail(f"{tag}: metadata of {p} changed from {m} to {m2}")
        if v != v2:
            fail(f"{tag}: the value of {p}, not an interpolation being resolved, changed from {v} to {v2}")
    snap_ = snap.walk(cfg)
    OmegaConf.resolve(sub)
    if snap.walk(cfg) != snap_:
        fail(f"{tag}: resolving again changed it: {show(plain(cfg))}")


# ---------------------------------------------------------------- typed configs
@st.composite
def typed_cases(draw):
    specs = draw(S.schemas(max_cls=2, req=True))
    x = S.instances(specs)
    extra = draw(st.dictionaries(st.sampled_from(["p", "q", "r"]), one_of(S.scalars, S.good(draw(S.types(0, 2)), exact=True), st.lists(st.integers(0, 3), max_size=3), st.dictionaries(st.sampled_from(["a", "b", "u"]), st.integers(0, 3), max_size=2)), max_size=3))
    root = {"s": draw(x), "t": draw(x), **extra}
    refs = draw(st.lists(st.tuples(st.integers(0, 40), st.integers(0, 60), st.sampled_from(["", "", "", "x-"])), min_size=1, max_size=5))
    return specs, root, refs, draw(st.integers(0, 20))


def path_expr(p):
    return ".".join(map(str, p))


def writable(p):
    return all(isinstance(k, int) and not isinstance(k, bool) or isinstance(k, str) and k.isidentifier() for k in p)


def contents(c, depth=0):
    """Contents as reads give them."""
    if depth > 12:
        raise I.Skip
    if c._is_none():
        return None
    if c._is_missing():
        return MISS
    return {k: one(c, k, depth) for k in c.keys()} if isinstance(c, DictConfig) else [one(c, i, depth) for i in range(len(c))]


def one(c, k, depth):
    from omegaconf.base import UnionNode
    n = c._get_node(k)
    if n._is_interpolation():
        try:
            v = c[k]
        except InterpolationToMissingValueError:
            return MISS
        return contents(v, depth + 1) if OmegaConf.is_config(v) else v
    if isinstance(n, (DictConfig, ListConfig)):
        return contents(n, depth + 1)
    v = n._value()
    return v._value() if isinstance(n, UnionNode) and not isinstance(v, (str, type(None))) else v


def run_typed(case, ctx):
    specs, root, refs, pick = case
    classes = S.realize(specs)
    cfg = OmegaConf.create(S.inst_value(root, classes))
    places = {p: t for k in ("s", "t") for p, t, n in S.places(specs, classes, ("cls", root[k][1]), cfg._get_node(k), (k,))}
    n = 0
    for a, b, pre in refs:
        ps = [p for p, _ in nodes_of(cfg) if p and writable(p)]
        ss = [p for p in ps if len(p) > 1 and p in places] or ps
        p, q = ss[a % len(ss)], ps[b % len(ps)]
        if p[:len(q)] == q or q[:len(p)] == p:
            continue
        text = pre + "${" + path_expr(q) + "}"
        r = attempt(lambda: raw_node(cfg, p[:-1]).__setitem__(p[-1], text))
        n += r[0] == "ok"
    if not n:
        return
    if any(isinstance(node, (DictConfig, ListConfig)) and special(node) and node._is_interpolation() for p, node in nodes_of(cfg)):
        ctx.label("container field as an interpolation")
    tag = f"{specs} resolving {show(cfg, 800)}"
    want = attempt(lambda: contents(cfg))
    if want[0] == "exc" and isinstance(want[1], I.Skip):
        ctx.label("cyclic")
        return
    if want[0] == "ok" and any(isinstance(v, (str, Path)) and "${" in str(v) for _, v in I.paths(want[1])):
        return  # the text of a container, with interpolations
    if want[0] == "exc" and not isinstance(want[1], InterpolationResolutionError):
        raise want[1]
    before = {p: (snap.meta(x), snap.raw(x)) for p, x in nodes_of(cfg)}
    exprs = {p for p, x in nodes_of(cfg) if x._is_interpolation()}
    # a container or union field's own type is not checked when the interpolation is read, only when it is resolved
    loose = any(type(raw_node(cfg, p)).__name__ in ("DictConfig", "ListConfig", "UnionNode") for p in exprs)
    r = attempt(lambda: OmegaConf.resolve(cfg))
    if want[0] == "exc":
        if r[0] != "exc":
            fail(f"{tag}: gives {show(cfg)}, though reading raises {want[1]}")
        ctx.label("error")
        return
    if r[0] == "exc":
        if loose:
            if not isinstance(r[1], (ValidationError, KeyValidationError, InterpolationResolutionError)):
                fail(f"{tag}: raised {type(r[1]).__name__}: {r[1]}")
            ctx.label("rejected")
            return
        fail(f"{tag}: raised {type(r[1]).__name__}: {r[1]}; expected {show(want[1])}")
    check_result(cfg, cfg, (), None if loose else want[1], before, exprs, tag, ctx)
    for k in ("s", "t"):
        e = S.conforms(specs, classes, ("cls", root[k][1]), cfg._get_node(k))
        if e:
            fail(f"{tag}: gives {show(cfg)}: {e}")
    ctx.hit("typed, loose" if loose else "typed")
    for k in ("s", "t"):
        e = S.enforced(specs, classes, ("cls", root[k][1]), cfg._get_node(k))
        if e:
            fail(f"{tag}: afterwards {e}")


LEGS = [
    Leg("graphs", lambda: graph_case, run_graph, quick=6000,
        rule="generated configs with absolute, relative, bracketed, nested, aliased and concatenated references, resolved as a whole or one sub-config, with flags on containers; "
             "non-trivial: at least one interpolation is resolved"),
    Leg("typed", typed_cases, run_typed, quick=3000,
        rule="two instances of generated schemas with references between any two places, resolved and compared with reading each value; non-trivial: the config resolves"),
]
