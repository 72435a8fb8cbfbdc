"""C07: merging untyped configs, against a reference merge."""
import copy
from hypothesis import strategies as st
from omegaconf import ListMergeMode, OmegaConf
from ..core import Leg, fail
from ..gen import *
from .. import interp as I

leaf = one_of(st.integers(0, 3), st.integers(0, 3), st.sampled_from([None, "s", True, 1.0, I.MISS, Color.RED, b"b", Path("p"), ""]), I.xrefs(), scalars)
keys = one_of(st.sampled_from(["a", "b", "c"]), st.sampled_from(["a", "b", "c", "d", 1, Color.RED, 2.5, True, b"k"]))
sub = trees(leaf=leaf, keys=keys, max_leaves=6, width=4)
dcfg = st.dictionaries(keys, sub, max_size=4)
lcfg = st.lists(one_of(leaf, sub), max_size=4)
simple_list = st.lists(one_of(st.integers(0, 3), st.sampled_from(["s", None, I.MISS, True, 1.0]), st.dictionaries(st.sampled_from("ab"), st.integers(0, 1), max_size=1)), max_size=4)
dl = st.dictionaries(st.sampled_from(["a", "b"]), one_of(simple_list, st.dictionaries(st.sampled_from("ab"), simple_list, max_size=2)), max_size=2)
cfgs = one_of(st.lists(dcfg, min_size=2, max_size=4), st.lists(dcfg, min_size=2, max_size=4), st.lists(dl, min_size=2, max_size=3), st.lists(lcfg, min_size=2, max_size=3), st.lists(simple_list, min_size=2, max_size=3))
# a dict (or list) merged over an interpolation to a dict (or list)
node_over_inter = st.tuples(sub, sub, st.sampled_from([None, 1])).map(lambda t: [{"a": t[0], "b": ("X", t[2], ["a"])}, {"b": t[1]}])
case_st = st.tuples(one_of(cfgs, cfgs, cfgs, node_over_inter), st.sampled_from(["REPLACE", "REPLACE", "EXTEND", "EXTEND_UNIQUE"]), st.lists(st.booleans(), min_size=4, max_size=4), st.booleans())


def run(case, ctx):
    specs, mode, as_cfg, victim = case
    trees_ = [I.from_x(s) for s in specs]
    raws = [I.raw(t) for t in trees_]
    want = copy.deepcopy(trees_[0])
    conflict = False
    try:
        for t in trees_[1:]:
            I.merge_into(want, want, t, mode)
        want = I.raw(want)
    except I.Conflict:
        conflict = True
    except I.Skip:
        return
    ins = [OmegaConf.create(copy.deepcopy(r)) if c else copy.deepcopy(r) for r, c in zip(raws, as_cfg)]
    before = [cs(r) for r in raws]
    kw = {} if mode == "REPLACE" else {"list_merge_mode": ListMergeMode[mode]}
    r = attempt(lambda: OmegaConf.merge(*ins, **kw))
    tag = f"merge({', '.join(show(x) for x in raws)}, {mode})"

    def inputs_unchanged(what):
        for i, x in enumerate(ins):
            if cs(x) != before[i]:
                fail(f"{tag}: {what} changed input {i} to {show(plain(x))}")
    inputs_unchanged("merging")
    if conflict:
        if r[0] != "exc" or not isinstance(r[1], TypeError):
            fail(f"{tag}: a dict and a list at the same place should be a TypeError, got {show(r)}")
        ctx.label("conflict")
        return
    if r[0] != "ok":
        fail(f"{tag} raised {type(r[1]).__name__}: {r[1]}, expected {show(want)}")
    if cs(r[1]) != cs(want):
        fail(f"{tag} = {show(plain(r[1]), 600)}, expected {show(want, 600)}")
    target = OmegaConf.create(copy.deepcopy(raws[0]))
    target.merge_with(*ins[1:], **kw)
    if cs(target) != cs(want):
        fail(f"{tag}: merge_with gives {show(plain(target))}, expected {show(want)}")
    inputs_unchanged("merge_with")
    spare = copy.deepcopy(ins)
    u = attempt(lambda: OmegaConf.unsafe_merge(*spare, **kw))
    if u[0] != "ok" or cs(u[1]) != cs(want):
        fail(f"{tag}: unsafe_merge gives {show(u)}, expected {show(want)}")
    if victim:
        scramble(r[1])
        scramble(target)
        inputs_unchanged("changing the result")
    else:
        for x in ins:
            scramble(x)
        for y in (r[1], target):
            if cs(y) != cs(want):
                fail(f"{tag}: changing the inputs changed the result to {show(plain(y))}")
    keys0 = [set(x) for x in raws if isinstance(x, dict)]
    if isinstance(raws[0], list) or any(a & b for i, a in enumerate(keys0) for b in keys0[i + 1:]):
        ctx.hit(mode)
    if any(isinstance(v, I.Expr) for t in trees_ for _, v in I.paths(t)):
        ctx.label("interpolations")


LEGS = [
    Leg("merges", lambda: case_st, run, quick=14000,
        rule="2-4 generated dict or list configs (or plain containers) merged in every list mode by merge, merge_with and unsafe_merge, then the result or the inputs are changed everywhere; non-trivial: two inputs share a key, or they are lists"),
]
