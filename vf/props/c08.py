"""C08: merging into a structured config, against a reference typed merge."""
import copy
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, ListMergeMode, OmegaConf, UnionNode, ValueNode
from omegaconf.errors import OmegaConfBaseException
from ..core import Leg, fail
from ..gen import *
from .. import schema as S


def patch(specs, t, depth=3, wild=1):
    """Data to merge over a place of type t: partial contents, sometimes illegal."""
    o, b = S.strip(t)
    if b == "any" or isinstance(b, str) or b[0] == "union":
        alts = [S.data(specs, t)] * 4
    elif b[0] == "cls":
        alts = [fields_patch(specs, b[1], depth - 1)] * 3 if depth > 0 else []
        alts.append(S.instances(specs, depth=0, among=S.subs(specs, b[1])))
        if wild:
            alts.append(S.broken(specs, S.instances(specs, depth=0, among=S.subs(specs, b[1]))))
    elif b[0] == "dict":
        alts = [st.dictionaries(S.key_of(b[1]), patch(specs, b[2], depth - 1, wild), max_size=2)] * 3 + [S.data(specs, t, depth=1)]
    else:
        alts = [st.lists(patch(specs, b[1], depth - 1, wild), max_size=2)] * 3 + [S.data(specs, t, depth=1)]
    if wild:
        alts.append(one_of(S.wild_values, st.sampled_from(["${a}", "${nope}", "${b}"]), S.instances(specs, depth=0)))
    if o:
        alts.append(st.none())
    return one_of(*alts)


@st.composite
def fields_patch(draw, specs, i, depth=3, wild=1):
    out = {}
    fl = S.fields_of(specs, i)
    for name, t, _ in fl:
        if draw(st.integers(0, 2)):
            out[name] = draw(patch(specs, t, depth, wild and draw(st.integers(0, 3)) == 0))
    if wild and draw(st.integers(0, 11)) == 0:
        out[draw(st.sampled_from(["zz", 1, "A"]))] = draw(st.integers(0, 2))
    return out


@st.composite
def cases(draw):
    specs = draw(S.schemas(max_cls=3, selfref=True, max_fields=3))
    for s in specs[draw(st.integers(0, 2)):]:  # more containers of classes
        n = len(specs)
    root = draw(S.instances(specs))
    srcs = []
    for _ in range(draw(st.integers(1, 2))):
        if draw(st.integers(0, 4)) == 0:
            srcs.append(["inst", draw(S.instances(specs, among=S.subs(specs, root[1]) if draw(st.integers(0, 3)) else None))])
        else:
            srcs.append([draw(st.sampled_from(["plain", "cfg"])), draw(fields_patch(specs, root[1], wild=draw(st.integers(0, 1))))])
    mode = draw(st.sampled_from(["REPLACE", "REPLACE", "EXTEND", "EXTEND_UNIQUE"]))
    return specs, root, srcs, mode, draw(st.integers(0, 3))


def types_of(cfg):
    return [(p, type(n).__name__, str(n._metadata)) for p, n in nodes_of(cfg)]


def run(case, ctx):
    specs, root, srcs, mode, variant = case
    classes = S.realize(specs)
    rt = ("cls", root[1])
    want, bad, skip = S.inst(specs, root[1], root[2]), False, False
    try:
        for how, v in srcs:
            want = S.merged(specs, ("cls", want.i), want, v, mode)
    except S.Bad:
        bad = True
    except S.Skip:
        skip = True
    base = OmegaConf.structured(S.inst_value(root, classes))
    ins, befores = [], []
    for how, v in srcs:
        val = S.inst_value(v, classes)
        if how != "plain":
            r = attempt(lambda: OmegaConf.create(val) if how == "cfg" else OmegaConf.structured(val))
            if r[0] != "ok":
                return  # not a config
            val = r[1]
        ins.append(val)
    tag = f"{specs} {show(base)} <- {', '.join(show(x) for x in ins)} ({mode})"
    before = canon(base), types_of(base), [safe(x) for x in ins], [types_of(x) if OmegaConf.is_config(x) else None for x in ins]
    kw = {"list_merge_mode": ListMergeMode[mode]}
    if variant == 3:
        dup = copy.deepcopy(base)

        def do():
            dup.merge_with(*ins, **kw)
            return dup
        r = attempt(do)
    elif variant == 2 and mode == "REPLACE":
        dup = copy.deepcopy(base)
        ii = copy.deepcopy(ins)
        r = attempt(lambda: OmegaConf.unsafe_merge(dup, *ii, **kw))
    else:
        r = attempt(lambda: OmegaConf.merge(base if variant else S.inst_value(root, classes), *ins, **kw))
    after = canon(base), types_of(base), [safe(x) for x in ins], [types_of(x) if OmegaConf.is_config(x) else None for x in ins]
    if after != before:
        fail(f"{tag}: merging ({r[0]}) modified its inputs: {show(base)} {show(ins)}")
    if r[0] == "exc":
        e = S.conforms(specs, classes, rt, dup) if variant == 3 else None
        if e:
            fail(f"{tag}: the failed merge_with left {show(dup)}: {e}")
        if not isinstance(r[1], OmegaConfBaseException) and not isinstance(r[1], (TypeError, ValueError)):
            fail(f"{tag} raised {type(r[1]).__name__}: {r[1]}")
        if not bad and not skip:
            fail(f"{tag} raised {type(r[1]).__name__}: {r[1]}; expected {show(S.flat(want))}")
        ctx.hit("rejected")
        return
    res = r[1]
    e = S.conforms(specs, classes, rt, res)
    if e:
        fail(f"{tag} gives {show(res)}: {e}")
    if bad:
        fail(f"{tag} gives {show(plain(res))}, expected an error")
    if not skip:
        if cs(res) != cs(S.flat(want)):
            fail(f"{tag} gives {show(plain(res), 500)}, expected {show(S.flat(want), 500)}")
        e = S.same_types(specs, classes, want, res)
        if e:
            fail(f"{tag}: classes of the result: {e}")
        ctx.hit("merged")
    e = S.enforced(specs, classes, rt, res)
    if e:
        fail(f"{tag}: after the merge {e}")
    after = canon(base), types_of(base), [safe(x) for x in ins], [types_of(x) if OmegaConf.is_config(x) else None for x in ins]
    if after != before and variant < 2:
        fail(f"{tag}: changing the result changed the inputs: {show(base)} {show(ins)}")


def safe(x):
    return canon(x) if OmegaConf.is_config(x) or not isinstance(x, (dict, list)) else \
        [(canon(k), safe(y)) for k, y in x.items()] if isinstance(x, dict) else [safe(y) for y in x]


def raw(n):
    v = n._value()
    return v._value() if isinstance(n, UnionNode) and isinstance(v, ValueNode) else plain(n) if isinstance(n, (DictConfig, ListConfig)) else v


# --- a class, instance or typed config merged over untyped data: the result is typed as well
@st.composite
def over_cases(draw):
    specs = draw(S.schemas(max_cls=2, selfref=False, max_fields=3, interps=False))
    i = draw(st.integers(0, len(specs) - 1))
    for f in specs[i]["fields"]:
        if draw(st.booleans()):
            f[2] = S.MISS
    src = ["cls", i] if draw(st.integers(0, 2)) else ["inst", draw(S.instances(specs, among=[i]))]
    data = draw(fields_patch(specs, i, wild=draw(st.integers(0, 2)) == 0))
    return specs, i, {k: None if draw(st.integers(0, 4)) == 0 else v for k, v in data.items()}, src, draw(st.integers(0, 2))


def alike(specs, t, v):
    """Is v plain data with dicts exactly where type t has dicts or classes, and no lists?  (lists of the untyped config stay untyped)"""
    o, b = S.strip(t)
    if S.is_obj(v) or isinstance(v, (list, tuple)):
        return False
    if isinstance(b, str) and b != "any" or b[0] == "union":
        return not isinstance(v, dict)
    if isinstance(v, dict):
        if b[0] == "dict":
            return all(alike(specs, b[2], x) for x in v.values())
        if b[0] == "cls":
            f = {n: t for n, t, _ in S.fields_of(specs, b[1])}
            return all(k in f and alike(specs, f[k], x) for k, x in v.items())
        return b == "any"
    return b == "any" or v is None or v == S.MISS  # (an interpolation there is replaced by its target, of whatever type)


def run_over(case, ctx):
    specs, i, data, src, variant = case
    classes = S.realize(specs)
    r = attempt(lambda: OmegaConf.create(S.inst_value(data, classes)))
    if r[0] != "ok":
        return
    base = r[1]
    if not alike(specs, ("cls", i), data):
        return
    top = OmegaConf.structured(classes[i] if src[0] == "cls" else S.inst_value(src[1], classes))
    before = canon(base), types_of(base), canon(top), types_of(top)
    tag = f"{specs} {show(base)} <- {src}"
    if variant == 0:
        r = attempt(lambda: OmegaConf.merge(base, classes[i] if src[0] == "cls" else S.inst_value(src[1], classes)))
    elif variant == 1:
        r = attempt(lambda: OmegaConf.merge(base, top))
    else:
        def f():
            d = copy.deepcopy(base)
            d.merge_with(top)
            return d
        r = attempt(f)
    if (canon(base), types_of(base), canon(top), types_of(top)) != before:
        fail(f"{tag}: merging modified its inputs")
    if r[0] == "exc":
        if not isinstance(r[1], OmegaConfBaseException) and not isinstance(r[1], (TypeError, ValueError)):
            fail(f"{tag} raised {type(r[1]).__name__}: {r[1]}")
        ctx.hit("rejected")
        return
    res = r[1]
    for name, t, _ in S.fields_of(specs, i):
        b = S.strip(t)[1]
        if b == "any" or not isinstance(b, str) and b[0] != "union":
            continue
        mine = top._get_node(name)
        got = res._get_node(name)
        if not mine._is_missing():
            if canon(raw(got)) != canon(raw(mine)):
                fail(f"{tag} gives {show(res)}: {name} should be the {raw(mine)!r} of the class")
        elif name in data:
            try:
                want = S.conv(t, data[name])
            except S.Bad:
                fail(f"{tag} gives {show(res)}: {data[name]!r} is illegal for {name} of type {t}")
            except S.Skip:
                continue
            if canon(raw(got)) != canon(want):
                fail(f"{tag} gives {show(res)}: {name} should be {want!r}")
    e = S.conforms(specs, classes, ("cls", i), res)
    if e:
        fail(f"{tag} gives {show(res)}: {e}")
    e = S.enforced(specs, classes, ("cls", i), res)
    if e:
        fail(f"{tag} gives {show(res)}: after the merge {e}")
    ctx.hit("typed")


LEGS = [
    Leg("over", over_cases, run_over, quick=2000,
        rule="an untyped config (partial data of the shape of a generated class, legal or not, without lists) and then the class, an instance or its config merged over it: simple fields hold the value of the class or else the converted earlier one, "
             "every place conforms to its declared type and still enforces it, inputs unchanged; non-trivial: all that merge or are rejected"),
    Leg("merges", cases, run, quick=4800,
        rule="generated schemas and 1-2 merged inputs (plain data, configs, instances; partial, with illegal values and unknown keys at any depth) through merge, merge_with and "
             "unsafe_merge in every list mode; non-trivial: the reference decides the outcome"),
]
