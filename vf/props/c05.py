"""C05: copies and pickles are equal, equally typed, and detached."""
import copy, pickle
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, OmegaConf
from ..core import Leg, fail
from ..gen import *
from .. import schema as S, interp as I
from ..snap import meta, raw, walk

METHODS = ["pickle", "pickle", "copy", "deepcopy", ".copy", "deepcopy twice", "pickle in list"]


@st.composite
def cases(draw):
    specs = draw(S.schemas(max_cls=3, frozen=True))
    kind = draw(st.sampled_from(["inst", "inst", "inst", "tree", "typed"]))
    if kind == "inst":
        root = draw(S.instances(specs))
    elif kind == "tree":
        root = draw(st.dictionaries(st.sampled_from(["a", "b", "c", 1, Color.RED, 2.5, b"k", True]),
                                    trees(leaf=one_of(scalars, st.sampled_from(["???", "${a}", "${b.a}", "${.c}", "x${a}", "${oc.env:NOPE}"]), S.instances(specs, depth=0)),
                                          keys=st.sampled_from(["a", "b", "c", 1]), max_leaves=6), max_size=4))
    else:
        t = draw(one_of(st.tuples(st.just("dict"), S.key_types, S.types(len(specs), 1)), st.tuples(st.just("list"), S.types(len(specs), 1))))
        root = [t, draw(S.data(specs, t, missing=False).filter(lambda v: v is not None))]
    flags = draw(st.lists(st.tuples(st.integers(0, 20), st.sampled_from(["readonly", "struct", "allow_objects", "no_deepcopy_set_nodes"]), st.sampled_from([True, False, True])), max_size=3))
    return (specs, kind, root, flags, draw(st.integers(0, 12)), draw(st.sampled_from(METHODS)), draw(st.integers(0, 5)), draw(st.integers(0, 3)), draw(st.booleans()))


def build(specs, classes, kind, root):
    if kind == "typed":
        t, v = root
        val = S.inst_value(v, classes)
        if t[0] == "dict":
            return DictConfig(val, key_type=S.Any if t[1] == "any" else S.SIMPLE[t[1]], element_type=S.hint(t[2], classes)), t
        return ListConfig(val, element_type=S.hint(t[1], classes)), t
    if kind == "inst":
        return OmegaConf.structured(S.inst_value(root, classes)), ("cls", root[1])
    return OmegaConf.create(S.inst_value(root, classes)), "any"


def effective(cfg):
    return [(p, n._get_flag("readonly"), n._get_flag("struct")) for p, n in nodes_of(cfg)]


def reads(cfg):
    out = []
    for p, n in nodes_of(cfg):
        if p:
            par = S.parent_of(cfg, p)
            r = attempt(lambda: par[p[-1]])
            out.append((p, canon(safe(r[1])) if r[0] == "ok" else (type(r[1]).__name__, str(r[1]))))
    return out


def safe(v):
    return OmegaConf.to_container(v) if OmegaConf.is_config(v) else v


def proper(cfg, what):
    for p, n in nodes_of(cfg):
        if isinstance(n, (DictConfig, ListConfig)) and not special(n):
            for k in (list(n.keys()) if isinstance(n, DictConfig) else range(len(n))):
                c = n._get_node(k)
                if c._get_parent() is not n or c._key() != k:
                    fail(f"{what}: the node at {p + (k,)} has key {c._key()!r} and parent {show(c._get_parent())}")


def run(case, ctx):
    specs, kind, root, flags, sub, method, proto, post, victim_copy = case
    classes = S.realize(specs)
    r = attempt(lambda: build(specs, classes, kind, root))
    if r[0] != "ok":
        if kind != "tree":
            raise r[1]
        return
    cfg, t = r[1]
    pl = list(S.places(specs, classes, t, cfg))
    for i, f, v in flags:
        n = pl[i % len(pl)][2]
        n._set_flag(f, v)
    boxes = [(p, ty, n) for p, ty, n in pl if isinstance(n, (DictConfig, ListConfig))]
    p, ty, x = boxes[sub % len(boxes)] if sub else boxes[0]
    if post % 2:
        reads(cfg), effective(cfg)  # fills caches
    before = walk(cfg)
    b_reads = reads(x)
    b_eff = effective(x)

    def do(y):
        if method == "pickle":
            return pickle.loads(pickle.dumps(y, protocol=proto))
        if method == "pickle in list":
            return pickle.loads(pickle.dumps([y, y], protocol=proto))[1]
        if method == "copy":
            return copy.copy(y)
        if method == ".copy":
            return y.copy()
        return copy.deepcopy(copy.deepcopy(y) if "twice" in method else y)
    dup = do(x)
    tag = f"{method} of {p} of {show(cfg)} {specs if kind != 'tree' else ''}"
    if walk(cfg) != before:
        fail(f"{tag} changed the original")
    if dup is x:
        fail(f"{tag} is the original")
    wx, wd = walk(x), walk(dup)
    if wx != wd:
        fail(f"{tag} differs: {[(a, b) for a, b in zip(wx, wd) if a != b][:2] or (wx, wd)}")
    ids = {id(n) for _, n in nodes_of(x)}
    if any(id(n) in ids for _, n in nodes_of(dup)):
        fail(f"{tag} shares nodes with the original")
    proper(dup, tag)
    d_reads = reads(dup)
    if p and any("parent node" in repr(v) for _, v in b_reads):
        return  # refers to a container around the copied node, which is outside the copy
    if d_reads != b_reads:
        fail(f"{tag}: reads differ: {[(a, b) for a, b in zip(b_reads, d_reads) if a != b][:2]}")
    if effective(dup) != b_eff:
        fail(f"{tag}: effective flags differ: {[(a, b) for a, b in zip(b_eff, effective(dup)) if a != b][:2]}")
    # change one, look at the other
    a, b = (dup, x) if victim_copy else (x, dup)
    keep_b, keep_cfg, keep_reads = walk(b), walk(cfg), reads(b)
    keep_eff = effective(b)
    for _, n in list(nodes_of(a)):
        n._set_flag(["readonly", "struct"], False)
    e = S.enforced(specs, classes, ty, a)
    if e:
        fail(f"{tag}: in the {'copy' if victim_copy else 'original'} {e}")
    for _, n in list(nodes_of(a)):
        n._set_flag("readonly", True)
    for _, n in list(nodes_of(a)):
        n._set_flag(["readonly", "struct"], [False, None])
    for _, n in list(nodes_of(a)):
        if isinstance(n, ListConfig) and not special(n):
            while len(n):
                del n[0]
        elif isinstance(n, DictConfig) and not special(n):
            n._set_flag("struct", False)
            for k in list(n.keys()):
                del n[k]
            if n._metadata.key_type in (S.Any, str) and n._metadata.element_type is S.Any:
                n["new"] = 1
    if walk(b) != keep_b or effective(b) != keep_eff:
        fail(f"{tag}: changing the {'copy' if victim_copy else 'original'} changed the other: {show(b)} {[(c, d) for c, d in zip(keep_b, walk(b)) if c != d][:2]}")
    if victim_copy and (walk(cfg) != keep_cfg or reads(b) != keep_reads):
        fail(f"{tag}: changing the copy changed the original's config to {show(cfg)}")
    if method.startswith("pickle") and reads(b) != keep_reads:
        fail(f"{tag}: changing the original changed what its unpickled copy resolves to")
    if len(wx) > 2:
        ctx.hit(method)
    ctx.label(kind)
    if p:
        ctx.label("sub-node")


LEGS = [
    Leg("copies", cases, run, quick=4000,
        rule="generated structured, untyped and typed-container configs with flags on random nodes; a random container copied or pickled (protocols 0-5), compared node by node, "
             "then one side is changed everywhere; non-trivial: more than 2 nodes"),
]
