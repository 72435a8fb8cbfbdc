"""C27: after any history, configs are proper trees that share nothing."""
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.base import UnionNode
from ..core import Leg, fail
from ..gen import *
from .. import ops as O, schema as S
from ..snap import walk, meta


@st.composite
def cases(draw):
    specs, roots = draw(O.environments())
    vals = O.with_nodes(one_of(O.plain_values, S.instances(specs, depth=0)) if specs else O.plain_values)
    op = one_of(O.edits(vals), O.edits(vals), O.edits(vals), O.makes(O.CFG_OPS + ["unsafe"]), O.flag_ops() if draw(st.integers(0, 3)) == 0 else O.edits(vals))
    return specs, roots, draw(st.lists(op, min_size=1, max_size=8))


def note(env, ci, node, used):
    """(node, snapshot, path in the edited config) of each used node"""
    return [(u, walk(u), O.path_of(env.cfgs[ci], u)) for u in used]


def related(p, q):
    return p[:len(q)] == q or q[:len(p)] == p


def tree(cfg):
    """None or what is wrong with the tree; ids of all nodes."""
    ids = set()

    def rec(n, parent, key, root, path):
        if id(n) in ids:
            return f"the node at {path} occurs twice"
        ids.add(id(n))
        if parent is not None:
            if n._get_parent() is not parent:
                return f"the parent of the node at {path} is {show(n._get_parent())} instead of the container that holds it"
            if n._key() != key:
                return f"the node at {path} has the key {n._key()!r}"
        if n._get_root() is not root:
            return f"the root of the node at {path} is {show(n._get_root())}"
        if isinstance(n, UnionNode):
            v = n._value()
            if not isinstance(v, (str, type(None))):
                if v._get_parent() is not n:
                    return f"the value node at {path} has the parent {show(v._get_parent())}"
                if id(v) in ids:
                    return f"the node at {path} occurs twice"
                ids.add(id(v))
        elif isinstance(n, DictConfig) and not special(n):
            for k in n.keys():
                e = rec(n._get_node(k), n, k, root, path + (k,))
                if e:
                    return e
        elif isinstance(n, ListConfig) and not special(n):
            for i, c in enumerate(n._content):
                e = rec(c, n, i, root, path + (i,))
                if e:
                    return e
        return None
    root = cfg._get_root()
    e = rec(cfg, None, None, root, ())
    return e, ids


def run(case, ctx):
    specs, roots, ops = case
    env = O.start(specs, roots)
    log = [repr(roots)]
    shared = False
    for op in ops:
        before = {id(c): (walk(c), c._get_parent()) for c in env.cfgs}
        keep = list(env.cfgs)
        r = O.apply(env, op, note)
        if r is None:
            continue
        log.append(f"{r.desc}: {'ok' if r.ok else type(r.out[1]).__name__}")
        tag = "; ".join(log)
        for c in keep:
            if r.ci is not None and c is keep[r.ci]:
                continue
            w, p = before[id(c)]
            if walk(c) != w:
                fail(f"{tag}: changed another config to {show(plain(c))}: {[(a, b) for a, b in zip(w, walk(c)) if a != b][:2]}")
            if c._get_parent() is not p:
                fail(f"{tag}: changed the parent of another config")
        for u, w, p in r.used_before:
            if p is not None and not related(p, r.path):
                if walk(u) != w or u._get_parent() is None:
                    fail(f"{tag}: the used node at {p} became {show(u)} with parent {show(u._get_parent())}")
        seen = {}
        for c in env.cfgs:
            e, ids = tree(c)
            if e:
                fail(f"{tag}: in {show(plain(c))}, {e}")
            for i in ids:
                if i in seen and seen[i] is not c:
                    fail(f"{tag}: two configs share a node: {show(plain(c))} / {show(plain(seen[i]))}")
                seen[i] = c
        if r.ok and (r.used or r.new is not None):
            shared = True
            ctx.label(r.name)
        elif r.ok:
            ctx.label("edit " + r.name)
    if shared:
        ctx.hit()


LEGS = [
    Leg("histories", cases, run, quick=9000,
        rule="1-3 configs (plain and structured), 1-8 edits of every kind with plain values and nodes of the same or other configs, copies, pickles, merges and wrapping; every invariant after "
             "every step on every live config; non-trivial: a node was put somewhere or a config made from another"),
]
