"""C09: typed fields never hold values of a wrong type, whatever is done to a structured config."""
import copy
from hypothesis import strategies as st
from omegaconf import (AnyNode, BooleanNode, BytesNode, DictConfig, EnumNode, FloatNode, IntegerNode, ListConfig, ListMergeMode, OmegaConf, PathNode,
                       StringNode, open_dict)
from omegaconf.errors import OmegaConfBaseException
from ..core import Leg, fail
from ..gen import *
from .. import schema as S

NODE = {int: IntegerNode, float: FloatNode, bool: BooleanNode, str: StringNode, bytes: BytesNode}
WRAPS = ["plain"] * 6 + ["config", "config", "node", "anynode", "wrongnode"]
OPS = ["set", "set", "set", "attr", "append", "insert", "slice", "extend", "iadd", "del", "pop", "clear", "update", "merge", "merge", "path", "remove", "sort", "setdefault", "whole",
       "delattr", "sub", "merge_sub"]
LIST_OPS = {"append", "insert", "slice", "extend", "iadd", "clear", "remove", "sort"}
INTERPS = st.sampled_from(["${a}", "${b}", "${x}", "${y}", "${nope}", "${.a}", "${a.b}", "${", "${a}x", "\\${a}", "${oc.create:[1]}", "${x.0}"])
SINGLE = {"set", "attr", "append", "insert", "del", "pop", "remove", "setdefault", "delattr", "sub", "whole"}


@st.composite
def cases(draw):
    specs = draw(S.schemas(max_cls=3, selfref=True))
    root = draw(S.instances(specs))
    pools = []
    for t in S.subtypes(specs):
        legal = S.data(specs, t, depth=1)
        pools.append([t, draw(st.lists(one_of(legal, legal, legal, S.broken(specs, legal), S.wild_values, S.wild_values, INTERPS), min_size=2, max_size=4))])
        b = S.strip(t)[1]
        if b[0] == "cls" and draw(st.booleans()):
            pools[-1][1].append(draw(S.broken(specs, S.instances(specs, among=S.subs(specs, b[1]), depth=0))))
    extra = draw(st.lists(one_of(S.wild_values, S.wild_values, S.instances(specs, depth=0), S.broken(specs, S.instances(specs)), st.integers(0, len(specs) - 1).map(lambda i: ("C", i)),
                                    INTERPS), min_size=2, max_size=4))
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 30), st.integers(0, 12), st.integers(0, 9), st.sampled_from(WRAPS)), min_size=1, max_size=8))
    return specs, root, pools, extra, ops


def wrap(how, v, val):
    """A config or value node holding the value, or the value itself."""
    if how == "config" and isinstance(val, (dict, list)):
        return OmegaConf.create(val)
    if how == "config" and (S.is_inst(v) or S.is_cls(v)):
        return OmegaConf.structured(val)
    if isinstance(val, (dict, list)) or S.is_inst(v) or S.is_cls(v) or S.is_obj(v):
        return val
    if how == "node":
        if isinstance(val, enum.Enum):
            return EnumNode(type(val), val)
        if isinstance(val, Path):
            return PathNode(val)
        return NODE[type(val)](val) if type(val) in NODE else val
    if how == "anynode":
        return AnyNode(val)
    if how == "wrongnode":
        return StringNode(val) if not isinstance(val, bytes) else BytesNode(val)
    return val


def run(case, ctx):
    specs, root, pools, extra, ops = case
    classes = S.realize(specs)
    cfg = OmegaConf.structured(S.inst_value(root, classes))
    rt = ("cls", root[1])
    pool = {repr(t): vs for t, vs in pools}
    allv = [v for _, vs in pools for v in vs] + extra
    trail = []

    def check(what):
        e = S.conforms(specs, classes, rt, cfg)
        if e:
            fail(f"after {what} on {show(start)} of {specs[root[1]]}: {e}")
    start = plain(cfg)
    check("creation")
    done = 0
    for kind, ci, ki, vi, how in ops:
        pl = list(S.places(specs, classes, rt, cfg))
        boxes = [(p, t, n) for p, t, n in pl if isinstance(n, (DictConfig, ListConfig)) and (not special(n) or kind in ("whole", "merge_sub"))]
        if not boxes:
            continue
        if kind in LIST_OPS:
            boxes = [x for x in boxes if isinstance(x[2], ListConfig)] or boxes
        elif kind in ("merge", "update") and ci % 3:
            boxes = [x for x in boxes if x[0]] or boxes
        p, t, box = boxes[ci % len(boxes)]
        _, bt = S.strip(t)
        kids = [(q, u) for q, u, _ in pl if len(q) == len(p) + 1 and q[:len(p)] == p]
        et = None
        key = None
        if kids and (ki % 4 or isinstance(box, DictConfig) and bt != "any" and bt[0] == "cls"):
            q, et = kids[ki % len(kids)]
            key = q[-1]
        elif isinstance(box, DictConfig):
            key = ["a", "zz", 1, Color.RED, 0.5, b"k", True, "RED"][ki % 8]
            et = bt[2] if bt[0] == "dict" else "any"
        else:
            key = ki % (len(box) + 2)
            et = bt[1] if bt[0] == "list" else "any"
        vs = pool.get(repr(et)) if vi % 4 else None
        vs = vs or allv
        v = vs[vi % len(vs)]
        val = attempt(lambda: wrap(how, v, S.inst_value(v, classes)))
        if val[0] != "ok":
            continue
        val = val[1]
        isd = isinstance(box, DictConfig)
        desc = f"{kind} {list(p)} {key!r} {show(v, 120)} ({how})"

        def op():
            if kind == "set":
                box[key] = val
            elif kind == "attr":
                setattr(box, key, val) if isd and isinstance(key, str) else box.__setitem__(key, val)
            elif kind == "append":
                box.append(val) if not isd else box.update({key: val})
            elif kind == "insert":
                box.insert(key, val) if not isd else box.__setitem__(key, val)
            elif kind == "slice":
                other = allv[(vi + 1) % len(allv)]
                box[ki % 3: ki % 3 + vi % 3] = [val, S.inst_value(other, classes)][:1 + vi % 2] if not isd else None
            elif kind == "extend":
                box.extend([val]) if not isd else box.update({key: val})
            elif kind == "iadd":
                b = box
                b += [val]
            elif kind == "del":
                del box[key]
            elif kind == "delattr":
                if isinstance(key, str) and not (bt[0] == "cls"):
                    delattr(box, key)
            elif kind == "pop":
                box.pop(key)
            elif kind == "clear":
                box.clear()
            elif kind == "remove":
                box.remove(val)
            elif kind == "sort":
                box.sort()
            elif kind == "setdefault":
                box.setdefault(key, val)
            elif kind == "update":
                box.update({key: val}) if isd else OmegaConf.update(box, str(key), val, merge=bool(vi % 2))
            elif kind == "merge":
                d = {key: val} if isd else [val]
                d = OmegaConf.create(d, flags={"allow_objects": True}) if ki % 2 and not S.is_obj(v) else d
                box.merge_with(d, list_merge_mode=[ListMergeMode.REPLACE, ListMergeMode.EXTEND, ListMergeMode.EXTEND_UNIQUE][vi % 3])
            elif kind == "merge_sub":
                box.merge_with(val)
            elif kind == "path":
                if all(isinstance(x, (str, int)) and not isinstance(x, bool) and x != "" for x in p + (key,)):
                    OmegaConf.update(cfg, "".join(f"[{x}]" for x in p + (key,)), val, merge=bool(vi % 2), force_add=bool(ki % 2) and bt[0] != "cls")
            elif kind == "whole":
                if p:
                    par = cfg
                    for x in p[:-1]:
                        par = par._get_node(x)
                    vv = pool.get(repr(t), allv)
                    par[p[-1]] = S.inst_value(vv[vi % len(vv)], classes)
            elif kind == "sub":  # move a node within the config
                src = pl[(vi * 7 + ki) % len(pl)][2]
                box[key] = src
        before = canon(cfg)
        types = [(q, type(n).__name__, n._metadata.type_hint, getattr(n._metadata, "object_type", None), getattr(n._metadata, "key_type", None),
                  getattr(n._metadata, "element_type", None), dict(n._metadata.flags or {})) for q, _, n in S.places(specs, classes, rt, cfg)]
        trail.append(desc)
        r = attempt(op)
        check("; ".join(trail))
        if r[0] == "ok":
            done += 1
            if kind not in ("clear", "sort", "del", "pop", "remove"):
                ctx.label(kind)
        elif kind in SINGLE:
            if canon(cfg) != before:
                fail(f"failed {desc} ({type(r[1]).__name__}) changed {show(before)} to {show(plain(cfg))}")
            now = [(q, type(n).__name__, n._metadata.type_hint, getattr(n._metadata, "object_type", None), getattr(n._metadata, "key_type", None),
                    getattr(n._metadata, "element_type", None), dict(n._metadata.flags or {})) for q, _, n in S.places(specs, classes, rt, cfg)]
            if now != types:
                fail(f"failed {desc} ({type(r[1]).__name__}) changed the types: {[(a, b) for a, b in zip(types, now) if a != b][:2]}")
            ctx.label("failed " + kind)
    # reading interpolated simple fields, then the types must still be enforced everywhere
    pl = list(S.places(specs, classes, rt, cfg))
    for p, t, n in pl:
        o, b = S.strip(t)
        if not p or not isinstance(b, str) or b == "any":
            continue
        par = cfg
        for x in p[:-1]:
            par = par._get_node(x)
        if n._is_interpolation():
            r = attempt(lambda: par[p[-1]])
            if r[0] == "ok" and not (r[1] is None and o or r[1] is not None and S.exact_simple(b, r[1])):
                fail(f"after {'; '.join(trail)}: reading {p} of type {t}, written {n._value()!r}, gives {r[1]!r}")
            if r[0] == "exc" and not isinstance(r[1], OmegaConfBaseException):
                fail(f"after {'; '.join(trail)}: reading {p} raised {type(r[1]).__name__}")
            ctx.label("interpolation read")
    e = S.enforced(specs, classes, rt, cfg)
    if e:
        fail(f"after {'; '.join(trail)}: {e}")
    if done and any(isinstance(S.strip(f[1])[1], tuple) for s in specs for f in s["fields"]):
        ctx.hit()


LEGS = [
    Leg("histories", cases, run, quick=4000,
        rule="generated dataclass/attrs schemas (nesting, inheritance, containers, unions, optionals), histories of up to 8 mutations with legal and illegal plain values, "
             "instances, config nodes and typed value nodes; non-trivial: an operation succeeded on a schema with a container or class typed field"),
]
