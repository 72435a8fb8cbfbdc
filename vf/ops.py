"""Operations on live configs, as plain data: generation and application.  No expectations here; the properties check invariants around them.

op = ("op", config, box, dict op, list op, key, value, n)  an edit of one container of one config
   | ("cfg", what, config, box, config2, n)                makes a new config
   | ("flag", config, node, name, value)                   sets a flag on any node (a value node, too)
value: plain data, ("N", config, node) a node of a live config, ("I"...)/("C"...) instances and classes of the schema."""
import contextlib, copy, pickle
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, ListMergeMode, OmegaConf
from .gen import *
from . import schema as S

DICT_OPS = ["set", "set", "attr", "attr", "del", "delattr", "pop", "popd", "setdefault", "popitem", "clear", "dupdate", "merge", "merge", "mergekey", "update", "updatef", "updaten", "resolve"]
LIST_OPS = ["set", "set", "slice", "del", "delslice", "append", "append", "insert", "insert", "extend", "pop", "remove", "clear", "sort", "reverse", "iadd", "merge", "merge", "update", "resolve"]
CFG_OPS = ["copy", "deepcopy", "pickle", "create", "merge", "merge3", "wrap", "wraplist", "masked", "construct", "add"]
KEYS = ["a", "b", "c", "x", "y", "zz", 0, 1, -1, 2, Color.RED, 2.5, True, "a.b", b"k"]
MODES = list(ListMergeMode)

key_sel = one_of(st.integers(0, 5).map(lambda i: ("k", i)), st.sampled_from(KEYS[:6]), st.sampled_from(KEYS))
node_ref = st.tuples(st.just("N"), st.integers(0, 3), st.integers(0, 12))
plain_values = one_of(st.integers(0, 3), st.sampled_from([None, "s", "3", "???", True, 1.5, "${a}", "${.b}", "${x.a}", Color.RED, b"b"]),
                         trees(leaf=one_of(st.integers(0, 3), st.sampled_from(["s", None, "???", "${a}", "${b}"])), keys=st.sampled_from(["a", "b", "x"]), max_leaves=4, width=3))


def with_nodes(base):
    return one_of(base, base, node_ref, node_ref, st.lists(one_of(base, node_ref), max_size=2), st.dictionaries(st.sampled_from(["a", "b", "x"]), one_of(base, node_ref), max_size=2))


def edits(values, dict_ops=DICT_OPS, list_ops=LIST_OPS, ncfg=3):
    return st.tuples(st.just("op"), st.integers(0, ncfg), st.integers(0, 8), st.sampled_from(dict_ops), st.sampled_from(list_ops), key_sel, values, st.integers(0, 11))


def makes(what=CFG_OPS, ncfg=3):
    return st.tuples(st.just("cfg"), st.sampled_from(what), st.integers(0, ncfg), st.integers(0, 8), st.integers(0, ncfg), st.integers(0, 11))


def flag_ops(names=("readonly", "struct"), ncfg=3):
    return st.tuples(st.just("flag"), st.integers(0, ncfg), st.integers(0, 12), st.sampled_from(list(names)), st.sampled_from([True, False, None, True]))


def boxes(cfg):
    return [n for _, n in nodes_of(cfg) if isinstance(n, (DictConfig, ListConfig)) and not special(n)]


def all_nodes(cfg):
    return [n for _, n in nodes_of(cfg)]


class Done:
    """What an operation did: name, config index, target node, path, outcome, used nodes"""
    __slots__ = ("name", "ci", "node", "path", "out", "desc", "used", "new", "used_before")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    @property
    def ok(self):
        return self.out[0] == "ok"


def value_of(env, v, used):
    if isinstance(v, tuple) and len(v) == 3 and v[0] == "N":
        cfg = env.cfgs[v[1] % len(env.cfgs)]
        ns = all_nodes(cfg)
        n = ns[v[2] % len(ns)]
        used.append(n)
        return n
    if S.is_inst(v) or S.is_cls(v) or S.is_obj(v):
        return S.inst_value(v, env.classes)
    if isinstance(v, dict):
        return {k: value_of(env, x, used) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [value_of(env, x, used) for x in v]
    return v


class Env:
    def __init__(self, cfgs, classes=()):
        self.cfgs, self.classes = list(cfgs), classes


def pick_key(node, k):
    if isinstance(k, tuple):
        keys = list(node.keys()) if isinstance(node, DictConfig) else range(len(node))
        return keys[k[1] % len(keys)] if keys else "a" if isinstance(node, DictConfig) else 0
    return k


def path_of(cfg, node):
    return next((p for p, n in nodes_of(cfg) if n is node), None)


def related_nodes(a, b):
    """a is b or one lies in the other"""
    def up(n):
        while n is not None:
            yield id(n)
            n = n._get_parent()
    return id(a) in up(b) or id(b) in up(a)


def locate(env, op):
    ci = op[1] % len(env.cfgs)
    cfg = env.cfgs[ci]
    bs = boxes(cfg)
    return (ci, bs[op[2] % len(bs)]) if bs else (ci, None)


def as_list(v):
    return v if isinstance(v, (list, tuple, ListConfig)) else [v]


def edit(node, dop, lop, k, v, n, mode=None):
    """Applies one edit (raises what it raises)."""
    mode = MODES[n % 3]
    if isinstance(node, DictConfig):
        key = pick_key(node, k)
        if dop == "set":
            node[key] = v
        elif dop == "attr":
            setattr(node, key if isinstance(key, str) else "a", v)
        elif dop == "del":
            del node[key]
        elif dop == "delattr":
            delattr(node, key if isinstance(key, str) else "a")
        elif dop == "pop":
            node.pop(key)
        elif dop == "popd":
            node.pop(key, None)
        elif dop == "setdefault":
            node.setdefault(key, v)
        elif dop == "popitem":
            node.popitem()
        elif dop == "clear":
            node.clear()
        elif dop == "dupdate":
            node.update({key: v})
        elif dop == "merge":
            node.merge_with(v if isinstance(v, (dict, list, DictConfig, ListConfig)) else {key: v}, list_merge_mode=mode)
        elif dop == "mergekey":
            node.merge_with({key: v}, list_merge_mode=mode)
        elif dop in ("update", "updatef", "updaten"):
            OmegaConf.update(node, path_text(key, n), v, merge=dop != "updaten", force_add=dop == "updatef")
        elif dop == "resolve":
            OmegaConf.resolve(node)
        else:
            raise ValueError(dop)
        return
    key = pick_key(node, k)
    i = key if type(key) is int else n % 4 - 1
    if lop == "set":
        node[i] = v
    elif lop == "slice":
        node[slice_of(n)] = as_list(v)
    elif lop == "del":
        del node[i]
    elif lop == "delslice":
        del node[slice_of(n)]
    elif lop == "append":
        node.append(v)
    elif lop == "insert":
        node.insert(i, v)
    elif lop == "extend":
        node.extend(as_list(v))
    elif lop == "pop":
        node.pop(i) if n % 2 else node.pop()
    elif lop == "remove":
        node.remove(node[i % len(node)] if len(node) else 0)
    elif lop == "clear":
        node.clear()
    elif lop == "sort":
        node.sort(key=lambda x: str(x), reverse=n % 2 == 1)
    elif lop == "reverse":
        node.reverse()
    elif lop == "iadd":
        node += as_list(v)
    elif lop == "merge":
        node.merge_with(as_list(v), list_merge_mode=mode)
    elif lop == "update":
        OmegaConf.update(node, str(i), v, merge=n % 2 == 0)
    elif lop == "resolve":
        OmegaConf.resolve(node)
    else:
        raise ValueError(lop)


def slice_of(n):
    return [slice(0, 1), slice(1, None), slice(None, None, 2), slice(None), slice(1, 1), slice(-1, None), slice(None, None, -1), slice(0, 2), slice(5, 9), slice(2, 0), slice(-2, -1), slice(1, 3)][n % 12]


def path_text(key, n):
    t = key if isinstance(key, str) else "a"
    return [t, t, t + ".b", t + ".x.b", t + "[0]", "x." + t][n % 6]


def make(env, op):
    """Applies a ("cfg", ...) op: a new config."""
    _, what, ci, bi, cj, n = op
    cfg = env.cfgs[ci % len(env.cfgs)]
    other = env.cfgs[cj % len(env.cfgs)]
    ns = [x for x in all_nodes(cfg) if isinstance(x, (DictConfig, ListConfig))]
    node = ns[bi % len(ns)]
    if what == "copy":
        return copy.copy(cfg)
    if what == "deepcopy":
        return copy.deepcopy(cfg)
    if what == "pickle":
        return pickle.loads(pickle.dumps(cfg))
    if what == "create":
        return OmegaConf.create(node)
    if what == "merge":
        return OmegaConf.merge(cfg, other, list_merge_mode=MODES[n % 3])
    if what == "unsafe":
        return OmegaConf.unsafe_merge(copy.deepcopy(cfg), copy.deepcopy(other), list_merge_mode=MODES[n % 3])
    if what == "merge3":
        return OmegaConf.merge(node, other, node, list_merge_mode=MODES[n % 3])
    if what == "wrap":
        return OmegaConf.create({"a": node, "b": [node], "c": all_nodes(other)[n % len(all_nodes(other))]})
    if what == "wraplist":
        return ListConfig([node, node])
    if what == "masked":
        return OmegaConf.masked_copy(node, ["a", "b"])
    if what == "construct":
        return DictConfig({"a": node}) if n % 2 else DictConfig(node) if isinstance(node, DictConfig) else ListConfig(node)
    if what == "add":
        return node + [node] if n % 2 else [cfg] + node
    raise ValueError(what)


def apply(env, op, note=None, max_cfgs=6):
    """Applies an op to the environment; None when it does not apply."""
    if op[0] == "flag":
        _, ci, ni, name, val = op
        ci %= len(env.cfgs)
        ns = all_nodes(env.cfgs[ci])
        node = ns[ni % len(ns)]
        out = attempt(lambda: node._set_flag(name, val) if name not in ("readonly", "struct") or not isinstance(node, (DictConfig, ListConfig))
                      else (OmegaConf.set_readonly if name == "readonly" else OmegaConf.set_struct)(node, val))
        return Done(name="flag", ci=ci, node=node, out=out, used=[], used_before=[], desc=f"set {name}={val} at {path_of(env.cfgs[ci], node)}")
    if op[0] == "cfg":
        out = attempt(lambda: make(env, op))
        if out[0] == "ok" and isinstance(out[1], (DictConfig, ListConfig)):
            if len(env.cfgs) >= max_cfgs:
                env.cfgs.pop(1)
            env.cfgs.append(out[1])
        return Done(name=op[1], ci=None, node=None, out=out, used=[], used_before=[], new=out[1] if out[0] == "ok" else None, desc=f"{op[1:]}")
    ci, node = locate(env, op)
    if node is None:
        return None
    used = []
    v = value_of(env, op[6], used)
    name = op[3] if isinstance(node, DictConfig) else op[4]
    path = path_of(env.cfgs[ci], node)
    desc = f"{name} {op[5]} {show(v, 120)} {op[7]} at {path}"
    if name == "dupdate" and isinstance(v, DictConfig) and v is node:
        return None
    pre = note(env, ci, node, used) if note else []
    out = attempt(lambda: edit(node, op[3], op[4], op[5], v, op[7]))
    return Done(name=name, ci=ci, node=node, path=path, out=out, used=used, desc=desc, used_before=pre)


@st.composite
def environments(draw, schemas=True, n=3):
    """(specs, [root data...]): configs of instances, trees, and trees with instances"""
    specs = draw(S.schemas(max_cls=2, req=True)) if schemas and draw(st.booleans()) else []
    x = S.instances(specs) if specs else plain_values
    keys = st.sampled_from(["a", "b", "c", "x", "y", 1, Color.RED])
    leaf = one_of(st.integers(0, 3), st.sampled_from(["s", None, "???", "${a}", "${.b}", "${x.a}", 2.5, True]), x)
    dicts = st.dictionaries(keys, trees(leaf=leaf, keys=keys, max_leaves=6, width=3), min_size=1, max_size=4)
    root = one_of(dicts, dicts, x.filter(lambda v: not isinstance(v, tuple) or S.is_inst(v)).filter(lambda v: isinstance(v, (dict, list)) or S.is_inst(v)), st.lists(trees(leaf=leaf, keys=keys, max_leaves=4, width=3), max_size=3))
    return specs, draw(st.lists(root, min_size=1, max_size=n))


def start(specs, roots):
    classes = S.realize(specs) if specs else ()
    return Env([OmegaConf.create(S.inst_value(r, classes)) for r in roots], classes)
