"""C12: struct mode and structured classes forbid unknown keys, and nothing else.  Oracle: a twin without struct settings, edited in the same way."""
import copy, pickle
from typing import Any
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, OmegaConf, open_dict
from omegaconf.errors import OmegaConfBaseException
from ..core import Leg, fail
from ..gen import *
from .. import ops as O, schema as S
from .c11 import content, under

REMOVE = {"del", "pop", "popd", "popitem", "clear"}
UPDATE = {"update", "updatef", "updaten"}
PROBES = ["a", "b", "zz", "keys2", "", "a.b", "é"]


@st.composite
def cases(draw):
    specs, roots = draw(O.environments(n=2))
    vals = O.with_nodes(one_of(O.plain_values, S.instances(specs, depth=0)) if specs else O.plain_values)
    flag = one_of(O.flag_ops(["struct"], 1), O.flag_ops(["struct"], 1), st.tuples(st.just("flag"), st.integers(0, 1), st.just(0), st.just("struct"), st.just(True)))
    edit = O.edits(vals, ncfg=1)
    unknown = st.tuples(st.just("op"), st.integers(0, 1), st.sampled_from([0, 0, 1, 2, 3]), st.sampled_from(["set", "attr", "merge", "mergekey", "dupdate", "update", "updatef", "setdefault", "del", "pop", "popd", "clear", "popitem"]),
                        st.sampled_from(O.LIST_OPS), one_of(st.tuples(st.just("k"), st.integers(0, 3)), st.sampled_from(["zz", "new", "q", "", "é"])), vals, st.integers(0, 11))
    edit = one_of(edit, unknown)
    query = st.tuples(st.just("q"), st.integers(0, 1), st.integers(0, 12))
    op = one_of(edit, edit, edit, edit, edit, flag, flag, query, st.just(("reads",)))
    return specs, roots, draw(st.lists(op, max_size=3)) + [draw(flag)] + draw(st.lists(op, min_size=1, max_size=6)), draw(edit), draw(st.sampled_from(["none", "false", "open", "open"]))


def typed(n):
    return isinstance(n, DictConfig) and n._metadata.object_type not in (None, dict) and isinstance(n._metadata.object_type, type)


def struct(n, top):
    while n is not None:
        v = n._get_node_flag("struct")
        if v is not None:
            return v
        n = n._get_parent()
    return False


def forbids(n, top):
    return isinstance(n, DictConfig) and (struct(n, top) or typed(n) and n._get_node_flag("struct") is not False)


def strip(cfg):
    t = copy.deepcopy(cfg)
    for n in under(t):
        n._set_flag("struct", False if typed(n) else None)
    return t


def keys(n):
    return None if special(n) else [canon(k) for k in n.keys()]


def keyset(n):
    return sorted(map(repr, keys(n) or []))


def run(case, ctx):
    specs, roots, ops, last, how = case
    env = O.start(specs, roots)
    log = [repr(roots)]
    blocked = 0

    def edit_of(env_, op):
        ci, n = O.locate(env_, op)
        if n is None:
            return None
        return n, (op[3] if isinstance(n, DictConfig) else op[4]), ci, lambda v: O.edit(n, op[3], op[4], op[5], v, op[7])

    def one(op, lifted=None):
        nonlocal blocked
        e = edit_of(env, op)
        if e is None:
            return
        node, name, ci, act = e
        cfg = env.cfgs[ci]
        used = []
        v = O.value_of(env, op[6], used)
        if any(O.related_nodes(cfg, u) for u in used):
            v = copy.deepcopy(v)
        tcfg = strip(cfg)
        tenv = O.Env([tcfg if i == ci else c for i, c in enumerate(env.cfgs)], env.classes)
        tnode, _, _, tact = edit_of(tenv, op)
        log.append(f"{name} {(op[5], show(v, 80), op[7])} at {O.path_of(cfg, node)}")
        pairs = list(zip(under(cfg), under(tcfg)))
        closed = [(n, t, keys(n), keyset(n)) for n, t in pairs if forbids(n, cfg) and concerns(op, name, n, node, cfg)]
        cls = {id(n): n._metadata.object_type for p in pairs for n in p}
        if name in ("updatef", "delattr") or lifted is not None:
            free = {id(x) for x in under(node)} if name == "updatef" else {id(node)} if name == "delattr" else lifted
            closed = [c for c in closed if id(c[0]) not in free]
        was = content(cfg, ())
        tout = attempt(lambda: tact(copy.deepcopy(v)))
        out = attempt(lambda: act(v))
        log.append("ok" if out[0] == "ok" else type(out[1]).__name__)
        tag = "; ".join(log)
        held, theld = {id(n) for n in under(cfg)}, {id(t) for t in under(tcfg)}
        touched = False
        for n, t, k, ks in closed:
            if id(t) in theld and keyset(t) != ks and not vanished(n, t, k, tcfg) and not (typed(n) and t._metadata.object_type is not cls[id(t)]):
                touched = True
            if id(n) in held and keyset(n) != ks and not vanished(n, n, k, cfg) and not (cls[id(n)] not in (None, dict) and n._metadata.object_type is not cls[id(n)]):
                fail(f"{tag}: the keys of a struct or structured node changed from {k} to {keys(n)}")
        if tout[0] == "ok" and touched:
            blocked += 1
            ctx.label("blocked " + name)
            if out[0] == "ok":
                fail(f"{tag}: no error, while the same operation adds or removes keys without struct mode")
            if not isinstance(out[1], OmegaConfBaseException):
                fail(f"{tag}: raised {out[1]!r}")
            if name not in UPDATE and not name.startswith("merge") and name not in ("slice", "extend", "iadd", "clear", "resolve", "dupdate") and content(cfg, ()) != was:
                fail(f"{tag}: raised and changed {was} to {content(cfg, ())}")
            return
        if name in REMOVE and isinstance(node, DictConfig) and forbids(node, cfg) and (lifted is None or id(node) not in lifted):
            if out[0] == "ok" and name in ("pop", "popd", "del"):
                fail(f"{tag}: no error")
            return
        if name in UPDATE - {"updatef"} and (out[0] == "exc" or tout[0] == "exc"):
            return  # keys of intermediate containers that the operation itself creates
        if name == "updatef" and out[0] == "exc" and isinstance(v, (dict, DictConfig)):
            return  # the keys inside of the value are not forced
        a, b = content(cfg, ()), content(tcfg, ())
        if (out[0], type(out[1]) if out[0] == "exc" else None) != (tout[0], type(tout[1]) if tout[0] == "exc" else None) or out[0] == "ok" and a != b:
            if out[0] == tout[0] == "exc" and isinstance(out[1], OmegaConfBaseException):
                return
            fail(f"{tag}: {show(out)} and {a}; without struct mode {show(tout)} and {b}")

    def reads():
        log.append("reads")
        for cfg in env.cfgs:
            t = strip(cfg)
            for f in (OmegaConf.to_container, lambda c: OmegaConf.to_container(c, resolve=True), OmegaConf.to_yaml, lambda c: OmegaConf.missing_keys(c), lambda c: repr(c), lambda c: len(c), lambda c: list(c),
                      lambda c: OmegaConf.to_container(copy.deepcopy(c)), lambda c: repr(OmegaConf.merge({}, c)) if isinstance(c, DictConfig) else None, lambda c: c == copy.deepcopy(c)):
                a, b = attempt(lambda: f(cfg)), attempt(lambda: f(t))
                if a[0] != b[0] or (a[0] == "exc" and type(a[1]) is not type(b[1])) or (a[0] == "ok" and repr(a[1]) != repr(b[1])):
                    fail(f"{'; '.join(log)}: a read gives {show(a)}; without struct mode {show(b)}")
            for n, u in zip(under(cfg), under(t)):
                if not isinstance(n, DictConfig) or special(n):
                    continue
                before = keys(n)
                for k in list(n.keys()):
                    for f in (lambda c: c[k], lambda c: c.get(k), lambda c: c.get(k, 7), lambda c: k in c, lambda c: getattr(c, k) if isinstance(k, str) and k.isidentifier() else None):
                        a, b = attempt(lambda: f(n)), attempt(lambda: f(u))
                        if a[0] != b[0] or (a[0] == "exc" and type(a[1]) is not type(b[1])) or (a[0] == "ok" and repr(a[1]) != repr(b[1])):
                            fail(f"{'; '.join(log)}: reading the key {k!r} gives {show(a)}; without struct mode {show(b)}")
                if forbids(n, cfg):
                    for k in PROBES:
                        if k in list(n.keys()) or canon(k) in before:
                            continue
                        for what, f in (("item", lambda: n[k]), ("attribute", lambda: getattr(n, k)), ("select", lambda: OmegaConf.select(n, "zzz.y", throw_on_missing=True)), ):
                            o = attempt(f)
                            if what == "select":
                                if o != ("ok", None):
                                    fail(f"{'; '.join(log)}: selecting an unknown key gives {show(o)}")
                            elif o[0] == "ok" or not isinstance(o[1], (KeyError, AttributeError, OmegaConfBaseException)):
                                fail(f"{'; '.join(log)}: reading the unknown key {k!r} as {what} gives {show(o)}")
                        if k in n:
                            fail(f"{'; '.join(log)}: {k!r} in {show(n)}")
                    if keys(n) != before:
                        fail(f"{'; '.join(log)}: reading unknown keys changed the keys from {before} to {keys(n)}")

    for op in ops:
        if op[0] == "flag":
            log.append(O.apply(env, op).desc)
        elif op[0] == "q":
            ns = under(env.cfgs[op[1] % len(env.cfgs)])
            ns[op[2] % len(ns)]._get_flag("struct")
        elif op[0] == "reads":
            reads()
        else:
            one(op)
    reads()
    e = edit_of(env, last)
    if e is None:
        if blocked:
            ctx.hit()
        return
    node, name, ci, act = e
    cfg = env.cfgs[ci]
    if how == "open":
        was = node._get_node_flag("struct")
        log.append("in open_dict")
        with open_dict(node):
            free = {id(n) for n in under(node) if not forbids(n, cfg)}
            if id(node) not in free and isinstance(node, DictConfig):
                fail(f"{'; '.join(log)}: open_dict left struct mode on")
            one(last, lifted=free)
        if node._get_node_flag("struct") is not was:
            fail(f"{'; '.join(log)}: open_dict left struct={node._get_node_flag('struct')}")
    else:
        log.append(f"struct={how} on each node")
        for n in under(cfg):
            if isinstance(n, (DictConfig, ListConfig)):
                OmegaConf.set_struct(n, None if how == "none" and not typed(n) else False)
            else:
                n._set_flag("struct", None)
        one(last, lifted={id(n) for n in under(cfg)})
    if blocked:
        ctx.hit()


def concerns(op, name, n, target, cfg):
    """Whether an operation on target is about the keys of n, rather than about replacing n or something around it"""
    if name.startswith("merge") or name == "resolve":
        return True
    if name in UPDATE:
        p, q = O.path_of(cfg, n), O.path_of(cfg, target)
        text = O.path_text(O.pick_key(target, op[5]), op[7]) if isinstance(target, DictConfig) else "0"
        return name != "updaten" or p[:len(q)] == q and len(p) - len(q) < text.count(".") + text.count("[") + 1
    return n is target


def vanished(n, now, was, top):
    """The whole node became or was None, missing or an interpolation: an existing key of its parent got a value"""
    return now is not top and (was is None or special(now))


@st.composite
def setting_cases(draw):
    specs = draw(S.schemas(max_cls=2, req=False, interps=False, selfref=False))
    x = S.instances(specs, depth=1)
    leaf = one_of(st.integers(0, 3), x, x)
    root = draw(st.dictionaries(st.sampled_from(["a", "b", "x"]), trees(leaf=leaf, keys=st.sampled_from(["a", "b", "c"]), max_leaves=4, width=2), min_size=1, max_size=2))
    flags = draw(st.lists(st.tuples(st.one_of(st.just(0), st.integers(0, 12)), st.sampled_from([True, False, False, None])), min_size=1, max_size=4))
    return specs, root, flags, draw(st.booleans())


ADD = {
    "item": lambda c, n, p: n.__setitem__("zz", 1),
    "attribute": lambda c, n, p: setattr(n, "zz", 1),
    "update": lambda c, n, p: n.update({"zz": 1}),
    "merge_with": lambda c, n, p: n.merge_with({"zz": 1}),
    "setdefault": lambda c, n, p: n.setdefault("zz", 1),
    "OmegaConf.update": lambda c, n, p: OmegaConf.update(c, "".join(f"[{k}]" for k in p) + "[zz]", 1),
    "OmegaConf.update below": lambda c, n, p: OmegaConf.update(c, "".join(f"[{k}]" for k in p) + "[zz][y]", 1),
    "merge_with_dotlist": lambda c, n, p: n.merge_with_dotlist(["zz=1"]),
    "merge of the root": lambda c, n, p: c.merge_with(nested(c, p, {"zz": 1})),
    "forced": lambda c, n, p: OmegaConf.update(c, "".join(f"[{k}]" for k in p) + "[zz]", 1, force_add=True),
    "forced below": lambda c, n, p: OmegaConf.update(c, "".join(f"[{k}]" for k in p) + "[zz][y]", 1, force_add=True),
}
TAKE = {
    "del": lambda n, k: n.__delitem__(k),
    "pop": lambda n, k: n.pop(k),
    "pop with a default": lambda n, k: n.pop(k, None),
    "popitem": lambda n, k: n.popitem(),
    "clear": lambda n, k: n.clear(),
}


def nested(c, p, v):
    for i in range(len(p) - 1, -1, -1):
        n = c
        for k in p[:i]:
            n = n._get_node(k)
        if isinstance(n, ListConfig):
            raise Boring()
        v = {p[i]: v}
    return v


class Boring(Exception):
    pass


def settings_run(case, ctx):
    specs, root, flags, copied = case
    classes = S.realize(specs)
    cfg = OmegaConf.create(S.inst_value(root, classes))
    said = []
    for i, v in flags:
        ns = O.boxes(cfg)
        n = ns[i % len(ns)]
        OmegaConf.set_struct(n, v)
        said.append((O.path_of(cfg, n), v))
    if copied:
        cfg = copy.deepcopy(cfg)
    some = set()
    for p, n in list(nodes_of(cfg)):
        if not isinstance(n, DictConfig) or special(n):
            continue
        closed = forbids(n, cfg)
        some.add((closed, typed(n), n._get_node_flag("struct")))
        tag = f"{show(root)} with struct {said}{' (copied)' if copied else ''}: "
        text, m = True, cfg
        for k in p:
            text = text and isinstance(k, str if isinstance(m, DictConfig) else int)
            m = m._get_node(k)
        plain_ = n._metadata.key_type in (Any, str) and n._metadata.element_type in (Any, int)
        for what, f in ADD.items():
            dup = copy.deepcopy(cfg)
            m = dup
            for k in p:
                m = m._get_node(k)
            if not text and ("forced" in what or "OmegaConf" in what):
                continue
            if "zz" in m.keys() or not plain_ and (not closed or what.startswith("forced")) or "below" in what and n._metadata.element_type is not Any:
                continue
            r = attempt(lambda: f(dup, m, p))
            if r[0] == "exc" and isinstance(r[1], Boring):
                continue
            if closed and not what.startswith("forced"):
                if r[0] == "ok" or "zz" in m.keys():
                    fail(f"{tag}adding a key to {p} by {what} {'worked' if r[0] == 'ok' else 'raised and worked'}")
                if not isinstance(r[1], (AttributeError, KeyError) if plain_ else OmegaConfBaseException):
                    fail(f"{tag}adding a key to {p} by {what} raised {r[1]!r}")
                if canon(dup) != canon(cfg):
                    fail(f"{tag}adding a key to {p} by {what} raised and changed {show(cfg)} to {show(dup)}")
            elif r[0] == "exc" or "zz" not in m.keys() or canon(OmegaConf.to_container(m)["zz"]) != canon({"y": 1} if "below" in what else 1):
                fail(f"{tag}adding a key to {p} by {what} gives {show(r)} {show(m)}")
        for what, f in TAKE.items():
            dup = copy.deepcopy(cfg)
            m = dup
            for k in p:
                m = m._get_node(k)
            ks = list(m.keys())
            if not ks:
                continue
            r = attempt(lambda: f(m, ks[-1]))
            if closed:
                if r[0] == "ok" or list(m.keys()) != ks:
                    fail(f"{tag}{what} at {p} {'worked' if r[0] == 'ok' else 'raised and worked'}")
            elif r[0] == "exc" and not MISSING_OR_BROKEN(m, ks) or r[0] == "ok" and what != "popitem" and list(m.keys()) != ([] if what == "clear" else ks[:-1]):
                fail(f"{tag}{what} at {p} gives {show(r)}")
        for k in n.keys():
            dup = copy.deepcopy(cfg)
            m = dup
            for q in p:
                m = m._get_node(q)
            v = m._get_node(k)
            r = attempt(lambda: m.__setitem__(k, v))
            if r[0] == "exc" or canon(dup) != canon(cfg):
                fail(f"{tag}writing the value of the existing key {k!r} at {p} back gives {show(r)} {show(dup)}")
    if len({c for c, _, _ in some}) > 1 or any(t and f is None for _, t, f in some):
        ctx.hit()
    for c, t, f in some:
        ctx.label(f"{'closed' if c else 'open'} {'structured' if t else 'plain'} {f}")


def MISSING_OR_BROKEN(m, ks):
    return any(m._get_node(k) is not None and (m._get_node(k)._is_missing() or m._get_node(k)._is_interpolation()) for k in ks)


LEGS = [
    Leg("settings", setting_cases, settings_run, quick=700,
        rule="trees of dicts, lists and structured configs with struct settings on several nodes; every way to add a key to and take one from every dict node, against the nearest-setting rule; "
             "non-trivial: both closed and open dicts, or a structured dict without a setting of its own"),
    Leg("twin", cases, run, quick=4200,
        rule="1-2 configs (structured ones included) with struct settings on any nodes, 1-10 edits and reads, each also applied to a twin without struct mode (and struct=False on structured "
             "nodes); non-trivial: an operation that adds or removes a key of a closed dict in the twin was attempted"),
]
