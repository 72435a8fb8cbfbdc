"""C11: read-only configs cannot be changed.  Oracle: a twin without read-only settings, edited in the same way."""
import copy, pickle
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, OmegaConf, ReadonlyConfigError, read_write
from ..core import Leg, fail
from ..gen import *
from .. import ops as O, schema as S


@st.composite
def cases(draw):
    specs, roots = draw(O.environments(n=2))
    vals = O.with_nodes(one_of(O.plain_values, S.instances(specs, depth=0)) if specs else O.plain_values)
    flag = one_of(O.flag_ops(["readonly"], 1), O.flag_ops(["readonly"], 1), st.tuples(st.just("flag"), st.integers(0, 1), st.just(0), st.just("readonly"), st.just(True)))
    nodeset = st.tuples(st.just("nodeset"), st.integers(0, 1), st.integers(0, 8), one_of(st.integers(0, 3), st.sampled_from(["s", "3", None, "???", True, 1.5, "${a}"])))
    edit = O.edits(vals, ncfg=1)
    query = st.tuples(st.just("q"), st.integers(0, 1), st.integers(0, 12))
    op = one_of(edit, edit, edit, edit, nodeset, flag, flag, query, st.just(("reads",)))
    return specs, roots, draw(st.lists(op, max_size=3)) + [draw(flag)] + draw(st.lists(op, min_size=1, max_size=6)), draw(edit), draw(st.sampled_from(["none", "false", "rw"]))


def strip(cfg, name="readonly"):
    """A copy of the config without the explicit settings of a flag"""
    t = copy.deepcopy(cfg)
    for _, n in nodes_of(t):
        n._set_flag(name, None)
    return t


def under(n):
    return [x for _, x in nodes_of(n)]


def content(n, writable, twin_of=None):
    """The contents of a node without the parts under the writable nodes (ids)"""
    if isinstance(n, (DictConfig, ListConfig)):
        if special(n):
            return (canon(n._value()),)
        items = [(k, n._get_node(k)) for k in (list(n.keys()) if isinstance(n, DictConfig) else range(len(n)))]
        return (type(n).__name__, str(n._metadata.object_type), [(canon(k), ("writable",) if id(c) in writable else content(c, writable)) for k, c in items])
    v = n._value()
    if OmegaConf.is_config(v) or hasattr(v, "_value"):  # a union's value
        v = v._value()
    return (canon(v),)


def readonly(n, top):
    while n is not None:
        v = n._get_node_flag("readonly")
        if v is not None:
            return v
        n = n._get_parent()
    return False


def replaced(n, now, was, top, name):
    """A node directly in a writable container was assigned, or became None, missing or an interpolation, or was one: the container's contents, which may change"""
    p = n._get_parent()
    return n is not top and p is not None and not readonly(p, top) and isinstance(n, (DictConfig, ListConfig)) and (len(now) == 1 or len(was) == 1 or name in ("set", "attr", "dupdate", "updaten"))


def run(case, ctx):
    specs, roots, ops, last, how = case
    env = O.start(specs, roots)
    log = [repr(roots)]
    blocked = allowed = False

    def edit_of(env_, op):
        """(node, name, thunk) of an edit on an environment"""
        if op[0] == "nodeset":
            ns = [n for n in under(env_.cfgs[op[1] % len(env_.cfgs)]) if not isinstance(n, (DictConfig, ListConfig))]
            if not ns:
                return None
            n = ns[op[2] % len(ns)]
            return n, "nodeset", op[1] % len(env_.cfgs), lambda v: n._set_value(op[3])
        ci, n = O.locate(env_, op)
        if n is None:
            return None
        return n, (op[3] if isinstance(n, DictConfig) else op[4]), ci, lambda v: O.edit(n, op[3], op[4], op[5], v, op[7])

    def twin_of(ci):
        t = strip(env.cfgs[ci])
        return t, O.Env([t if i == ci else c for i, c in enumerate(env.cfgs)], env.classes)

    def one(op, free=False):
        nonlocal blocked, allowed
        e = edit_of(env, op)
        if e is None:
            return
        node, name, ci, act = e
        cfg = env.cfgs[ci]
        used = []
        v = O.value_of(env, op[6], used) if op[0] == "op" else None
        if any(O.related_nodes(cfg, u) for u in used):
            v = copy.deepcopy(v)  # in the twin, too, as a value of its own
        tcfg, tenv = twin_of(ci)
        tnode, _, _, tact = edit_of(tenv, op)
        path = O.path_of(cfg, node)
        log.append(f"{name} {op[3] if op[0] == 'nodeset' else (op[5], show(v, 80), op[7])} at {path}")
        pairs = list(zip(under(cfg), under(tcfg)))
        ro = [(n, t) for n, t in pairs if readonly(n, cfg)]
        wr = {id(n) for n, t in pairs if not readonly(n, cfg)} | {id(t) for n, t in pairs if not readonly(n, cfg)}
        was = [(content(n, wr), content(t, wr)) for n, t in ro]
        for (n, t), (a, b) in zip(ro, was):
            if a != b:
                raise RuntimeError(f"twin differs: {a} {b}")
        free = free or not any(n._get_node_flag("readonly") for n in under(node)) and not readonly(node, cfg)
        whole = content(cfg, ()) if free else None
        tout = attempt(lambda: tact(copy.deepcopy(v)))
        out = attempt(lambda: act(v))
        log.append("ok" if out[0] == "ok" else type(out[1]).__name__)
        tag = "; ".join(log)
        held, theld = {id(n) for n in under(cfg)}, {id(t) for t in under(tcfg)}
        touched = False
        for (n, t), (a, b) in zip(ro, was):
            if id(t) in theld and content(t, wr) != b and not replaced(n, content(t, wr), b, cfg, name):
                touched = True
            if id(n) in held and content(n, wr) != a and not replaced(n, content(n, wr), a, cfg, name):
                fail(f"{tag}: changed a read-only node from {a} to {content(n, wr)}")
        if tout[0] == "ok" and touched:
            blocked = True
            ctx.label("blocked " + name)
            if out[0] == "ok":
                fail(f"{tag}: no error, while the same operation changes the contents when not read-only")
            if not isinstance(out[1], ReadonlyConfigError):
                fail(f"{tag}: raised {out[1]!r} instead of ReadonlyConfigError")
        if free:
            a, b = content(cfg, ()), content(tcfg, ())
            if (out[0], type(out[1]) if out[0] == "exc" else None) != (tout[0], type(tout[1]) if tout[0] == "exc" else None) or a != b:
                fail(f"{tag}: {show(out)} and {a}; without read-only settings elsewhere {show(tout)} and {b}")
            if out[0] == "ok" and a != whole:
                allowed = True

    def reads():
        log.append("reads")
        for cfg in env.cfgs:
            t = strip(cfg)
            for f in (OmegaConf.to_container, lambda c: OmegaConf.to_container(c, resolve=True), OmegaConf.to_object, OmegaConf.to_yaml, copy.copy, copy.deepcopy,
                      lambda c: pickle.loads(pickle.dumps(c)) if not env.classes else None, lambda c: OmegaConf.merge({}, c), lambda c: OmegaConf.create(c),
                      lambda c: [attempt(lambda: canon(c[k])) [0] for k in (c.keys() if isinstance(c, DictConfig) else range(len(c)))], lambda c: OmegaConf.missing_keys(c),
                      lambda c: sorted(map(repr, dir(c))) if all(isinstance(k, str) for k in (c.keys() if isinstance(c, DictConfig) else [])) else None,
                      lambda c: c + [1] if isinstance(c, ListConfig) else c.get("a", 1), lambda c: OmegaConf.select(c, "a.b"), lambda c: repr(c), lambda c: c == copy.deepcopy(c),
                      lambda c: [1] + c if isinstance(c, ListConfig) else OmegaConf.masked_copy(c, ["a"]), lambda c: len(c), lambda c: list(c)):
                a, b = attempt(lambda: f(cfg)), attempt(lambda: f(t))
                if a[0] != b[0] or (a[0] == "exc" and type(a[1]) is not type(b[1])) or (a[0] == "ok" and repr(a[1]) != repr(b[1]) and "object at" not in repr(a[1])):
                    fail(f"{'; '.join(log)}: a read gives {show(a)}; without the read-only settings {show(b)}")

    for op in ops:
        if op[0] == "flag":
            r = O.apply(env, op)
            log.append(r.desc)
        elif op[0] == "q":
            ns = under(env.cfgs[op[1] % len(env.cfgs)])
            ns[op[2] % len(ns)]._get_flag("readonly")
        elif op[0] == "reads":
            reads()
        else:
            one(op)
    reads()
    e = edit_of(env, last)
    if e is not None:
        node, name, ci, act = e
        cfg = env.cfgs[ci]
        if how == "rw" and all(n is node or n._get_node_flag("readonly") is not True for n in under(node)):
            # read_write lifts the restriction of this node for its body only
            log.append("in read_write")
            was = node._get_node_flag("readonly")
            with read_write(node):
                one(last, free=True)
            if node._get_node_flag("readonly") is not was:
                fail(f"{'; '.join(log)}: read_write left readonly={node._get_node_flag('readonly')}")
        elif how in ("none", "false"):
            log.append("clear the flags")
            for n in under(cfg):
                if isinstance(n, (DictConfig, ListConfig)):
                    OmegaConf.set_readonly(n, None if how == "none" else False)
                else:
                    n._set_flag("readonly", None)
            one(last, free=True)
    if blocked:
        ctx.hit()
    if allowed:
        ctx.label("allowed")


LEGS = [
    Leg("twin", cases, run, quick=5000,
        rule="1-2 configs (frozen classes included) with readonly settings on any nodes, 1-10 edits and reads, each also applied to a twin without those settings; non-trivial: an operation that "
             "changes a read-only node in the twin was attempted"),
]
