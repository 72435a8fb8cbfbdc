"""C26: configs made from dataclasses and attrs classes, against their declarations."""
import copy, dataclasses
import attr
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, OmegaConf, SCMode
from omegaconf.errors import ReadonlyConfigError
from ..core import Leg, fail
from ..gen import *
from .. import schema as S


@st.composite
def cases(draw):
    specs = draw(S.schemas(max_cls=3, frozen=True))
    for i, s in enumerate(specs):
        ok = [f[0] for f in s["fields"] if f[2] != S.REQ]
        inherited = {f[0] for f in S.all_fields(specs, s["base"])} if s["base"] is not None else set()
        if draw(st.integers(0, 2)) == 0:
            s["ignore"] = draw(st.lists(st.sampled_from(ok), max_size=2, unique=True)) if ok else []
        if not s["frozen"] and draw(st.integers(0, 3)) == 0 and ok and not any(x["base"] == i for x in specs):
            s["noinit"] = [f for f in draw(st.lists(st.sampled_from(ok), max_size=1)) if f not in inherited]
    root = draw(S.instances(specs))
    for s in specs:
        s["fields"] = [[n, t, d if d == S.REQ else clean(specs, d)] for n, t, d in s["fields"]]
    root = clean(specs, root)
    if draw(st.integers(0, 3)) == 0:  # private names: attrs takes them in __init__ without the underscore
        for s in specs:
            s["fields"] = [[private(n), t, d if d == S.REQ else renamed(d)] for n, t, d in s["fields"]]
            for k in ("ignore", "noinit"):
                if k in s:
                    s[k] = [private(n) for n in s[k]]
        root = renamed(root)
    return specs, root, draw(st.sampled_from(["class", "class", "instance", "instance", "create", "nested", "wrap"])), draw(st.booleans())


def private(n):
    return {"x": "_x", "a": "_a"}.get(n, n)


def renamed(v):
    """The instances in v with private field names"""
    if S.is_inst(v):
        return ("I", v[1], {private(k): renamed(x) for k, x in v[2].items()})
    if isinstance(v, dict):
        return {k: renamed(x) for k, x in v.items()}
    if isinstance(v, list):
        return [renamed(x) for x in v]
    return v


def clean(specs, v):
    """No values for fields that __init__ does not take."""
    if S.is_inst(v):
        no = {n for i in range(len(specs)) if S.is_sub(specs, v[1], i) for n in specs[i].get("noinit", ())}
        return ("I", v[1], {k: clean(specs, x) for k, x in v[2].items() if k not in no})
    if isinstance(v, dict):
        return {k: clean(specs, x) for k, x in v.items()}
    if isinstance(v, list):
        return [clean(specs, x) for x in v]
    return v


def obj_data(classes, o, specs):
    """An instance as plain data (ignored fields left out)."""
    if type(o) in classes:
        i = classes.index(type(o))
        return ("obj", i, [(n, obj_data(classes, getattr(o, n), specs)) for n, _, _ in S.fields_of(specs, i)])
    if isinstance(o, dict):
        return ("dict", [(canon(k), obj_data(classes, x, specs)) for k, x in o.items()])
    if isinstance(o, (list, tuple)):
        return ("list", [obj_data(classes, x, specs) for x in o])
    return canon(o)


def ref_data(v):
    if isinstance(v, S.SNode):
        return ("obj", v.i, [(n, ref_data(x)) for n, x in v.f.items()])
    if isinstance(v, dict):
        return ("dict", [(canon(k), ref_data(x)) for k, x in v.items()])
    if isinstance(v, list):
        return ("list", [ref_data(x) for x in v])
    return canon(v)


def has_missing(v):
    if isinstance(v, S.SNode):
        v = v.f
    if isinstance(v, dict):
        return any(has_missing(x) for x in v.values())
    if isinstance(v, list):
        return any(has_missing(x) for x in v)
    return v == S.MISS if isinstance(v, str) else False


def frozen_ok(specs, ref, node, tag, path=""):
    """Configs of frozen classes are read-only."""
    if isinstance(ref, S.SNode):
        if specs[ref.i]["frozen"]:
            for n in ref.f:
                r = attempt(lambda: setattr(node, n, S.MISS))
                if r[0] == "ok" or not isinstance(r[1], ReadonlyConfigError):
                    fail(f"{tag}: field {path}.{n} of a frozen class can be assigned: {show(r)}")
        items = ref.f.items()
    elif isinstance(ref, dict):
        items = ref.items()
    elif isinstance(ref, list):
        items = enumerate(ref)
    else:
        return
    for k, x in items:
        frozen_ok(specs, x, node._get_node(k), tag, f"{path}.{k}")


def types_ok(specs, classes, ref, node, tag):
    for p, t, n in S.places(specs, classes, ("cls", ref.i), node):
        if not p:
            continue
        o, b = S.strip(t)
        if n._metadata.optional != o or n._metadata.ref_type != (S.Any if b == "any" else S.hint(b, classes)):
            fail(f"{tag}: {p} is declared {t} but the node says {n._metadata.ref_type}, optional {n._metadata.optional}")


def thaw(cfg):
    for _, n in list(nodes_of(cfg)):
        n._set_flag(["readonly", "struct"], False)


def run(case, ctx):
    specs, root, how, mutate_cfg = case
    classes = S.realize(specs)
    i = root[1]
    cls = classes[i]
    if how == "class":
        src, ref = cls, S.inst(specs, i)
    else:
        src, ref = S.inst_value(root, classes), S.inst(specs, i, root[2])
    tag = f"{how} of {show(src)} {specs}"
    src0 = obj_data(classes, src, specs) if how != "class" else None

    def make():
        if how == "create":
            return OmegaConf.create(src)
        if how == "nested":
            return OmegaConf.create({"n": [src]}).n[0]
        if how == "wrap":
            return OmegaConf.structured(OmegaConf.structured(src))
        return OmegaConf.structured(src)
    cfg = make()
    if cs(cfg) != cs(S.flat(ref)):
        fail(f"{tag} holds {show(plain(cfg), 500)}, declared {show(S.flat(ref), 500)}")
    e = S.same_types(specs, classes, ref, cfg) or S.conforms(specs, classes, ("cls", i), cfg)
    if e:
        fail(f"{tag}: {e}")
    if OmegaConf.get_type(cfg) is not cls:
        fail(f"{tag}: get_type is {OmegaConf.get_type(cfg)}")
    types_ok(specs, classes, ref, cfg, tag)
    frozen_ok(specs, ref, cfg, tag)
    if how != "class" and obj_data(classes, src, specs) != src0:
        fail(f"{tag}: creating the config changed the instance to {show(src)}")
    # class and default instance
    r = attempt(lambda: OmegaConf.structured(S.inst_value(("I", i, {}), classes)))
    c = attempt(lambda: OmegaConf.structured(cls))
    if r[0] != "ok" or c[0] != "ok" or cs(r[1]) != cs(c[1]):
        fail(f"{tag}: the class gives {show(c)}, its default instance {show(r)}")
    # round trip
    if not has_missing(ref) and "${" not in repr(ref):
        o = OmegaConf.to_object(cfg)
        got = obj_data(classes, o, specs)
        if got != ref_data(ref):
            fail(f"{tag}: to_object gives {show(o, 500)}, expected {show(ref_data(ref), 500)}")
        again = OmegaConf.structured(o)
        if cs(again) != cs(cfg):
            fail(f"{tag}: config of to_object is {show(plain(again))} instead of {show(plain(cfg))}")
        ctx.label("to_object")
        scramble_obj(classes, o, specs)
        if cs(cfg) != cs(S.flat(ref)):
            fail(f"{tag}: changing the object of to_object changed the config")
    # independence
    other = make()
    if mutate_cfg:
        thaw(cfg)
        e = S.enforced(specs, classes, ("cls", i), cfg)
        if e:
            fail(f"{tag}: {e}")
        for _, n in list(nodes_of(cfg)):
            if isinstance(n, ListConfig) and not special(n):
                n.clear()
            elif isinstance(n, DictConfig) and not special(n):
                for k in list(n.keys()):
                    del n[k]
        if how != "class" and obj_data(classes, src, specs) != src0:
            fail(f"{tag}: changing the config changed the instance to {show(src)}")
        if cs(make()) != cs(S.flat(ref)):
            fail(f"{tag}: changing a config changes later configs of the same class to {show(make())}")
    elif how != "class":
        scramble_obj(classes, src, specs)
    if cs(other) != cs(S.flat(ref)):
        fail(f"{tag}: changing {'a config' if mutate_cfg else 'the instance'} changed another config of it to {show(other)}")
    if any(isinstance(S.strip(f[1])[1], tuple) for s in specs for f in s["fields"]) or any(s["base"] is not None or s.get("ignore") for s in specs):
        ctx.hit(how)
    for s in specs:
        if any(f[0].startswith("_") for f in s["fields"]):
            ctx.label("private")
        for k in ("ignore", "noinit", "frozen"):
            if s.get(k):
                ctx.label(k)


def scramble_obj(classes, o, specs):
    if type(o) in classes:
        i = classes.index(type(o))
        for n, _, _ in S.fields_of(specs, i):
            v = getattr(o, n)
            if type(v) in classes or isinstance(v, (dict, list)):
                scramble_obj(classes, v, specs)
            elif not specs[i]["frozen"]:
                setattr(o, n, "scrambled")
    elif isinstance(o, dict):
        for x in o.values():
            if type(x) in classes or isinstance(x, (dict, list)):
                scramble_obj(classes, x, specs)
        o["scrambled"] = 1
    elif isinstance(o, list):
        for x in o:
            if type(x) in classes or isinstance(x, (dict, list)):
                scramble_obj(classes, x, specs)
        o.append("scrambled")


# ---------------------------------------------------------------- dataclass and attrs alike
@st.composite
def twins(draw):
    specs = draw(S.schemas(max_cls=3, frozen=True, kinds="dc").filter(lambda ss: not any(f[0] in {g[0] for g in S.all_fields(ss, s["base"])} for s in ss if s["base"] is not None for f in s["fields"])))
    root = draw(S.instances(specs))
    ops = draw(st.lists(st.tuples(st.sampled_from(["set", "merge", "append", "del", "pop", "update"]), st.integers(0, 12), st.sampled_from(["a", "b", "c", "x", "y", "zz", 0, 1]),
                                  one_of(S.wild_values, S.wild_values, S.instances(specs, depth=0), st.integers(0, len(specs) - 1).map(lambda i: ("C", i)))), max_size=5))
    return specs, root, draw(st.booleans()), ops


def play(specs, root, from_class, ops):
    classes = S.realize(specs)
    src = classes[root[1]] if from_class else S.inst_value(root, classes)
    cfg = OmegaConf.structured(src)
    log = [canon(cfg)]
    for kind, bi, key, v in ops:
        boxes = [n for _, n in nodes_of(cfg) if isinstance(n, (DictConfig, ListConfig)) and not special(n)]
        n = boxes[bi % len(boxes)]
        val = S.inst_value(v, classes)

        def op():
            if kind == "set":
                n[key] = val
            elif kind == "merge":
                n.merge_with({key: val} if isinstance(n, DictConfig) else [val])
            elif kind == "append":
                n.append(val) if isinstance(n, ListConfig) else n.__setitem__(key, val)
            elif kind == "del":
                del n[key]
            elif kind == "pop":
                n.pop(key)
            elif kind == "update":
                OmegaConf.update(n, str(key), val)
        r = attempt(op)
        log.append((r[0], type(r[1]).__name__ if r[0] == "exc" else None, canon(cfg)))
    log.append([(p, type(n).__name__, n._metadata.ref_type.__name__ if isinstance(n._metadata.ref_type, type) else str(n._metadata.ref_type), n._metadata.optional,
                 getattr(n._metadata.object_type, "__name__", None), dict(n._metadata.flags)) for p, n in nodes_of(cfg)])
    o = attempt(lambda: OmegaConf.to_object(cfg))
    log.append(("ok", obj_data(classes, o[1], specs)) if o[0] == "ok" else ("exc", type(o[1]).__name__))
    log.append(attempt(lambda: OmegaConf.to_yaml(cfg))[0])
    return log


def run_twins(case, ctx):
    specs, root, from_class, ops = case
    a = play(specs, root, from_class, ops)
    b = play([dict(s, kind="attr") for s in specs], root, from_class, ops)
    if a != b:
        d = [(i, x, y) for i, (x, y) in enumerate(zip(a, b)) if x != y][0]
        fail(f"{specs} {root} {ops}: a dataclass and the same attrs class differ at step {d[0]}: {show(d[1], 700)} / {show(d[2], 700)}")
    if len(a[0][1]) > 1 or ops:
        ctx.hit()


# ---------------------------------------------------------------- names that attrs __init__ takes differently
NAMES = ["x", "_x", "__x", "_x_", "x_", "_", "_1x", "X", "é", "_é"]
ALIASES = [None, "same", "x", "y", "_y", "init_x", "__y"]


def enum_alias(tier):
    return [(n, a, i, d, w) for n in NAMES for a in ALIASES for i in (True, False) for d in ("req", "default", "factory", "missing") if not (d == "req" and not i)
            for w in ("class", "instance", "nested", "list", "default") if not (d in ("req", "missing") and w == "default")]


def run_alias(case, ctx):
    name, alias, init, default, where = case
    kw = {"init": init}
    if alias is not None:
        kw["alias"] = name if alias == "same" else alias
    if default == "default":
        kw["default"] = 5
    elif default == "factory":
        kw["factory"] = lambda: 5
    elif default == "missing":
        kw["default"] = "???"
    try:
        cls = attr.make_class("AliasCls", {name: attr.ib(type=int, kw_only=False, **kw), "z": attr.ib(type=str, default="zz")})
        arg = next(f.alias for f in attr.fields(cls) if f.name == name)
        want = cls(**({arg: 7} if init and where in ("instance", "nested", "list") else {} if default != "req" else {arg: 9}))
    except (ValueError, SyntaxError, TypeError):
        return  # attrs itself does not take it
    v = getattr(want, name)
    tag = f"attrs field {name!r} with alias {alias}, init={init}, {default}, {where}"
    if where in ("class", "default"):
        cfg = OmegaConf.structured(cls if where == "class" else cls())
    elif where == "instance":
        cfg = OmegaConf.structured(want)
    else:
        cfg = OmegaConf.create({"h": want} if where == "nested" else [0, want])
        cfg = cfg.h if where == "nested" else cfg[1]
    if list(cfg.keys()) != [name, "z"] or cfg._metadata.object_type is not cls:
        fail(f"{tag}: fields {list(cfg.keys())}, type {cfg._metadata.object_type}")
    if where == "class" and default == "req":
        cfg[name] = 9
    elif OmegaConf.is_missing(cfg, name):
        if v != "???":
            fail(f"{tag}: missing, the instance has {v!r}")
        cfg[name] = v = 9
    r = attempt(lambda: OmegaConf.to_object(cfg))
    if r[0] != "ok" or type(r[1]) is not cls or getattr(r[1], name) != (9 if v == "???" else v) or r[1].z != "zz":
        fail(f"{tag}: to_object gives {show(r)}, expected {name}={v!r}")
    cfg[name] = 11
    cfg.z = "q"
    r = attempt(lambda: OmegaConf.to_object(cfg))
    if r[0] != "ok" or getattr(r[1], name) != 11 or r[1].z != "q" or OmegaConf.to_container(cfg) != {name: 11, "z": "q"}:
        fail(f"{tag}: after assigning 11, to_object gives {show(r)}")
    m = OmegaConf.merge(OmegaConf.structured(cls), {name: 12})
    r = attempt(lambda: OmegaConf.to_container(m, structured_config_mode=SCMode.INSTANTIATE))
    if r[0] != "ok" or getattr(r[1], name) != 12:
        fail(f"{tag}: merged 12, instantiated as {show(r)}")
    ctx.hit(where)


LEGS = [
    Leg("alias", None, run_alias, quick=0, enumerated=enum_alias,
        rule="an attrs class with a field of every kind of name (underscores before and after), alias, init and default, as class, instance and nested: the config's keys are the field names and to_object passes __init__ what it takes; non-trivial: attrs accepts the declaration"),
    Leg("faithful", cases, run, quick=3200,
        rule="generated dataclass/attrs declarations (inheritance, frozen, ignored and init=False fields, nested containers and classes, self references) created from class or "
             "instance; non-trivial: a container or class typed field, inheritance or ignored fields"),
    Leg("twins", twins, run_twins, quick=1200,
        rule="the same generated declaration as dataclass and as attrs class driven through the same operations; non-trivial: more than one field or an operation"),
]
