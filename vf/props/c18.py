"""C18: to_container / to_object against the contents, for every combination of options."""
import copy
from typing import Dict, List, Optional
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, OmegaConf, SCMode
from omegaconf.errors import InterpolationResolutionError, MissingMandatoryValue
from ..core import Leg, fail
from ..gen import *
from .. import schema as S, interp as I
from ..snap import walk

MISS = "???"
options = st.tuples(st.booleans(), st.booleans(), st.booleans(), st.sampled_from(list(SCMode)))


class Missing(Exception):
    pass


def name(v, e):
    return v.name if e and isinstance(v, enum.Enum) else v


# ---------------------------------------------------------------- untyped configs with interpolations
extra_keys = one_of(st.sampled_from([Color.RED, Color.GREEN, Shape.SQUARE, 3, 2.5, b"k", True, "z"]))
extras = st.dictionaries(extra_keys, trees(leaf=one_of(scalars, st.sampled_from(list(Color))), keys=extra_keys, max_leaves=4, width=3), max_size=2)


def pythonic(v, e, tom):
    """Plain data as converted: enum names, missing values."""
    if isinstance(v, dict):
        return {name(k, e): pythonic(x, e, tom) for k, x in v.items()}
    if isinstance(v, list):
        return [pythonic(x, e, tom) for x in v]
    if tom and isinstance(v, str) and v == MISS:
        raise Missing
    return name(v, e)


def run_untyped(case, ctx):
    skel, extra, (resolve, tom, e2s, mode), sub = case
    tree = I.build(skel)
    tree.update(extra)
    cfg = OmegaConf.create(I.raw(tree))
    node, loc = cfg, ()
    boxes = [p for p, v in I.paths(tree) if isinstance(v, (dict, list))]
    loc = boxes[sub % len(boxes)]
    for p in loc:
        node = node._get_node(p)
    before = walk(cfg)
    exp = None
    try:
        data = I.convert(tree, loc) if resolve else I.raw(I.at(tree, loc))
        exp = ("ok", pythonic(data, e2s, tom))
    except I.Skip:
        exp = None
    except I.Err:
        exp = ("err", InterpolationResolutionError)
    except Missing:
        exp = ("err", MissingMandatoryValue)
    except RecursionError:
        exp = None
    got = attempt(lambda: OmegaConf.to_container(node, resolve=resolve, throw_on_missing=tom, enum_to_str=e2s, structured_config_mode=mode))
    tag = f"to_container({I.raw(tree)} at {loc}, resolve={resolve}, throw_on_missing={tom}, enum_to_str={e2s}, {mode.name})"
    if walk(cfg) != before:
        fail(f"{tag} changed the config to {show(plain(cfg))}")
    if exp is None:
        return
    if exp[0] == "err":
        ok = (InterpolationResolutionError, MissingMandatoryValue) if tom else exp[1]
        if got[0] != "exc" or not isinstance(got[1], ok):
            fail(f"{tag} gives {show(got)}, expected {exp[1].__name__}")
        ctx.hit("error")
        return
    if got[0] != "ok" or canon(got[1]) != canon(exp[1]):
        fail(f"{tag} gives {show(got)}, expected {show(exp[1])}")
    scramble(got[1])
    if walk(cfg) != before:
        fail(f"{tag}: changing the result changed the config to {show(plain(cfg))}")
    if I.n_exprs(I.at(tree, loc)) or any(isinstance(k, enum.Enum) for k in extra):
        ctx.hit("resolve" if resolve else "raw")


# ---------------------------------------------------------------- structured nodes
@st.composite
def structured(draw):
    specs = draw(S.schemas(max_cls=3))
    x = S.instances(specs)
    tree = draw(st.dictionaries(st.sampled_from(["n", "m", "l", "k", Color.RED, 3]), one_of(
        x, x, st.lists(one_of(x, scalars), max_size=3), st.dictionaries(st.sampled_from(["p", "q", Shape.CIRCLE]), one_of(x, scalars), max_size=3), scalars), min_size=1, max_size=3))
    root = draw(one_of(st.just(tree), x))
    refs = draw(st.lists(st.tuples(st.integers(0, 99), st.integers(0, 99)), max_size=2))
    return specs, root, refs, draw(st.lists(options, min_size=2, max_size=4)), draw(st.booleans())


class Ref:
    def __init__(self, path, text):
        self.path, self.text = path, text

    def __repr__(self):
        return self.text


def step(v, k):
    return (v.f if isinstance(v, S.SNode) else v)[k]


def at(v, path):
    for k in path:
        v = step(v, k)
    return v


def spellable(v, path):
    for k in path:
        if isinstance(v, Ref) or not (isinstance(v, list) or isinstance(k, str) and k.isidentifier()):
            return False
        v = step(v, k)
    return True


def put(v, path, x):
    v = at(v, path[:-1])
    (v.f if isinstance(v, S.SNode) else v)[path[-1]] = x


def reference(specs, v):
    if S.is_inst(v):
        return S.inst(specs, v[1], v[2])
    if isinstance(v, dict):
        return {k: reference(specs, x) for k, x in v.items()}
    if isinstance(v, list):
        return [reference(specs, x) for x in v]
    return v


def conv(root, v, o, inside=False, depth=0):
    """o: (resolve, throw_on_missing, enum_to_str, mode).  inside: a class instance is being made."""
    resolve, tom, e2s, mode = o
    if depth > 30:
        raise I.Skip
    if isinstance(v, Ref):
        if not resolve and not inside:
            return v.text
        t = root
        for k in v.path:
            if isinstance(t, Ref):
                raise I.Skip
            t = step(t, k)
        if isinstance(t, str) and t == MISS:
            raise Missing
        return conv(root, t, o, inside, depth + 1)
    if isinstance(v, str) and v == MISS:
        if tom or inside:
            raise Missing
        return v
    if isinstance(v, S.SNode):
        if inside or mode is SCMode.INSTANTIATE:
            return ("obj", v.i, [(n, conv(root, x, o, True, depth + 1)) for n, x in v.f.items()])
        if mode is SCMode.DICT_CONFIG:
            return ("cfg", v.i, rawflat(v))
        v = v.f
    if isinstance(v, dict):
        return ("dict", [(canon(k if inside else name(k, e2s)), conv(root, x, o, inside, depth + 1)) for k, x in v.items()])
    if isinstance(v, list):
        return ("list", [conv(root, x, o, inside, depth + 1) for x in v])
    if isinstance(v, str) and "${" in v:
        raise I.Skip
    return canon(v if inside else name(v, e2s))


def rawflat(v):
    if isinstance(v, S.SNode):
        v = v.f
    if isinstance(v, dict):
        return ("dict", [(canon(k), rawflat(x)) for k, x in v.items()])
    if isinstance(v, list):
        return ("list", [rawflat(x) for x in v])
    return canon(v.text if isinstance(v, Ref) else v)


def seen(specs, classes, v):
    if type(v) in classes:
        i = classes.index(type(v))
        return ("obj", i, [(n, seen(specs, classes, getattr(v, n))) for n, _, _ in S.fields_of(specs, i)])
    if isinstance(v, DictConfig):
        t = OmegaConf.get_type(v)
        return ("cfg", classes.index(t) if t in classes else str(t), canon(v))
    if type(v) is dict:
        return ("dict", [(canon(k), seen(specs, classes, x)) for k, x in v.items()])
    if type(v) is list:
        return ("list", [seen(specs, classes, x) for x in v])
    return ("config", str(v)) if OmegaConf.is_config(v) else leaf_seen(v)


def leaf_seen(v):
    return v if isinstance(v, str) and "${" in v else canon(v)


def run_structured(case, ctx):
    specs, root, refs, opts, to_object = case
    classes = S.realize(specs)
    ref = reference(specs, root)
    cfg = OmegaConf.create(S.inst_value(root, classes))
    typ = ("cls", root[1]) if S.is_inst(root) else "any"
    nref = 0
    for a, b in refs:
        ps = [(p, t) for p, t, n in S.places(specs, classes, typ, cfg) if p and spellable(ref, p)]
        if not ps:
            break
        src, t = ps[a % len(ps)]
        tgt = [p for p, u in ps if u == t and p[:len(src)] != src and src[:len(p)] != p and not any(isinstance(at(ref, p[:i + 1]), Ref) for i in range(len(p)))]
        if not tgt:
            continue
        p = tgt[b % len(tgt)]
        text = "${" + ".".join(map(str, p)) + "}"
        node = cfg
        for k in src[:-1]:
            node = node._get_node(k)
        node[src[-1]] = text
        put(ref, src, Ref(p, text))
        nref += 1
    before = walk(cfg)
    flags0 = [dict(n._metadata.flags) for _, n in nodes_of(cfg)]
    runs = [(o, False) for o in opts] + ([((True, True, False, SCMode.INSTANTIATE), True)] if to_object else [])
    for o, obj in runs:
        tag = f"{'to_object' if obj else 'to_container'} of {show(plain(cfg), 500)} ({specs}) with resolve={o[0]}, throw_on_missing={o[1]}, enum_to_str={o[2]}, {o[3].name}"
        try:
            exp = ("ok", conv(ref, ref, o))
        except Missing:
            exp = ("err", None)
        except I.Skip:
            exp = None
        got = attempt(lambda: OmegaConf.to_object(cfg) if obj else OmegaConf.to_container(cfg, resolve=o[0], throw_on_missing=o[1], enum_to_str=o[2], structured_config_mode=o[3]))
        if walk(cfg) != before:
            fail(f"{tag} changed the config to {show(plain(cfg))}")
        if exp is None:
            continue
        if exp[0] == "err":
            if got[0] != "exc" or not isinstance(got[1], (MissingMandatoryValue, InterpolationResolutionError) if nref else MissingMandatoryValue):
                fail(f"{tag} gives {show(got)}, expected MissingMandatoryValue")
            ctx.hit("missing")
            continue
        if got[0] != "ok":
            fail(f"{tag} raises {type(got[1]).__name__}: {got[1]}")
        g = seen(specs, classes, got[1])
        w = fix(exp[1])
        if fix(g) != w:
            fail(f"{tag} gives {show(g, 700)}, expected {show(w, 700)}")
        if nref or o[3] is not SCMode.DICT:
            ctx.hit(o[3].name)
        if o[3] is not SCMode.DICT_CONFIG:
            mess(got[1], classes, specs)
            if walk(cfg) != before:
                fail(f"{tag}: changing the result changed the config to {show(plain(cfg))}")


def fix(v):
    """Interpolation text compares as text."""
    if isinstance(v, tuple) and len(v) == 3 and v[0] == "obj":
        return ("obj", v[1], [(n, fix(x)) for n, x in v[2]])
    if isinstance(v, tuple) and len(v) == 2 and v[0] == "dict":
        return ("dict", [(k, fix(x)) for k, x in v[1]])
    if isinstance(v, tuple) and len(v) == 2 and v[0] == "list":
        return ("list", [fix(x) for x in v[1]])
    return canon(v) if isinstance(v, str) else v


def mess(v, classes, specs):
    if type(v) in classes:
        for n, _, _ in S.fields_of(specs, classes.index(type(v))):
            x = getattr(v, n)
            if type(x) in classes or isinstance(x, (dict, list)):
                mess(x, classes, specs)
            else:
                setattr(v, n, "scrambled")
    elif isinstance(v, dict):
        for k in list(v):
            mess(v[k], classes, specs)
            v[k] = "scrambled"
        v["scrambled"] = 1
    elif isinstance(v, list):
        for x in v:
            mess(x, classes, specs)
        v[:] = ["scrambled"] * (len(v) + 1)


# ---------------------------------------------------------------- the node converted is itself None, missing or an interpolation
def run_special(case, ctx):
    kind, state, target, where, opts, kw = case
    cls = DictConfig if kind == "dict" else ListConfig
    extra = {"element_type": int, "ref_type": Optional[Dict[str, int] if kind == "dict" else List[int]]} if kw else {}
    content = {"none": None, "missing": MISS, "alias": "${t}"}[state]
    box = cls(content, **extra)
    if where == "root":
        if state == "alias":
            return
        cfg = node = box
    elif where == "dict":
        cfg = OmegaConf.create({"t": target, "b": box})
        node = cfg._get_node("b")
    elif where == "list":
        cfg = OmegaConf.create({"t": target, "l": [box]})
        node = cfg._get_node("l")._get_node(0)
    else:
        cfg = OmegaConf.create({"t": target, "n": {"b": box, "c": 1}})
        node = cfg._get_node("n")._get_node("b")
    if type(node) is not cls or canon(node._value()) != canon(content):
        fail(f"{cls.__name__}({content!r}) put in a config reads as {node!r}")
    if extra and state == "alias":
        return    # what the target may be is the subject of C09 and C10
    before = walk(cfg)
    for o in opts:
        resolve, tom, e2s, mode = o
        tag = f"to_container of the {cls.__name__} {content!r} in {plain(cfg)} ({where}) with resolve={resolve}, throw_on_missing={tom}, enum_to_str={e2s}, {mode.name}"
        got = attempt(lambda: OmegaConf.to_container(node, resolve=resolve, throw_on_missing=tom, enum_to_str=e2s, structured_config_mode=mode))
        if walk(cfg) != before:
            fail(f"{tag} changed the config to {show(plain(cfg))}")
        exp = None
        if state == "none":
            exp = None
        elif state == "missing":
            exp = Missing if tom else MISS
        elif not resolve:
            exp = "${t}"
        elif isinstance(target, str) and target == MISS:
            exp = Missing
        else:
            try:
                exp = pythonic(target, e2s, tom)
            except Missing:
                exp = Missing
        if exp is Missing:
            if got[0] != "exc" or not isinstance(got[1], (MissingMandatoryValue, InterpolationResolutionError) if state == "alias" else MissingMandatoryValue):
                fail(f"{tag} gives {show(got)}, expected MissingMandatoryValue")
        elif got[0] != "ok" or canon(got[1]) != canon(exp):
            fail(f"{tag} gives {show(got)}, expected {show(exp)}")
    ctx.hit(state)
    # the same through the whole config
    if where != "root" and state != "alias":
        for o in opts:
            got = attempt(lambda: OmegaConf.to_container(cfg, resolve=o[0], throw_on_missing=o[1], enum_to_str=o[2], structured_config_mode=o[3]))
            miss = o[1] and (state == "missing" or has_missing(target))
            if miss:
                if got[0] != "exc" or not isinstance(got[1], MissingMandatoryValue):
                    fail(f"to_container of {plain(cfg)} with throw_on_missing gives {show(got)}, expected MissingMandatoryValue")
                continue
            want = pythonic(target, o[2], False)
            want = {"t": want, **{"dict": {"b": content}, "list": {"l": [content]}, "deep": {"n": {"b": content, "c": 1}}}[where]}
            if got[0] != "ok" or canon(got[1]) != canon(want):
                fail(f"to_container of {plain(cfg)} ({o}) gives {show(got)}, expected {show(want)}")


def has_missing(v):
    try:
        pythonic(v, False, True)
    except Missing:
        return True
    return False


def special():
    return st.tuples(st.sampled_from(["dict", "list"]), st.sampled_from(["none", "missing", "alias"]),
                     one_of(trees(leaf=one_of(scalars, st.just(MISS), st.sampled_from(list(Color))), max_leaves=4, width=3), st.none(), st.just(MISS), scalars),
                     st.sampled_from(["root", "dict", "list", "deep"]), st.lists(options, min_size=2, max_size=5), st.booleans())


LEGS = [
    Leg("untyped", lambda: st.tuples(I.skeleton(), extras, options, st.integers(0, 9)), run_untyped, quick=8000,
        rule="config with interpolations (paths, relative, nested, through aliases, failing), enum and other non-string keys, any sub-container x 24 option combinations; "
             "non-trivial: contains interpolations or enum keys"),
    Leg("structured", structured, run_structured, quick=3000,
        rule="configs with instances of generated dataclass/attrs declarations at any depth, interpolations between places of equal type, 2-4 option combinations each and to_object; "
             "non-trivial: an interpolation, a missing value that must be reported or a mode other than DICT"),
    Leg("special", special, run_special, quick=3000,
        rule="the container converted is itself None, missing or an interpolation (to a container, None, a missing value, a scalar), at the root or inside a dict, list or nested dict, typed or not; non-trivial: all"),
]
