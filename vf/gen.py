"""Shared generators (Hypothesis strategies of plain data) and observation helpers."""
import enum, math, pathlib
from hypothesis import strategies as st

from .codec import register_enum


@register_enum
class Color(enum.Enum):
    RED = 1
    GREEN = 2
    BLUE = 3


@register_enum
class Shape(enum.Enum):
    SQUARE = "sq"
    CIRCLE = "ci"


Path = pathlib.Path


def _same(x):
    return x


def one_of(*args):
    """st.one_of with weights: it drops repeated alternatives and flattens nested ones, so each is wrapped."""
    from hypothesis.strategies._internal.strategies import OneOfStrategy
    seen, out = set(), []
    for a in args:
        out.append(a.map(_same) if id(a) in seen or isinstance(a, OneOfStrategy) else a)
        seen.add(id(a))
    return st.one_of(*out)

# ---------------------------------------------------------------- leaves
IDS = ["a", "b", "c", "d", "foo", "bar_1", "x9", "Z"]
ids = st.sampled_from(IDS)
odd_keys = st.sampled_from(["", "0", "1", "-1", "true", "null", "a b", "é", "日本", "x-y", "$d", "1.5", "a:b", "'q'", "@", "keys_", "_p"])
ints = one_of(st.integers(-3, 12), st.integers(), st.sampled_from([0, 1, -1, 2**31, 10**18]))
floats = one_of(st.floats(allow_nan=False), st.sampled_from([0.0, -0.0, 1.0, 1e5, 1e-7, 1.5, float("inf"), -float("inf"), 1e16, 3.0]))
words = st.sampled_from(["", "a", "foo", "hello world", "None", "null", "true", "1", "1.0", "no", "abc", " ", "x=y", "a.b", "[1]", "{}", "é", "日本語", "RED", "Color.RED", "???x", "$", "$x", "}", "\\", "'", '"', "\n"])
# text without "${" and different from "???"
plain_text = one_of(words, st.text(max_size=6)).map(lambda s: s.replace("${", "$(")).filter(lambda s: s != "???")
bytes_ = one_of(st.binary(max_size=4), st.sampled_from([b"", b"a", b"1", b"\xff"]))
paths = st.sampled_from([Path("a"), Path("a/b"), Path("/tmp/x"), Path(".."), Path("1")])
enums = st.sampled_from(list(Color) + list(Shape))
scalars = one_of(ints, st.booleans(), floats, plain_text, st.none(), bytes_, paths, enums)
scalars_nonnull = one_of(ints, st.booleans(), floats, plain_text, bytes_, paths, enums)

any_keys = one_of(ids, ids, odd_keys, st.text(max_size=4), st.integers(-3, 5), st.integers(),
                     st.sampled_from([0.5, 1.0, 2.5, -0.0, 1e20]), st.booleans(), st.binary(max_size=3), enums)
str_keys = one_of(ids, ids, ids, odd_keys, st.text(max_size=5))


def trees(leaf=scalars, keys=any_keys, max_leaves=12, tuples=False, width=5):
    def ext(c):
        opts = [st.dictionaries(keys, c, max_size=width), st.lists(c, max_size=width)]
        if tuples:
            opts.append(st.lists(c, max_size=3).map(tuple))
        return one_of(*opts)
    return st.recursive(leaf, ext, max_leaves=max_leaves)


def dict_trees(leaf=scalars, keys=any_keys, max_leaves=12, tuples=False, width=5, min_size=0):
    return st.dictionaries(keys, trees(leaf, keys, max_leaves, tuples, width), min_size=min_size, max_size=width)


def list_trees(leaf=scalars, keys=any_keys, max_leaves=12, tuples=False, width=5, min_size=0):
    return st.lists(trees(leaf, keys, max_leaves, tuples, width), min_size=min_size, max_size=width)


# ---------------------------------------------------------------- observation
def plain(v):
    """Config -> plain data (unresolved)."""
    from omegaconf import OmegaConf
    return OmegaConf.to_container(v) if OmegaConf.is_config(v) else v


def canon(v):
    """Hashable-free canonical form: exact types, order of dicts kept, NaN equal to itself."""
    from omegaconf import OmegaConf
    if OmegaConf.is_config(v):
        v = OmegaConf.to_container(v)
    t = type(v)
    if t is dict:
        return ("dict", [(canon(k), canon(x)) for k, x in v.items()])
    if t in (list, tuple):
        return (t.__name__, [canon(x) for x in v])
    if t is float:
        return ("float", repr(v))
    if isinstance(v, enum.Enum):
        return ("enum", type(v).__name__, v.name)
    if isinstance(v, pathlib.PurePath):
        return ("path", str(v))
    if t in (int, bool, str, bytes) or v is None:
        return (t.__name__, v)
    return ("obj", t.__module__ + "." + t.__qualname__, repr(v))


def seq(c):
    """canon form with tuples seen as lists."""
    if isinstance(c, tuple) and c and c[0] in ("tuple", "list") and len(c) == 2 and isinstance(c[1], list):
        return ("list", [seq(x) for x in c[1]])
    if isinstance(c, tuple) and c and c[0] == "dict":
        return ("dict", [(seq(k), seq(x)) for k, x in c[1]])
    return c


def cs(v):
    return seq(canon(v))


def unordered(c):
    """canon form with dict order dropped."""
    if isinstance(c, tuple) and c and c[0] == "dict" and isinstance(c[1], list):
        return ("dict", sorted(((unordered(k), unordered(x)) for k, x in c[1]), key=repr))
    if isinstance(c, tuple) and c and c[0] in ("list", "tuple") and isinstance(c[1], list):
        return (c[0], [unordered(x) for x in c[1]])
    return c


def attempt(f):
    """('ok', value) or ('exc', exception).  AssertionError & co are returned too: the caller compares."""
    try:
        return ("ok", f())
    except Exception as e:
        return ("exc", e)


def show(v, n=300):
    try:
        s = repr(v)
    except Exception as e:
        s = f"<unprintable {type(v).__name__}: {type(e).__name__}>"
    return s if len(s) <= n else s[:n] + "..."


def depth(v):
    if isinstance(v, dict):
        return 1 + max([depth(x) for x in v.values()], default=0)
    if isinstance(v, (list, tuple)):
        return 1 + max([depth(x) for x in v], default=0)
    return 0


def leaves(v):
    if isinstance(v, dict):
        return sum(leaves(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return sum(leaves(x) for x in v)
    return 1


def nodes_of(cfg, path=()):
    """(path, node) of every node of a config, containers and values alike (raw, not resolved)."""
    yield path, cfg
    from omegaconf import DictConfig, ListConfig
    if isinstance(cfg, (DictConfig, ListConfig)) and not special(cfg):
        keys = list(cfg.keys()) if isinstance(cfg, DictConfig) else range(len(cfg))
        for k in keys:
            yield from nodes_of(cfg._get_node(k), path + (k,))


def special(c):
    """A container that is None, missing or an interpolation."""
    return c._is_none() or c._is_missing() or c._is_interpolation()


def scramble(v):
    """Changes every leaf and every container of a plain structure or config, in place."""
    from omegaconf import DictConfig, ListConfig
    if isinstance(v, (DictConfig, ListConfig)):
        if special(v):
            return
        if isinstance(v, DictConfig):
            for k in list(v.keys()):
                n = v._get_node(k)
                if OmegaConf_is_config(n) and not special(n):
                    scramble(n)
                else:
                    v[k] = "scrambled"
            v["scrambled_key"] = 1
        else:
            for i in range(len(v)):
                n = v._get_node(i)
                if OmegaConf_is_config(n) and not special(n):
                    scramble(n)
                else:
                    v[i] = "scrambled"
            v.append("scrambled")
    elif isinstance(v, dict):
        for k in list(v):
            if isinstance(v[k], (dict, list)) or OmegaConf_is_config(v[k]):
                scramble(v[k])
            else:
                v[k] = "scrambled"
        v["scrambled_key"] = 1
    elif isinstance(v, list):
        for i in range(len(v)):
            if isinstance(v[i], (dict, list)) or OmegaConf_is_config(v[i]):
                scramble(v[i])
            else:
                v[i] = "scrambled"
        v.append("scrambled")
    elif isinstance(v, tuple):
        for x in v:
            scramble(x)


def OmegaConf_is_config(v):
    from omegaconf import OmegaConf
    return OmegaConf.is_config(v)


def pure(v):
    """tuples -> lists, deep copy of containers"""
    if isinstance(v, (list, tuple)):
        return [pure(x) for x in v]
    if isinstance(v, dict):
        return {k: pure(x) for k, x in v.items()}
    return v


def exact_types(v):
    """Only plain dicts and lists as containers."""
    if isinstance(v, dict):
        return type(v) is dict and all(exact_types(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return type(v) is list and all(exact_types(x) for x in v)
    return not OmegaConf_is_config(v)


interp_text = st.sampled_from(["${a}", "${b}", "${.a}", "${..b}", "x${a}y", "${a.b}", "${foo:1,2}", "\\${a}", "${oc.env:HOME}", "${${a}}", "${a}${b}", "$", "${a[0]}"])
