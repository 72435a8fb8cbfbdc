"""C25: what fails raises the documented error, naming the right place, and leaves the config as it was."""
import copy
import dataclasses
import pickle
from typing import Dict, List
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, MissingMandatoryValue, OmegaConf, ReadonlyConfigError, UnsupportedValueType, ValidationError
from omegaconf.errors import (ConfigAttributeError, ConfigIndexError, ConfigKeyError, ConfigTypeError, ConfigValueError, GrammarParseError, InterpolationKeyError,
                              InterpolationResolutionError, InterpolationToMissingValueError, InterpolationValidationError, KeyValidationError, OmegaConfBaseException,
                              UnsupportedInterpolationType)
from ..core import Leg, fail
from ..gen import *
from .. import schema as S, snap, ops as O
from .c14 import raw_node

ASSUMPTIONS = ["keys holding '.', '[' or ']' have no unambiguous path text and are not judged", "a key of an unsupported type has no path (full_key is empty)",
               "a failing merge or update of several values may be partly applied", "operators that configs do not define (cfg | x, cfg < x) raise Python's own TypeError, popitem() of an empty dict Python's KeyError",
               "a container node that is itself an interpolation is only read through its parent"]
MISS = "???"


def path_text(path, cfg):
    """The documented path of a node: keys joined by dots, list positions in brackets."""
    out, c = "", cfg
    for k in path:
        if isinstance(c, ListConfig):
            out += f"[{k if not isinstance(k, slice) else slice_text(k)}]"
        else:
            out += ("." if out else "") + (k.name if isinstance(k, enum.Enum) else str(k))
        c = c._get_node(k) if isinstance(c, (DictConfig, ListConfig)) and not isinstance(k, slice) and not special(c) and has(c, k) else None
    return out


def slice_text(s):
    return f"{s.start}:{s.stop}" + ("" if s.step is None else f":{s.step}")


def has(c, k):
    return k in c.keys() if isinstance(c, DictConfig) else -len(c) <= k < len(c)


def judged(path):
    return all(not isinstance(k, str) or k and not any(x in k for x in ".[]") for k in path)


class Boom(Exception):
    pass


OmegaConf.register_new_resolver("c25_boom", lambda *a: (_ for _ in ()).throw(Boom("boom")), replace=True)
OmegaConf.register_new_resolver("c25_assert", lambda *a: (_ for _ in ()).throw(AssertionError("mine")), replace=True)


class Thing:
    pass


FRESH = ["zz_q", "nope", 77, 2.75, b"zz", Color.BLUE, "0"]
BAD_INDEX = [99, -99, 1000]
TEXTS = {"${zz_nope}": InterpolationKeyError, "${zz_nope.a}": InterpolationKeyError, "${.zz_nope}": InterpolationKeyError, "x${zz_nope}": InterpolationKeyError, "${zz_res:}": UnsupportedInterpolationType,
         "${zz_res:1,${zz_nope}}": InterpolationResolutionError, "${c25_boom:}": InterpolationResolutionError, "${c25_boom:x}y": InterpolationResolutionError, "${oc.env:ZZ_NOT_SET}": InterpolationResolutionError,
         "${.......a}": InterpolationKeyError, "${oc.decode:'{'}": InterpolationResolutionError, "${oc.env:}": InterpolationResolutionError}
GRAMMAR = ["${", "${a", "${a:", "x${a.}", "${a..b}", "${}", "${a:[}"]

DICT_FAILS = ["get", "get", "attr", "getdef", "pop", "del", "delattr", "badkey", "badset", "obj", "objattr", "missing", "missingattr", "interp", "interp", "interpget", "grammar", "ro_set", "ro_attr", "ro_del", "ro_delattr", "ro_pop",
              "ro_setdefault", "ro_update", "ro_merge", "ro_clear", "ro_popitem", "ro_resolve", "st_set", "st_attr", "st_get", "st_getattr", "st_del", "st_pop", "st_update", "st_OCupdate", "st_merge", "tom", "seltype", "selmiss", "ro_OCupdate", "isub", "selinterp"]
LIST_FAILS = ["idx", "idx", "idxget", "key", "keyset", "keypop", "set", "del", "pop", "remove", "index", "obj", "objset", "objinsert", "missing", "missingiter", "interp", "interp", "interpiter", "grammar", "ro_set", "ro_append", "ro_insert", "ro_extend",
              "ro_del", "ro_pop", "ro_remove", "ro_clear", "ro_sort", "ro_slice", "ro_iadd", "ro_merge", "slicelen", "extend", "tom", "add", "sort", "seltype", "updtype", "popempty", "selmiss", "ro_OCupdate"]

keys = one_of(st.sampled_from(["a", "b", "c", "x"]), st.sampled_from(["a", "b", "1", "0", "x y", "é", "keys", "-", "true", 0, 1, -2, True, 2.5, b"k", Color.RED, Shape.CIRCLE]))
leaf = one_of(st.integers(0, 3), st.sampled_from(["s", None, MISS, MISS, 2.5, True, b"x", Color.RED]), st.sampled_from(list(TEXTS)), st.sampled_from(["${m_ref}"]))


@st.composite
def cases(draw):
    n = draw(st.integers(0, 3))
    if n == 0:
        specs, roots = draw(O.environments(n=1))
        root = roots[0]
    else:
        specs = []
        root = draw(dict_trees(leaf=leaf, keys=keys, max_leaves=12, width=4, min_size=1) if n > 1 else list_trees(leaf=leaf, keys=keys, max_leaves=12, width=4, min_size=1))
    probe = st.tuples(st.integers(0, 40), st.sampled_from(DICT_FAILS), st.sampled_from(LIST_FAILS), st.integers(0, 40), st.integers(0, 3))
    return specs, root, draw(st.lists(probe, min_size=3, max_size=10))


def probes(c, path, dop, lop, n, up, cfg):
    """(what, call, classes, path or None, unchanged?) of a failing operation on container c; None when it does not fail here.  May set flags and place values."""
    d = isinstance(c, DictConfig)
    op = dop if d else lop
    ks = list(c.keys()) if d else list(range(len(c)))
    k = ks[n % len(ks)] if ks else None
    typed = d and c._is_typed() or any(x._is_typed() for x in parents(c) if isinstance(x, DictConfig))
    kt_any = not d or c._metadata.key_type is Any
    if op.startswith("ro_"):
        anc = list(parents(c))
        OmegaConf.set_readonly(anc[up % len(anc)], True)
        if any(x._get_node_flag("readonly") is False for x in anc):
            return None
    if op.startswith("st_"):
        anc = list(parents(c))
        OmegaConf.set_struct(anc[up % len(anc)], True)
        if any(x._get_node_flag("struct") is False for x in anc) or typed:
            return None
    RO = (ReadonlyConfigError,)
    fresh = FRESH[n % len(FRESH)]
    if d:
        fs = "zz_q"
        if fresh in ks or not kt_any:
            fresh = fs
        if not kt_any and c._metadata.key_type is not str:
            return None
        if op in ("get", "st_get"):
            return ("[]", lambda: c[fresh], (ConfigKeyError, KeyError), path + (fresh,)) if not typed else ("[]", lambda: c[fs], (ConfigKeyError, KeyError), path + (fs,))
        if op in ("attr", "st_getattr"):
            return ("attribute", lambda: getattr(c, fs), (ConfigAttributeError, AttributeError), path + (fs,))
        if op == "isub":
            return ("item below a value", lambda: c[fs]["a"], (ConfigKeyError, KeyError), path + (fs,))
        if op == "getdef" and typed and not special(c):
            return None
        if op in ("pop", "del", "delattr") and typed:
            return None
        if op == "pop":
            return ("pop", lambda: c.pop(fresh), (ConfigKeyError, KeyError), path + (fresh,))
        if op == "del":
            return ("del", lambda: c.__delitem__(fresh), (ConfigKeyError, KeyError), path + (fresh,))
        if op == "delattr":
            return ("del attribute", lambda: delattr(c, fs), (ConfigAttributeError, AttributeError), path + (fs,))
        if op == "badkey":
            bad = [None, {}, [], (1,), Thing()][n % 5]
            return ("[] with a bad key", lambda: [lambda: c[bad], lambda: c.get(bad), lambda: c.pop(bad) if not typed else c[bad]][up % 3](), (KeyValidationError, ConfigTypeError), None)
        if op == "badset":
            bad = [None, {}, [], (1,), Thing()][n % 5]
            return ("[]= with a bad key", lambda: c.__setitem__(bad, 1), (KeyValidationError, ConfigTypeError), None)
        if op in ("obj", "objattr"):
            if typed and k is None or k is not None and c._get_node(k)._metadata.ref_type is not Any or k is None and c._metadata.element_type is not Any:
                return None
            kk = (k if typed or up else fs) if k is not None else fs
            if op == "objattr":
                if not isinstance(kk, str):
                    return None
                return ("attribute = object", lambda: setattr(c, kk, Thing()), (UnsupportedValueType, ValueError), path + (kk,))
            return ("[] = object", lambda: c.__setitem__(kk, Thing() if n % 2 else {"a": [Thing()]}), (UnsupportedValueType, ValueError), path + (kk,) if n % 2 else "below")
        if op in ("missing", "missingattr"):
            ms = [x for x in ks if miss(c._get_node(x))]
            if not ms:
                return None
            m = ms[n % len(ms)]
            if op == "missingattr" and not isinstance(m, str):
                return None
            if up == 3 and not typed:
                return ("pop of a missing value", lambda: nostruct(c).pop(m), (MissingMandatoryValue,), path + (m,))
            return ("missing value", (lambda: getattr(c, m)) if op == "missingattr" else lambda: c[m], (MissingMandatoryValue,), path + (m,))
        if op in ("interp", "interpget", "selinterp"):
            ts = [x for x in ks if text_of(c._get_node(x)) in TEXTS]
            if not ts:
                return None
            m = ts[n % len(ts)]
            cls = TEXTS[text_of(c._get_node(m))] if isinstance(cfg, DictConfig) else InterpolationResolutionError
            if op == "selinterp":
                if not (isinstance(m, str) and m.isidentifier()):
                    return None
                return ("select", lambda: OmegaConf.select(c, m), (cls,), path + (m,))
            if isinstance(m, str) and up % 2 and not m.startswith("__") and m not in dir(DictConfig):
                return ("attribute with a bad interpolation", lambda: getattr(c, m), (cls,), path + (m,))
            return ("bad interpolation", (lambda: c[m]) if op == "interp" else lambda: c.get(m, 5), (cls,), path + (m,))
        if op == "grammar":
            if typed or c._metadata.element_type is not Any:
                return None
            return ("[] = bad interpolation syntax", lambda: c.__setitem__(fs, GRAMMAR[n % len(GRAMMAR)]), (GrammarParseError,), None)
        if op.startswith("ro_"):
            if op in ("ro_update", "ro_merge") and (typed or c._metadata.element_type is not Any):
                return None
            kk = k if k is not None else fs
            if typed and k is None:
                return None
            val = 1
            if k is not None and c._get_node(k)._metadata.ref_type is not Any:
                if op in ("ro_set", "ro_attr") and (isinstance(c._get_node(k), (DictConfig, ListConfig)) or type(c._get_node(k)).__name__ == "UnionNode"):
                    return None
                val = c._get_node(k)._value()
            if op == "ro_set":
                return ("[]=", lambda: c.__setitem__(kk, val), RO, path + (kk,))
            if op == "ro_attr":
                return ("attribute =", lambda: setattr(c, kk if isinstance(kk, str) else fs, val), RO, path + ((kk if isinstance(kk, str) else fs),)) if isinstance(kk, str) or not typed and c._metadata.element_type is Any else None
            if op == "ro_del":
                return ("del", lambda: c.__delitem__(kk), RO, path + (kk,))
            if op == "ro_delattr":
                return ("del attribute", lambda: delattr(c, fs), RO, path + (fs,))
            if op == "ro_pop":
                return ("pop", lambda: c.pop(kk, None), RO, path + (kk,))
            if op == "ro_setdefault":
                return ("setdefault", lambda: c.setdefault(fs, 1), RO, path + (fs,)) if not typed else None
            if op == "ro_update":
                return ("update()", lambda: c.update({fs: 1}), RO, path + (fs,))
            if op == "ro_merge":
                return ("merge_with", lambda: c.merge_with({fs: 1}), RO, "below")
            if op == "ro_clear":
                return ("clear", lambda: c.clear(), RO, "below") if ks and not any(special_value(c._get_node(x)) for x in ks) else None
            if op == "ro_popitem":
                return ("popitem", lambda: c.popitem(), RO, "below") if ks and not special_value(c._get_node(ks[0])) else None
            if op == "ro_OCupdate":
                return ("OmegaConf.update", lambda: OmegaConf.update(c, fs, 1), RO, path + (fs,)) if not typed else None
            return None
        if op == "st_set":
            return ("struct []=", lambda: c.__setitem__(fs, 1), (ConfigKeyError, KeyError), path + (fs,))
        if op == "st_attr":
            return ("struct attribute =", lambda: setattr(c, fs, 1), (ConfigAttributeError, AttributeError), path + (fs,))
        if op == "st_del":
            return ("struct del", lambda: c.__delitem__(k), (ConfigTypeError, TypeError), path + (k,)) if k is not None else None
        if op == "st_pop":
            return ("struct pop", lambda: c.pop(k), (ConfigTypeError, TypeError), path + (k,)) if k is not None else None
        if op == "st_update":
            return ("struct update()", lambda: c.update({fs: 1}), (ConfigKeyError, ConfigAttributeError), path + (fs,))
        if op == "st_OCupdate":
            return ("struct OmegaConf.update", lambda: OmegaConf.update(c, fs, 1), (ConfigKeyError, ConfigAttributeError), path + (fs,))
        if op == "st_merge":
            return ("struct merge_with", lambda: c.merge_with({fs: 1}), (ConfigKeyError, ConfigAttributeError), path + (fs,))
        if op == "tom":
            return tom(c, path)
        if op == "selmiss":
            ms = [x for x in ks if isinstance(x, str) and x.isidentifier() and miss(c._get_node(x))]
            return ("select that throws", lambda: OmegaConf.select(c, ms[0], throw_on_missing=True), (MissingMandatoryValue,), None) if ms else None
        if op == "seltype":
            ls = [x for x in ks if isinstance(x, str) and x.isidentifier() and isinstance(c._get_node(x), ListConfig) and not special(c._get_node(x))]
            return ("select with a word in a list", lambda: OmegaConf.select(c, f"{ls[0]}.zz"), (ConfigTypeError, TypeError), None) if ls else None
        return None
    i = BAD_INDEX[n % len(BAD_INDEX)]
    IDX = (ConfigIndexError, IndexError)
    KEY = (KeyValidationError, ConfigTypeError)
    word = ["a", "0", 1.0, None, (1,)][n % 5]
    any_el = c._metadata.element_type is Any
    bad = S.Path if False else Thing()
    if op == "idx":
        return ("[]", lambda: c[i], IDX, path + (i,))
    if op == "idxget":
        return ("get", lambda: c.get(i), IDX, path + (i,))
    if op == "key":
        return ("[] with no index", lambda: c[word], KEY, None)
    if op == "keyset":
        return ("[]= with no index", lambda: c.__setitem__(word, 1), KEY, None)
    if op == "keypop":
        return ("pop with no index", lambda: c.pop("a"), (ConfigTypeError, TypeError), None)
    if op == "set":
        return ("[]=", lambda: c.__setitem__(i, None), (ConfigIndexError, ValidationError), path + (i,)) if any_el else None
    if op == "del":
        return ("del", lambda: c.__delitem__(i), IDX, path + (i,))
    if op == "pop":
        return ("pop", lambda: c.pop(i), IDX, path + (i,))
    if op == "popempty":
        return ("pop of an empty list", lambda: c.pop(), IDX, path + (-1,)) if not ks else None
    if op in ("remove", "index"):
        if any(special_value(x) for x in c._content):
            return None
        return (op, lambda: getattr(c, op)("zz_nope"), (ConfigValueError, ValueError), None)
    if op in ("obj", "objset", "objinsert"):
        if not any_el or op == "objset" and (k is None or c._get_node(k)._metadata.ref_type is not Any):
            return None
        f = {"obj": lambda: c.append(bad), "objset": lambda: c.__setitem__(k, bad), "objinsert": lambda: c.insert(0, bad)}[op]
        return ({"obj": "append", "objset": "[]=", "objinsert": "insert"}[op] + " object", f, (UnsupportedValueType, ValueError), path + ({"obj": len(c), "objset": k, "objinsert": 0}[op],))
    if op == "missing":
        ms = [x for x in ks if miss(c._get_node(x))]
        return ("missing item", lambda: c[ms[n % len(ms)]], (MissingMandatoryValue,), path + (ms[n % len(ms)],)) if ms else None
    if op == "missingiter":
        ms = [x for x in ks if miss(c._get_node(x))]
        return ("iterating a missing item", lambda: list(c), (MissingMandatoryValue, InterpolationResolutionError), None) if ms else None
    if op in ("interp", "interpiter"):
        ts = [x for x in ks if text_of(c._get_node(x)) in TEXTS]
        if not ts:
            return None
        m = ts[n % len(ts)]
        cls = TEXTS[text_of(c._get_node(m))] if isinstance(cfg, DictConfig) and "${." not in text_of(c._get_node(m)) else InterpolationResolutionError
        return ("bad interpolation", lambda: c[m], (cls,), path + (m,)) if op == "interp" else ("iterating a bad interpolation", lambda: list(c), (InterpolationResolutionError, MissingMandatoryValue), None)
    if op == "grammar":
        return ("append bad interpolation syntax", lambda: c.append(GRAMMAR[n % len(GRAMMAR)]), (GrammarParseError,), None) if any_el else None
    if op.startswith("ro_"):
        if not any_el:
            return None
        ix = k if k is not None else None
        f = {"ro_set": (lambda: c.__setitem__(ix, 1), path + (ix,)), "ro_append": (lambda: c.append(1), path + (len(c),)), "ro_insert": (lambda: c.insert(0, 1), path + (0,)), "ro_extend": (lambda: c.extend([1]), path + (len(c),)),
             "ro_del": (lambda: c.__delitem__(ix), path + (ix,)), "ro_pop": (lambda: c.pop(ix), path + (ix,)), "ro_remove": (lambda: c.remove(c[ix]), "below"), "ro_clear": (lambda: c.clear(), path + (slice(None),)),
             "ro_sort": (lambda: c.sort(), path), "ro_slice": (lambda: c.__setitem__(slice(0, 1), [1]), "below"), "ro_iadd": (lambda: c.__iadd__([1]), path + (len(c),)), "ro_merge": (lambda: c.merge_with([1]), "below"),
             "ro_OCupdate": (lambda: OmegaConf.update(c, str(ix), 1), path + (ix,))}[op]
        if op in ("ro_set", "ro_del", "ro_pop", "ro_remove", "ro_OCupdate") and (ix is None or special_value(c._get_node(ix)) or op in ("ro_set", "ro_OCupdate") and c._get_node(ix)._metadata.ref_type is not Any):
            return None
        if op == "ro_remove" and isinstance(c[ix], float) and c[ix] != c[ix] or op == "ro_remove" and any(special_value(x) for x in c._content):
            return None
        return (op[3:], f[0], RO, f[1])
    if op == "slicelen":
        return ("extended slice assignment", lambda: c.__setitem__(slice(0, 9, 2), [None] * 7), (ConfigValueError, ValueError), None) if any_el and len(c) < 9 else None
    if op == "extend":
        return ("extend with no list", lambda: c.extend([5, {"a": 1}, None, 2.5][n % 4]), (ConfigTypeError, TypeError), None)
    if op == "add":
        return ("+ with no list", lambda: c + [5, {"a": 1}, None, 2.5][n % 4], (TypeError,), "python")
    if op == "sort":
        return ("sort of mixed items", lambda: c.sort(), (ConfigTypeError, TypeError), path) if {type(x._value()) for x in c._content if not isinstance(x, (DictConfig, ListConfig))} >= {int, str} and not any(special_value(x) for x in c._content) else None
    if op == "tom":
        return tom(c, path)
    if op == "selmiss":
        ms = [x for x in ks if miss(c._get_node(x))]
        return ("select that throws", lambda: OmegaConf.select(c, str(ms[0]), throw_on_missing=True), (MissingMandatoryValue,), None) if ms else None
    if op == "seltype":
        return ("select with a word", lambda: OmegaConf.select(c, "zz"), (ConfigTypeError, TypeError), None)
    if op == "updtype":
        return ("OmegaConf.update with a word", lambda: OmegaConf.update(c, ["zz", "zz.a"][n % 2], 1), (ConfigTypeError, ConfigValueError), None)
    return None


from typing import Any


def miss(n):
    return n._is_missing()


def text_of(n):
    v = n._value() if not isinstance(n, (DictConfig, ListConfig)) else None
    return v if isinstance(v, str) else None


def special_value(n):
    return n._is_missing() or n._is_interpolation()


def nostruct(c):
    c = copy.deepcopy(c)
    OmegaConf.set_struct(c, False)
    OmegaConf.set_readonly(c, False)
    return c


def parents(c):
    while c is not None:
        yield c
        c = c._get_parent()


def tom(c, path):
    ms = [p for p, n in nodes_of(c) if p and miss(n)]
    if not ms:
        return None
    return ("to_container(throw_on_missing)", lambda: OmegaConf.to_container(c, throw_on_missing=True), (MissingMandatoryValue,), ("any", [path + p for p in ms]))


def check_error(e, classes, where, cfg, tag, c=None, base=(), built=False):
    if where == "python":
        if not isinstance(e, classes):
            fail(f"{tag}: raised {type(e).__name__}: {e}")
        return
    if not isinstance(e, OmegaConfBaseException):
        fail(f"{tag}: raised {type(e).__name__}: {e}, which is no OmegaConf error")
    fam = classes if isinstance(classes, tuple) else (classes,)
    if len(fam) == 2 and not issubclass(fam[1], OmegaConfBaseException):
        ok = isinstance(e, fam[0]) and isinstance(e, fam[1])
    else:
        ok = isinstance(e, fam)
    if not ok:
        fail(f"{tag}: raised {type(e).__name__} ({[k.__name__ for k in type(e).__mro__[1:-2]]}): {e}; expected {[k.__name__ for k in fam]}")
    if where is None:
        return
    if where == "below":
        b = path_text(base, cfg)
        if judged(base) and not str(e.full_key).startswith(b):
            fail(f"{tag}: full_key is {e.full_key!r}, not below {b!r}: {e}")
        return
    paths = where[1] if where and where[0] == "any" else [where]
    if not all(map(judged, paths)):
        return
    want = [path_text(p, cfg) for p in paths]
    if built and e.parent_node is None and e.full_key == paths[0][-1]:
        return  # the known finding of leg "built"
    if e.full_key not in want:
        fail(f"{tag}: full_key is {e.full_key!r}, expected {want if len(want) > 1 else want[0]!r}: {e}")
    if f"full_key: {e.full_key}" not in str(e):
        fail(f"{tag}: the message does not name {e.full_key!r}: {e}")


def run(case, ctx):
    specs, root, probes_ = case
    env = O.start(specs, [root])
    base = env.cfgs[0]
    for nb, dop, lop, n, up in probes_:
        cfg = copy.deepcopy(base)
        boxes = [(p, x) for p, x in nodes_of(cfg) if isinstance(x, (DictConfig, ListConfig)) and not special(x)]
        if not boxes:
            return
        path, c = boxes[nb % len(boxes)]
        pr = probes(c, path, dop, lop, n, up, cfg)
        if pr is None:
            continue
        what, f, classes, where = pr
        before = snap.walk(cfg)
        tag = f"{what} at {path} ({dop if isinstance(c, DictConfig) else lop}, {n}, {up}) of {show(plain(cfg), 500)}"
        r = attempt(f)
        if r[0] == "ok":
            fail(f"{tag}: should fail, gives {show(r[1])}")
        check_error(r[1], classes, where, cfg, tag, c, path)
        if snap.walk(cfg) != before:
            fail(f"{tag}: failed with {type(r[1]).__name__} but the config is now {show(plain(cfg), 500)}")
        ctx.label(dop if isinstance(c, DictConfig) else "list " + lop)
        if path:
            ctx.hit("deep" if len(path) > 1 else "nested")


# ---------------------------------------------------------------- illegal values at typed places
@st.composite
def typed_cases(draw):
    specs = draw(S.schemas(max_cls=3))
    kind = draw(st.sampled_from(["class", "inst", "wrapped"]))
    return specs, kind, draw(S.instances(specs, among=[len(specs) - 1])), draw(st.lists(st.tuples(st.integers(0, 60), st.sampled_from(["item", "attr", "update", "merge", "append", "insert", "newkey", "badkey", "ctor", "noneset", "setdefault", "extra"]), st.integers(0, 5)), min_size=2, max_size=8))


def nest(path, cfg, v):
    """{..: {..: v}} of a path through dicts only"""
    for k in reversed(path):
        v = {k: v}
    return v


def run_typed(case, ctx):
    specs, kind, x, items = case
    classes = S.realize(specs)
    r = attempt(lambda: OmegaConf.structured(S.inst_value(x, classes) if kind != "class" else classes[-1]))
    if r[0] != "ok":
        return
    base, rt = r[1], ("cls", len(specs) - 1)
    if kind == "wrapped":
        base, rt = OmegaConf.create({"w": [1, base], "v": {"u": base}}), "any"
    for n, how, m in items:
        cfg = copy.deepcopy(base)
        ps = [(p, t, node) for p, t, node in S.places(specs, classes, rt, cfg) if p]
        if not ps:
            return
        path, t, node = ps[n % len(ps)]
        par, k = raw_node(cfg, path[:-1]), path[-1]
        bad = S.bad_for(t)
        o, b = S.strip(t)
        where, cls = path, (ValidationError, ValueError)
        tag = f"{how} at {path} of type {t} in {show(plain(cfg), 400)} {specs}"
        if how == "noneset":
            if o or b == "any":
                continue
            f = lambda: par.__setitem__(k, None)
        elif how == "extra":
            if not (isinstance(node, DictConfig) and isinstance(b, tuple) and b[0] == "cls") or special(node):
                continue
            where = path + ("zz_q",)
            f, cls = [(lambda: setattr(node, "zz_q", 1), (ConfigAttributeError, AttributeError)), (lambda: node.__setitem__("zz_q", 1), (ConfigKeyError, KeyError)), (lambda: node.zz_q, (ConfigAttributeError, AttributeError)),
                      (lambda: node["zz_q"], (ConfigKeyError, KeyError)), (lambda: node.pop("zz_q"), (ConfigTypeError, TypeError)), (lambda: node.merge_with({"zz_q": 1}), (ConfigKeyError, KeyError))][m]
            if m == 4 and node._get_node_flag("struct") is False:
                continue
        elif how in ("append", "insert"):
            if not isinstance(node, ListConfig) or special(node) or b == "any" or S.bad_for(b[1]) is None:
                continue
            bad = S.bad_for(b[1])
            where = path + (len(node) if how == "append" else 0,)
            f = (lambda: node.append(bad)) if how == "append" else (lambda: node.insert(0, bad))
        elif how in ("newkey", "setdefault"):
            if not (isinstance(node, DictConfig) and isinstance(b, tuple) and b[0] == "dict") or special(node) or S.bad_for(b[2]) is None:
                continue
            bad, key = S.bad_for(b[2]), S.GOOD_KEY[b[1]]
            if key in node.keys():
                continue
            where = path + (key,)
            f = (lambda: node.__setitem__(key, bad)) if how == "newkey" else (lambda: node.setdefault(key, bad))
        elif how == "badkey":
            if not (isinstance(node, DictConfig) and isinstance(b, tuple) and b[0] == "dict") or special(node) or b[1] == "any":
                continue
            key = S.BAD_KEY[b[1]]
            cls, where = (KeyValidationError, ValueError), path + (key,)
            f = [lambda: node.__setitem__(key, None), lambda: node[key], lambda: node.get(key), lambda: node.__setitem__(key, None), lambda: node.setdefault(key, None), lambda: node.update({key: None})][m]
        else:
            if bad is None:
                continue
            if how == "attr" and not (isinstance(par, DictConfig) and isinstance(k, str)) or how == "update" and not all(isinstance(q, str) and q.isidentifier() or isinstance(raw_node(cfg, path[:i]), ListConfig) for i, q in enumerate(path)):
                how = "item"
            if how == "merge" and not all(isinstance(raw_node(cfg, path[:i]), DictConfig) for i in range(len(path))):
                how = "item"
            if how == "ctor":
                how = "item"
            if isinstance(bad, (list, dict)) and how in ("merge", "update") and (isinstance(node, (DictConfig, ListConfig))):
                how = "item"
            if how == "update" and isinstance(bad, (list, dict)):
                how = "item"
            f = {"item": lambda: par.__setitem__(k, bad), "attr": lambda: setattr(par, k, bad), "update": lambda: OmegaConf.update(cfg, path_text(path, cfg), bad), "merge": lambda: cfg.merge_with(nest(path, cfg, bad))}[how]
        before = snap.walk(cfg)
        tag = f"{how} {tag}"
        r = attempt(f)
        if r[0] == "ok":
            fail(f"{tag}: should fail, gives {show(plain(cfg), 300)}")
        if isinstance(r[1], ConfigAttributeError) and how == "extra":
            cls = (ConfigAttributeError, AttributeError) if m != 5 else cls
        mk = how == "merge" and isinstance(r[1], ValidationError) and isinstance(b, tuple) and b[0] == "cls"
        check_error(r[1], cls if not (how == "extra" and m == 5) else (ConfigKeyError, ConfigAttributeError), None if mk else where, cfg, tag, built=True)
        if how != "merge" and snap.walk(cfg) != before:
            fail(f"{tag}: failed with {type(r[1]).__name__} but the config is now {show(plain(cfg), 500)}")
        ctx.hit(how)


# ---------------------------------------------------------------- histories: nothing internal ever comes out
@st.composite
def histories(draw):
    specs, roots = draw(O.environments(n=3))
    vals = one_of(O.plain_values, O.plain_values, st.sampled_from([b"x", {}, [], "${", "${zz_nope}", "${c25_boom:}", 2.5, Shape.CIRCLE, {"a": {"b": {}}}, [[]], {1: 2}]), S.instances(specs, depth=1) if specs else O.plain_values)
    op = one_of(O.edits(O.with_nodes(vals)), O.edits(O.with_nodes(vals)), O.edits(O.with_nodes(vals)), O.makes(), O.makes(), O.flag_ops())
    return specs, roots, draw(st.lists(op, min_size=1, max_size=9))


READS = [("items", lambda c: list(c.items()) if isinstance(c, DictConfig) else list(c)), ("to_container", lambda c: OmegaConf.to_container(c, resolve=True)), ("to_container, throw", lambda c: OmegaConf.to_container(c, throw_on_missing=True)),
         ("to_object", OmegaConf.to_object), ("to_yaml", lambda c: OmegaConf.to_yaml(c, resolve=True)), ("str", str), ("repr", repr), ("pretty", lambda c: OmegaConf.to_yaml(c)), ("missing_keys", OmegaConf.missing_keys),
         ("resolve", lambda c: OmegaConf.resolve(copy.deepcopy(c))), ("eq", lambda c: c == c), ("eq plain", lambda c: c == {"a": [1]}), ("hash", hash), ("len", len), ("bool", bool), ("in", lambda c: 1 in c), ("dir", dir),
         ("select", lambda c: OmegaConf.select(c, "a.b[0]") if isinstance(c, DictConfig) else OmegaConf.select(c, "0.a")), ("copy", copy.copy), ("[]", lambda c: c["a"] if isinstance(c, DictConfig) else c[0]), ("get", lambda c: c.get("b") if isinstance(c, DictConfig) else c.get(1)),
         ("attr", lambda c: c.b if isinstance(c, DictConfig) else None), ("slice", lambda c: c[0:2] if isinstance(c, ListConfig) else None), ("index", lambda c: c.index(1) if isinstance(c, ListConfig) else None), ("merge", lambda c: OmegaConf.merge(c, c)),
         ("masked", lambda c: OmegaConf.masked_copy(c, ["a"]) if isinstance(c, DictConfig) else None), ("dict", lambda c: dict(c) if isinstance(c, DictConfig) else tuple(c)), ("set None key", lambda c: copy.deepcopy(c).__setitem__(None, 1)),
         ("append", lambda c: copy.deepcopy(c).append(1) if isinstance(c, ListConfig) else None), ("del", lambda c: copy.deepcopy(c).__delitem__("a" if isinstance(c, DictConfig) else 0)), ("pop", lambda c: copy.deepcopy(c).pop("a" if isinstance(c, DictConfig) else 0)),
         ("setdefault", lambda c: copy.deepcopy(c).setdefault("a", 1) if isinstance(c, DictConfig) else None), ("clear", lambda c: copy.deepcopy(c).clear()), ("sort", lambda c: copy.deepcopy(c).sort() if isinstance(c, ListConfig) else None),
         ("insert", lambda c: copy.deepcopy(c).insert(0, 1) if isinstance(c, ListConfig) else None), ("extend", lambda c: copy.deepcopy(c).extend([1]) if isinstance(c, ListConfig) else None), ("update", lambda c: OmegaConf.update(copy.deepcopy(c), "a.b" if isinstance(c, DictConfig) else "0", 1)),
         ("merge_with", lambda c: copy.deepcopy(c).merge_with({"a": {"b": 1}} if isinstance(c, DictConfig) else [1])), ("index bounds", lambda c: c.index(1, -2, 99) if isinstance(c, ListConfig) else None), ("iadd", lambda c: copy.deepcopy(c).__iadd__((1,)) if isinstance(c, ListConfig) else None)]
ATTR = {"attr", "delattr"}


def own(e, name, tag, node=None):
    """The exception is one of OmegaConf's, of the right family."""
    if isinstance(e, OmegaConfBaseException):
        if not isinstance(e, (KeyValidationError, MissingMandatoryValue, ReadonlyConfigError, ValidationError, InterpolationResolutionError, ConfigKeyError, ConfigAttributeError, ConfigTypeError, ConfigIndexError, ConfigValueError, GrammarParseError)):
            fail(f"{tag}: raised {type(e).__name__}: {e}")
        if isinstance(e, ConfigAttributeError) and name in ("set", "del", "pop", "setdefault", "[]", "get"):
            fail(f"{tag}: an item access raised {type(e).__name__}: {e}")
        if isinstance(e, ConfigKeyError) and name in ("attr", "delattr"):
            fail(f"{tag}: an attribute access raised {type(e).__name__}: {e}")
        return
    if name == "popitem" and type(e) is KeyError or name == "add" and type(e) is TypeError or name == "masked" and type(e) is ValueError or isinstance(e, RecursionError):
        return
    fail(f"{tag}: raised {type(e).__name__}: {e}, which is no OmegaConf error")


def run_history(case, ctx):
    specs, roots, ops = case
    env = O.start(specs, roots)
    log = []
    for op in ops:
        d = O.apply(env, op)
        if d is None:
            continue
        log.append(d.desc)
        if not d.ok:
            tag = f"{show(roots, 400)}: {' ; '.join(log)}"
            own(d.out[1], d.name, tag)
            ctx.hit("edit")
            ctx.label(d.name)
            e = d.out[1]
            if d.path is not None and op[0] == "op" and d.name in ("set", "attr", "del", "delattr", "pop", "popd", "append", "insert", "dupdate", "clear", "reverse") and not isinstance(e, (InterpolationResolutionError, GrammarParseError)) and judged(d.path) and e.full_key and isinstance(e, OmegaConfBaseException) and not d.used and env.cfgs[d.ci]._get_parent() is None and e.parent_node is not None:
                b = path_text(d.path, env.cfgs[d.ci])
                if not e.full_key.startswith(b):
                    fail(f"{tag}: full_key is {e.full_key!r}, not below {b!r}: {e}")
    for cfg in env.cfgs[:3]:
        for p, n in nodes_of(cfg):
            if isinstance(n, (DictConfig, ListConfig)) and not n._is_interpolation():
                for name, f in READS:
                    r = attempt(lambda: f(n))
                    if r[0] == "exc":
                        own(r[1], name, f"{show(roots, 400)}: {' ; '.join(log)}: {name} at {p} of {show(plain(cfg), 300)}")
                        ctx.label("read " + name)


# ---------------------------------------------------------------- a container value that cannot be built
BUILT = [("dict", 5), ("cls", 5), ("list", {})]


def run_built(case, ctx):
    kind, v = case
    ctx.hit("built")
    @dataclasses.dataclass
    class In:
        x: int = 0

    @dataclasses.dataclass
    class C:
        d: Dict[str, Dict[str, int]] = dataclasses.field(default_factory=dict)
        i: Dict[str, In] = dataclasses.field(default_factory=dict)
        l: List[List[int]] = dataclasses.field(default_factory=list)
    cfg = OmegaConf.structured(C)
    f, where = {"dict": (lambda: cfg.d.__setitem__("q", v), "d.q"), "cls": (lambda: cfg.i.__setitem__("q", v), "i.q"), "list": (lambda: cfg.l.append(v), "l[0]")}[kind]
    r = attempt(f)
    if r[0] != "exc" or not isinstance(r[1], ValidationError):
        fail(f"{kind} {v!r}: gives {show(r[1])}")
    if r[1].full_key != where:
        fail(f"{kind} {v!r}: full_key is {r[1].full_key!r}, expected {where!r}")


# --- a config that is itself None or missing: what cannot be answered raises TypeError / MissingMandatoryValue
@dataclasses.dataclass
class Abs:
    a: int = 1
    b: str = "x"


ABSENT = {
    "untyped dict": lambda v: DictConfig(v), "typed dict": lambda v: DictConfig(v, key_type=str, element_type=int), "structured": lambda v: DictConfig(v, ref_type=Abs),
    "merged class": lambda v: (lambda c: (c._set_value(v), c)[1])(DictConfig(Abs)), "dict emptied": lambda v: (lambda c: (c._set_value(v), c)[1])(DictConfig({"a": 1})),
    "untyped list": lambda v: ListConfig(v), "typed list": lambda v: ListConfig(v, element_type=int), "list emptied": lambda v: (lambda c: (c._set_value(v), c)[1])(ListConfig([1, 2])),
}
COPIES = {"itself": lambda c: c, "a deep copy": copy.deepcopy, "a copy": copy.copy, "a pickled copy": lambda c: pickle.loads(pickle.dumps(c))}
ABSENT_DICT = {"item": lambda c: c["a"], "attribute": lambda c: c.a, "get": lambda c: c.get("a"), "get with default": lambda c: c.get("a", 5), "items": lambda c: list(c.items()),
               "items_ex": lambda c: list(c.items_ex(resolve=False)), "set item": lambda c: c.__setitem__("a", 1), "set attribute": lambda c: setattr(c, "a", 1), "delete": lambda c: c.__delitem__("a"), "delete attribute": lambda c: delattr(c, "a"),
               "setdefault": lambda c: c.setdefault("a", 1), "update": lambda c: c.update({"a": 1}), "update by key": lambda c: OmegaConf.update(c, "a", 1)}
ABSENT_LIST = {"item": lambda c: c[0], "last item": lambda c: c[-1], "slice": lambda c: c[0:1], "get": lambda c: c.get(0), "get with default": lambda c: c.get(0, 5), "in": lambda c: 1 in c, "iteration": lambda c: list(c),
               "unpacking": lambda c: [*c], "set item": lambda c: c.__setitem__(0, 1), "append": lambda c: c.append(1), "insert": lambda c: c.insert(0, 1), "extend": lambda c: c.extend([1]), "pop": lambda c: c.pop(),
               "pop first": lambda c: c.pop(0), "delete": lambda c: c.__delitem__(0), "sort": lambda c: c.sort(), "count": lambda c: c.count(1), "clear": lambda c: c.clear(), "add": lambda c: c + [1], "add to list": lambda c: [1] + c,
               "add in place": lambda c: c.__iadd__([1])}


def enum_absent(tier):
    return [(f, v, k, op) for f in ABSENT for v in (None, "???") for k in COPIES for op in (ABSENT_LIST if "list" in f else ABSENT_DICT) if not (op == "delete attribute" and "structured" in f)]


def run_absent(case, ctx):
    form, v, cp, op = case
    c = COPIES[cp](ABSENT[form](v))
    before = snap.walk(c)
    tag = f"{op} of {cp} of {form} that is {v!r}"
    if OmegaConf.is_missing(OmegaConf.create({"z": c}), "z") != (v == "???") or c._is_none() != (v is None) or bool(c) or len(c) != 0:
        fail(f"{tag}: bool {bool(c)} len {len(c)} none {c._is_none()}")
    r = attempt(lambda: (ABSENT_LIST if "list" in form else ABSENT_DICT)[op](c))
    want = TypeError if v is None else MissingMandatoryValue
    if op in ("delete", "delete attribute") and form in ("structured", "merged class"):
        want = (want, ConfigTypeError)  # fields of classes cannot be deleted
    if r[0] == "ok" or not isinstance(r[1], want) or not isinstance(r[1], OmegaConfBaseException):
        fail(f"{tag} should raise {want}, gives {show(r)}")
    if snap.walk(c) != before:
        fail(f"{tag} raised {type(r[1]).__name__} but left {c!r}")
    ctx.hit("none" if v is None else "missing")


LEGS = [
    Leg("absent", None, run_absent, quick=0, enumerated=enum_absent,
        rule="every reading or editing operation of a dict or list config that is itself None (TypeError) or missing (MissingMandatoryValue), untyped, typed or structured, and of its copies; it stays None or missing; non-trivial: all"),
    Leg("built", None, run_built, quick=0, enumerated=lambda tier: BUILT, rule="illegal values for places typed as containers: the error names the absolute path of the place; non-trivial: all"),
    Leg("single", lambda: cases(), run, quick=2500,
        rule="generated configs (untyped with all key kinds, structured) and 3-10 operations each that must fail at a random container: absent keys and positions, bad keys, unsupported values, missing values, broken interpolations, read-only and struct "
             "flags set at any ancestor, conversions; the class, its Python family, full_key, the message and the unchanged config are compared; non-trivial: a failure below the root"),
    Leg("typed", lambda: typed_cases(), run_typed, quick=1500, rule="illegal values, None, keys and new fields at the typed places of structured configs, by every kind of edit: ValidationError etc. naming the place; non-trivial: all"),
    Leg("history", lambda: histories(), run_history, quick=600, rule="random edit histories over several configs, then every read at every container: whatever is raised is an OmegaConf error of the right family, never an internal one; non-trivial: an edit failed"),
]
