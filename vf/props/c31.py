"""C31: value nodes by themselves: what they hold, compare to, hash as and copy to."""
import copy, math, pickle
from hypothesis import strategies as st
from omegaconf import (AnyNode, BooleanNode, BytesNode, DictConfig, EnumNode, FloatNode, IntegerNode, ListConfig, OmegaConf, PathNode, ReadonlyConfigError, StringNode, flag_override,
                       read_write)
from omegaconf.errors import GrammarParseError, OmegaConfBaseException, UnsupportedValueType, ValidationError
from ..core import Leg, fail
from ..gen import *
from .. import schema as S

NODES = {"int": IntegerNode, "float": FloatNode, "bool": BooleanNode, "str": StringNode, "bytes": BytesNode, "Path": PathNode, "any": AnyNode}
REFS = ["${a}", "x${a}y", "${.b}", "${oc.env:X,y}", "${a.b[0]}"]
BROKEN = ["${", "${a", "${a}${", "${foo:}", "${a.}", "${}"]
VALUES = one_of(S.wild_values, S.wild_values, S.wild_values, st.sampled_from(["???", None]), st.sampled_from(REFS), st.sampled_from(BROKEN[:3] + BROKEN[4:]), st.sampled_from([float("nan"), True, 1, 1.0, "1", 0.0, -0.0]))
TYPES = one_of(st.sampled_from(list(S.SIMPLE) + ["any"]), S.unions)


def make(t, v, o, key, how):
    """A node of type t holding v, alone or as part of a config"""
    if isinstance(t, tuple) or how == "field":
        h = S.hint(("opt", t) if o and t != "any" else t)
        import dataclasses
        C = dataclasses.make_dataclass("N", [("k", h, dataclasses.field(default=v))])
        return OmegaConf.structured(C)._get_node("k")
    kw = {"key": key, "is_optional": o}
    if t == "any":
        kw.pop("is_optional")
    if t in ("Color", "Shape"):
        return EnumNode(S.SIMPLE[t], v, **kw)
    return NODES[t](v, **kw)


def expected(t, o, v):
    """("ok", held) | ("bad",) | ("skip",)"""
    if isinstance(v, str) and v in BROKEN:
        return ("bad",)
    if t == "any":
        return ("bad",) if isinstance(v, (dict, list)) or S.is_obj(v) else ("ok", v)
    try:
        return ("ok", S.conv(("opt", t) if o else t, v))
    except S.Bad:
        return ("bad",)
    except S.Skip:
        return ("skip",)


def raw(n):
    v = n._value()
    return v._value() if hasattr(v, "_value") else v


def same(a, b):
    return canon(a) == canon(b)


def nan(v):
    return isinstance(v, float) and math.isnan(v)


def holds(n, want, t, o, tag):
    got = raw(n)
    if not same(got, want):
        fail(f"{tag}: the node holds {got!r} ({type(got).__name__}), expected {want!r} ({type(want).__name__})")
    for name, f, w in [("is_none", n._is_none, want is None), ("is_missing", n._is_missing, isinstance(want, str) and want == "???"),
                       ("is_interpolation", n._is_interpolation, isinstance(want, str) and "${" in want), ("optional", n._is_optional, o)]:
        r = attempt(f)
        if r != ("ok", w):
            fail(f"{tag}: {name} of a node holding {want!r} is {show(r)}, expected {w}")
    if str(n) != str(want) or repr(n) != repr(want):
        fail(f"{tag}: the texts of a node holding {want!r} are {str(n)!r} and {n!r}")


def compares(n, want, other, other_val, tag):
    """n == other, other == n, != and hash, against the values"""
    if nan(want) and nan(other_val):
        if not isinstance(n, FloatNode) and not isinstance(other, FloatNode):
            return  # a float's own rule, unless a float node is involved
        eq = True
    else:
        eq = want == other_val
    for name, f, w in [("==", lambda: n == other, eq), ("reversed ==", lambda: other == n, eq), ("!=", lambda: n != other, not eq), ("reversed !=", lambda: other != n, not eq)]:
        r = attempt(f)
        if r[0] != "ok" or bool(r[1]) != w:
            fail(f"{tag}: {name} of a {type(n).__name__} holding {want!r} and {type(other).__name__} {other_val!r} gives {show(r)}, expected {w}")
    if eq and hasattr(other, "_value") and not nan(want):
        if hash(n) != hash(other):
            fail(f"{tag}: equal nodes {want!r} and {other_val!r} have different hashes")


@st.composite
def cases(draw):
    t = draw(TYPES)
    o = draw(st.booleans()) or t == "any"
    b = t if isinstance(t, str) else t[1][0]
    good = S.convertible(b) if b != "any" else scalars
    vals = one_of(good, VALUES)
    op = one_of(st.tuples(st.just("set"), vals), st.tuples(st.just("set"), vals), st.tuples(st.just("eq"), st.sampled_from(list(S.SIMPLE) + ["any", "raw", "self", "rebuilt", "union"]), VALUES),
                st.tuples(st.just("copy"), st.sampled_from(["copy", "deepcopy", "pickle"]), vals), st.tuples(st.just("readonly"), st.sampled_from([True, False, None])),
                st.tuples(st.just("rw"), vals), st.tuples(st.just("key")), st.tuples(st.just("convert"), vals))
    return t, o, draw(one_of(good, good, good, good, VALUES, st.none() if o else good)), draw(st.sampled_from([None, "k", 3, ""])), draw(st.sampled_from(["node", "node", "field"])), draw(st.lists(op, min_size=2, max_size=10))


def run(case, ctx):
    t, o, v0, key, how, ops = case
    w = expected(t, o, v0)
    alone = how == "node" and isinstance(t, str)
    tag = f"{t}{' optional' if o else ''} node ({how}) of {v0!r}"
    if not alone and (t == "any" or isinstance(v0, (dict, list)) or S.is_obj(v0)):
        return  # a field may then hold a container; its rules are another property's
    if w[0] == "skip":
        return
    r = attempt(lambda: make(t, S.value(v0), o, key, how))
    if w[0] == "bad":
        if r[0] == "ok" or not isinstance(r[1], (ValidationError, UnsupportedValueType, GrammarParseError)):
            fail(f"{tag}: expected to be rejected, got {show(r)}")
        return
    if r[0] != "ok":
        fail(f"{tag}: {show(r)}")
    n, cur, ro = r[1], w[1], None
    holds(n, cur, t, o, tag)
    log = []
    for op in ops:
        log.append(op)
        tag2 = f"{tag} after {log}"
        if op[0] in ("set", "rw"):
            v = op[1]
            w = expected(t, o, v)
            if w[0] == "skip":
                continue

            def f():
                if op[0] == "rw":
                    with read_write(n):
                        n._set_value(S.value(v))
                else:
                    n._set_value(S.value(v))
            r = attempt(f)
            if op[0] == "set" and ro:
                if r[0] == "ok" or not isinstance(r[1], ReadonlyConfigError):
                    fail(f"{tag2}: a read-only node was set: {show(r)}")
            elif w[0] == "bad":
                if r[0] == "ok" or not isinstance(r[1], (ValidationError, UnsupportedValueType, GrammarParseError)):
                    fail(f"{tag2}: expected to be rejected, got {show(r)}")
            else:
                if r[0] != "ok":
                    fail(f"{tag2}: {show(r)}")
                cur = w[1]
                ctx.hit("set")
        elif op[0] == "eq":
            kind, v = op[1], op[2]
            if kind == "self":
                compares(n, cur, n, cur, tag2)
            elif kind == "rebuilt":
                for t2 in ["any"] + ([t] if isinstance(t, str) else []):
                    compares(n, cur, make(t2, cur, True, None, "node"), cur, tag2)
            elif kind == "raw":
                if not isinstance(v, (dict, list)) and not S.is_obj(v):
                    compares(n, cur, v, v, tag2)
            else:
                t2 = kind if kind != "union" else ("union", ["int", "str", "float"])
                w = expected(t2, True, v)
                if w[0] == "ok" and not isinstance(w[1], (dict, list)):
                    compares(n, cur, make(t2, w[1], True, None, "node"), w[1], tag2)
                    ctx.label("compared")
        elif op[0] == "copy":
            m = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}[op[1]](n) if alone else copy.deepcopy(n)
            if type(m) is not type(n):
                fail(f"{tag2}: a copy is a {type(m).__name__}")
            holds(m, cur, t, o, tag2 + " (copy)")
            if m._get_node_flag("readonly") != ro or m._key() != n._key() or m._metadata.ref_type != n._metadata.ref_type:
                fail(f"{tag2}: the copy has readonly={m._get_node_flag('readonly')}, key={m._key()!r}, type {m._metadata.ref_type}")
            # changing one does not change the other
            w = expected(t, o, op[2])
            if w[0] == "ok":
                if op[1] != "copy":  # a shallow copy shares its settings
                    m._set_flag("readonly", False)
                    m._set_value(S.value(op[2]))
                    holds(m, w[1], t, o, tag2 + " (changed copy)")
                    if n._get_node_flag("readonly") != ro:
                        fail(f"{tag2}: a flag of the copy changed the node's to {n._get_node_flag('readonly')}")
                elif not ro:
                    m._set_value(S.value(op[2]))
                ctx.hit("copy")
        elif op[0] == "readonly":
            ro = op[1]
            n._set_flag("readonly", ro)
        elif op[0] == "key":
            k = n._get_full_key(None)
            want_key = "k" if not alone else "" if key is None else str(key)
            if k != want_key:
                fail(f"{tag2}: full key {k!r}, expected {want_key!r}")
        elif op[0] == "convert" and alone and t != "any":
            # without conversion only a value of exactly the type is accepted
            v = op[1]
            if v is None or S.is_special(v) or isinstance(v, str) and v in BROKEN or isinstance(v, (dict, list)) or S.is_obj(v) or ro:
                continue
            with flag_override(n, "convert", False):
                r = attempt(lambda: n._set_value(v))
            if S.exact_simple(t, v):
                if r[0] != "ok":
                    fail(f"{tag2}: {show(r)}")
                cur = v
            elif r[0] == "ok" or not isinstance(r[1], ValidationError):
                fail(f"{tag2}: expected to be rejected, got {show(r)}")
        holds(n, cur, t, o, tag2)


LEGS = [
    Leg("nodes", cases, run, quick=12000,
        rule="generated histories of one value node of every type, alone or in a config: set, compare, copy, pickle, read-only, no conversion; non-trivial: a value was set or a copy changed"),
]
