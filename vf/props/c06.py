"""C06: equality against a reference equality of resolved contents."""
import copy, dataclasses
from typing import Any
from hypothesis import strategies as st
from omegaconf import (AnyNode, BooleanNode, BytesNode, DictConfig, EnumNode, FloatNode, IntegerNode, ListConfig, OmegaConf, PathNode,
                       StringNode)
from ..core import Leg, fail
from ..gen import *

MISS = "???"
leaf = one_of(st.integers(0, 2), st.integers(0, 2), st.sampled_from([None, "a", "", True, False, 1.0, 0.0, b"a", Color.RED, Path("a"), "1", MISS, "RED"]), ints, plain_text,
                 floats, st.sampled_from(["${v0}", "${v1}", "${v2}", "${v3}", "${nope}", "${nope2}", "${v9.x}", "${nores:1}"]))
keys = one_of(st.sampled_from(["a", "b", "c"]), st.sampled_from(["a", "b", "c"]), st.sampled_from([1, True, 1.0, "1", b"a", Color.RED, "RED", 0]))
body = trees(leaf=leaf, keys=keys, max_leaves=7, width=4)
v = one_of(st.integers(0, 2), st.sampled_from([None, "a", MISS, 1.0, "${nope}"]), trees(leaf=one_of(st.integers(0, 2), st.sampled_from([MISS, "${v1}", None])), keys=keys, max_leaves=3, width=2))
v1 = one_of(st.integers(0, 2), st.sampled_from([None, MISS, "a", 1.0, True, "${nope}", "${nope2}"]), st.lists(st.integers(0, 2), max_size=2))
EDITS = st.sampled_from(["shuffle", "resolve", "leaf", "num", "drop", "add", "tuple", "swaplist", "wrapnone", "key", "miss", "inter", "unres"])
case_st = st.tuples(st.fixed_dictionaries({"v0": v, "v1": v1, "v2": one_of(v, st.just("${v1}"), st.just("${v0}")), "v3": v1, "body": body}),
                    st.lists(st.tuples(EDITS, st.integers(0, 30), st.integers(0, 5)), max_size=3),
                    st.sampled_from(["untyped", "untyped", "typednodes", "structured", "flags", "sub"]), st.sampled_from(["cfg", "cfg", "plain"]), one_of(st.none(), st.just(1), body))


class Missing:
    pass


class Unres:
    def __init__(self, text):
        self.text = text


def is_int(s):
    return isinstance(s, str) and s.startswith("${")


def resolve(root, x, depth=0):
    if isinstance(x, dict):
        return {k: resolve(root, y, depth) for k, y in x.items()}
    if isinstance(x, (list, tuple)):
        return [resolve(root, y, depth) for y in x]
    if isinstance(x, str) and x == MISS:
        return Missing()
    if is_int(x):
        name = x[2:-1]
        if name not in root or depth > 5:
            return Unres(x)
        t = resolve(root, root[name], depth + 1)
        if isinstance(t, (Missing, Unres)):
            return Unres(x)
        return t
    return x


def ref_eq(a, b):
    if isinstance(a, Missing) or isinstance(b, Missing):
        return isinstance(a, Missing) and isinstance(b, Missing)
    if isinstance(a, Unres) or isinstance(b, Unres):
        return isinstance(a, Unres) and isinstance(b, Unres) and a.text == b.text
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and all(ref_eq(x, b[k]) for k, x in a.items())
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(ref_eq(x, y) for x, y in zip(a, b))
    return bool(a == b)


def sites(x, path=()):
    yield path, x
    if isinstance(x, dict):
        for k, y in x.items():
            yield from sites(y, path + (k,))
    elif isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            yield from sites(y, path + (i,))


def put(root, path, val):
    for p in path[:-1]:
        root = root[p]
    root[path[-1]] = val


def edit(root, e):
    kind, n, m = e
    al = [(p, x) for p, x in sites(root) if len(p) >= (1 if n % 4 == 0 else 2)]
    conts = [(p, x) for p, x in al if isinstance(x, (dict, list)) and p] + [((), root)]
    lv = [(p, x) for p, x in al if not isinstance(x, (dict, list, tuple))]

    def pick(xs):
        return xs[n % len(xs)] if xs else (None, None)
    if kind == "shuffle":
        for p, x in sites(root):
            if isinstance(x, dict):
                items = list(x.items())
                x.clear()
                x.update(reversed(items))
    elif kind == "resolve":
        p, x = pick([(p, x) for p, x in lv if is_int(x)])
        if p:
            r = x[2:-1]
            if r in root and not is_int(root[r]) and root[r] != MISS and not any(is_int(y) or y == MISS for _, y in sites(root[r])):
                put(root, p, copy.deepcopy(root[r]))
    elif kind == "leaf":
        p, x = pick(lv)
        if p:
            put(root, p, [7, "other", None, True, [], {}][m])
    elif kind == "num":
        p, x = pick([(p, x) for p, x in lv if isinstance(x, (int, float)) and -1e6 < x < 1e6])
        if p:
            put(root, p, [float, int, lambda y: bool(y) if y in (0, 1) else float(y)][m % 3](x))
    elif kind == "drop":
        p, x = pick([(p, x) for p, x in al if p and len(p) > 1])
        if p:
            c = root
            for q in p[:-1]:
                c = c[q]
            if isinstance(c, (dict, list)):
                del c[p[-1]]
    elif kind == "add":
        p, x = pick([(p, x) for p, x in conts if p])
        if p:
            val = [None, 1, MISS, {}, "${v0}", "${nope}"][m]
            x.__setitem__("new", val) if isinstance(x, dict) else x.append(val)
    elif kind == "swaplist":
        p, x = pick([(p, x) for p, x in conts if isinstance(x, list) and len(x) > 1])
        if p:
            x[0], x[1] = x[1], x[0]
    elif kind in ("miss", "inter", "unres"):
        p, x = pick(lv)
        if p:
            put(root, p, {"miss": MISS, "inter": "${v1}" if p != ("v1",) else 1, "unres": "${nope}"}[kind])
    elif kind == "key":
        p, x = pick([(p, x) for p, x in conts if isinstance(x, dict) and x and p])
        if p:
            k = list(x)[m % len(x)]
            val = x.pop(k)
            x["other" if k != 1 else "1"] = val


def typednodes(x, n=0):
    """The same contents with typed nodes, container-kind nodes for None and missing."""
    if isinstance(x, dict):
        return {k: typednodes(y, n + i) for i, (k, y) in enumerate(x.items())}
    if isinstance(x, list):
        return [typednodes(y, n + i) for i, y in enumerate(x)]
    if is_int(x) and "nope" not in x:
        return x
    if x is None or is_int(x) or x == MISS and isinstance(x, str):
        return [lambda: AnyNode(x), lambda: DictConfig(x), lambda: ListConfig(x), lambda: IntegerNode(x), lambda: StringNode(x)][n % 5]()
    for t, cls in ((bool, BooleanNode), (int, IntegerNode), (float, FloatNode), (str, StringNode), (bytes, BytesNode), (Path, PathNode)):
        if isinstance(x, t):
            return cls(x)
    if isinstance(x, enum.Enum):
        return EnumNode(type(x), x)
    return x


def build(d, how):
    if how == "typednodes":
        return OmegaConf.create(typednodes(d))
    if how == "structured":
        cls = dataclasses.make_dataclass("C", [(k, Any, dataclasses.field(default_factory=lambda y=y: copy.deepcopy(y))) for k, y in d.items()])
        return OmegaConf.structured(cls)
    c = OmegaConf.create(copy.deepcopy(d))
    if how == "flags":
        OmegaConf.set_struct(c, True)
        OmegaConf.set_readonly(c, True)
    return c


def raw(c):
    return cs(c)


def run(case, ctx):
    d1, edits, how, other, third = case
    d2 = copy.deepcopy(d1)
    for e in edits:
        edit(d2, e)
    want = ref_eq(resolve(d1, d1), resolve(d2, d2))
    a = build(d1, "untyped")
    b = copy.deepcopy(d2) if other == "plain" else build(d2, "untyped" if how == "sub" else how)
    pairs = [("", a, b, want)]
    if how == "sub" and not any(is_int(x) for _, x in sites(d1["body"])) and not any(is_int(x) for _, x in sites(d2["body"])) and isinstance(d1["body"], (dict, list)):
        sub_b = d2["body"]
        if other != "plain" and isinstance(sub_b, (dict, list)):
            sub_b = b["body"]
        pairs.append(("sub-node ", a["body"], sub_b, ref_eq(resolve(d1, d1["body"]), resolve(d2, d2["body"]))))
    for tag, x, y, w in pairs:
        if isinstance(y, (dict, list)) or OmegaConf.is_config(y):
            sx, sy = raw(x), raw(y)
            res = {"a==b": attempt(lambda: x == y), "b==a": attempt(lambda: y == x), "a!=b": attempt(lambda: not (x != y)), "b!=a": attempt(lambda: not (y != x))}
            for op, r in res.items():
                if r != ("ok", w):
                    fail(f"{tag}{op} is {r} but equal contents is {w}: a={show(d1)} b={show(d2)} ({how},{other})")
            for z in (x, y):
                if attempt(lambda: z == z) != ("ok", True):
                    fail(f"{tag}not equal to itself: {show(plain(z))}")
            if raw(x) != sx or raw(y) != sy:
                fail("comparing changed an operand")
    if attempt(lambda: a == copy.deepcopy(a)) != ("ok", True):
        fail(f"a copy is not equal: {show(d1)}")
    # never equal to something of another kind
    for o in (None, 5, "x", [1, 2, 3], object(), MISS):
        if attempt(lambda: a == o) != ("ok", False) or attempt(lambda: a != o) != ("ok", True):
            fail(f"{show(d1)} == {o!r}: {attempt(lambda: a == o)}")
    if edits:
        ctx.hit("equal" if want else "different")
    ctx.label(how + "/" + other)


# ---------------------------------------------------------------- None, missing and interpolation containers
TARGETS = [None, {}, {"a": 1}, {"a": MISS}, [], [1], [None], 3, MISS, "a"]
ATOMS = [("val", x) for x in TARGETS] + [("int", i) for i in range(len(TARGETS))] + [("int", "nope"), ("int", "nope2")]


def make_atom(a, kind):
    k, x = a
    text = x if k == "val" else "${nope}" if x == "nope" else "${nope2}" if x == "nope2" else "${t%d}" % x
    if k == "int" or x is None or x == MISS and isinstance(x, str):
        return {"dict": DictConfig, "list": ListConfig, "typeddict": lambda c: DictConfig(c, element_type=int, key_type=str), "plain": lambda c: c, "node": AnyNode}[kind](text)
    if isinstance(x, dict):
        return {"dict": DictConfig, "typeddict": lambda c: DictConfig(c, element_type=int, key_type=str)}.get(kind, lambda c: copy.deepcopy(c))(copy.deepcopy(x))
    if isinstance(x, list):
        return ListConfig(list(x)) if kind == "list" else list(x)
    return x


def atom_value(a):
    k, x = a
    if k == "int":
        if isinstance(x, str):
            return Unres("${%s}" % x)
        x = TARGETS[x]
        if isinstance(x, str) and x == MISS:
            return Unres("${t%d}" % TARGETS.index(MISS))
    return resolve({}, x)


def run_states(case, ctx):
    a, ka, b, kb, where = case
    try:
        na, nb = make_atom(a, ka), make_atom(b, kb)
    except Exception:
        raise AssertionError((a, ka, b, kb))
    va, vb = atom_value(a), atom_value(b)
    tag = f"{a} as {ka} and {b} as {kb} ({where})"
    if where == "root":
        if not (OmegaConf.is_config(na) and OmegaConf.is_config(nb) and type(na) is type(nb)) or a[0] == "int" or b[0] == "int":
            return
        x, y = na, nb
        for n, v in ((x, va), (y, vb)):
            if (n == None) is not (v is None) or (n != None) is not (v is not None):  # noqa: E711
                fail(f"{tag}: {n!r} == None is {n == None}")  # noqa: E711
    else:
        holders = []
        for n in (na, nb):
            h = {f"t{i}": copy.deepcopy(t) for i, t in enumerate(TARGETS)}
            h.update({"dict": {"x": n}, "list": {"l": [0, n]}, "deep": {"l": [{"x": n}]}}[where])
            holders.append(OmegaConf.create(h))
        x, y = holders
    want = ref_eq(va, vb)
    for op, f, w in [("==", lambda: x == y, want), ("== reversed", lambda: y == x, want), ("!=", lambda: x != y, not want), ("!= reversed", lambda: y != x, not want), ("itself", lambda: x == x, True), ("a copy", lambda: x == copy.deepcopy(x), True)]:
        r = attempt(f)
        if r != ("ok", w):
            fail(f"{tag}: {op} is {show(r)}, expected {w}")
    ctx.hit("equal" if want else "different")


AKINDS = ["dict", "list", "typeddict", "plain", "node"]


def distinct():
    """Every (atom, kind) that is a different node, at every place it may be."""
    seen, out = {}, []
    for a in ATOMS:
        for k in AKINDS:
            n = make_atom(a, k)
            key = (str(a), type(n).__name__, OmegaConf.is_config(n) and k == "typeddict")
            if key not in seen:
                seen[key] = 1
                out.append((a, k, OmegaConf.is_config(n)))
    return out


def enum_states(tier):
    d = distinct()
    cases = [(a, ka, b, kb, "root") for a, ka, ca in d for b, kb, cb in d if ca and cb and a[0] == b[0] == "val"]
    nested = [(a, ka, b, kb) for i, (a, ka, _) in enumerate(d) for b, kb, _ in d[i:]]
    for j, c in enumerate(nested):
        for i, w in enumerate(["dict", "list", "deep"]):
            if tier != "quick" or j % 3 == i:
                cases.append((*c, w))
    return cases


# ---------------------------------------------------------------- configs that may hold arbitrary objects
class Eq:
    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, Eq) and self.x == o.x

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 0

    def __repr__(self):
        return f"Eq({self.x})"

    def __deepcopy__(self, memo):
        return self


OBJS = {"eq1": lambda: Eq(1), "eq1'": lambda: Eq(1), "eq2": lambda: Eq(2), "complex": lambda: 1j, "complex2": lambda: 2j, "set": lambda: frozenset({1}), "type": lambda: int, "int": lambda: 1, "none": lambda: None, "str": lambda: "Eq(1)", "dict": lambda: {"q": Eq(1)}, "list": lambda: [Eq(1)]}
O_SHAPES = {"list": lambda o: [o], "list2": lambda o: [0, o, 1], "dict": lambda o: {"a": o}, "dictlist": lambda o: {"a": [o]}, "listdict": lambda o: [{"a": o}], "tuple": lambda o: (o,)}


def enum_objects(tier):
    return [(a, b, s, o) for a in OBJS for b in OBJS for s in O_SHAPES for o in ("plain", "config")]


def run_objects(case, ctx):
    a, b, s, other = case
    da, db = O_SHAPES[s](OBJS[a]()), O_SHAPES[s](OBJS[b]())
    want = da == db
    x = OmegaConf.create(da if not isinstance(da, tuple) else list(da), flags={"allow_objects": True})
    y = db if other == "plain" else OmegaConf.create(db if not isinstance(db, tuple) else list(db), flags={"allow_objects": True})
    tag = f"{da!r} (config) and {db!r} ({other})"
    for op, f, w in [("==", lambda: x == y, want), ("!=", lambda: x != y, not want), ("== reversed", lambda: y == x, want), ("!= reversed", lambda: y != x, not want), ("itself", lambda: x == x, True)]:
        r = attempt(f)
        if r != ("ok", w):
            fail(f"{tag}: {op} is {show(r)}, expected {w}")
    ctx.hit("equal" if want else "different")


LEGS = [
    Leg("objects", None, run_objects, quick=0, enumerated=enum_objects,
        rule="configs made with allow_objects holding arbitrary objects (with and without their own equality) next to plain values, against plain containers and configs of the same shape, both directions; non-trivial: all"),
    Leg("pairs", lambda: case_st, run, quick=16000,
        rule="a generated config and one derived from it by up to 3 edits (reordering, resolving, retyping numbers, changing, dropping, adding), in several representations, both directions of == and !=, compared with a reference equality; non-trivial: at least one edit"),
    Leg("states", None, run_states, quick=0, enumerated=enum_states,
        rule="all pairs of values in every state (None, missing, empty and filled containers, interpolations to each of these and to nothing) as typed and untyped containers and nodes, at the root or inside a dict, a list or a dict in a list (quick: each pair at one of these); non-trivial: comparable"),
]
