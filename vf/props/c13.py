"""C13: the effective flags of every node follow the nearest explicit setting, after any history."""
import copy, dataclasses, pickle
from typing import Dict
import attr
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, ListMergeMode, OmegaConf, flag_override, open_dict, read_write
from ..core import Leg, fail
from ..gen import *
from .. import ops as O, schema as S, snap

NAMES = ["readonly", "struct", "allow_objects", "x"]
# operations that are documented (or, for the update of a dict by a config, bound) to carry flags of their sources over
CARRY = {"merge", "mergekey", "update", "updatef", "updaten"}


class Boom(Exception):
    pass


@st.composite
def cases(draw):
    specs, roots = draw(O.environments(schemas=draw(st.booleans())))
    vals = O.with_nodes(one_of(O.plain_values, S.instances(specs, depth=0)) if specs else O.plain_values)
    query = st.tuples(st.just("q"), st.integers(0, 3), st.integers(0, 12), st.sampled_from(NAMES))
    flag = O.flag_ops(NAMES[:2] * 3 + NAMES)
    base = one_of(O.edits(vals), O.edits(vals), flag, flag, query, O.makes(O.CFG_OPS + ["unsafe"]))
    names = st.lists(st.sampled_from(NAMES), min_size=1, max_size=2, unique=True)
    head = st.tuples(st.just("ctx"), st.sampled_from(["read_write", "open_dict", "flag_override", "flag_override"]), st.integers(0, 3), st.integers(0, 12),
                     names, st.lists(st.sampled_from([True, False, None]), min_size=2, max_size=2), st.booleans())
    inner = st.lists(base, max_size=3)
    ctx1 = st.tuples(head, inner)
    ctx2 = st.tuples(head, st.lists(one_of(base, base, ctx1), max_size=3))
    op = one_of(base, base, base, base, ctx1, ctx2)
    return specs, roots, draw(st.lists(op, min_size=2, max_size=9))


def explicit(n, name):
    return n._get_node_flag(name)


UNKNOWN = object()


def expected(n, name, top):
    """The nearest explicit setting; UNKNOWN when it would come from the place a detached copy was copied from."""
    while n is not None:
        v = explicit(n, name)
        if v is not None:
            return v
        if n._is_flags_root():
            return None
        if n is top and n._get_parent() is not None:
            return UNKNOWN
        n = n._get_parent()
    return None


def run(case, ctx):
    specs, roots, ops = case
    env = O.start(specs, roots)
    log = [repr(roots)]
    tally = dict(set=0, after=0)

    def check():
        for c in env.cfgs:
            for p, n in nodes_of(c):
                w = {name: expected(n, name, c) for name in NAMES}
                for name, want in w.items():
                    got = n._get_flag(name)
                    if want is not UNKNOWN and got is not want:
                        fail(f"{'; '.join(log)}: the effective {name} of the node at {p} is {got} instead of {want}")
                if isinstance(n, (DictConfig, ListConfig)):
                    for name, f in (("readonly", OmegaConf.is_readonly), ("struct", OmegaConf.is_struct)):
                        if w[name] is not UNKNOWN and f(n) is not w[name]:
                            fail(f"{'; '.join(log)}: is_{name} of the node at {p} is {f(n)}")

    def flags_now():
        return [(p, n, {k: explicit(n, k) for k in NAMES}) for c in env.cfgs for p, n in nodes_of(c)]

    def step(op):
        if op[0] == "q":
            c = env.cfgs[op[1] % len(env.cfgs)]
            ns = [n for _, n in nodes_of(c)]
            n = ns[op[2] % len(ns)]
            log.append(f"query {op[3]} at {O.path_of(c, n)}")
            w, got = expected(n, op[3], c), n._get_flag(op[3])
            if w is not UNKNOWN and got is not w:
                fail(f"{'; '.join(log)}: {got} instead of {w}")
            return
        if isinstance(op[0], tuple):
            return context(op)
        before = flags_now()
        src = env.cfgs[op[2] % len(env.cfgs)] if op[0] == "cfg" else None
        r = O.apply(env, op)
        if r is None:
            return
        log.append(f"{r.desc}: {'ok' if r.ok else type(r.out[1]).__name__}")
        tally["set" if r.name == "flag" else "after"] += 1
        if r.ok and r.name not in ("flag",):
            ctx.label(r.name)
        for p, n, fl in before:
            now = {k: explicit(n, k) for k in NAMES}
            if now == fl:
                continue
            if r.name == "flag" and n is r.node:
                if r.ok and now != {**fl, op[3]: op[4]}:
                    fail(f"{'; '.join(log)}: the explicit flags of the node at {p} became {now}")
                continue
            if r.name in CARRY and O.related_nodes(r.node, n):
                continue
            fail(f"{'; '.join(log)}: the explicit flags of the node at {p} changed from {fl} to {now}")
        if r.name in ("copy", "deepcopy", "pickle") and r.ok:
            a = [(p, [explicit(n, k) for k in NAMES]) for p, n in nodes_of(src)]
            b = [(p, [explicit(n, k) for k in NAMES]) for p, n in nodes_of(r.new)]
            if a != b:
                fail(f"{'; '.join(log)}: explicit flags of the copy {b} instead of {a}")

    def context(op):
        (_, kind, ci, ni, names, values, boom), body = op
        c = env.cfgs[ci % len(env.cfgs)]
        ns = [n for _, n in nodes_of(c)]
        n = ns[ni % len(ns)]
        path = O.path_of(c, n)
        if kind == "read_write":
            names, vals, make = ["readonly"], [False], lambda: read_write(n)
        elif kind == "open_dict":
            names, vals, make = ["struct"], [False], lambda: open_dict(n)
        else:
            vals = values[:len(names)]
            make = lambda: flag_override(n, names if len(names) > 1 or boom else names[0], vals if len(names) > 1 else vals[0])
        if kind != "flag_override" and not isinstance(n, (DictConfig, ListConfig)):
            return
        before = {k: explicit(n, k) for k in NAMES}
        log.append(f"enter {kind} {names} {vals} at {path}")
        try:
            with make() as got:
                if got is not n:
                    fail(f"{'; '.join(log)}: yields another object")
                for k, v in zip(names, vals):
                    if explicit(n, k) is not v:
                        fail(f"{'; '.join(log)}: explicit {k} is {explicit(n, k)} inside")
                check()
                for o in body:
                    step(o)
                    check()
                inside = {k: explicit(n, k) for k in NAMES}
                if boom:
                    raise Boom()
        except Boom:
            log.append("body raises")
        log.append(f"exit {kind}")
        want = {**inside, **{k: before[k] for k in names}}
        now = {k: explicit(n, k) for k in NAMES}
        if now != want:
            fail(f"{'; '.join(log)}: the explicit flags at {path} are {now} instead of {want}")
        tally["set"] += 1
        ctx.label("context")

    check()
    for op in ops:
        step(op)
        check()
    if tally["set"] and tally["after"]:
        ctx.hit()


@st.composite
def merge_cases(draw):
    keys = st.sampled_from(["a", "b", "c"])
    tree = st.dictionaries(keys, trees(leaf=st.sampled_from([0, 1, "s", None, "???"]), keys=keys, max_leaves=5, width=2), min_size=1, max_size=3)
    flags = lambda names: st.lists(st.tuples(one_of(st.just(0), st.integers(0, 8)), st.sampled_from(names), st.sampled_from([True, False, False, None])), max_size=4)
    srcs = draw(st.lists(tree, min_size=2, max_size=3))
    return ([(t, draw(flags(["struct", "x", "allow_objects"] if i == 0 else ["struct", "x", "allow_objects", "readonly"]))) for i, t in enumerate(srcs)],
            draw(st.sampled_from(["REPLACE", "EXTEND", "EXTEND_UNIQUE"])), draw(st.sampled_from(["merge", "merge", "unsafe_merge", "merge_with"])))


def merged_flags(dest, src, mode):
    """Reference: {path: explicit flags} of the containers of the result.  Trees are plain: (kind, flags, {key: tree}) or None."""
    if src is None or dest is None or dest[0] != src[0]:
        return src
    fl = {k: src[1][k] if src[1][k] is not None else dest[1][k] for k in NAMES}
    if dest[0] == "dict":
        kids = dict(dest[2])
        for k, v in src[2].items():
            if v == "skip":
                kids.setdefault(k, v)
            else:
                kids[k] = merged_flags(kids[k], v, mode) if k in kids and kids[k] not in (None, "skip") and v is not None else v
        return ("dict", fl, kids)
    if mode == "EXTEND":
        return ("list", fl, {i: x for i, x in enumerate(list(dest[2].values()) + list(src[2].values()))})
    if mode == "REPLACE":
        return ("list", fl, src[2])
    return ("list", fl, None)  # which items are added is C07's matter


def shape(n):
    if not isinstance(n, (DictConfig, ListConfig)) or special(n):
        return "skip" if n._is_missing() else None
    kids = {k: shape(n._get_node(k)) for k in (n.keys() if isinstance(n, DictConfig) else range(len(n)))}
    return ("dict" if isinstance(n, DictConfig) else "list", {k: explicit(n, k) for k in NAMES}, kids)


def same_shape(want, got, path=()):
    if not isinstance(want, tuple) or not isinstance(got, tuple):
        return None if isinstance(want, tuple) is isinstance(got, tuple) else f"{path}: {got} instead of {want}"
    if want[1] != got[1]:
        return f"the explicit flags at {path} are {got[1]} instead of {want[1]}"
    if want[2] is not None:
        if list(want[2]) != list(got[2]):
            return f"the keys at {path} are {list(got[2])} instead of {list(want[2])}"
        for k in want[2]:
            e = same_shape(want[2][k], got[2][k], path + (k,))
            if e:
                return e
    return None


def merge_run(case, ctx):
    data, mode, how = case
    cfgs = []
    for t, flags in data:
        c = OmegaConf.create(t)
        ns = [n for _, n in nodes_of(c) if isinstance(n, (DictConfig, ListConfig)) and not special(n)]
        for i, name, v in flags:
            ns[i % len(ns)]._set_flag(name, v)
        cfgs.append(c)
    shapes = [shape(c) for c in cfgs]
    want = shapes[0]
    for sh in shapes[1:]:
        want = merged_flags(want, sh, mode)
    tag = f"{how} of {[(t, f) for t, f in data]} ({mode})"
    kw = {"list_merge_mode": ListMergeMode[mode]}
    if how == "merge_with":
        r = attempt(lambda: cfgs[0].merge_with(*cfgs[1:], **kw))
        res = cfgs[0]
    else:
        r = attempt(lambda: getattr(OmegaConf, how)(*cfgs, **kw))
        res = r[1]
    if r[0] == "exc":
        return  # read-only, struct mode, or incompatible kinds
    if how != "merge_with" and want[1]["readonly"] is False:
        want[1]["readonly"] = shapes[0][1]["readonly"]  # the result of merge is writable by default
    e = same_shape(want, shape(res))
    if e:
        fail(f"{tag}: {e}")
    for p, n in nodes_of(res):
        for name in NAMES:
            if n._get_flag(name) is not expected(n, name, res):
                fail(f"{tag}: the effective {name} at {p} is {n._get_flag(name)} instead of {expected(n, name, res)}")
    if any(f for _, f in data[1:]):
        ctx.hit()


# --- flags given at creation
@dataclasses.dataclass
class Plain:
    x: int = 1
    n: Dict[str, int] = dataclasses.field(default_factory=lambda: {"a": 1})


@dataclasses.dataclass(frozen=True)
class Frozen:
    x: int = 1


@attr.s(auto_attribs=True, frozen=True)
class AFrozen:
    x: int = 1


FORMS = {  # name: (value, what it is: dict, list or either; own flags)
    "None": (lambda: None, "dl", {}), "missing": (lambda: "???", "dl", {}), "interpolation": (lambda: "${q}", "dl", {}), "dict": (lambda: {"a": 1, "n": {"b": 1}, "l": [{}]}, "d", {}), "empty dict": (lambda: {}, "d", {}),
    "list": (lambda: [1, [2], {"a": 1}], "l", {}), "tuple": (lambda: (1, (2,)), "l", {}), "empty list": (lambda: [], "l", {}), "empty text": (lambda: "", "y", {}), "comment": (lambda: "# c\n", "y", {}), "text": (lambda: "foo", "y", {}),
    "yaml dict": (lambda: "a: 1\nn: {b: 1}", "y", {}), "yaml list": (lambda: "[1, [2]]", "y", {}), "class": (lambda: Plain, "d", {}), "instance": (lambda: Plain(), "d", {}), "frozen class": (lambda: Frozen, "d", {"readonly": True}),
    "frozen instance": (lambda: Frozen(), "d", {"readonly": True}), "frozen attrs": (lambda: AFrozen, "d", {"readonly": True}),
    "dict config": (lambda: OmegaConf.create({"a": 1, "n": {"b": 1}}, flags={"readonly": True, "x": False}), "d", "src"), "list config": (lambda: OmegaConf.create([1, [2]], flags={"struct": False}), "l", "src"),
    "class config": (lambda: OmegaConf.structured(Plain, flags={"readonly": False}), "d", "src"), "None config": (lambda: DictConfig(None, flags={"x": True}), "d", "src"), "missing config": (lambda: ListConfig("???", flags={"x": True}), "l", "src"),
}
GIVEN = [None, {}] + [{k: v} for k in NAMES for v in (True, False, None)] + [{"readonly": a, "struct": b, "x": c} for a in (True, False) for b in (True, False) for c in (True, None)]
MAKERS = {"create": lambda v, k, kw: OmegaConf.create(v, **kw), "structured": lambda v, k, kw: OmegaConf.structured(v, **kw), "DictConfig": lambda v, k, kw: DictConfig(v, **kw), "ListConfig": lambda v, k, kw: ListConfig(v, **kw)}


def enum_created(tier):
    return [(f, m, i) for f, (_, k, _o) in FORMS.items() for m in MAKERS for i in range(len(GIVEN))
            if not (m == "DictConfig" and "d" not in k or m == "ListConfig" and "l" not in k or k == "dl" and m in ("create", "structured") and f == "interpolation")]


def run_created(case, ctx):
    form, maker, i = case
    mk, kind, own = FORMS[form]
    v, given = mk(), GIVEN[i] if GIVEN[i] is None else dict(GIVEN[i])
    if own == "src":
        own, want = None, {k: v._get_node_flag(k) for k in NAMES}
        before = snap.walk(v)
        if given is not None:
            want = {k: given.get(k) for k in NAMES}
    else:
        before = None
        want = {k: {**(given or {}), **own}.get(k) for k in NAMES}
    tag = f"{maker} of {form} with flags {given}"
    r = attempt(lambda: MAKERS[maker](v, kind, {} if given is None else {"flags": given}))
    if r[0] != "ok":
        fail(f"{tag}: {show(r)}")
    c = r[1]

    def judge(c, tag):
        got = {k: c._get_node_flag(k) for k in NAMES}
        if got != want:
            fail(f"{tag}: explicit flags {got}, expected {want}")
        for p, n in nodes_of(c):
            for k in NAMES:
                if n._get_flag(k) is not want[k] and not (p and before is not None):
                    fail(f"{tag}: effective {k} of {p} is {n._get_flag(k)}, expected {want[k]}")
    judge(c, tag)
    if OmegaConf.is_readonly(c) is not want["readonly"] or OmegaConf.is_struct(c) is not want["struct"]:
        fail(f"{tag}: is_readonly {OmegaConf.is_readonly(c)} is_struct {OmegaConf.is_struct(c)}, explicit flags {want}")
    if given is not None:
        given["x"] = "changed"  # the config has its own
        judge(c, tag + ", after changing the flags dict")
        given.clear()
        c._set_flag("own", True)
        if given:
            fail(f"{tag}: setting a flag changed the dict that was given: {given}")
    judge(copy.deepcopy(c), tag + ", deep copied")
    judge(pickle.loads(pickle.dumps(c)), tag + ", pickled")
    for k in NAMES:
        with flag_override(c, k, True):
            with flag_override(c, [k, "own"], [None, False]):
                if c._get_node_flag(k) is not None or c._get_node_flag("own") is not False:
                    fail(f"{tag}: inside flag_override")
    judge(c, tag + ", after flag_override")
    if before is not None and snap.walk(v) != before:
        fail(f"{tag} changed the source")
    ctx.hit("flags" if GIVEN[i] or any(want.values()) else None)


LEGS = [
    Leg("created", None, run_created, quick=0, enumerated=enum_created,
        rule="every form of value (None, '???', data, YAML text, class, instance, frozen, config with its own flags) made into a config by create, structured, DictConfig and ListConfig with each of 22 sets of flags; explicit and effective flags of all nodes, of copies, "
             "and after flag_override; non-trivial: flags given or inherited"),
    Leg("merged flags", merge_cases, merge_run, quick=3000,
        rule="2-3 trees of dicts and lists with explicit flags on their containers, merged in every list mode; explicit flags of each container of the result against the source-wins rule; "
             "non-trivial: a later source has explicit flags and the merge succeeds"),
    Leg("histories", cases, run, quick=8000,
        rule="1-3 configs, 2-9 steps (edits with plain values and nodes, new configs, flags set on containers and value nodes, flag queries, nested context managers with and without an exception); "
             "effective flags of every node recomputed after each step; non-trivial: flags set and something edited or made"),
]
