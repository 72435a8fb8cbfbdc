"""C20: custom resolvers: arguments, special parameters, return values, caches and the table of names."""
import copy
import warnings
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.errors import InterpolationResolutionError, InterpolationValidationError, UnsupportedInterpolationType
from ..core import Leg, fail
from ..gen import *
from .. import interp as I, schema as S
from .c14 import raw_node
from . import c15

DEFAULTS = ["oc.create", "oc.decode", "oc.deprecated", "oc.dict.keys", "oc.dict.values", "oc.env", "oc.select"]


def fresh(f):
    def g(case, ctx):
        OmegaConf.clear_resolvers()
        try:
            return f(case, ctx)
        finally:
            OmegaConf.clear_resolvers()
    return g


# ---------------------------------------------------------------- one call
DATA = {"n": 3, "t": "txt", "z": None, "d": {"k": 1, "e": []}, "l": [1, "${n}", {"q": True}], "i": "${n}", "dd": "${d}", "f": 2.5, "en": Color.RED, "p": Path("a/b"), "by": b"x", "nm": "n", "zz": "x${t}"}
REFS = {"${n}": 3, "${t}": "txt", "${z}": None, "${d}": ("node", ("d",)), "${l}": ("node", ("l",)), "${l[2]}": ("node", ("l", 2)), "${l[1]}": 3, "${i}": 3, "${dd}": ("node", ("d",)), "${d.k}": 1, "${f}": 2.5,
        "${en}": Color.RED, "${p}": Path("a/b"), "${by}": b"x", "${${nm}}": 3, "${zz}": "xtxt", "${d[e]}": ("node", ("d", "e")), "x${n}-${t}": "x3-txt", "${id:${d}}": ("node", ("d",)), "'${n}'": 3, "[${n},${t}]": [3, "txt"],
        "{a: ${n}, b: '${t}${z}'}": {"a": 3, "b": "txtNone"}, "${id:[${id:1},${z}]}": [1, None], "a ${n}": "a 3"}
REFS["'${n}'"] = "3"
SPECIALS = ["_parent_", "_node_", "_root_"]
NESTS = ["root", "dict", "list", "deep", "attached"]
ret_values = one_of(S.simple_values, st.none(), st.sampled_from(["${n}", "\\"]), trees(leaf=scalars, max_leaves=4), st.tuples(st.just("NODE"), st.sampled_from(["d", "l", "own"])), st.sampled_from(sorted(S.OBJS)).map(lambda k: ("O", k)))
arg = one_of(c15.elements().map(lambda e: ("E", e)), c15.elements(calls=False).map(lambda e: ("E", e)), st.sampled_from(sorted(REFS)).map(lambda r: ("R", r)))
call_case = st.tuples(st.lists(arg, max_size=4), st.sets(st.sampled_from(SPECIALS)).map(sorted), ret_values, st.sampled_from(NESTS), st.sampled_from(["f", "ns.f", "ns.${which}", "${pre}.f"]),
                      st.sampled_from(["item", "attr", "get", "select", "container", "loop", "items", "via", "viarel"]), st.sampled_from(["any", "any", "any", "int", "str", "float", "bool", "Color", "optint", "Path", "bytes", "dictint"]), c15.SPACE)


def same(a, b, cfg):
    if isinstance(b, tuple) and b and b[0] == "node":
        return a is raw_node(cfg, b[1])
    return canon(a) == canon(b)


def make(special, log, ret):
    def keep(*args, **kw):
        log.append((args, kw))
        return ret()
    names = ", ".join(special)
    return eval(f"lambda *args{', *, ' + names if False else ''}{', ' + names if names else ''}: keep(*args{''.join(f', {n}={n}' for n in special)})", {"keep": keep})


@fresh
def run_call(case, ctx):
    args, special, ret, nest, name, route, ftype, sp = case
    texts, want = [], []
    try:
        for k, a in args:
            if k == "R":
                texts.append(a)
                want.append(REFS[a])
            else:
                t, v = c15.spell(a)
                texts.append(t)
                want.append(v)
    except c15.Bad:
        return
    if any(t == "" for t in texts):
        return
    text = "${" + name + ":" + sp + (sp + "," + sp).join(texts) + sp + "}"
    if text.endswith("\\}"):
        return
    log = []
    OmegaConf.register_new_resolver("id", lambda x: x)
    tree = {**copy.deepcopy(DATA), "which": "f", "pre": "ns"}
    types = {"optint": ("opt", "int"), "dictint": ("dict", "str", "int")}
    t = types.get(ftype, ftype)
    if t == "any":
        holder = {"x": text, "own": {"o": 1}}
    elif ftype == "dictint":
        holder = DictConfig({"x": text}, element_type=int)
    else:
        c = S.realize([{"kind": "dc", "base": None, "fields": [["x", t, S.REQ]]}])[0]
        holder = c(x=text)
    loc = {"root": ("h",), "dict": ("w", "h"), "list": ("w", 1), "deep": ("w", 0, "v", 1), "attached": ("h",)}[nest]
    for k in reversed(loc[1:]):
        holder = {k: holder} if isinstance(k, str) else [0] * k + [holder]
    tree[loc[0]] = holder
    cfg = OmegaConf.create(tree)
    if nest == "attached":
        cfg["h"] = copy.deepcopy(cfg["h"])
    parent = raw_node(cfg, loc)
    node = parent._get_node("x")
    tag = f"{text!r} in a {t} place at {loc}"

    def value():
        if isinstance(ret, tuple) and len(ret) == 2 and ret[0] == "NODE":
            return cfg["d"] if ret[1] == "d" else cfg["l"] if ret[1] == "l" else cfg._get_node("n")
        return obj
    obj = S.value(ret) if not (isinstance(ret, tuple) and len(ret) == 2 and ret[0] == "NODE") else None
    OmegaConf.register_new_resolver("f" if name == "f" else "ns.f", make(special, log, value))
    routes = {"item": lambda: parent["x"], "attr": lambda: parent.x, "get": lambda: parent.get("x"), "select": lambda: OmegaConf.select(parent, "x"), "container": lambda: None,
              "loop": lambda: [parent[k] for k in parent][0], "items": lambda: next(v for k, v in parent.items() if k == "x"), "via": lambda: None, "viarel": lambda: None}
    read = routes[route]
    if route == "container":
        def read():
            out = OmegaConf.to_container(parent, resolve=True)
            return out["x"]
    elif route in ("via", "viarel"):
        cfg["via"] = {"y": "${" + ("" if route == "via" else "..") + I.spell(None, [str(k) for k in loc + ("x",)], 0) + "}"}
        def read():
            return cfg.via.y
    before = cs(cfg)
    n = 0
    for again in range(2):
        r = attempt(read)
        n += 1
        if len(log) != n:
            fail(f"{tag}: read {n} times by {route}, called {len(log)} times; read gave {show(r)}")
        got, kw = log[-1]
        if len(got) != len(want) or not all(same(a, b, cfg) for a, b in zip(got, want)):
            fail(f"{tag}: called with {show(got)}, the arguments denote {show(want)}")
        if sorted(kw) != special:
            fail(f"{tag}: called with the keywords {sorted(kw)}, asked for {special}")
        if "_root_" in kw and kw["_root_"] is not cfg:
            fail(f"{tag}: _root_ is {show(kw['_root_'])}")
        if "_parent_" in kw and kw["_parent_"] is not parent:
            fail(f"{tag}: _parent_ is {show(kw['_parent_'])}")
        if "_node_" in kw and kw["_node_"] is not node:
            fail(f"{tag}: _node_ is {show(kw['_node_'])}")
        check_value(r, value, t if ftype != "dictint" else "int", route, ret, cfg, tag)
    if cs(cfg) != before:
        fail(f"{tag}: reading changed the config: {show(plain(cfg))}")
    ctx.hit("call")
    ctx.label("route " + route)
    if any(k == "R" for k, _ in args):
        ctx.label("nested interpolation argument")
    if special:
        ctx.label("special parameters")


def check_value(r, value, t, route, ret, cfg, tag):
    v = value()
    o, b = S.strip(t)
    if isinstance(ret, tuple) and len(ret) == 2 and ret[0] == "NODE":
        if ret[1] == "own":
            want = 3
        elif b != "any":
            if r[0] == "ok" and b != "str":
                fail(f"{tag}: returning a container gave {show(r)}")
            return
        elif route == "container":
            if r[0] != "ok" or cs(r[1]) != cs(OmegaConf.to_container(v, resolve=True)):
                fail(f"{tag}: returned {show(plain(v))}, converted to {show(r)}")
            return
        else:
            if r[0] != "ok" or r[1] is not v:
                fail(f"{tag}: returned the node {show(plain(v))}, read {show(r)}")
            return
    else:
        want = v
    if b == "any":
        if r[0] != "ok" or r[1] is not want and canon(r[1]) != canon(want):
            fail(f"{tag}: returned {show(want)}, read {show(r)}")
        return
    if isinstance(want, str) and want in ("???",) or isinstance(want, str) and "${" in want:
        return
    if isinstance(ret, tuple) and len(ret) == 2 and ret[0] in ("O",):
        return  # conversions of unsupported objects
    try:
        w = S.conv(t, ret if not isinstance(ret, tuple) or ret[0] != "NODE" else 3)
    except S.Bad:
        if r[0] == "ok":
            fail(f"{tag}: returned {show(want)}, illegal for {t}, read {show(r)}")
        if not isinstance(r[1], InterpolationValidationError):
            fail(f"{tag}: returned {show(want)}, illegal for {t}: {type(r[1]).__name__}: {r[1]}")
        return
    except S.Skip:
        return
    if r[0] != "ok" or canon(r[1]) != canon(w):
        fail(f"{tag}: returned {show(want)}, {show(w)} for {t}, read {show(r)}")


# ---------------------------------------------------------------- histories
NAMES = ["f", "g", "ns.h", "oc.env", "nope"]
ENTRIES = {  # key -> (text, name, [(argument, text of the argument)]); argument: value or a nested entry
    "f1": ("${f:1}", "f", [(1, "1")]), "f1s": ("${f: 1 }", "f", [(1, "1")]), "f1q": ("${f:'1'}", "f", [("1", "'1'")]), "f01": ("${f:1,2}", "f", [(1, "1"), (2, "2")]), "f01s": ("${f:1 , 2}", "f", [(1, "1"), (2, "2")]),
    "f12": ("${f:'1,2'}", "f", [("1,2", "'1,2'")]), "f0": ("${f:}", "f", []), "fn": ("${f:${n}}", "f", [(("ref",), "${n}")]), "fl": ("${f:[1,2]}", "f", [([1, 2], "[1,2]")]),
    "g1": ("${g:1}", "g", [(1, "1")]), "gf": ("${g:${f:1}}", "g", [(("E", "f1"), "${f:1}")]), "h1": ("${ns.h:1}", "ns.h", [(1, "1")]), "hg": ("${ns.h:${g:${f:1}},1}", "ns.h", [(("E", "gf"), "${g:${f:1}}"), (1, "1")]),
    "f1c": ("${f:a\\,b}", "f", [("a,b", "a\\,b")]), "env": ("${oc.env:VF_C20,dflt}", "oc.env", [("VF_C20", "VF_C20"), ("dflt", "dflt")]), "nope": ("${nope:1}", "nope", [(1, "1")]),
}
SUB = ["f1", "gf", "fn"]  # also held in a sub-config and a list
reg = st.tuples(st.just("reg"), st.sampled_from(NAMES), st.sampled_from(["plain", "plain", "cache", "cache", "cache", "special", "badcache", "notcallable", "noname", "raises", "raises-cache", "empty-cache", "empty-cache", "empty-legacy", "list", "legacy", "builtin"]), st.booleans())
acc = st.tuples(st.just("read"), st.integers(0, 3), st.sampled_from(sorted(ENTRIES)), st.integers(0, 5))
misc = one_of(st.tuples(st.just("clear"), st.sampled_from(NAMES)), st.tuples(st.just("clearall")), st.tuples(st.just("ccache"), st.integers(0, 3)), st.tuples(st.just("copycache"), st.integers(0, 3), st.integers(0, 3)),
                 st.tuples(st.just("setcache"), st.integers(0, 3), st.sampled_from(["empty", "self", "custom"])), st.tuples(st.just("dup"), st.integers(0, 3), st.sampled_from(["deepcopy", "copy", "create", "merge"])),
                 st.tuples(st.just("setn"), st.integers(0, 3), st.integers(0, 3)), st.tuples(st.just("mutate"), st.integers(0, 3)), st.tuples(st.just("conv"), st.integers(0, 3)))
hist_case = st.tuples(st.lists(one_of(reg, acc, acc, acc, acc, misc), min_size=4, max_size=16).map(lambda l: [("reg", "f", "cache", False), ("reg", "g", "plain", False), ("reg", "ns.h", "cache", False)][:1 + len(l) % 3] + l))


class Boom(Exception):
    pass


class Fn:
    """A registered function of the model: fid, kind, number of calls so far (model and real)."""
    def __init__(self, fid, kind):
        self.fid, self.kind, self.calls, self.log = fid, kind, 0, []

    def real(self):
        f = self

        def call(args):
            f.log.append(args)
            return f.result(len(f.log))
        if f.kind == "special":
            return lambda *a, _parent_, _root_: call(a)
        if f.kind == "badcache":
            return lambda *a, _node_: call(a)
        return lambda *a: call(a)

    def result(self, n):
        if self.kind.startswith("raises"):
            raise Boom(self.fid)
        if self.kind == "list":
            return [self.fid, n]
        if self.kind.startswith("empty"):
            return (None, 0, "", False, 0.0)[(self.fid + n) % 5]
        return f"r{self.fid}.{n}"


class Fail(Exception):
    """The model expects an interpolation error; kind "type" for an unknown resolver."""


class Model:
    def __init__(self):
        self.table = {n: None for n in DEFAULTS}

    def eval(self, cfg, key):
        """cfg: {"n": value, "cache": {(name, texts): value}}"""
        _, name, args = ENTRIES[key]
        vals = []
        for a, t in args:
            vals.append(self.eval(cfg, a[1]) if isinstance(a, tuple) and a[0] == "E" else cfg["n"] if a == ("ref",) else a)
        if name not in self.table:
            raise Fail("type")
        f = self.table[name]
        if f is None:
            return "dflt"
        texts = tuple(t for _, t in args)
        cached = f.kind in ("cache", "raises-cache", "empty-cache") or "legacy" in f.kind
        if "legacy" in f.kind:
            texts_u = [x.replace(r"\ ", " ").replace(r"\,", ",") for x in texts]
            if any("${" in x for x in texts_u):
                raise Fail("other")
            vals = texts_u
        if cached and (name, texts) in cfg["cache"]:
            return cfg["cache"][name, texts]
        f.calls += 1
        f.expect = tuple(vals)
        try:
            v = f.result(f.calls)
        except Boom:
            raise Fail("other")
        if cached:
            cfg["cache"][name, texts] = v
        return v


def new_cfg():
    return OmegaConf.create({"n": 0, **{k: v[0] for k, v in ENTRIES.items()}, "sub": {k: ENTRIES[k][0] for k in SUB}, "lst": [ENTRIES[k][0] for k in SUB]})


@fresh
def run_hist(case, ctx):
    (steps,) = case
    m = Model()
    fns = []
    cfgs = [[new_cfg(), {"n": 0, "cache": {}}] for _ in range(2)]
    trace = []
    hits = calls = 0
    for s in steps:
        trace.append(s)
        tag = f"after {trace}"
        if s[0] == "reg":
            _, name, kind, replace = s
            f = Fn(len(fns), kind)
            fns.append(f)
            ok = kind not in ("badcache", "notcallable", "noname") and ("legacy" in kind or replace or name not in m.table) and not ("legacy" in kind and name in m.table)
            if "legacy" in kind:
                r = attempt(lambda: OmegaConf.legacy_register_resolver(name, f.real()))
            else:
                fn = 5 if kind == "notcallable" else f.real()
                r = attempt(lambda: OmegaConf.register_new_resolver("" if kind == "noname" else name, fn, replace=replace, use_cache=kind in ("cache", "badcache", "raises-cache", "empty-cache")))
            if ok != (r[0] == "ok"):
                fail(f"{tag}: {show(r)}")
            if not ok and "legacy" not in kind and not isinstance(r[1], TypeError if kind == "notcallable" else ValueError):
                fail(f"{tag}: registering raised {type(r[1]).__name__}: {r[1]}")
            if ok:
                m.table[name] = f
            ctx.label("registered" if ok else "registration refused")
        elif s[0] == "clear":
            r = OmegaConf.clear_resolver(s[1])
            if r is not (s[1] in m.table):
                fail(f"{tag}: clear_resolver gave {r!r}")
            m.table.pop(s[1], None)
        elif s[0] == "clearall":
            OmegaConf.clear_resolvers()
            m.table = {n: None for n in DEFAULTS}
        elif s[0] == "read":
            cfg, mc = cfgs[s[1] % len(cfgs)]
            k = s[2]
            where = s[3] % (5 if k in SUB else 3)
            get = [lambda: cfg[k], lambda: getattr(cfg, k), lambda: OmegaConf.select(cfg, k), lambda: cfg.sub[k], lambda: cfg.lst[SUB.index(k)]][where]
            n0 = sum(f.calls for f in fns)
            try:
                want = ("ok", m.eval(mc, k))
            except Fail as e:
                want = ("exc", str(e))
            r = attempt(get)
            if want[0] == "ok":
                if r[0] != "ok" or canon(r[1]) != canon(want[1]):
                    fail(f"{tag}: read {show(r)}, expected {want[1]!r}")
                if sum(f.calls for f in fns) == n0:
                    hits += 1
                else:
                    calls += 1
            elif r[0] != "exc" or not isinstance(r[1], UnsupportedInterpolationType if want[1] == "type" else InterpolationResolutionError):
                fail(f"{tag}: read {show(r)}, expected an interpolation error ({want[1]})")
        elif s[0] == "conv":
            cfg, mc = cfgs[s[1] % len(cfgs)]
            out, bad = {}, False
            try:
                for k in SUB:
                    out[k] = m.eval(mc, k)
            except Fail:
                bad = True
            r = attempt(lambda: OmegaConf.to_container(cfg.sub, resolve=True))
            if bad != (r[0] == "exc") or not bad and canon(r[1]) != canon(out):
                fail(f"{tag}: converted to {show(r)}, expected {show(out) if not bad else 'an error'}")
        elif s[0] == "ccache":
            c = cfgs[s[1] % len(cfgs)]
            OmegaConf.clear_cache(c[0])
            c[1]["cache"] = {}
        elif s[0] == "copycache":
            a, b = cfgs[s[1] % len(cfgs)], cfgs[s[2] % len(cfgs)]
            OmegaConf.copy_cache(a[0], b[0])
            b[1]["cache"] = copy.deepcopy(a[1]["cache"])
        elif s[0] == "setcache":
            c = cfgs[s[1] % len(cfgs)]
            if s[2] == "self":
                OmegaConf.set_cache(c[0], OmegaConf.get_cache(c[0]))
            elif s[2] == "empty":
                OmegaConf.set_cache(c[0], {})
                c[1]["cache"] = {}
            else:
                given = {"f": {("1",): "given"}, "g": {}}
                OmegaConf.set_cache(c[0], given)
                given["f"][("1",)] = "changed later"
                c[1]["cache"] = {("f", ("1",)): "given"}
        elif s[0] == "dup":
            c = cfgs[s[1] % len(cfgs)]
            dup = {"deepcopy": copy.deepcopy, "copy": copy.copy, "create": OmegaConf.create, "merge": lambda x: OmegaConf.merge(x, {"extra": 1})}[s[2]](c[0])
            if len(cfgs) > 3:
                cfgs.pop(0)
            cfgs.append([dup, {"n": c[1]["n"], "cache": copy.deepcopy(c[1]["cache"])}])
        elif s[0] == "setn":
            c = cfgs[s[1] % len(cfgs)]
            c[0].n = s[2]
            c[1]["n"] = s[2]
        elif s[0] == "mutate":
            c = cfgs[s[1] % len(cfgs)]
            c[0].merge_with({"extra": {"y": 1}})
            c[0].lst.append(1)
        for f in fns:
            if len(f.log) != f.calls:
                fail(f"{tag}: function {f.fid} ({f.kind}) was called {len(f.log)} times, expected {f.calls}")
            if f.calls and canon(list(f.log[-1])) != canon(list(f.expect)):
                fail(f"{tag}: function {f.fid} was called with {f.log[-1]!r}, expected {f.expect!r}")
        for n in NAMES + DEFAULTS + ["zz"]:
            if OmegaConf.has_resolver(n) is not (n in m.table):
                fail(f"{tag}: has_resolver({n!r}) is {OmegaConf.has_resolver(n)}")
        for c, mc in cfgs:
            got = {(n, k): v for n, d in OmegaConf.get_cache(c).items() for k, v in d.items()}
            if got != mc["cache"]:
                fail(f"{tag}: the cache holds {got}, expected {mc['cache']}")
    if calls:
        ctx.hit("called")
    if hits:
        ctx.label("cache hit")


# ---------------------------------------------------------------- legacy resolvers
REF_TEXTS = ["${n}", "x${n}", "'${n}'", "[${n}]", "${${nm}}"]
legacy_case = st.tuples(st.lists(st.tuples(one_of(c15.elements(calls=False).map(lambda e: ("E", e)), c15.elements(calls=False).map(lambda e: ("E", e)), st.sampled_from(REF_TEXTS).map(lambda r: ("R", r))), c15.SPACE, c15.SPACE), max_size=4),
                        st.sampled_from(["f", "ns.f"]), st.booleans(), st.sampled_from(["any", "str", "int"]))


@fresh
def run_legacy(case, ctx):
    args, name, old, typ = case
    texts, full = [], []
    try:
        for (k, a), l, r in args:
            t = a if k == "R" else c15.spell(a)[0]
            if t == "":
                return
            texts.append(t)
            full.append(l + t + r)
    except c15.Bad:
        return
    text = "${" + name + ":" + ",".join(full) + "}"
    if text.endswith("\\}"):
        return
    log = []

    def f(*a):
        log.append(a)
        return len(log)
    # the names are looked up in one table: registering twice is refused by both functions
    if old:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            OmegaConf.register_resolver(name, f)
        if not w:
            fail("register_resolver gives no warning")
    else:
        OmegaConf.legacy_register_resolver(name, f)
    again = attempt(lambda: OmegaConf.legacy_register_resolver(name, lambda *a: "second"))
    again2 = attempt(lambda: OmegaConf.register_new_resolver(name, lambda *a: "second"))
    if again[0] != "exc" or not isinstance(again[1], AssertionError) or again2[0] != "exc" or not isinstance(again2[1], ValueError):
        fail(f"registering {name} again gives {show(again)} and {show(again2)}")
    if not OmegaConf.has_resolver(name):
        fail(f"has_resolver({name!r}) after legacy registration")
    specs = [{"kind": "dc", "base": None, "fields": [["x", typ, S.REQ], ["y", "any", S.REQ]]}]
    cls = S.realize(specs)[0]
    cfg = OmegaConf.create({"n": 3, "nm": "n", "h": cls(x=text, y=text)})
    other = OmegaConf.create({"n": 3, "nm": "n", "x": text})
    want = tuple(t.replace("\\ ", " ").replace("\\,", ",") for t in texts)
    bad = any("${" in t for t in want)
    conv = {"any": lambda v: v, "str": str, "int": int}[typ]
    tag = f"{text!r}"
    reads = [("h.x", lambda: cfg.h.x, 1, conv), ("h.y", lambda: cfg["h"]["y"], 1, lambda v: v), ("h.x again", lambda: OmegaConf.select(cfg, "h.x"), 1, conv), ("other", lambda: other.x, 2, lambda v: v), ("h.y after", lambda: OmegaConf.to_container(cfg, resolve=True)["h"]["y"], 1, lambda v: v)]
    calls = 1
    for what, read, n, c in reads:
        r = attempt(read)
        if bad:
            if r[0] != "exc" or not isinstance(r[1], InterpolationResolutionError) or "Nested interpolations are not supported" not in str(r[1]):
                fail(f"{tag}: a nested interpolation gives {show(r)} ({what})")
            if log:
                fail(f"{tag}: the resolver was called with {log}")
            continue
        if r[0] != "ok" or canon(r[1]) != canon(c(n)):
            fail(f"{tag}: {what} reads as {show(r)}, expected {c(n)!r}; calls: {log}")
        if len(log) != max(n, calls) or any(type(x) is not str for x in log[-1]) or log[-1] != want:
            fail(f"{tag}: {what}: calls {log}, expected {max(n, calls)} with {want}")
        calls = len(log)
    if bad:
        ctx.label("nested interpolation")
    elif OmegaConf.get_cache(cfg)[name] != {tuple(texts): 1} or OmegaConf.get_cache(other)[name] != {tuple(texts): 2}:
        fail(f"{tag}: caches {OmegaConf.get_cache(cfg)} and {OmegaConf.get_cache(other)}")
    if texts:
        ctx.hit("call")


LEGS = [
    Leg("calls", lambda: call_case, run_call, quick=5000,
        rule="a resolver (plain or namespaced, possibly named by an interpolation) called with 0-4 generated arguments (every element kind, nested resolver calls, references to values and containers), asking for "
             "any of _parent_/_node_/_root_, returning any value, from typed and untyped places at any depth, read twice by one of nine routes; non-trivial: the call is made"),
    Leg("histories", lambda: hist_case, run_hist, quick=5000,
        rule="3-18 steps of registering (plain, cached, legacy, failing, replacing), clearing, reading, clearing/setting/copying caches, copying configs and editing, against a model of the name table, the call counts "
             "and each config's cache; non-trivial: some read calls a registered function"),
    Leg("legacy", lambda: legacy_case, run_legacy, quick=3000,
        rule="a resolver registered by one of the legacy functions, called with 0-4 arguments of every kind (unquoted with escapes, quoted, lists, dicts, nested interpolations), read from two typed places and two configs; "
             "non-trivial: it has arguments"),
]
