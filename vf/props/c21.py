"""C21: the built-in resolvers, against reference functions on the generated structure."""
import copy, os, re, string, warnings
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.errors import InterpolationResolutionError, InterpolationToMissingValueError
from ..core import Leg, fail
from ..gen import *
from .. import grammar as G, interp as I, schema as S, snap
from .c14 import KINDS, raw_node
from .c19 import put
from . import c15, c17

ASSUMPTIONS = ["keys and messages are written by the documented quoting rules", "oc.dict.values: dict keys and paths that can be written in an interpolation (other keys: the 'unreachable' leg)"]


def fresh(f):
    def g(case, ctx):
        OmegaConf.clear_resolvers()
        try:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                return f(case, ctx, w)
        finally:
            OmegaConf.clear_resolvers()
    return g


def quoted(s, q="'"):
    return q + c15.quote_piece(s, q, True) + q


def element(e):
    """(text, value) of a generated argument; raises c15.Bad"""
    try:
        t, v = c15.spell(e)
    except TypeError:
        raise c15.Bad
    if t[:1] in " \t":
        raise c15.Bad
    return t, v


def with_id():
    OmegaConf.register_new_resolver("id", lambda *a: a[0])


WRITABLE = re.compile(r"[^\\{}()\[\]:. \t'\",]+")


def plain_key(s):
    return isinstance(s, str) and WRITABLE.fullmatch(s) is not None and "$" not in s


def place(tree, loc, key, text):
    """The tree with text added in the container at loc: its location."""
    t = copy.deepcopy(tree)
    c = I.at(t, loc)
    if isinstance(c, dict):
        c[key] = I.Expr(text, ("opaque",))
        return t, loc + (key,)
    c.append(I.Expr(text, ("opaque",)))
    return t, loc + (len(c) - 1,)


def path_to(base, target, rel, bits):
    """Spelling of the path to target, for a node in the container at base."""
    if not rel:
        return I.spell(None, [str(x) for x in target], bits)
    k = 0
    while k < min(len(base), len(target) - 1) and base[k] == target[k]:
        k += 1
    return I.spell(len(base) - k + 1, [str(x) for x in target[k:]], bits)


ROUTES = ["item", "item", "attr", "get", "select", "via", "loop"]


def reader(cfg, loc, route):
    parent, k = raw_node(cfg, loc[:-1]), loc[-1]
    if route == "attr" and isinstance(k, str):
        return lambda: getattr(parent, k)
    if route == "get" and isinstance(k, str):
        return lambda: parent.get(k)
    if route == "select":
        return lambda: OmegaConf.select(parent, str(k) if isinstance(parent, DictConfig) else f"[{k}]")
    return lambda: parent[k]


def resolves(cfg, loc, route, before):
    """Reads the node at loc, checking that the config stays as it was."""
    r = attempt(reader(cfg, loc, route))
    if snap.walk(cfg) != before:
        fail(f"reading {loc} ({route}) changed the config to {show(plain(cfg), 800)}")
    return r


def want_error(r, tag, cls=InterpolationResolutionError):
    if r[0] != "exc" or not isinstance(r[1], cls):
        fail(f"{tag}: expected {cls.__name__}, got {show(r)}")


# ---------------------------------------------------------------- oc.env
env_names = one_of(st.sampled_from(["VF_A", "VF_b", "VF A", "VF-é", "VF.x", "VF:1", "VF'q", 'VF"', "VF${", "VF\\", "vf_a", "1", "null", "VF_A ", "VF,B"]), st.text("VFab_ \\'\"${}é:,", min_size=1, max_size=5).map(lambda s: "VF" + s))
env_text = one_of(plain_text, st.text(max_size=6), st.sampled_from(["", "???", "${a}", "null", "1", "{a: 1}", "a=b", "${VF_A}", "\\", " x "])).map(lambda s: s.replace("\0", ""))
env_case = st.tuples(env_names, one_of(st.none(), env_text, env_text), one_of(st.none(), c15.elements(), c15.elements(), st.tuples(st.just("ref"), st.sampled_from(["n", "z", "d", "l[1]"]))), st.integers(0, 3), st.sampled_from(ROUTES),
                     st.sampled_from(["any", "any", "str", "int", "optint", "text"]), st.sampled_from(["quoted", "plain", "dq", "via"]))
ENV_DATA = {"n": 3, "z": None, "d": {"k": [1, True]}, "l": ["x", 2.5]}
ENV_REFS = {"n": 3, "z": None, "l[1]": 2.5, "d": None}


@fresh
def run_env(case, ctx, w):
    name, content, default, extra, route, typ, how = case
    with_id()
    try:
        name.encode()
        (content or "").encode()
    except UnicodeEncodeError:
        return
    args = quoted(name)
    if how == "dq":
        args = quoted(name, '"')
    elif how == "plain" and re.fullmatch(r"[A-Za-z_]+", name) and c15.typed_text(name) is name:
        args = name
    dv = None
    if default is not None:
        if default[0] == "ref":
            args += ", ${" + default[1] + "}"
            dv = (ENV_REFS[default[1]],)
        else:
            try:
                t, v = element(default)
            except c15.Bad:
                return
            if t == "":
                return
            args += "," + t
            dv = (v,)
    if extra == 0 and default is not None and how == "quoted":
        args += ",9"  # one argument too many
    text = "${oc.env:" + args + "}"
    old = {k: os.environ.get(k) for k in (name,)}
    try:
        if content is None:
            os.environ.pop(name, None)
        else:
            os.environ[name] = content
        holder = {"x": text}
        if typ in ("str", "int", "optint"):
            holder = S.realize([{"kind": "dc", "base": None, "fields": [["x", {"optint": ("opt", "int")}.get(typ, typ), S.REQ]]}])[0](x=text)
        elif typ == "text":
            holder = {"x": "<" + text + ">"}
        cfg = OmegaConf.create({**copy.deepcopy(ENV_DATA), "h": holder})
        before = snap.walk(cfg)
        environ = dict(os.environ)
        r = resolves(cfg, ("h", "x"), route, before)
        if dict(os.environ) != environ:
            fail(f"{text} changed the environment")
        tag = f"{text!r} with the variable {content!r} in a {typ} place"
        if extra == 0 and default is not None and how == "quoted":
            want_error(r, tag)
            return
        if content is not None:
            want = content
        elif dv is None:
            want_error(r, tag)
            ctx.label("unset")
            return
        elif default[0] == "ref" and default[1] == "d":
            want = str(cfg.d)
        else:
            want = None if dv[0] is None else str(dv[0])
        if want == "???":
            return
        if typ == "text":
            want = f"<{want}>"
        elif typ in ("int", "optint"):
            if want is not None and ("${" in want or want == "???"):
                return
            try:
                want = S.conv(("opt", "int") if typ == "optint" else "int", want)
            except S.Bad:
                want_error(r, tag)
                return
        elif typ == "str" and want is None:
            want_error(r, tag)
            return
        if r[0] != "ok" or canon(r[1]) != canon(want):
            fail(f"{tag}: read {show(r)}, expected {want!r}")
        ctx.hit("variable" if content is not None else "default")
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


# ---------------------------------------------------------------- oc.select
skels = one_of(c17.skel(keys=I.keys), c17.skel(keys=I.keys), c17.skel(leaf=one_of(I.plain_leaf, I.plain_leaf, st.just(I.MISS))))
sel_case = st.tuples(skels, st.integers(0, 60), st.integers(0, 60), st.integers(0, 255), st.sampled_from(["abs", "abs", "rel"]), st.sampled_from(["", "", "", "", "last", "extra", "mid", "up", "int"]), st.sampled_from(c17.NAMES),
                     one_of(st.none(), c15.elements(), st.just(("node",))), st.sampled_from(ROUTES), st.sampled_from("'\""), st.sampled_from(["", "", "", "number", "none", "list", "ref"]))


@fresh
def run_select(case, ctx, w):
    sk, nb, nt, bits, mode, tweak, name, default, route, q, odd = case
    tree = I.build(sk)
    with_id()
    conts = [p for p, v in I.paths(tree) if isinstance(v, (dict, list))]
    locs = [p for p, v in I.paths(tree) if p]
    base, target = conts[nb % len(conts)], locs[nt % len(locs)]
    if mode == "abs":
        up, elems = None, [str(x) for x in target]
    else:
        k = 0
        while k < min(len(base), len(target) - 1) and base[k] == target[k]:
            k += 1
        up, elems = len(base) - k, [str(x) for x in target[k:]]
    if tweak == "last":
        elems[-1] = name
    elif tweak == "extra":
        elems.append(name)
    elif tweak == "mid":
        elems[bits % len(elems)] = name
    elif tweak == "int":
        elems[-1] = str(bits % 9 - 4)
    elif tweak == "up" and up is not None:
        up += 1 + bits % 2
    key = I.spell(None if up is None else up + 1, elems, bits if bits % 4 else 0)
    args = quoted(key, q)
    if odd:
        args = {"number": "12", "none": "null", "list": "[a]", "ref": "${oc.create:{a: 1}}"}[odd]
    dv = None
    if default == ("node",):
        t = I.at(tree, target)
        if not isinstance(t, (dict, list)) or base[:len(target)] == target:
            return
        if not all(plain_key(x) or isinstance(x, int) for x in target):
            return
        args += ", ${" + I.spell(None, [str(x) for x in target], 0) + "}"
        dv = ("loc", target)
    elif default is not None:
        try:
            t, v = element(default)
        except c15.Bad:
            return
        if not t:
            return
        args += " , " + t
        dv = ("val", v)
    text = "${oc.select:" + args + "}"
    tree2, loc = place(tree, base, "vq", text)
    cfg = OmegaConf.create(I.raw(tree2))
    before = snap.walk(cfg)
    r = resolves(cfg, loc, route, before)
    tag = f"{text!r} at {loc} of {show(I.raw(tree2), 700)}"
    if odd:
        want_error(r, tag)
        return
    try:
        want = c17.sel(tree, () if up is None else base, up or 0, elems, False, True)
        if c17.sel(put(tree2, loc, "itself"), () if up is None else base, up or 0, elems, False, True) == ("val", "itself"):
            return
    except I.Skip:
        return
    if want[0] == "exc":
        want_error(r, tag)
        ctx.label("raises")
        return
    if want[0] == "none":
        want = dv or ("val", None)
        ctx.label("default")
    if r[0] != "ok":
        fail(f"{tag}: raised {type(r[1]).__name__}: {r[1]}, expected {show(want)}")
    if want[0] == "loc":
        if r[1] is not raw_node(cfg, want[1]):
            fail(f"{tag}: read {show(plain(r[1]))}, expected the container at {want[1]}")
    elif canon(r[1]) != canon(want[1]):
        fail(f"{tag}: read {show(plain(r[1]))}, expected {want[1]!r}")
    ctx.hit(mode + (" default" if dv else ""))


# ---------------------------------------------------------------- oc.dict.keys, oc.dict.values
dkeys = one_of(I.keys, st.sampled_from(["x-y", "0", "7", "true", "null", "é", "_k1", "1e5", "0x1", "a$b", "=", "日本", "-"]))
dict_case = st.tuples(one_of(c17.skel(keys=I.keys), c17.skel(leaf=one_of(I.plain_leaf, I.plain_leaf, st.just(I.MISS)), keys=dkeys)), st.integers(0, 60), st.integers(0, 60), st.integers(0, 255), st.booleans(), st.sampled_from(["keys", "values", "values"]), st.sampled_from(ROUTES),
                      st.sampled_from(["dict", "dict", "dict", "dict", "any", "alias", "bogus", "number"]), st.lists(st.tuples(st.sampled_from(["set", "set", "del", "new"]), st.integers(0, 9), I.plain_leaf), max_size=3), st.sampled_from(["plain", "quoted", "spaces"]))


def check_items(cfg, tree, loc, lst, keys, tag, holder):
    """Each item of the list of values, against the referenced dict's values."""
    n = 0
    for i, k in enumerate(keys):
        try:
            ev = I.ev_loc(tree, loc + (k,), frozenset())
            want = ("ok", ev)
        except I.Err as e:
            want = ("exc", e.kind)
        except I.Skip:
            continue
        v = I.at(tree, loc + (k,))
        r = attempt(lambda: lst[i])
        if isinstance(v, str) and v == I.MISS:
            want_error(r, f"{tag}, item {i}, a reference to a missing value", InterpolationToMissingValueError)
        elif want[0] == "exc":
            if want[1] == "cycle":
                continue
            if r[0] == "ok":
                try:
                    t2 = copy.deepcopy(tree)
                    c = I.at(t2, holder[:-1])
                    c.append("itself") if isinstance(c, list) else c.setdefault(holder[-1], "itself")
                    I.ev_loc(t2, loc + (k,), frozenset())
                    continue  # refers to the list of values itself
                except (I.Err, I.Skip):
                    pass
            want_error(r, f"{tag}, item {i}")
        elif want[1][0] == "val":
            if r[0] != "ok" or canon(r[1]) != canon(want[1][1]):
                fail(f"{tag}: item {i} (key {k!r}) is {show(r)}, expected {want[1][1]!r}")
            n += 1
        else:
            if holder[:len(want[1][1])] == want[1][1]:
                continue  # a container around the list
            if r[0] != "ok" or r[1] is not raw_node(cfg, want[1][1]):
                fail(f"{tag}: item {i} (key {k!r}) is {show(r)}, expected the container at {want[1][1]}")
            n += 1
    return n


@fresh
def run_dict(case, ctx, w):
    sk, nb, nt, bits, rel, what, route, kind, edits, style = case
    tree = I.build(sk)
    conts = [p for p, v in I.paths(tree) if isinstance(v, (dict, list))]
    dicts = [p for p, v in I.paths(tree) if p and isinstance(v, dict)]
    base = conts[nb % len(conts)]
    every = [p for p, v in I.paths(tree) if p]
    target = (dicts or every)[nt % len(dicts or every)]
    if kind == "any":
        target = every[nt % len(every)]
    final = target
    if kind == "alias":
        tree["val"] = I.Expr("${" + I.spell(None, [str(x) for x in target], 0) + "}", ("ref", None, [str(x) for x in target]))
        target = ("val",)
    if not all(plain_key(x) or isinstance(x, int) for x in target + final):
        return
    key = path_to(base, target, rel, bits if bits % 3 == 0 else 0)
    if kind == "bogus":
        key += ".zz"
    if style == "quoted" or not re.fullmatch(r"\.*[A-Za-z_][A-Za-z0-9_.\-]*", key) or c15.typed_text(key) is not key:
        arg = quoted(key)
    else:
        arg = f"  {key} " if style == "spaces" else key
    if kind == "number":
        arg = "12"
    text = "${oc.dict." + what + ":" + arg + "}"
    tree2, loc = place(tree, base, "vq", text)
    cfg = OmegaConf.create(I.raw(tree2))
    before = snap.walk(cfg)
    tag = f"{text!r} at {loc} of {show(I.raw(tree2), 700)}"
    r = resolves(cfg, loc, route, before)
    if kind in ("bogus", "number"):
        want_error(r, tag)
        ctx.label("raises")
        return
    try:
        t = I.ev_loc(tree, target, frozenset())
        v = I.at(tree, t[1]) if t[0] == "loc" else t[1]
    except I.Skip:
        return
    except I.Err as e:
        want_error(r, tag)
        return
    # a container on the way may be an interpolation or missing
    try:
        sel = c17.sel(tree, (), 0, [str(x) for x in target], False, True)
    except I.Skip:
        return
    if sel[0] != "loc" or not isinstance(v, dict) or isinstance(I.at(tree, target), str):
        want_error(r, tag)
        ctx.label("not a dict")
        return
    if r[0] != "ok" or type(r[1]) is not ListConfig:
        fail(f"{tag}: read {show(r)}")
    at = t[1]
    names = list(v)
    if at == loc[:-1]:
        names = list(I.at(tree2, at))
    if len(r[1]) != len(names):
        fail(f"{tag}: {len(r[1])} items {show(plain(r[1]))} for the keys {names}")
    if what == "keys":
        got = [attempt(lambda: r[1][i]) for i in range(len(names))]
        if any(k == I.MISS for k in names):
            return
        if [canon(g[1]) if g[0] == "ok" else g for g in got] != [canon(k) for k in names]:
            fail(f"{tag}: read {show(got)}, the keys are {names}")
        r[1].append("zz")
        if snap.walk(cfg) != before:
            fail(f"{tag}: appending to the list of keys changed the config")
        ctx.hit("keys")
        return
    if "vq" in names and at == loc[:-1]:
        names.remove("vq")
    if not all(plain_key(k) for k in names):
        return
    n = check_items(cfg, tree, at, r[1], names, tag, loc)
    # the current values: the same list after edits of the dict
    if n and edits and all(isinstance(x, (str, int)) for x in at):
        t2 = copy.deepcopy(tree)
        node = raw_node(cfg, at)
        for op, i, val in edits:
            d = I.at(t2, at)
            if op == "set":
                k = names[i % len(names)]
                if isinstance(node._get_node(k), (DictConfig, ListConfig)):
                    continue
                d[k] = val
                node[k] = val
        check_items(cfg, t2, at, r[1], names, f"{tag} after {edits}", loc)
        for op, i, val in edits:
            d = I.at(t2, at)
            if op == "del" and len(d) > 1:
                k = list(d)[i % len(d)]
                if base[:len(at) + 1] == at + (k,):
                    continue
                del d[k]
                del node[k]
            elif op == "new":
                d["n%d" % i] = val
                node["n%d" % i] = val
        t3, _ = place(t2, base, "vq", text) if at != loc[:-1] else (t2, None)
        if at == loc[:-1]:
            return
        r2 = attempt(reader(cfg, loc, route))
        try:
            t = I.ev_loc(t2, target, frozenset())
        except (I.Err, I.Skip, KeyError, IndexError, TypeError):
            return
        names2 = list(I.at(t2, at))
        if r2[0] != "ok" or len(r2[1]) != len(names2):
            fail(f"{tag} read again after {edits}: {show(r2)}, the keys are {names2}")
        check_items(cfg, t2, at, r2[1], names2, f"{tag} read again after {edits}", loc)
        ctx.label("edited")
    if n:
        ctx.hit("values")


# ---------------------------------------------------------------- oc.create
create_case = st.tuples(one_of(c17.skel(keys=I.keys), I.skeleton(), I.skeleton(leaf=one_of(I.plain_leaf, I.spec))), st.integers(0, 60), st.sampled_from(["data", "data", "config", "yaml"]), st.integers(0, 9))


@fresh
def run_create(case, ctx, w):
    """A container moved into the result of oc.create: everything reads as before."""
    sk, n, form, pick = case
    tree = I.build(sk)
    conts = [p for p, v in I.paths(tree) if p and isinstance(v, (dict, list))]
    if not conts:
        return
    loc = conts[n % len(conts)]
    sub = I.raw(I.at(tree, loc))
    if form == "yaml":
        import yaml
        if any(not isinstance(v, (str, int, float, bool, type(None), dict, list)) or isinstance(v, str) and v in ("1", "") for _, v in I.paths(sub)):
            return
    calls = []

    def give():
        calls.append(copy.deepcopy(sub) if form == "data" else OmegaConf.create(copy.deepcopy(sub)) if form == "config" else OmegaConf.to_yaml(OmegaConf.create(copy.deepcopy(sub))))
        return calls[-1]
    OmegaConf.register_new_resolver("give", give)
    text = "${oc.create:${give:}}"
    raw2 = put(I.raw(tree), loc, text)
    cfg = OmegaConf.create(raw2)
    before = snap.walk(cfg)
    tag = f"oc.create of {show(sub)} ({form}) at {loc} of {show(raw2, 600)}"
    r = attempt(lambda: raw_node(cfg, loc[:-1])[loc[-1]])
    if r[0] != "ok" or type(r[1]) is not (DictConfig if isinstance(sub, dict) else ListConfig) or cs(r[1]) != cs(sub):
        fail(f"{tag}: read {show(r)}")
    got = r[1]
    good = 0

    def read(path):
        x = raw_node(cfg, loc[:-1])[loc[-1]]
        for k in path[:-1]:
            x = x._get_node(k)
        return x[path[-1]]
    for p, v in list(I.paths(tree)):
        if not p or not isinstance(v, (I.Expr,)) or p == loc:
            continue
        try:
            want = I.convert(tree, p)
        except I.Skip:
            continue
        except (I.Err, RecursionError):
            continue
        inside = p[:len(loc)] == loc
        f = (lambda: read(p[len(loc):])) if inside else (lambda: raw_node(cfg, p[:-1])[p[-1]])
        r = attempt(f)
        if r[0] == "ok" and OmegaConf.is_config(r[1]):
            r = attempt(lambda: OmegaConf.to_container(r[1], resolve=True))
        if r[0] != "ok" or cs(r[1]) != cs(want):
            fail(f"{tag}: {p} = {v.text!r} reads as {show(r)}, expected {show(want)}")
        good += 1
        ctx.label("inside" if inside else "outside")
    if snap.walk(cfg) != before:
        fail(f"{tag}: reading changed the config to {show(plain(cfg))}")
    # independent of its argument and of the config
    arg = calls[0]
    scramble(got)
    if cs(arg if form == "data" else OmegaConf.create(arg) if form == "config" else OmegaConf.create(arg)) != cs(sub):
        fail(f"{tag}: changing the result changed the argument to {show(arg)}")
    if snap.walk(cfg) != before:
        fail(f"{tag}: changing the result changed the config")
    ctx.hit(form)


ref_case = st.tuples(one_of(c17.skel(keys=I.keys), I.skeleton()), st.integers(0, 60), st.booleans(), st.booleans(), st.sampled_from(["readonly", "struct", ""]))


@fresh
def run_create_ref(case, ctx, w):
    """oc.create of a container of the config: an independent equal copy."""
    sk, n, rel, nest, flag = case
    tree = I.build(sk)
    conts = [p for p, v in I.paths(tree) if p and isinstance(v, (dict, list)) and all(plain_key(x) or isinstance(x, int) for x in p)]
    if not conts:
        return
    loc = conts[n % len(conts)]
    ref = "${" + path_to((), loc, rel, 0) + "}"
    text = "${oc.create:" + ref + "}" if not nest else "${oc.create:{k: " + ref + ", l: [1]}}"
    raw2 = {**I.raw(tree), "vq": text}
    cfg = OmegaConf.create(raw2)
    if flag == "readonly":
        OmegaConf.set_readonly(raw_node(cfg, loc), True)
    elif flag:
        OmegaConf.set_struct(raw_node(cfg, loc), True)
    before = snap.walk(cfg)
    r = resolves(cfg, ("vq",), "item", before)
    want = I.raw(I.at(tree, loc))
    if nest:
        want = {"k": want, "l": [1]}
    tag = f"{text!r} in {show(raw2, 700)}"
    if r[0] != "ok" or cs(r[1]) != cs(want):
        fail(f"{tag}: read {show(r)}, expected {show(want)}")
    if r[1] is raw_node(cfg, loc):
        fail(f"{tag}: gave the container itself")
    OmegaConf.set_readonly(r[1], None)
    OmegaConf.set_struct(r[1], None)
    attempt(lambda: scramble(r[1]))
    if snap.walk(cfg) != before:
        fail(f"{tag}: changing the result changed the config to {show(plain(cfg))}")
    if cs(cfg.vq) != cs(want):
        fail(f"{tag}: read again after changing the first result: {show(plain(cfg.vq))}")
    ctx.hit("nested" if nest else "direct")


scalar_arg = one_of(scalars, env_text, st.lists(scalars, max_size=3), st.dictionaries(any_keys, scalars, max_size=3))


@fresh
def run_create_any(case, ctx, w):
    """Any argument: as OmegaConf.create does."""
    (v,) = case
    OmegaConf.register_new_resolver("give", lambda: copy.deepcopy(v))
    cfg = OmegaConf.create({"x": "${oc.create:${give:}}", "a": 1})
    before = snap.walk(cfg)
    r = resolves(cfg, ("x",), "item", before)
    w_ = attempt(lambda: OmegaConf.create(copy.deepcopy(v)))
    if w_[0] != r[0]:
        fail(f"oc.create of {show(v)} gives {show(r)}, OmegaConf.create gives {show(w_)}")
    if r[0] == "exc":
        want_error(r, f"oc.create of {show(v)}")
    elif OmegaConf.is_config(w_[1]) and (type(r[1]) is not type(w_[1]) or cs(r[1]) != cs(w_[1])) and not special(w_[1]):
        fail(f"oc.create of {show(v)} gives {show(r)}, OmegaConf.create gives {show(w_)}")
    if r[0] == "ok":
        ctx.hit()


# ---------------------------------------------------------------- oc.decode
decode_case = st.tuples(one_of(c15.elements().map(lambda e: ("E", e)), c15.elements().map(lambda e: ("E", e)), c15.soups.map(lambda s: ("S", s)), c15.soups.map(lambda s: ("S", s)), scalars.map(lambda v: ("V", v)), st.lists(st.integers(0, 3), max_size=2).map(lambda v: ("V", v))),
                        st.sampled_from(["give", "env", "quoted"]), st.sampled_from(["root", "deep", "list"]), st.sampled_from(["any", "any", "any", "int", "str"]))


def tricky(v):
    """Values that are not plain data of a config: out of the domain of decoding into a place."""
    if isinstance(v, dict):
        return any(k is None or tricky(k) or tricky(x) for k, x in v.items())
    if isinstance(v, list):
        return any(map(tricky, v))
    return isinstance(v, str) and ("${" in v or v == "???")


@fresh
def run_decode(case, ctx, w):
    (kind, arg), how, nest, typ = case
    with_id()
    if kind == "E":
        try:
            text, want = element(arg)
        except c15.Bad:
            return
        want = ("ok", want)
    elif kind == "S":
        text = arg
        want = c15.ref_eval(lambda: G.parse_element(text), "element")
        if want[0] == "other":
            return
    else:
        text = arg
        if isinstance(arg, str):
            return
        want = ("ok", None) if arg is None else ("reject",)
    if how != "give":
        if not isinstance(text, str) or "\0" in text:
            return
        try:
            text.encode()
        except UnicodeEncodeError:
            return
    holder = {"x": None, "n": {"a": 5, "b": None}}
    inner = {"give": "${give:}", "env": "${oc.env:VF_DECODE}", "quoted": None}[how] or quoted(text)
    if how == "quoted" and "${" in text:
        return
    expr = "${oc.decode:" + inner + "}"
    OmegaConf.register_new_resolver("give", lambda: text)
    OmegaConf.register_new_resolver("rec", lambda *a: 0)
    data = {**c15.DATA, "h": None}
    if typ == "any":
        h = {"x": expr}
    else:
        h = S.realize([{"kind": "dc", "base": None, "fields": [["x", typ, S.REQ]]}])[0](x=expr)
    loc = {"root": ("h", "x"), "deep": ("h", "w", "x"), "list": ("h", 1, "x")}[nest]
    data["h"] = {"root": h, "deep": {"w": h}, "list": [0, h]}[nest]
    os.environ["VF_DECODE"] = text if how == "env" else ""
    try:
        cfg = OmegaConf.create(copy.deepcopy(data))
        before = snap.walk(cfg)
        r = resolves(cfg, loc, "item", before)
    finally:
        os.environ.pop("VF_DECODE", None)
    tag = f"{expr!r} of {text!r} in a {typ} place"
    if want[0] == "reject":
        want_error(r, tag)
        ctx.label("rejected")
        return
    v = want[1]
    if tricky(v):
        return
    if typ != "any":
        if isinstance(v, (dict, list)):
            want_error(r, tag)
            return
        try:
            v = S.conv(typ, v)
        except S.Bad:
            want_error(r, tag)
            return
    if r[0] != "ok" or canon(r[1]) != canon(v):
        fail(f"{tag}: read {show(r)}, expected {v!r}")
    ctx.hit("value")


REL = st.tuples(skels, st.integers(0, 60), st.integers(0, 60), st.booleans())


@fresh
def run_decode_ref(case, ctx, w):
    """A decoded interpolation is evaluated at the node holding oc.decode."""
    sk, nb, nt, rel = case
    tree = I.build(sk)
    conts = [p for p, v in I.paths(tree) if isinstance(v, (dict, list))]
    locs = [p for p, v in I.paths(tree) if p and all(plain_key(x) or isinstance(x, int) for x in p)]
    if not locs:
        return
    base, target = conts[nb % len(conts)], locs[nt % len(locs)]
    key = "${" + path_to(base, target, rel, 0) + "}"
    OmegaConf.register_new_resolver("give", lambda: key)
    tree2, loc = place(tree, base, "vq", "${oc.decode:${give:}}")
    tree3, _ = place(tree, base, "vq", key)
    names = [str(x) for x in target]
    if rel:
        k = 0
        while k < min(len(base), len(target) - 1) and base[k] == target[k]:
            k += 1
        ast = ("ref", len(base) - k + 1, names[k:])
    else:
        ast = ("ref", None, names)
    I.at(tree3, loc[:-1])[loc[-1]] = I.Expr(key, ast)
    cfg = OmegaConf.create(I.raw(tree2))
    before = snap.walk(cfg)
    r = resolves(cfg, loc, "item", before)
    tag = f"oc.decode of {key!r} at {loc} of {show(I.raw(tree2), 700)}"
    try:
        want = I.ev_loc(tree3, loc, frozenset())
    except I.Skip:
        return
    except I.Err as e:
        if e.kind != "cycle":
            want_error(r, tag)
        return
    if want[0] == "loc":
        if r[0] != "ok" or cs(r[1]) != cs(raw_node(cfg, want[1])):
            fail(f"{tag}: read {show(r)}, expected the container at {want[1]}")
    elif r[0] != "ok" or canon(r[1]) != canon(want[1]):
        fail(f"{tag}: read {show(r)}, expected {want[1]!r}")
    ctx.hit()


# ---------------------------------------------------------------- oc.deprecated
msg_text = st.lists(st.sampled_from(["$OLD_KEY", "$NEW_KEY", "$$", "${OLD_KEY}", "$FOO", " ", "use ", "'", '"', "\\", "%s", "$", "é", "${x", "{}", "$OLD_KEYS", "\n", ":"]), max_size=6).map("".join)
dep_case = st.tuples(skels, st.integers(0, 60), st.integers(0, 60), st.integers(0, 255), st.booleans(), one_of(st.none(), st.none(), msg_text, st.just(5), st.just([1])), st.sampled_from(["", "", "", "", "", "bogus", "number", "null"]), st.sampled_from(ROUTES), st.booleans())


@fresh
def run_deprecated(case, ctx, w):
    sk, nb, nt, bits, rel, msg, tweak, route, again = case
    tree = I.build(sk)
    conts = [p for p, v in I.paths(tree) if isinstance(v, (dict, list))]
    locs = [p for p, v in I.paths(tree) if p]
    base, target = conts[nb % len(conts)], locs[nt % len(locs)]
    if bits % 3:
        direct = [p for p in locs if not isinstance(I.at(tree, p), I.Expr)]
        target = direct[nt % len(direct)] if direct else target
    key = path_to(base, target, rel, bits if bits % 4 == 0 else 0)
    if tweak == "bogus":
        key += ".zz"
    args = {"number": "3", "null": "null"}.get(tweak, quoted(key))
    if msg is not None:
        args += "," + (quoted(msg, '"') if isinstance(msg, str) else "5" if msg == 5 else "[1]")
    text = "${oc.deprecated:" + args + "}"
    tree2, loc = place(tree, base, "vq", text)
    cfg = OmegaConf.create(I.raw(tree2))
    before = snap.walk(cfg)
    tag = f"{text!r} at {loc} of {show(I.raw(tree2), 700)}"
    w.clear()
    r = resolves(cfg, loc, route if route not in ("via", "loop") else "item", before)
    got = [(x.category, str(x.message)) for x in w]
    if tweak or not (msg is None or isinstance(msg, str)):
        want_error(r, tag)
        if got:
            fail(f"{tag}: failed, but warned {got}")
        ctx.label("raises")
        return
    try:
        want = c17.sel(tree, (), 0, [str(x) for x in target], False, True)
    except I.Skip:
        return
    if want[0] != "val" and want[0] != "loc":
        want_error(r, tag)
        ctx.label("missing" if I.at(tree, target) == I.MISS else "raises")
        return
    if want[0] == "loc":
        if r[0] != "ok" or r[1] is not raw_node(cfg, want[1]):
            fail(f"{tag}: read {show(r)}, expected the container at {want[1]}")
    elif r[0] != "ok" or canon(r[1]) != canon(want[1]):
        fail(f"{tag}: read {show(r)}, expected {want[1]!r}")
    if len(got) != 1 or got[0][0] is not UserWarning:
        fail(f"{tag}: warnings {got}")
    news = {c17.full(target, tree2)}
    if isinstance(I.at(tree, target), I.Expr):
        if want[0] == "loc":
            news.add(c17.full(want[1], tree2))
        else:
            news.add(None)
    old = c17.full(loc, tree2)
    template = "'$OLD_KEY' is deprecated. Change your code and config to use '$NEW_KEY'" if msg is None else msg
    texts = [string.Template(template).safe_substitute(OLD_KEY=old, NEW_KEY=n) for n in news if n is not None]
    if got[0][1] not in texts and None not in news:
        fail(f"{tag}: warned {got[0][1]!r}, expected {texts}")
    if None in news and msg is None and not got[0][1].startswith(f"'{old}' is deprecated."):
        fail(f"{tag}: warned {got[0][1]!r}")
    if again:
        w.clear()
        resolves(cfg, loc, "item", before)
        if len(w) != 1:
            fail(f"{tag}: read a second time, it warned {[str(x.message) for x in w]}")
    ctx.hit("relative" if rel else "absolute")


# ---------------------------------------------------------------- keys that cannot be written in an interpolation
def run_unreachable(case, ctx):
    OmegaConf.clear_resolvers()
    kind, d, keytype = case
    node = DictConfig(d, key_type=int) if keytype == "int" else d
    cfg = OmegaConf.create({"d": node, "v": "${oc.dict.values:d}"})
    r = attempt(lambda: list(cfg.v))
    if r[0] != "ok" or r[1] != list(d.values()):
        fail(f"oc.dict.values of a dict with {kind} keys: {show(d)} gives {type(r[1]).__name__ if r[0] == 'exc' else show(r[1])}")
    ctx.hit()


UNREACHABLE = [("int", {1: 10}, "int"), ("unwritable", {"a b": 1}, None)]

LEGS = [
    Leg("env", lambda: env_case, run_env, quick=4000,
        rule="a variable with a generated name and text (or none), a default of any element or a reference (or none), read from untyped, str, int and text places; non-trivial: a variable or default is read"),
    Leg("select", lambda: sel_case, run_select, quick=4000,
        rule="oc.select of paths (absolute, relative, with brackets, wrong keys and indices, above the root) with any default, at any place of a generated config with interpolations and missing values, against "
             "the reference of C17; non-trivial: a value or default is read"),
    Leg("dict", lambda: dict_case, run_dict, quick=4000,
        rule="oc.dict.keys/values of generated dicts by absolute, relative or aliased path from any place; items against the reference value of each key, the list kept while the dict is edited, and read again; "
             "non-trivial: keys or readable values"),
    Leg("create", lambda: create_case, run_create, quick=3000,
        rule="a container of a config replaced by oc.create of its data, config or YAML: every interpolation inside and outside reads as before the replacement; the result is independent; non-trivial: all"),
    Leg("create_ref", lambda: ref_case, run_create_ref, quick=2000,
        rule="oc.create of a referenced container (also flagged, also inside a dict): an equal and independent copy; non-trivial: all"),
    Leg("create_any", lambda: st.tuples(scalar_arg), run_create_any, quick=1500,
        rule="oc.create of any value against OmegaConf.create; non-trivial: accepted"),
    Leg("decode", lambda: decode_case, run_decode, quick=5000,
        rule="oc.decode of spelled elements, token soups (reference grammar) and non-strings, from a resolver, the environment or a quoted string, into any, int and str places; non-trivial: a value is read"),
    Leg("decode_ref", lambda: REL, run_decode_ref, quick=2000,
        rule="oc.decode of the text of an absolute or relative reference, from any place, equals that reference at that place; non-trivial: a value is read"),
    Leg("deprecated", lambda: dep_case, run_deprecated, quick=4000,
        rule="oc.deprecated of any path from any place with default or generated message; value, the exact warning text, once per read; non-trivial: a value is read"),
    Leg("unreachable", None, run_unreachable, quick=0, enumerated=lambda tier: UNREACHABLE,
        rule="dicts with keys that cannot be written in an interpolation"),
]
