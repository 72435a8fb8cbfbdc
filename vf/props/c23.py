"""C23: dotlists and command lines, against updating one path after the other."""
import base64, copy, sys
import yaml
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, OmegaConf
from omegaconf.errors import OmegaConfBaseException, ValidationError
from ..core import Leg, fail
from ..gen import *
from .. import interp as I, schema as S, snap
from .c14 import raw_node
from .c22 import writable as spellable
from .c28 import Ref, check_dups, Duplicate, supported, Unsupported

ASSUMPTIONS = ["paths through an interpolation, and merging a dict into one, are left to the comparison with OmegaConf.update",
               "lists are addressed by existing non-negative positions on the way (the last may be negative)",
               "a failing item stops the list; the items before it stay applied (nothing is promised about undoing them)"]
MISS = "???"


def yaml_value(text):
    """('ok', v) | ('bad',) | ('skip',): what the text denotes, by the reference loader of C28"""
    try:
        l = Ref(text)
        try:
            node = l.get_single_node()
        finally:
            l.dispose()
        check_dups(node, {})
        v = yaml.load(text, Loader=Ref)
    except (Duplicate, yaml.YAMLError):
        return ("bad",)
    except Exception:
        return ("skip",)
    try:
        if not isinstance(v, str):
            supported(v)
    except Unsupported:
        return ("skip",)
    return ("ok", v)


# ---------------------------------------------------------------- YAML texts
def word(s):
    return s if s.isidentifier() and s.lower() not in ("null", "true", "false", "yes", "no", "on", "off", "y", "n", "nan", "inf") else quote(s)


def quote(s):
    return '"' + "".join(c if " " <= c <= "~" and c not in '"\\' else f"\\U{ord(c):08x}" for c in s) + '"'


def ytext(v, n=0, top=True):
    """One of the YAML texts of a value."""
    if v is None:
        return ["null", "~", "Null", ""][n % (4 if top else 3)]
    if v is True or v is False:
        return [["true", "yes", "on", "True"], ["false", "no", "off", "FALSE"]][not v][n % 4]
    if isinstance(v, enum.Enum):
        return v.name
    if isinstance(v, int):
        return [str(v), hex(v), f"{v:+d}", str(v)][n % 4]
    if isinstance(v, float):
        return ".inf" if v == float("inf") else "-.inf" if v == -float("inf") else ".nan" if v != v else [repr(v), f"{v!r}" if "e" in repr(v) else f"{v:.17e}"][n % 2]
    if isinstance(v, str):
        return [word(v), quote(v), "'" + v.replace("'", "''") + "'" if v.isprintable() else quote(v)][n % 3]
    if isinstance(v, bytes):
        return "!!binary " + (base64.b64encode(v).decode() or "''")
    if isinstance(v, Path):
        return "!!python/object/apply:pathlib.PosixPath [" + ", ".join(quote(p) for p in v.parts) + "]"
    if isinstance(v, list):
        return "[" + ", ".join(ytext(x, n // 3 + i, False) for i, x in enumerate(v)) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join(f"{ytext(k, n // 3, False)}: {ytext(x, n // 5 + i, False)}" for i, (k, x) in enumerate(v.items())) + "}"
    raise S.Skip


doc_values = one_of(trees(leaf=one_of(scalars, st.just(MISS)), keys=one_of(str_keys, st.integers(-2, 3), st.booleans()), max_leaves=6, width=3), scalars, st.just(MISS))
made = st.tuples(doc_values, st.integers(0, 60)).map(lambda t: ytext(*t))
from .c28 import scalar as scalar_texts
texts = one_of(made, made, scalar_texts, st.sampled_from(["", " ", "=", "a=b", "=1", "a: 1", "{a: 1}", "{a: {b: 2}, c: 3}", "{a: ???}", "[1, 2]", "[{a: 1}, 2]", "a b", "# c", "5 # c", " 5 ", "'5'", "- 1", "[", "{a", "'", "*x", "&a 1", "1e3", "2e-3", "2020-01-01", "${a}", "${a.b}", "x${b}",
                                                             "???", "'???'", "null", "a:b", "{a: 1, a: 2}", "{a: ${b}}", "[${a}]", "\t", "1,2", "1, 2", "!!str 5", "%", "@x", "a#b", "\n", "a\nb", "'a=b'", "---", "{}", "[]", "{a}"]))

# ---------------------------------------------------------------- paths
names = one_of(st.sampled_from(["a", "b", "c", "d", "x"]), st.sampled_from(["a", "b", "c", "0", "1", "2", "-1", "x y", "é", "k-v", "a:b", "true", "$", "keys", "q'", "1e1"]))


def spell(elems, bits, pad=""):
    """dots or brackets, decided by the bits"""
    s = ""
    for i, e in enumerate(elems):
        if bits >> i & 1:
            s += f"[{e}]"
        else:
            s += ("." if i else "") + e
    return s


path_st = st.tuples(st.sampled_from(["old", "old", "below", "new", "new"]), st.integers(0, 60), st.lists(names, min_size=1, max_size=3), one_of(st.just(0), st.just(0), st.integers(0, 15)))


# ---------------------------------------------------------------- the model: plain data
class Stop(Exception):
    """The item must fail."""


class Skip(Exception):
    pass


def ref_merge(d, v):
    """v merged into container d, in place"""
    if isinstance(d, list):
        if not isinstance(v, list):
            raise Stop
        d[:] = copy.deepcopy(v)
        return
    if not isinstance(v, dict):
        raise Stop
    for k, x in v.items():
        if type(k) is not str and k in d and not any(type(q) is type(k) and q == k for q in d) or type(k) is str and False:
            raise Skip  # 1 and True
        if k in d:
            if isinstance(x, str) and x == MISS:
                continue
            if isinstance(d[k], str) and "${" in d[k] and isinstance(x, (dict, list)):
                raise Skip
            if isinstance(d[k], dict) and isinstance(x, dict) or isinstance(d[k], list) and isinstance(x, list):
                ref_merge(d[k], x)
                continue
            if isinstance(d[k], (dict, list)) and isinstance(x, (dict, list)):
                raise Stop
            if isinstance(d[k], (dict, list)) and isinstance(x, str) and "${" in x:
                pass
        d[k] = copy.deepcopy(x)


def index(l, s, lo):
    try:
        i = int(s)
    except ValueError:
        raise Stop
    if s.strip() != s or "_" in s:
        raise Skip
    if lo and i < 0:
        raise Skip  # on the way: not addressable
    if not -len(l) <= i < len(l):
        raise Stop
    return i


def ref_update(root, elems, v):
    for e in elems[:-1]:
        if isinstance(root, list):
            k = index(root, e, True)
            cur = root[k]
        else:
            k, cur = e, root.get(e)
        if isinstance(cur, str) and "${" in cur:
            raise Skip
        if not isinstance(cur, (dict, list)):
            root[k] = {}
        root = root[k]
    k = elems[-1]
    if isinstance(root, list):
        k = index(root, k, False)
        cur = root[k]
    else:
        cur = root.get(k)
    if isinstance(cur, (dict, list)) and isinstance(v, (dict, list)):
        ref_merge(cur, v)
    else:
        root[k] = copy.deepcopy(v)


def build(data):
    return OmegaConf.create(copy.deepcopy(data))


ARG = one_of(st.tuples(path_st, texts), st.tuples(path_st, texts), st.tuples(path_st, made), st.tuples(path_st, st.none()))
start_leaf = one_of(scalars, scalars, st.sampled_from([MISS, "${a}", "${b.c}", "x${a}y"]))
model_case = st.tuples(one_of(st.just({}), dict_trees(leaf=start_leaf, keys=one_of(names, names, any_keys), max_leaves=10, width=4), list_trees(leaf=start_leaf, keys=names, max_leaves=8, min_size=1)),
                       st.lists(ARG, min_size=1, max_size=7), st.sampled_from(["dotlist", "cli", "argv", "tuple", "onebyone"]))


def good_key(e):
    return e and not any(c in e for c in ".[]=")


def argument(tree, p):
    """the elements of a path, relative to the current tree"""
    mode, n, extra, bits = p
    locs = [q for q, _ in I.paths(tree) if q and all(isinstance(x, int) and not isinstance(x, bool) or isinstance(x, str) and good_key(x) for x in q)]
    if mode == "new" or not locs:
        elems = list(extra)
    else:
        elems = [str(x) for x in locs[n % len(locs)]]
        if mode == "below":
            elems = elems + list(extra[:1])
    return elems, spell(elems, bits)




class Argv:
    def __init__(self, args):
        self.args = args

    def __enter__(self):
        self.old, sys.argv = sys.argv, ["prog=1", *self.args]

    def __exit__(self, *a):
        sys.argv = self.old


def override(cfg, args, how):
    if how == "argv":
        with Argv(args):
            cfg.merge_with_cli()
            if sys.argv != ["prog=1", *args]:
                fail(f"merge_with_cli changed sys.argv to {sys.argv}")
    elif how == "tuple":
        cfg.merge_with_dotlist(tuple(args))
    elif how == "onebyone":
        for a in args:
            cfg.merge_with_dotlist([a])
    else:
        was = list(args)
        cfg.merge_with_dotlist(args)
        if args != was:
            fail(f"merge_with_dotlist changed its argument {was} to {args}")


def fresh(args, how):
    """The ways of building a config from arguments"""
    if how == "argv":
        with Argv(args):
            return OmegaConf.from_cli()
    return OmegaConf.from_cli(list(args)) if how == "cli" else OmegaConf.from_dotlist(tuple(args) if how == "tuple" else list(args))


def run_model(case, ctx):
    data, specs, how = case
    model = copy.deepcopy(data)
    args, steps = [], []
    stop = False
    for p, text in specs:
        elems, key = argument(model, p)
        if not all(map(good_key, elems)) or text is not None and "\x00" in text:
            continue
        if text is None:
            arg, v = key, ("ok", None)
        else:
            arg, v = f"{key}={text}", yaml_value(text)
        if v[0] == "skip":
            continue
        if isinstance(v[1] if v[0] == "ok" else None, str) and "${" in v[1] and v[1] not in ("${a}", "${a.b}", "x${b}"):
            continue
        if v[0] == "ok" and any(isinstance(x, str) and "${" in x and x not in ("${a}", "${a.b}", "x${b}") for x in flat(pure(v[1]))):
            continue
        try:
            was = copy.deepcopy(model)
            if v[0] == "bad":
                raise Stop
            ref_update(model, elems, pure(v[1]))
        except Skip:
            model = was
            continue
        except Stop:
            model = was
            args.append(arg)
            stop = True
            break
        args.append(arg)
        steps.append((elems, v[1]))
    if not args:
        return
    tag = f"{how} {args} on {show(data, 600)}"
    cfg = build(data)
    r = attempt(lambda: override(cfg, args, how))
    if stop:
        if r[0] == "ok":
            fail(f"{tag}: the last item should fail, the config is {show(plain(cfg), 600)}")
        ctx.label("fails")
        if v[0] == "bad" and cs(cfg) != cs(model):
            fail(f"{tag}: the bad YAML of the last item left {show(plain(cfg), 600)}, expected {show(model, 600)}")
        return
    if r[0] != "ok":
        fail(f"{tag}: raised {type(r[1]).__name__}: {r[1]}; expected {show(model, 600)}")
    if cs(cfg) != cs(model):
        fail(f"{tag}: gives {show(plain(cfg), 600)}, expected {show(model, 600)}")
    if data == {}:
        new = fresh(args, how)
        if cs(new) != cs(model) or type(new) is not DictConfig:
            fail(f"{tag}: from_{how} gives {show(plain(new), 600)}, expected {show(model, 600)}")
    ctx.hit(how)
    if len(args) > 1 and len({tuple(e) for e, _ in steps}) < len(steps):
        ctx.label("repeated")


def flat(v):
    if isinstance(v, (dict, list)):
        return [y for x in ([*v, *v.values()] if isinstance(v, dict) else v) for y in flat(x)]
    return [v]


# ---------------------------------------------------------------- schemas being overridden
@st.composite
def typed_cases(draw):
    specs = draw(S.schemas(max_cls=3, req=True))
    root = draw(st.sampled_from(["class", "inst", "dict"]))
    items = draw(st.lists(st.tuples(st.integers(0, 60), st.sampled_from(["good", "good", "good", "any", "text", "none", "bogus"]), draws(specs), texts, st.integers(0, 60), st.integers(0, 15)), min_size=1, max_size=5))
    return specs, root, items, draw(st.sampled_from(["dotlist", "argv", "tuple", "onebyone"]))


def draws(specs):
    """values by the declared type, chosen later: a table from type kind to value"""
    return st.tuples(*[S.good(t, exact=True, missing=False) for t in SIMPLE]).map(lambda vs: dict(zip(SIMPLE, vs)))


SIMPLE = list(S.SIMPLE)


def value_for(t, table, n):
    """a legal plain value of type t made from the table"""
    o, b = S.strip(t)
    if o and n % 5 == 0:
        return None
    if b == "any":
        return [table["int"], table["str"], {"k": table["float"]}, [table["bool"]]][n % 4]
    if isinstance(b, str):
        return table[b]
    if b[0] == "union":
        return table[b[1][n % len(b[1])]]
    if b[0] == "list":
        return [value_for(b[1], table, n + i) for i in range(n % 3)]
    if b[0] == "dict":
        return {} if n % 3 == 0 or b[1] == "any" else {S.GOOD_KEY[b[1]]: value_for(b[2], table, n + 1)}
    return {}


def run_typed(case, ctx):
    specs, root, items, how = case
    classes = S.realize(specs)
    make = {"class": lambda: OmegaConf.structured(classes[-1]), "inst": lambda: OmegaConf.structured(S.inst_value(("inst", len(specs) - 1, {}), classes) if False else classes[-1]),
            "dict": lambda: OmegaConf.create({"s": classes[-1], "l": [classes[0]], "v": 1})}[root]
    r = attempt(make)
    if r[0] != "ok":
        return
    cfg, twin = r[1], make()
    rt = ("cls", len(specs) - 1) if root != "dict" else "any"
    args, tag = [], f"{root} {specs}"
    for n, mode, table, text, m, bits in items:
        ps = [(p, t, node) for p, t, node in S.places(specs, classes, rt, twin) if p]
        if not ps:
            return
        path, t, node = ps[n % len(ps)]
        if not all(isinstance(k, int) and not isinstance(k, bool) or isinstance(k, str) and good_key(k) for k in path):
            continue
        key = spell([str(k) for k in path], bits)
        if mode == "good":
            try:
                text = ytext(value_for(t, table, m), m)
            except S.Skip:
                continue
        elif mode == "any":
            text = ytext(table[SIMPLE[m % len(SIMPLE)]], m)
        elif mode == "bogus":
            key += ".bogus_q" if bits % 2 else ""
            text = "b0gus"
        if mode == "none":
            arg, v = key, ("ok", None)
        else:
            arg, v = f"{key}={text}", yaml_value(text)
        if v[0] != "ok" or any(isinstance(x, str) and "${" in x for x in flat(pure(v[1]))):
            continue
        args.append(arg)
        tag += f"; {arg}"
        before = snap.walk(cfg)
        up = attempt(lambda: OmegaConf.update(twin, key, copy.deepcopy(v[1])))
        r = attempt(lambda: override(cfg, [arg], how))
        if r[0] != up[0] or r[0] == "exc" and (type(r[1]) is not type(up[1]) or str(r[1]) != str(up[1])):
            fail(f"{tag} by {how}: {show(r)}; OmegaConf.update with {v[1]!r}: {show(up)}")
        if snap.walk(cfg) != snap.walk(twin):
            fail(f"{tag} by {how}: {show(plain(cfg), 500)}; OmegaConf.update with {v[1]!r}: {show(plain(twin), 500)}")
        # the schema: validated and converted
        o, b = S.strip(t)
        if mode != "bogus" and spellable(twin, path) and (isinstance(b, str) and b != "any" or b[0] == "union") and not isinstance(v[1], (dict, list)):
            try:
                want = ("ok", S.conv(t, v[1]))
            except S.Bad:
                want = ("bad",)
            except S.Skip:
                continue
            if want[0] == "bad":
                if r[0] == "ok" or not isinstance(r[1], ValidationError):
                    fail(f"{tag} by {how}: {v[1]!r} is not a {t}: {show(r)} {show(plain(cfg), 300)}")
                if snap.walk(cfg) != before:
                    fail(f"{tag} by {how}: the rejected item changed the config to {show(plain(cfg), 300)}")
                ctx.hit("rejected")
            else:
                if r[0] != "ok":
                    fail(f"{tag} by {how}: {v[1]!r} is a {t}: {show(r)}")
                got = snap.raw(raw_node(cfg, path))
                got = got[1] if isinstance(got, tuple) and len(got) == 2 and isinstance(got[0], tuple) and b[0] == "union" and len(got[0]) > 5 else got
                if got != canon(want[1]):
                    fail(f"{tag} by {how}: {v[1]!r} as a {t} is {want[1]!r}, the config holds {got}")
                ctx.hit("converted")
        elif r[0] == "ok":
            ctx.hit("other")
    # all at once
    if args:
        c2, c3 = make(), make()
        a = attempt(lambda: override(c2, list(args), "dotlist"))
        b = attempt(lambda: [override(c3, [x], "dotlist") for x in args])
        if a[0] != b[0] or snap.walk(c2) != snap.walk(c3):
            fail(f"{tag}: at once {show(a)} {show(plain(c2), 300)}, one by one {show(b)} {show(plain(c3), 300)}")


# ---------------------------------------------------------------- rejected input
not_lists = one_of(st.sampled_from(["a=1", "", None, 1, {"a": 1}, b"a=1"]), st.dictionaries(ids, st.integers(0, 3), max_size=2), st.just("set"), st.just("gen"), st.just("cfg"), st.just("frozenset"))
not_strs = one_of(st.sampled_from([1, None, 2.5, True, b"a=1", ("a=1",), ["a=1"], {"a": 1}, Color.RED, Path("a=1")]), scalars.filter(lambda v: not isinstance(v, str)))
reject_case = st.tuples(st.sampled_from(["input", "item"]), not_lists, not_strs, st.lists(st.sampled_from(["a=1", "b.c=2", "q=[1]"]), max_size=2), st.booleans())


def run_reject(case, ctx):
    what, inp, item, before, typed = case
    if what == "input":
        arg = {"set": lambda: {"a=1"}, "gen": lambda: (x for x in ["a=1"]), "cfg": lambda: OmegaConf.create(["a=1"]), "frozenset": lambda: frozenset(["a=1"])}.get(inp, lambda: inp)() if isinstance(inp, str) else inp
        calls = [("merge_with_dotlist", lambda c: c.merge_with_dotlist(arg)), ("from_dotlist", lambda c: OmegaConf.from_dotlist(arg))]
        if inp is not None:
            calls.append(("from_cli", lambda c: OmegaConf.from_cli(arg)))
    else:
        arg = [*before, item]
        calls = [("merge_with_dotlist", lambda c: c.merge_with_dotlist(arg)), ("merge_with_dotlist of a tuple", lambda c: c.merge_with_dotlist(tuple(arg))),
                 ("from_dotlist", lambda c: OmegaConf.from_dotlist(arg)), ("from_cli", lambda c: OmegaConf.from_cli(arg))]
    for name, f in calls:
        c = OmegaConf.create({"a": 0, "b": {"c": 0, "d": 5}})
        r = attempt(lambda: f(c))
        if r[0] == "ok" or not isinstance(r[1], ValueError):
            fail(f"{name}({arg!r}): expected a ValueError, got {show(r)}, the config is {show(plain(c))}")
        if what == "input" or not before:
            if plain(c) != {"a": 0, "b": {"c": 0, "d": 5}}:
                fail(f"{name}({arg!r}) is rejected but leaves {show(plain(c))}")
    ctx.hit(what)


LEGS = [
    Leg("model", lambda: model_case, run_model, quick=9000,
        rule="lists of up to 7 key=value strings (existing, deeper and new paths spelled with dots and brackets, list positions; YAML texts of generated values, scalars, noise) applied to empty and populated configs "
             "by dotlist, tuple, sys.argv, from_*; compared with a plain-data model and the reference YAML loader of C28; non-trivial: the list was applied and compared"),
    Leg("typed", lambda: typed_cases(), run_typed, quick=3500,
        rule="strings for places of generated schemas with values of the declared type, other types and noise: same as OmegaConf.update with the YAML value, and for scalar places as the conversion model says; non-trivial: an item converted, rejected or applied"),
    Leg("reject", lambda: reject_case, run_reject, quick=600, rule="non-list inputs and lists with an item that is no string"),
]
