"""C04: YAML dump/load round trip."""
import io, os
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, OmegaConf
from ..core import Leg, fail, scratch
from ..gen import *

# text of every kind except lone surrogates (not encodable), including text that YAML would read as something else
yamlish = one_of(
    st.text("0123456789.eE+-_:", min_size=1, max_size=8), st.text("0123456789_.-+eExobinfNA:~ ", max_size=8),
    st.sampled_from(["null", "Null", "NULL", "~", "true", "True", "yes", "Yes", "YES", "on", "off", "no", "y", "n", "Y", "N", "1e5", "1E5", "1e+5", "1.e5", "1_000", "1_0.5", "._5",
                     ".5e3", "+.5", ".inf", "-.inf", "+.INF", ".nan", ".NaN", "nan", "inf", "0x1F", "0o17", "017", "0b11", "1:30", "12:30:45.5", "2020-01-01", "2020-01-01 10:00:00", "=", "<<", "!!int 1",
                     "- a", "a: b", "a #b", "#b", "&a", "*a", "? a", "| a", "> a", "%a", "@a", "`a", "{a", "[a", "a,b", "---", "...", "--- a", "-", "?", ":", " lead", "trail ", "a\nb", "a\n", "\na", "\t", "a\tb",
                     "\r", "a\r\nb", "\x00", "\x07", "\x85", "\u2028", "\ufeff", "\ufeffa", "\ufffe", "\x7f", "\xa0", "\U0001f600", "\ue000", "a" * 90 + " " + "b" * 90, "''", '"', "\\", "\\n", "'a", "e1", "1e", "1__0", "_1", "1_",
                     "-1_0", "+1", "-0", "00", "09", "1.", ".1", ".", "-.", "1.0.0", "0.0e", "0x", "0b2", "1:", ":1", "1:60", "190:20:30", "190:20:30.15", "-1:30", "+1:2", "1:2.", "1e-5", "1_1e5", "1._e5", "._1", "1.5_", "_.5", "5_.5", "1__0.5"]))
uni = st.text(st.characters(exclude_categories=["Cs"]), max_size=12)
text = one_of(yamlish, uni, words, st.tuples(yamlish, uni).map("".join)).map(lambda s: s.replace("${", "$("))
leaf = one_of(text, text, ints, st.booleans(), st.none(), st.floats(), floats, bytes_, paths, enums, interp_text, st.just("???"), st.binary(max_size=80))
keys = one_of(text, text, ids, ints, st.booleans(), floats, bytes_, enums)
tree = one_of(dict_trees(leaf=leaf, keys=keys), list_trees(leaf=leaf, keys=keys))
case_st = st.tuples(tree, st.sampled_from(["create", "stringio", "file", "pathobj", "fileobj", "plain"]), st.booleans())
text_st = st.tuples(text, text)


def names(v):
    """Enums as their names, tuples as lists; None if two keys become one."""
    if isinstance(v, enum.Enum):
        return v.name
    if isinstance(v, (list, tuple)):
        return [names(x) for x in v]
    if isinstance(v, dict):
        out = {}
        for k, x in v.items():
            k = names(k)
            if k in out:
                raise KeyError
            out[k] = names(x)
        return out
    return v


def roundtrip(cfg, how, **kw):
    """kw: to_yaml options"""
    if how in ("create", "plain") or kw.get("sort_keys"):
        return OmegaConf.create(OmegaConf.to_yaml(plain(cfg) if how == "plain" else cfg, **kw))
    if how == "stringio":
        f = io.StringIO()
        OmegaConf.save(cfg, f, **kw)
        f.seek(0)
        return OmegaConf.load(f)
    p = os.path.join(scratch(), "f.yaml")
    try:
        if how == "fileobj":
            with open(p, "w", encoding="utf-8", newline="") as f:
                OmegaConf.save(cfg, f, **kw)
            with open(p, "r", encoding="utf-8", newline="") as f:
                return OmegaConf.load(f)
        q = Path(p) if how == "pathobj" else p
        OmegaConf.save(cfg, q, **kw)
        return OmegaConf.load(q)
    finally:
        if os.path.exists(p):
            os.unlink(p)


def run(case, ctx):
    tree, how, sort = case
    try:
        want = names(tree)
    except KeyError:
        return
    cfg = OmegaConf.create(tree)
    try:
        back = roundtrip(cfg, how)
    except Exception as e:
        fail(f"{how}: {show(tree)} does not load back: {type(e).__name__}: {e}\n{OmegaConf.to_yaml(cfg)!r}")
    if cs(back) != cs(want):
        fail(f"{how}: {show(want)} loads back as {show(plain(back))} from {OmegaConf.to_yaml(cfg)!r}")
    if sort:
        t = OmegaConf.to_yaml(cfg, sort_keys=True)
        back = OmegaConf.create(t)
        if unordered(cs(back)) != unordered(cs(want)):
            fail(f"sort_keys changes the contents of {show(want)}: {show(plain(back))}")
        check_sorted(plain(back))
    if cs(cfg) != cs(tree):
        fail(f"dumping changed {show(tree)}")
    if leaves(tree) >= 2:
        ctx.hit(how)


def check_sorted(v):
    if isinstance(v, dict):
        if all(type(k) is str for k in v) and list(v) != sorted(v):
            fail(f"sort_keys: keys come as {list(v)}")
        v = list(v.values())
    if isinstance(v, list):
        for x in v:
            check_sorted(x)


def run_text(case, ctx):
    k, s = case
    for obj in ({k: s}, [s], {"a": {k: [s, {k: s}]}}):
        t = OmegaConf.to_yaml(OmegaConf.create(obj))
        r = attempt(lambda: OmegaConf.create(t))
        if r[0] != "ok" or cs(r[1]) != cs(obj):
            fail(f"{obj!r} dumped as {t!r} loads as {show(r)}")
    import yaml
    try:
        if type(yaml.safe_load(s)) is not str or not s.isascii():
            ctx.hit("not-plain-text")
    except Exception:
        ctx.hit("not-yaml")


# ---------------------------------------------------------------- resolve=True
rleaf = one_of(st.integers(0, 3), text, floats, st.none(), enums, paths, bytes_,
                  st.sampled_from(["${v0}", "${v1}", "${v2}", "x${v0}", "${v0}-${v1}", "${v2}", "${oc.create:{q:1}}"]))
res_st = st.tuples(st.tuples(leaf_noint := one_of(text, ints, floats, st.none(), st.booleans(), enums, paths), leaf_noint,
                             trees(leaf=one_of(ints, text, st.just("${v0}")), keys=ids, max_leaves=4)),
                   trees(leaf=rleaf, keys=keys, max_leaves=8), st.sampled_from(["create", "stringio", "file"]))


def run_resolve(case, ctx):
    (v0, v1, v2), body, how = case
    if any(isinstance(x, str) and x == "???" for x in (v0, v1, v2)):
        return
    try:
        names(body)
    except KeyError:
        return
    cfg = OmegaConf.create({"v0": v0, "v1": v1, "v2": v2, "body": body})
    want = names(OmegaConf.to_container(cfg, resolve=True))
    # a "\\${" or "???" result would itself be special text when loaded: outside this leg
    flat = repr(want)
    if "${" in flat or "???" in flat:
        return
    back = roundtrip(cfg, how, resolve=True)
    if cs(back) != cs(want):
        fail(f"resolve=True ({how}): {show(want)} loads back as {show(plain(back))}")
    if cs(cfg) != cs({"v0": v0, "v1": v1, "v2": v2, "body": body}):
        fail("dumping with resolve=True changed the config")
    if "${" in repr(body):
        ctx.hit("interpolations")


LEGS = [
    Leg("roundtrip", lambda: case_st, run, quick=9600,
        rule="generated trees with every key and leaf type, dumped and loaded through a string, stream, file and plain container; non-trivial: at least 2 leaves"),
    Leg("text", lambda: text_st, run_text, quick=12800,
        rule="a generated text as key and as value; non-trivial: plain YAML reads the bare text as something other than a string, or it is not ASCII"),
    Leg("resolve", lambda: res_st, run_resolve, quick=4800,
        rule="trees with interpolations dumped with resolve=True; non-trivial: the body has an interpolation"),
]
