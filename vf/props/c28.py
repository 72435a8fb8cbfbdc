"""C28: YAML loading, differential against PyYAML's safe loader with the documented differences."""
import datetime, io, os, re
import yaml
from hypothesis import strategies as st
from omegaconf import OmegaConf
from ..core import Leg, fail, scratch
from ..gen import *

Base = yaml.CSafeLoader
STR = "tag:yaml.org,2002:str"
FLOAT = "tag:yaml.org,2002:float"
# documented: a number with an exponent is a float, also without a dot and without a sign in the exponent
EXP = re.compile(r"[-+]?[0-9]+(_[0-9]+)*(\.[0-9_]*)?[eE][-+]?[0-9]+\Z")


class Duplicate(Exception):
    pass


class Ref(Base):
    """Plain safe loader + exponent floats + dates as strings + path tags."""
    def resolve(self, kind, value, implicit):
        tag = super().resolve(kind, value, implicit)
        if kind is yaml.ScalarNode and implicit[0]:
            if tag == "tag:yaml.org,2002:timestamp":
                return STR
            if tag == STR and EXP.match(value):
                return FLOAT
        return tag


for n in ("Path", "PosixPath"):
    Ref.add_constructor(f"tag:yaml.org,2002:python/object/apply:pathlib.{n}", lambda l, node: Path(*l.construct_sequence(node)))


def check_dups(node, seen):
    if id(node) in seen or node is None:
        return
    seen[id(node)] = node
    if isinstance(node, yaml.MappingNode):
        keys = set()
        for k, v in node.value:
            if isinstance(k, yaml.ScalarNode) and k.tag != "tag:yaml.org,2002:merge":
                if k.tag in (STR, "tag:yaml.org,2002:value"):
                    key = (STR, k.value)
                else:
                    try:
                        key = (k.tag, yaml.constructor.SafeConstructor().construct_object(k))
                        hash(key)
                    except Exception:
                        continue
                if key in keys:
                    raise Duplicate(k.value)
                keys.add(key)
            check_dups(k, seen)
            check_dups(v, seen)
    elif isinstance(node, yaml.SequenceNode):
        for x in node.value:
            check_dups(x, seen)


class Unsupported(Exception):
    pass


def supported(v, depth=0):
    """Data a config can hold; raises Unsupported otherwise (incl. recursive structures)."""
    if depth > 40:
        raise Unsupported
    if isinstance(v, dict):
        for k, x in v.items():
            if k is None or not isinstance(k, (str, int, float, bool, bytes)):
                raise Unsupported
            supported(x, depth + 1)
    elif type(v) in (list, tuple):
        for x in v:
            supported(x, depth + 1)
    elif isinstance(v, str):
        if "${" in v:
            raise Unsupported
    elif v is not None and not isinstance(v, (int, float, bool, bytes, Path)):
        raise Unsupported


def reference(text):
    """('ok', data) | ('reject', why) | ('skip',)"""
    try:
        l = Ref(text)
        try:
            node = l.get_single_node()
        finally:
            l.dispose()
        check_dups(node, {})
        data = yaml.load(text, Loader=Ref)
    except Duplicate as e:
        return ("reject", f"duplicate key {e}")
    except yaml.YAMLError as e:
        return ("reject", f"{type(e).__name__}: {e}")
    except Exception:
        return ("skip",)  # e.g. !!int x: not a YAML level error
    if data is None:
        return ("ok", {})
    if type(data) not in (dict, list):
        return ("skip",)
    try:
        supported(data)
    except Unsupported:
        return ("skip",)
    return ("ok", data)


def compare(text, ctx):
    want = reference(text)
    ctx.label(want[0])
    if want[0] == "skip":
        return
    routes = [("create", lambda: OmegaConf.create(text)), ("stream", lambda: OmegaConf.load(io.StringIO(text)))]
    if "\r" not in text:
        p = os.path.join(scratch(), "in.yaml")
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        routes.append(("file", lambda: OmegaConf.load(p)))
        routes.append(("path", lambda: OmegaConf.load(Path(p))))
    for name, f in routes:
        r = attempt(f)
        if want[0] == "reject":
            if r[0] == "ok":
                fail(f"{name}: {text!r} should be rejected ({want[1]}), loads as {show(plain(r[1]))}")
            if not isinstance(r[1], yaml.YAMLError):
                fail(f"{name}: {text!r} is rejected with {type(r[1]).__name__}: {r[1]}")
        else:
            if r[0] != "ok":
                fail(f"{name}: {text!r} denotes {show(want[1])}, loading raises {type(r[1]).__name__}: {r[1]}")
            if cs(r[1]) != cs(want[1]):
                fail(f"{name}: {text!r} denotes {show(want[1])}, loads as {show(plain(r[1]))}")
            if OmegaConf.is_list(r[1]) != isinstance(want[1], list):
                fail(f"{name}: {text!r} gives a {type(r[1]).__name__}")
    if want[0] == "ok":
        flat = repr(want[1])
        if leaves(want[1]) >= 2:
            ctx.hit()
        if "Path" in flat:
            ctx.label("path")
        if text.count("<<"):
            ctx.label("merge-key")
    elif "duplicate" in want[1]:
        ctx.hit("duplicate")


# ---------------------------------------------------------------- document generator
num = one_of(
    st.from_regex(r"[-+]?[0-9][0-9_]{0,3}(\.[0-9_]{0,3})?([eE][-+]?[0-9]{1,2})?", fullmatch=True),
    st.from_regex(r"[-+]?\.?[0-9_]{1,3}(e[-+]?[0-9])?", fullmatch=True),
    st.sampled_from(["0x1F", "0b101", "017", "0o17", "1:30", "12:30:45.5", ".inf", "-.INF", ".nan", "1_000", "1e5", "1E5", "1.e5", "1.5e3", ".5e3", ".5e+3", "-1e5", "+1e-5", "1_0e1_0", "0.", "1e", "e5", "08", "1.2.3", "-", "+1"]))
dates = st.sampled_from(["2020-01-01", "2001-12-14t21:59:43.10-05:00", "2001-1-1", "2020-01-01 10:00:00", "2002-12-14 1:2:3"])
consts = st.sampled_from(["null", "~", "Null", "true", "True", "TRUE", "yes", "No", "on", "OFF", "y", "n", "Yes", "tRue", "=", "none", "None"])
wordy = st.from_regex(r"[a-zA-Z_][a-zA-Z0-9_ .\-/]{0,6}", fullmatch=True).map(str.strip)
quoted = one_of(st.text("ab1 e5'\\:#", max_size=5).map(lambda s: "'" + s.replace("'", "''") + "'"),
                   st.text("ab1 e5:#é", max_size=5).map(lambda s: '"' + s + '"'),
                   st.sampled_from(['"\\n"', '"\\x41"', '"\\u00e9"', '"1e5"', "'2020-01-01'", '"yes"', '"\\t"']))
pathtag = st.sampled_from(["!!python/object/apply:pathlib.PosixPath [a, b]", "!!python/object/apply:pathlib.PosixPath [/tmp]", "!!python/object/apply:pathlib.Path [x]"])
tagged = st.sampled_from(["!!str 1e5", "!!str 2020-01-01", "!!int 5", "!!float 1", "!!float 1e5", "!!binary aGVsbG8=", "!!null x", "!!bool yes", "!!timestamp 2020-01-01", "!!set {a, b}", "!!omap [a: 1]", "!!seq [1]", "!!map {a: 1}", "!foo x", "!!python/tuple [1]"])
scalar = one_of(num, num, consts, wordy, wordy, quoted, dates, pathtag, tagged)
keytext = one_of(st.sampled_from(["a", "b", "c", "'a'", '"b"', "1", "0x1", "1.0", "true", "yes", "1e0", "null", "2020-01-01", "!!str 1", "1_0", "10"]), st.sampled_from(["a", "b", "c", "d"]), wordy, num, quoted)
ANCH = ["A", "B"]


def node(depth=3):
    """A document as a tree: ('s', text) | ('m', flow?, anchor, [(k, v)]) | ('l', flow?, anchor, [v]) | ('alias', name) | ('merge',)"""
    leaf = one_of(scalar.map(lambda t: ("s", t)), scalar.map(lambda t: ("s", t)), st.sampled_from(ANCH).map(lambda a: ("alias", a)))

    def ext(c):
        mk = one_of(keytext, keytext, keytext, st.just("<<"))
        mv = one_of(c, c, st.sampled_from(ANCH).map(lambda a: ("alias", a)))
        return one_of(
            st.tuples(st.just("m"), st.booleans(), st.sampled_from([None, None, "A", "B"]), st.lists(st.tuples(mk, mv), max_size=4)),
            st.tuples(st.just("l"), st.booleans(), st.sampled_from([None, None, "A", "B"]), st.lists(c, max_size=4)))
    return st.recursive(leaf, ext, max_leaves=12)


def emit(n, ind, flow, anchors):
    """Returns (inline text, block lines or None)."""
    k = n[0]
    if k == "s":
        return n[1]
    if k == "alias":
        return "*" + n[1] if n[1] in anchors else "x"
    _, fl, anchor, items = n
    a = f"&{anchor} " if anchor else ""
    if flow or fl or not items:
        if k == "m":
            t = "{" + ", ".join(f"{key}: {emit_v(v, ind, True, anchors, key)}" for key, v in items) + "}"
        else:
            t = "[" + ", ".join(emit(v, ind, True, anchors) for v in items) + "]"
        if anchor:
            anchors.add(anchor)
        return a + t
    pad = "  " * ind
    lines = []
    for it in items:
        if k == "m":
            lines.append(f"{pad}{it[0]}: {emit_v(it[1], ind + 1, False, anchors, it[0])}")
        else:
            lines.append(f"{pad}- {emit(it, ind + 1, False, anchors)}")
    if anchor:
        anchors.add(anchor)
    return a.rstrip() + "\n" + "\n".join(lines)


def emit_v(v, ind, flow, anchors, key):
    if key == "<<" and v[0] not in ("alias", "m"):
        v = ("m", True, None, [("a", ("s", "1"))])
    return emit(v, ind, flow, anchors)


def document(n):
    return emit(n, 0, False, set()).lstrip("\n") + "\n"


top = node().filter(lambda n: n[0] in ("m", "l"))
doc = top.map(document)
# documents with anchors and merges in most places
shared = st.tuples(st.lists(st.tuples(st.sampled_from("abc"), scalar), min_size=1, max_size=3), st.lists(st.tuples(st.sampled_from("abcd"), scalar), max_size=3), st.integers(0, 3), st.permutations([0, 1, 2]), st.booleans())


def shared_doc(t):
    """Anchored mapping B merges A and is itself merged from another place, at varying depth and order."""
    a, b, deep, order, seqm = t
    A = "base: &A {" + ", ".join(f"{k}: {v}" for k, v in dict(a).items()) + "}"
    body = "{<<: *A" + "".join(f", {k}: {v}" for k, v in b) + "}"
    for i in range(deep):
        body = ("&B " if i == 0 else "") + body
        body = "{n%d: %s}" % (i, body)
    if deep == 0:
        body = "&B " + body
    B = "deep: " + body
    C = "use: {<<: %s, z: 1}" % ("[*B, *A]" if seqm else "*B")
    return "\n".join([A, B, C]) + "\n"


mut = st.lists(st.tuples(st.sampled_from(["ins", "del", "dup", "line"]), st.integers(0, 400), st.sampled_from(list(":{}[]-#&*!|>'\"%@`,? \n\t<=~.e0") + ["\n---\n", "- ", ": ", "<<: ", "\n  ", "? "])), max_size=4)


def mutate(t):
    s, ms = t
    for kind, i, c in ms:
        i %= len(s) + 1
        if kind == "ins":
            s = s[:i] + c + s[i:]
        elif kind == "del":
            s = s[:i] + s[i + 1:]
        elif kind == "dup":
            s = s[:i] + s[max(0, i - 3):i] + s[i:]
        else:
            lines = s.split("\n")
            j = i % len(lines)
            lines.insert(j, lines[j])
            s = "\n".join(lines)
    return s


def run_doc(case, ctx):
    compare(case, ctx)


def run_scalar(case, ctx):
    k, s = case
    for text in (f"{k}: {s}\n", f"- {s}\n", f"a: {{{k}: {s}}}\n", f"a: [{s}, {s}]\n", f"? {k}\n: {s}\n"):
        compare(text, ctx)


def run_empty(case, ctx):
    for r in (OmegaConf.create(case), OmegaConf.load(io.StringIO(case))):
        if not OmegaConf.is_dict(r) or len(r) != 0 or r != {}:
            fail(f"{case!r} gives {show(r)}")
    ctx.hit()


LEGS = [
    Leg("documents", lambda: one_of(doc, doc, shared.map(shared_doc)), run_doc, quick=8000,
        rule="generated documents (block and flow, quoted and plain scalars, tags, anchors, aliases, merge keys, repeated keys) compared with the reference loader, by create, stream and file; non-trivial: a loaded document with >= 2 leaves, or a duplicate key"),
    Leg("mutated", lambda: st.tuples(doc, mut).map(mutate), run_doc, quick=8000,
        rule="generated documents with random edits, same comparison; non-trivial as above"),
    Leg("scalars", lambda: st.tuples(keytext, scalar), run_scalar, quick=6400,
        rule="one generated plain/quoted/tagged scalar as value and key in 5 positions; non-trivial as above"),
    Leg("empty", lambda: st.sampled_from(["", "\n", "# c\n", "---\n", "--- \n...\n", "null\n", "~", " ", "# a\n\n# b"]), run_empty, quick=40, rule="empty documents"),
]
