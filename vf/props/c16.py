"""C16: any string is parsed or cleanly rejected, the same everywhere, without lasting effects."""
import dataclasses, re, sys, threading, warnings
from typing import Any, Dict, List, Optional, Union
from hypothesis import strategies as st
from omegaconf import (AnyNode, BooleanNode, BytesNode, DictConfig, EnumNode, FloatNode, IntegerNode, ListConfig, OmegaConf, PathNode, StringNode)
from omegaconf.errors import GrammarParseError
from ..core import Leg, fail
from ..gen import *
from .. import grammar as G
from .c15 import DATA, any_string, ref_eval, soups


@dataclasses.dataclass
class Sub:
    i: int = 1


@dataclasses.dataclass
class Kinds:
    i: int = 1
    s: str = "s"
    f: float = 1.0
    b: bool = True
    y: bytes = b"b"
    p: Path = Path("p")
    e: Color = Color.RED
    oi: Optional[int] = None
    u: Union[int, str] = 1
    l: List[int] = dataclasses.field(default_factory=lambda: [1])
    d: Dict[str, int] = dataclasses.field(default_factory=lambda: {"k": 1})
    ls: List[str] = dataclasses.field(default_factory=lambda: ["s"])
    ds: Dict[str, Sub] = dataclasses.field(default_factory=lambda: {"k": Sub()})
    sub: Sub = dataclasses.field(default_factory=Sub)
    a: Any = None
    ad: Any = dataclasses.field(default_factory=lambda: {"x": 1})


FIELDS = ["i", "s", "f", "b", "y", "p", "e", "oi", "u", "l", "d", "ls", "ds", "sub", "a", "ad"]
TEXT = {"s", "u", "a", "ad", "ls[0]", "untyped", "untyped list", "AnyNode", "StringNode", "over an int", "over a dict", "merge", "update", "setdefault", "insert", "append", "attr", "create", "extend", "slice", "dict update", "nested"}


def places():
    """name -> function of a string: sets it somewhere, returns how to read it (None: not read)"""
    def field(n):
        def f(s):
            c = OmegaConf.create(Kinds)
            setattr(c, n, s)
            return lambda: getattr(c, n)
        return f
    out = {n: field(n) for n in FIELDS}

    def item(path):
        def f(s):
            c = OmegaConf.structured(Kinds)
            OmegaConf.update(c, path, s)
            return lambda: OmegaConf.select(c, path)
        return f
    for p in ("l[0]", "ls[0]", "d.k", "ds.k", "ds.k.i", "sub.i"):
        out[p] = item(p)

    def conf(make, read):
        def f(s):
            c = make(s)
            return lambda: read(c)
        return f

    def did(start, act, read):
        def f(s):
            c = OmegaConf.create(start)
            c = act(c, s) or c
            return lambda: read(c)
        return f
    out["create"] = conf(lambda s: OmegaConf.create({"k": s, **DATA}), lambda c: c.k)
    out["nested"] = conf(lambda s: OmegaConf.create({"x": [{"k": s}], **DATA}), lambda c: c.x[0].k)
    out["untyped"] = did({"k": None, **DATA}, lambda c, s: c.__setitem__("k", s), lambda c: c.k)
    out["attr"] = did({**DATA}, lambda c, s: setattr(c, "k", s), lambda c: c.k)
    out["over an int"] = did({"k": 1}, lambda c, s: c.__setitem__("k", s), lambda c: c.k)
    out["over a dict"] = did({"k": {"a": 1}}, lambda c, s: c.__setitem__("k", s), lambda c: c.k)
    out["setdefault"] = did({}, lambda c, s: (c.setdefault("k", s), None)[1], lambda c: c.k)
    out["dict update"] = did({}, lambda c, s: c.update({"k": s}), lambda c: c.k)
    out["merge"] = did({"k": 1}, lambda c, s: OmegaConf.merge(c, {"k": s}), lambda c: c.k)
    out["update"] = did({}, lambda c, s: OmegaConf.update(c, "a.k", s), lambda c: c.a.k)
    out["untyped list"] = did([1], lambda c, s: c.__setitem__(0, s), lambda c: c[0])
    out["append"] = did([1], lambda c, s: c.append(s), lambda c: c[1])
    out["insert"] = did([1], lambda c, s: c.insert(0, s), lambda c: c[0])
    out["extend"] = did([1], lambda c, s: c.extend([s]), lambda c: c[1])
    out["slice"] = did([1], lambda c, s: c.__setitem__(slice(0, 1), [s]), lambda c: c[0])
    for cls in (AnyNode, StringNode, IntegerNode, FloatNode, BooleanNode, BytesNode, PathNode):
        out[cls.__name__] = (lambda cls: lambda s: (lambda n: lambda: n._value())(cls(s)))(cls)
    out["EnumNode"] = lambda s: (EnumNode(Color, s), None)[1]
    out["DictConfig"] = lambda s: (DictConfig(s), None)[1]
    out["ListConfig"] = lambda s: (ListConfig(s), None)[1]
    out["constructor"] = lambda s: (OmegaConf.structured(Kinds(i=s, sub=s)), None)[1]
    out["typed list of it"] = lambda s: (ListConfig([s], element_type=int), None)[1]
    return out


PLACES = places()
VERBATIM = TEXT - {"ls[0]"} | {"ls[0]"}


def unescaped(s):
    """The text of a string whose interpolations are all escaped, or None"""
    ok = True

    def sub(m):
        nonlocal ok
        n = len(m.group(1))
        ok = ok and n % 2 == 1
        return "\\" * (n // 2) + "${"
    r = re.sub(r"(\\*)\$\{", sub, s)
    return r if ok else None


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def run_string(s, ctx):
    OmegaConf.clear_resolvers()
    OmegaConf.register_new_resolver("id", lambda *a: a[0])
    try:
        accept = True
        if "${" in s:
            try:
                G.parse_text(s)
            except G.Reject:
                accept = False
            ctx.hit("accepted" if accept else "rejected")
        plain_text_ = unescaped(s)
        for name, put in PLACES.items():
            r = attempt(lambda: quiet(lambda: put(s)))
            if "${" in s:
                if accept and r[0] != "ok":
                    fail(f"{s!r} at {name} raised {r[1]!r}, while it is in the grammar")
                if not accept and (r[0] == "ok" or type(r[1]) is not GrammarParseError):
                    fail(f"{s!r} at {name}: {show(r)} instead of GrammarParseError")
            elif name in TEXT and r[0] != "ok":
                fail(f"{s!r} at {name} raised {r[1]!r}")
            if r[0] != "ok" or r[1] is None:
                continue
            got = attempt(lambda: quiet(r[1]))
            if got[0] == "exc" and isinstance(got[1], GrammarParseError):
                fail(f"{s!r} was accepted at {name}, and reading it raised {got[1]!r}")
            if name in TEXT and s != "???":
                want = s if "${" not in s or name in ("AnyNode", "StringNode") else plain_text_
                if want is not None and got != ("ok", want):
                    fail(f"{s!r} at {name} reads as {show(got)} instead of {want!r}")
        if "${" not in s and set(s) & set("\\$"):
            ctx.hit("verbatim")
    finally:
        OmegaConf.clear_resolvers()


# ---------------------------------------------------------------- histories and threads
def outcome(form, s):
    """What setting and reading a string does, as comparable data"""
    if form == "decode":
        r = attempt(lambda: OmegaConf.create({"t": s, "k": "${oc.decode:${t}}", **DATA}).k)
    else:
        r = attempt(lambda: OmegaConf.create({"k": s, **DATA}))
        if r[0] == "exc":
            return ("set", type(r[1]).__name__)
        r = attempt(lambda: r0.k) if (r0 := r[1]) is not None else None
    if r[0] == "exc":
        return ("read", type(r[1]).__name__, str(r[1])[:60])
    return ("ok", canon(r[1]))


def expected(form, s):
    """None when the reference does not say"""
    if form == "decode":
        if "${" in s or s in ("", "???"):
            return None
        w = ref_eval(lambda: G.parse_element(s), "element")
        return ("read", "InterpolationResolutionError") if w[0] == "reject" else None
    if "${" not in s:
        return ("ok", canon(s)) if s != "???" else None
    w = ref_eval(lambda: G.parse_text(s), "text")
    if w[0] == "reject":
        return ("set", "GrammarParseError")
    if w[0] == "ok" and not isinstance(w[1], (dict, list)) and w[1] != "???":
        return ("ok", canon(w[1]))
    return None


def run_history(case, ctx):
    items, threads, order = case
    OmegaConf.clear_resolvers()
    OmegaConf.register_new_resolver("id", lambda *a: a[0])
    OmegaConf.register_new_resolver("rec", lambda *a: 0)
    old = sys.getswitchinterval()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            want = [expected(f, s) for f, s in items]
            base = []
            for f, s in items:  # each in a thread of its own, which has parsed nothing
                box = []
                t = threading.Thread(target=lambda: box.append(outcome(f, s)))
                t.start()
                t.join()
                base.append(box[0])
            for (f, s), w, b in zip(items, want, base):
                if w is not None and b[:len(w)] != w:
                    fail(f"{f} {s!r}: {b} instead of {w}")
            seq_ = [outcome(f, s) for f, s in items]
            rev = [outcome(f, s) for f, s in reversed(items)][::-1]
            for how, res in (("after the others", seq_), ("in reverse order", rev)):
                for (f, s), a, b in zip(items, res, base):
                    if a != b:
                        fail(f"{f} {s!r} gives {a} {how} {items!r}, and {b} in a fresh thread")
            if threads:
                sys.setswitchinterval(1e-5)
                results = [None] * threads

                def work(k):
                    n = len(items)
                    idx = [(k * order + j) % n for j in range(n)] * 2
                    results[k] = [(i, outcome(*items[i])) for i in idx]
                ts = [threading.Thread(target=work, args=(k,)) for k in range(threads)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                for k, res in enumerate(results):
                    if res is None:
                        fail(f"a thread died on {items!r}")
                    for i, a in res:
                        if a != base[i]:
                            fail(f"{items[i]!r} gives {a} in thread {k} of {threads} with {items!r}, and {base[i]} alone")
                ctx.label("threads")
            if len({b[0] for b in base}) > 1:
                ctx.hit()
    finally:
        sys.setswitchinterval(old)
        OmegaConf.clear_resolvers()


def run_deep(case, ctx):
    open_, mid, close, n, after = case
    s = open_ * n + mid + close * n
    OmegaConf.clear_resolvers()
    OmegaConf.register_new_resolver("id", lambda *a: a[0])
    try:
        r = attempt(lambda: OmegaConf.create({"k": s}))
        if r[0] == "exc" and type(r[1]) is not GrammarParseError:
            fail(f"{open_!r}*{n}: setting raised {show(r[1])}")
        ctx.hit("ok" if r[0] == "ok" else "rejected")
        for f, t in after:
            a, w = outcome(f, t), expected(f, t)
            if w is not None and a[:len(w)] != w:
                fail(f"after {open_!r}*{n}, {t!r}: {a} instead of {w}")
    finally:
        OmegaConf.clear_resolvers()


def deep_cases(tier):
    after = [("text", "${id:[1,{a:b}]}x"), ("text", "${id:1}"), ("text", "${n.a}"), ("text", "${n"), ("decode", "[1"), ("text", "${id:'a'}b"), ("text", "\\${a}")]
    ns = [30, 120, 250] if tier == "quick" else [10, 30, 60, 90, 120, 150, 180, 200, 250, 300, 400, 700]
    return [(o, m, c, n, after) for n in ns for o, m, c in (("${", "a", "}"), ("${id:", "1", "}"), ("${id:[", "1", "]}"), ("${id:{a:", "1", "}}"), ("${id:'", "x", "'}"), ("${id:", "", ""), ("${id:[", "", "]"), ("${.", "a", "}"), ("${a.", "b", "}"), ("${id:1,", "b", "}"))]


LONG = ["${%s}" % "a." * 5, "a" * 3000 + "${n.a}", "${id:" + "x" * 2000 + "}", "${id:" + "1," * 300 + "1}", "$" * 500 + "{", "\\" * 301 + "${a}", "\\" * 300 + "${n.a}", "${n.a}" * 100]
strings = one_of(soups, soups, any_string, any_string, st.text(max_size=12), st.sampled_from(LONG),
                    st.lists(one_of(soups, any_string, st.sampled_from(["${", "}", "${a}", "\\${", "\\\\${", "${id:", "${n.a}"])), max_size=4).map("".join),
                    soups.map(lambda s: "${" + s + "}"), soups.map(lambda s: "${rec:" + s + "}"))
items = st.lists(one_of(st.tuples(st.just("text"), strings), st.tuples(st.just("text"), strings), st.tuples(st.just("decode"), one_of(soups, strings))), min_size=2, max_size=6)

LEGS = [
    Leg("any string", lambda: strings, run_string, quick=1400, thorough=30000,
        rule="a string (random text, token sequences, escapes, long runs) set at 46 kinds of places; acceptance by the reference grammar, verbatim or unescaped reading; non-trivial: has '${', or a "
             "backslash or dollar that must be kept"),
    Leg("histories", lambda: st.tuples(items, st.sampled_from([0, 0, 2, 4]), st.integers(0, 3)), run_history, quick=1300, thorough=26000,
        rule="2-6 strings set and read (or decoded) after each other in both orders, and by 2-4 threads at once, against fresh threads and the reference; non-trivial: both accepted and rejected strings"),
    Leg("deep", None, run_deep, quick=0, enumerated=deep_cases, rule="nesting up to 250 (thorough 700) levels, then ordinary strings"),
]
