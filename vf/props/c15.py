"""C15: expressions evaluate to the value their grammar spells."""
import re
from hypothesis import strategies as st
from omegaconf import OmegaConf
from omegaconf.errors import GrammarParseError
from ..core import Leg, fail
from ..gen import *
from .. import grammar as G

SPACE = st.sampled_from(["", "", "", " ", "  ", "\t"])
INT_RE = re.compile(r"[+-]?(0|[1-9](_?[0-9])*)")
FLOAT_RE = re.compile(G.FLOAT)


# ---------------------------------------------------------------- spelled expressions: (kind, text, ...)
def digits(draw, n=4, under=True, lead=False):
    d = draw(st.text("0123456789", min_size=1, max_size=n))
    if not lead and len(d) > 1 and d[0] == "0":
        d = "1" + d[1:]
    out = d[0]
    for c in d[1:]:
        out += ("_" if under and draw(st.integers(0, 5)) == 0 and d[0] != "0" else "") + c
    return out


@st.composite
def int_text(draw):
    return draw(st.sampled_from(["", "", "+", "-"])) + digits(draw, 7)


@st.composite
def float_text(draw):
    sign = draw(st.sampled_from(["", "", "+", "-"]))
    k = draw(st.sampled_from(["inf", "nan", "point", "point", "exp", "exp"]))
    if k in ("inf", "nan"):
        return sign + "".join(c.upper() if draw(st.booleans()) else c for c in k)
    frac = draw(st.text("0123456789", min_size=1, max_size=4))
    body = draw(st.sampled_from([digits(draw) + ".", "." + frac, digits(draw) + "." + frac]))
    if k == "exp":
        body = draw(st.sampled_from([body, digits(draw)])) + draw(st.sampled_from("eE")) + draw(st.sampled_from(["", "+", "-"])) + draw(st.text("0123456789", min_size=1, max_size=2))
    return sign + body


@st.composite
def keyword(draw):
    w = draw(st.sampled_from(["null", "true", "false"]))
    return "".join(c.upper() if draw(st.integers(0, 3)) == 0 else c for c in w)


chunk = st.sampled_from(["a", "b1", "_x", "foo-bar", "True", "null", "inf", "nan", "None", "1", "10", "0", "-1", "1.5", "1e3", "007", "_", "/", "-", "+", ".", "$", "%", "*", "@", "?", "|", "e5", "1_0", "\\n", "\\x"])
escaped = st.sampled_from(["\\\\", "\\(", "\\)", "\\[", "\\]", "\\{", "\\}", "\\:", "\\=", "\\,", "\\ ", "\\\t"])
unq_part = one_of(chunk.map(lambda c: ("c", c)), chunk.map(lambda c: ("c", c)), escaped.map(lambda c: ("e", c)), st.sampled_from([" ", "  ", "\t"]).map(lambda c: ("w", c)), st.sampled_from([":", " : ", ": "]).map(lambda c: (":", c)))
quote_text = one_of(plain_text, st.sampled_from(["\\", "\\\\", "\\\\\\", "a\\", "'", '"', "\\'", "$"]), st.text("ab\\'\"${} \n:,[](é", max_size=8))
cuts = st.lists(st.integers(0, 8), max_size=3)


def elements(calls=True, nullkeys=True):
    prim = one_of(st.tuples(st.just("int"), int_text()), st.tuples(st.just("float"), float_text()), st.tuples(st.just("kw"), keyword()),
                     st.tuples(st.just("unq"), st.lists(unq_part, min_size=1, max_size=5)), st.tuples(st.just("q"), st.sampled_from("'\""), st.lists(one_of(quote_text), max_size=1)))

    def ext(c):
        key = one_of(st.tuples(st.just("int"), int_text()), st.tuples(st.just("float"), float_text()), st.tuples(st.just("kw"), keyword()), st.tuples(st.just("unq"), st.lists(unq_part.filter(lambda p: p[0] != ":"), min_size=1, max_size=3)))
        opts = [st.tuples(st.just("list"), st.lists(c, max_size=4), SPACE), st.tuples(st.just("dict"), st.lists(st.tuples(key, c), max_size=3), SPACE)]
        if calls:
            opts += [st.tuples(st.just("call"), c, SPACE), st.tuples(st.just("mix"), st.lists(one_of(st.tuples(st.just("unq"), st.lists(unq_part, min_size=1, max_size=2)), st.tuples(st.just("call"), c, SPACE)), min_size=2, max_size=3)),
                     st.tuples(st.just("q"), st.sampled_from("'\""), st.lists(one_of(quote_text, st.tuples(st.just("call"), c, SPACE)), max_size=3))]
        return one_of(*opts)
    return st.recursive(prim, ext, max_leaves=8)


class Bad(Exception):
    """Not a spelling of one element (typed text in a concatenation and the like)"""


def spell_unq(parts, ends=True):
    text, value, plain_ = "", "", True
    for k, c in parts:
        text += c
        if k == "e":
            plain_ = False
            value += c[1:]
        else:
            value += c
    if ends and ":" in (text.strip()[:1], text.strip()[-1:]):
        raise Bad  # a colon takes the whitespace around it
    if ends and (parts[0][0] == "w" or parts[-1][0] == "w" or text[-1] in " \t" and parts[-1][0] != "e" or text[0] in " \t"):
        raise Bad
    if re.search(r"\\[nx]", text) is not None and re.search(r"\\\\", text):
        raise Bad  # an escape next to a backslash: covered by the arbitrary strings
    return text, value, plain_


def typed_text(t):
    if INT_RE.fullmatch(t):
        return int(t.replace("_", ""))
    if FLOAT_RE.fullmatch(t):
        return float(t.replace("_", ""))
    if t.lower() in ("true", "false"):
        return t.lower() == "true"
    if t.lower() == "null":
        return None
    return t


def quote_piece(s, q, at_end):
    """A literal piece of text of a quoted string (q) or of a whole value (q=None); at_end: an interpolation or the closing quote follows"""
    out, i = "", 0
    while i < len(s):
        j = i
        while j < len(s) and s[j] == "\\":
            j += 1
        n = j - i
        rest = s[j:]
        if rest.startswith("${"):
            out += "\\" * (2 * n + 1) + "${"
            j += 2
        elif q and rest[:1] == q:
            out += "\\" * (2 * n + 1) + q
            j += 1
        elif not rest:
            out += "\\" * (2 * n if at_end else n)
        elif n:
            out += "\\" * n
        else:
            out += s[j]
            j += 1
        i = j
    return out


def call_text(e, sp):
    t, v = spell(e)
    return "${" + sp + "id" + sp + ":" + sp + t + sp + "}", v


def spell(e):
    """(text, value)"""
    k = e[0]
    if k in ("int", "float", "kw"):
        return e[1], typed_text(e[1])
    if k == "unq":
        t, v, plain_ = spell_unq(e[1])
        return t, typed_text(t) if plain_ else v
    if k == "q":
        q, parts = e[1], e[2]
        t, v, single = "", "", None
        merged = []
        for p in parts:
            if isinstance(p, str) and merged and isinstance(merged[-1], str):
                merged[-1] += p
            else:
                merged.append(p)
        for i, p in enumerate(merged):
            if isinstance(p, str):
                t += quote_piece(p, q, True)
                v += p
            else:
                a, b = call_text(p[1], p[2])
                t += a
                v += str(b)
        return q + t + q, v
    if k == "list":
        xs = [spell(x) for x in e[1]]
        sp = e[2]
        return "[" + sp + (sp + "," + sp).join(t for t, _ in xs) + sp + "]", [v for _, v in xs]
    if k == "dict":
        xs = [(spell(a), spell(b)) for a, b in e[1]]
        sp = e[2]
        return "{" + sp + (sp + "," + sp).join(a[0] + sp + ":" + sp + b[0] for a, b in xs) + sp + "}", {a[1]: b[1] for a, b in xs}
    if k == "call":
        return call_text(e[1], e[2])
    if k == "mix":
        t, v = "", ""
        for p in e[1]:
            if p[0] == "unq":
                a, b, _ = spell_unq(p[1], False)
                if t.endswith("\\"):
                    raise Bad
                t += a
                v += b
            else:
                a, b = call_text(p[1], p[2])
                if t.endswith("\\") and not t.endswith("\\\\"):
                    raise Bad
                t += a
                v += str(b)
        if t[0] in " \t:" or t[-1] in " \t:":
            raise Bad
        if e[1] and all(p[0] == "unq" for p in e[1]):
            if "\\" in t:
                raise Bad
            return t, typed_text(t)
        return t, v
    raise ValueError(k)


def has(e, kinds):
    if isinstance(e, (tuple, list)):
        return e and isinstance(e[0], str) and e[0] in kinds or any(has(x, kinds) for x in e)
    return False


def register():
    got = []
    OmegaConf.clear_resolvers()
    OmegaConf.register_new_resolver("id", lambda *a: a[0])

    def rec(*a):
        got.append(a)
        return 0
    OmegaConf.register_new_resolver("rec", rec)
    return got


def same(a, b):
    return canon(a) == canon(b)


def run_spelled(case, ctx):
    args, sp, place = case
    try:
        xs = [spell(a) for a in args]
    except Bad:
        return
    except TypeError:
        return  # unhashable key value: not spelled
    if any(t[:1] in " \t" for t, _ in xs):
        return
    got = register()
    try:
        text = "${" + sp + "rec" + sp + ":" + sp + (sp + "," + sp).join(t for t, _ in xs) + sp + "}"
        want = [v for _, v in xs]
        if place == "text":
            text = "x " + text + " y"
        cfg = OmegaConf.create({"k": text})
        r = attempt(lambda: cfg.k)
        if r[0] != "ok":
            fail(f"{text!r} raised {r[1]!r} instead of calling the resolver with {want!r}")
        if len(got) != 1 or not same(list(got[0]), want) or r[1] != ("x 0 y" if place == "text" else 0):
            fail(f"{text!r} passed {got!r} instead of {want!r} (result {r[1]!r})")
        if len(xs) == 1 and place == "arg" and not has(args, ("call", "dict")) and "${" not in xs[0][0].replace("\\${", ""):
            t, v = xs[0]
            if t and "${" not in t:
                d = OmegaConf.create({"s": t, "k": "${oc.decode:${s}}"})
                r = attempt(lambda: OmegaConf.to_container(d, resolve=True)["k"])
                if r[0] != "ok" or not same(r[1], v):
                    fail(f"oc.decode of {t!r} gives {show(r)} instead of {v!r}")
                ctx.label("decode")
        for a in args:
            ctx.label(a[0])
        if any(a[0] not in ("int",) for a in args):
            ctx.hit()
    finally:
        OmegaConf.clear_resolvers()


spelled = st.tuples(st.lists(elements(), min_size=1, max_size=3), SPACE, st.sampled_from(["arg", "arg", "text"]))
spelled1 = one_of(spelled, st.tuples(st.lists(elements(calls=False), min_size=1, max_size=1), SPACE, st.just("arg")))

# ---------------------------------------------------------------- arbitrary strings, embedded
UNQ_OK = re.compile(r"[a-zA-Z0-9_/\-\\+.$%*@?|:()\[\]{}=, \t]+")
any_string = one_of(st.text("\\'\"${}ab: ,", max_size=10), st.text("\\${'\"", max_size=8), st.text(max_size=8), plain_text, st.text("\\()[]{}:=, \tab1.$-", min_size=1, max_size=8),
                       st.lists(st.sampled_from(["${", "\\", "\\\\", "'", '"', "${a}", "${id:1}", "}", "$", "x", " ", "\n"]), max_size=7).map("".join))


def unquoted(s):
    return re.sub(r"([\\()\[\]{}:=, \t])", r"\\\1", s)


def run_embed(case, ctx):
    s, t = case
    got = register()
    try:
        spellings = {"'": "'" + quote_piece(s, "'", True) + "'", '"': '"' + quote_piece(s, '"', True) + '"'}
        if UNQ_OK.fullmatch(s) and typed_text(s) is s:
            spellings["unquoted"] = unquoted(s)
        for how, w in spellings.items():
            w2 = spellings["'"]
            for text, want in ((f"${{rec:{w}}}", [s]), (f"${{rec: {w} , {w2} }}", [s, s]), (f"${{rec:[{w},{{k: {w}}}]}}", [[s, {"k": s}]]), (f"pre${{rec:{w}}}", [s]), ("${rec:${id:" + w + "}}", [s])):
                got.clear()
                r = attempt(lambda: OmegaConf.create({"k": text}).k)
                if r[0] != "ok" or len(got) != 1 or not same(list(got[0]), want):
                    fail(f"{s!r} ({how}) in {text!r} came back as {show(got)} ({show(r)})")
            if how == "unquoted":
                if ":" not in s:
                    got.clear()
                    r = attempt(lambda: OmegaConf.create({"k": f"${{rec:{{{w}: 1}}}}"}).k)
                    if r[0] != "ok" or len(got) != 1 or not same(got[0][0], {s: 1}):
                        fail(f"{s!r} as a key came back as {show(got)} ({show(r)})")
            if "${" not in w:
                r = attempt(lambda: OmegaConf.create({"s": w, "k": "${oc.decode:${s}}"}).k)
                if r[0] != "ok" or r[1] != s:
                    fail(f"oc.decode of {w!r} gives {show(r)} instead of {s!r}")
        # next to interpolations, in quotes and as a whole value
        for pieces in ([s, 7, t], [7, s, 8, t], [7, s], [t, 7, s, 8], [7, 8, s, 9]):
            want = "".join(str(x) for x in pieces)
            for q in "'\"":
                v = "${rec:" + q + "".join(quote_piece(x, q, True) if isinstance(x, str) else "${id:%d}" % x for x in pieces) + q + "}"
                got.clear()
                r = attempt(lambda: OmegaConf.create({"k": v}).k)
                if r[0] != "ok" or got != [(want,)]:
                    fail(f"{pieces} in {v!r} came back as {show(got)} ({show(r)})")
            v = "".join(quote_piece(x, None, i < len(pieces) - 1) if isinstance(x, str) else "${id:%d}" % x for i, x in enumerate(pieces))
            r = attempt(lambda: OmegaConf.create({"k": v}).k)
            if pieces.count("") == len(pieces) - 1:
                want = next(x for x in pieces if x != "")
            if r != ("ok", want):
                fail(f"the value {v!r} reads as {show(r)} instead of {want!r}")
        # as a value: escaped
        v = quote_piece(s, None, False)
        if "${" in s:
            r = attempt(lambda: OmegaConf.create({"k": v}).k)
            if r != ("ok", s):
                fail(f"the escaped value {v!r} reads as {show(r)} instead of {s!r}")
            ctx.label("inter")
        if set(s) & set("\\'\"${}[](),:= \t"):
            ctx.hit()
    finally:
        OmegaConf.clear_resolvers()


# ---------------------------------------------------------------- token soups against the reference grammar
soup_tok = st.sampled_from(["a", "b", "1", "-1", "1.5", "1e3", ".5", "1_0", "null", "true", "inf", "foo-bar", "_", "/", "-", "+", ".", "$", "%", "@", "?", "|", "\\", "\\\\", "\\,", "\\ ", "\\:", "\\(", "(", "=", " ", "  ", "\t", ",", ",", ":", ":",
                            "[", "]", "[", "]", "{", "}", "'", '"', "'x'", '"y z"', "${", "}", "${id:", "}", "${n}", "${n.a}", "${.n}", "${l[0]}", "\\'", "\\${", "é", "\n", "${:", "${ "])
balanced = st.recursive(soup_tok.filter(lambda t: t not in ("[", "]", "{", "}", "${", "${id:", "'", '"')),
                        lambda c: one_of(st.lists(c, min_size=1, max_size=4).map("".join), st.lists(c, max_size=3).map(lambda x: "[" + ",".join(x) + "]"), st.lists(st.tuples(c, c), max_size=2).map(lambda x: "{" + ",".join(a + ":" + b for a, b in x) + "}"),
                                            c.map(lambda x: "${id:" + x + "}"), c.map(lambda x: "'" + x + "'"), c.map(lambda x: '"' + x + '"')), max_leaves=6)
soups = one_of(st.lists(soup_tok, min_size=1, max_size=7).map("".join), balanced, balanced)


class Unknown(Exception):
    pass


DATA = {"n": {"a": 5, "b": None}, "l": ["x", 1.5], "s": "a", "n2": "n"}


def ref_eval(parse, form):
    """('ok', value) | ('reject',) | ('other',): by the reference"""
    try:
        tree = parse()
    except G.Reject:
        return ("reject",)
    calls = []

    def node(key):
        vals = {"n.a": 5, "l[0]": "x", "l[1]": 1.5, "s": "a", "n.b": None}
        if key in vals:
            return vals[key]
        raise Unknown

    def call(name, args, texts):
        if name not in ("id", "rec") or not args:
            raise Unknown
        if name == "rec":
            calls.append(args)
            return 0
        return args[0]
    ev = G.Eval(node, call)
    try:
        v = ev.text(tree) if form == "text" else ev.element(tree)
    except (Unknown, G.Undefined, TypeError):
        return ("other",)
    return ("ok", v, calls)


def run_soup(case, ctx):
    soup, form = case
    import warnings
    got = register()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            text = {"arg": "${rec:" + soup + "}", "text": soup, "around": "x${id:1}" + soup, "decode": soup}[form]
            if form == "decode":
                if "${" in text or not text or text == "???":
                    return
                want = ref_eval(lambda: G.parse_element(text), "element")
                cfg = OmegaConf.create({"t": text, "k": "${oc.decode:${t}}", **DATA})
            else:
                if "${" not in text:
                    return
                want = ref_eval(lambda: G.parse_text(text), "text")
                r = attempt(lambda: OmegaConf.create({"k": text, **DATA}))
                if want[0] == "reject":
                    if r[0] == "ok" or type(r[1]) is not GrammarParseError:
                        fail(f"{text!r} is not in the grammar, but setting it gives {show(r)}")
                    ctx.label("rejected")
                    return
                if r[0] != "ok":
                    fail(f"{text!r} is in the grammar, but setting it raised {r[1]!r}")
                cfg = r[1]
            if want[0] == "other":
                ctx.label("other")
                return
            r = attempt(lambda: cfg.k)
            if want[0] == "reject":
                if r[0] == "ok":
                    fail(f"{text!r} is not in the grammar, but evaluates to {show(r)}")
                ctx.label("rejected")
                return
            if form == "decode":
                def bad(v):
                    return any(k is None or bad(x) for k, x in v.items()) if isinstance(v, dict) else any(map(bad, v)) if isinstance(v, list) else isinstance(v, str) and ("${" in v or v == "???")
                if bad(want[1]):
                    return
                if r[0] == "ok" and OmegaConf.is_config(r[1]):
                    r = ("ok", OmegaConf.to_container(r[1]))
            elif want[2] and form == "arg":
                if r[0] != "ok" or not same([list(g) for g in got], want[2]):
                    fail(f"{text!r} passed {got!r} instead of {want[2]!r} ({show(r)})")
                ctx.hit("args")
                return
            if isinstance(want[1], (dict, list)) and form != "decode":
                return
            if isinstance(want[1], str) and want[1] == "???":
                return
            if r[0] != "ok" or not same(r[1], want[1]):
                fail(f"{text!r} ({form}) evaluates to {show(r)} instead of {want[1]!r}")
            ctx.hit(form)
    finally:
        OmegaConf.clear_resolvers()


LEGS = [
    Leg("spelled", lambda: spelled1, run_spelled, quick=9000,
        rule="1-3 elements generated with the values they denote (numbers with signs, underscores and exponents, keywords in any case, unquoted and quoted strings with escapes, lists, dicts, nested "
             "resolver calls and concatenations, optional whitespace), as resolver arguments, inside text and through oc.decode; non-trivial: not only an int"),
    Leg("embed", lambda: st.tuples(any_string, one_of(any_string, st.sampled_from(["", "x"]))), run_embed, quick=3500,
        rule="arbitrary strings written by the documented quoting and escaping rules: in both quotes and unquoted, as arguments, list items, dict values and keys, next to interpolations, and as whole "
             "values; non-trivial: a special character"),
    Leg("soup", lambda: st.tuples(soups, st.sampled_from(["arg", "arg", "text", "around", "decode", "decode"])), run_soup, quick=15000,
        rule="random sequences of tokens against an independent implementation of the grammar: acceptance and value; non-trivial: accepted and evaluated"),
]
