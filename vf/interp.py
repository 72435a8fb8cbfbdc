"""Generated configs with interpolations, and a reference resolver that works on the expressions' structure (never on text)."""
import copy
from hypothesis import strategies as st
from .gen import *

MISS = "???"


class Expr:
    """A leaf holding an interpolation: text as written, and its structure.
    ast: ("ref", up, [elem]) with up=None absolute or the number of leading dots; elem: str | ("n", ref)
         ("cat", [str | ref])"""
    def __init__(self, text, ast):
        self.text, self.ast = text, ast

    def __repr__(self):
        return f"Expr({self.text!r})"

    def __deepcopy__(self, memo):
        return self


class Err(Exception):
    def __init__(self, kind):
        self.kind = kind  # key | missing | cycle | other


class Skip(Exception):
    """The reference does not define this case."""


def children(v):
    return v.items() if isinstance(v, dict) else enumerate(v) if isinstance(v, list) else ()


def paths(tree, pre=()):
    yield pre, tree
    for k, x in children(tree):
        yield from paths(x, pre + (k,))


def at(tree, path):
    for p in path:
        tree = tree[p]
    return tree


def raw(tree):
    if isinstance(tree, dict):
        return {k: raw(x) for k, x in tree.items()}
    if isinstance(tree, list):
        return [raw(x) for x in tree]
    return tree.text if isinstance(tree, Expr) else tree


# ---------------------------------------------------------------- reference
def child(v, elem):
    """Key lookup by the text of a path element."""
    if isinstance(v, dict):
        if elem in v:
            return elem
        raise Err("key")
    if isinstance(v, list):
        try:
            i = int(elem)
        except ValueError:
            raise Err("other")
        if 0 <= i < len(v):
            return i
        raise Err("key")
    raise Err("other")


def ev_loc(tree, loc, stack):
    """Location -> ('loc', container location) | ('val', scalar)"""
    v = at(tree, loc)
    if isinstance(v, (dict, list)):
        return ("loc", loc)
    if isinstance(v, Expr):
        if loc in stack:
            raise Err("cycle")
        return ev(tree, v.ast, loc, stack | {loc})
    return ("val", v)


def ev(tree, ast, loc, stack):
    """Evaluates ast as the value of the leaf at loc."""
    if ast[0] == "ref":
        return ev_ref(tree, ast, loc, stack)
    out = []
    for part in ast[1]:
        if isinstance(part, str):
            out.append(part)
        else:
            r = ev_ref(tree, part, loc, stack)
            if r[0] == "loc":
                raise Skip
            out.append(str(r[1]))
    return ("val", "".join(out))


def ev_ref(tree, ast, loc, stack):
    _, up, elems = ast
    names = []
    for e in elems:
        if isinstance(e, str):
            names.append(e)
        else:
            r = ev_ref(tree, e[1], loc, stack)
            if r[0] == "loc" or not isinstance(r[1], str):
                raise Err("other")  # a nested key must be a string
            t = r[1]
            if not t or any(c in t for c in ".[]"):
                raise Skip
            names.append(t)
    if up is None:
        cur = ()
    else:
        if up > len(loc):
            raise Err("key")
        cur = loc[:len(loc) - up]
    for i, n in enumerate(names):
        v = at(tree, cur)
        if not isinstance(v, (dict, list)):
            raise Err("other")
        cur = cur + (child(v, n),)
        v = at(tree, cur)
        if isinstance(v, str) and v == MISS:
            raise Err("missing")
        if isinstance(v, Expr):
            r = ev_loc(tree, cur, stack)
            if i == len(names) - 1:
                return chk(r, loc)
            if r[0] == "val":
                raise Err("key-or-other" if r[1] is None else "other")
            cur = r[1]
    v = at(tree, cur)
    return chk(("loc", cur) if isinstance(v, (dict, list)) else ("val", v), loc)


def chk(r, loc):
    if r[0] == "loc" and loc[:len(r[1])] == r[1]:
        raise Err("cycle")  # refers to a container it is inside of
    return r


def convert(tree, loc, depth=0):
    """The resolved plain value of a location."""
    if depth > 25:
        raise Skip
    r = ev_loc(tree, loc, frozenset())
    if r[0] == "val":
        return r[1]
    v = at(tree, r[1])
    if isinstance(v, dict):
        return {k: convert(tree, r[1] + (k,), depth + 1) for k in v}
    return [convert(tree, r[1] + (i,), depth + 1) for i in range(len(v))]


# ---------------------------------------------------------------- generation
KEYS = ["a", "b", "c", "d", "foo", "x-y", "0", "true", "null", "é", "_k1"]
keys = one_of(st.sampled_from(KEYS[:4]), st.sampled_from(KEYS))
plain_leaf = one_of(st.integers(-2, 5), st.sampled_from([None, True, False, 1.5, "s", "", "a", "b", "1", b"x", Color.RED, Path("p/q"), MISS, "t t"]))
ref_spec = st.tuples(st.just("R"), st.integers(0, 40), st.sampled_from(["abs", "abs", "rel"]), st.integers(0, 255), st.sampled_from(["", "", "", "", "", "bogus", "deeper", "nested", "nested", "alias", "up"]))
spec = one_of(ref_spec, ref_spec, st.tuples(st.just("C"), st.lists(one_of(st.sampled_from(["x", "-", " ", "é:", "{}", "a.b", "0", "'"]), ref_spec), min_size=2, max_size=4)))
leaf = one_of(plain_leaf, spec, spec)


def skeleton(leaf=leaf, max_leaves=10):
    return st.dictionaries(keys, trees(leaf=leaf, keys=keys, max_leaves=max_leaves, width=4), min_size=1, max_size=5)


def is_spec(v):
    return isinstance(v, tuple) and v and v[0] in ("R", "C")


def spell(up, elems, bits):
    """Path text: dots or brackets chosen by bits."""
    out = "" if up is None else "." * up
    for i, e in enumerate(elems):
        t = e if isinstance(e, str) else "${" + spell(e[1][1], e[1][2], bits >> 3) + "}"
        br = (bits >> i) & 1
        if br:
            out += f"[{t}]"
        else:
            out += (t if i == 0 else "." + t)
    return out


def make_ref(tree, loc, s, helpers):
    _, n, mode, bits, tweak = s
    all_paths = [p for p, _ in paths(tree) if p]
    if n % 3:  # mostly values and containers one is not inside of, rather than other interpolations
        good = [p for p, v in paths(tree) if p and not is_spec(v) and not isinstance(v, Expr) and loc[:len(p)] != p]
        all_paths = good or all_paths
    target = all_paths[n % len(all_paths)]
    pre = ()
    if tweak == "alias":  # through another interpolation: replace a container prefix by an alias leaf
        cands = [(p, p[:i]) for p in all_paths for i in range(1, len(p)) if True]
        if cands:
            target, cont = cands[n % len(cands)]
            name = f"al{len(helpers)}"
            helpers[name] = Expr("${" + spell(None, list(map(str, cont)), 0) + "}", ("ref", None, [str(x) for x in cont]))
            pre = (name,)
            target = pre + target[len(cont):]
            mode = "abs"
    elems = [str(x) for x in target]
    up = None
    if mode == "rel":
        common = 0
        while common < min(len(loc), len(target) - 1) and common < len(loc) - 1 and loc[common] == target[common]:
            common += 1
        up = len(loc) - common
        elems = elems[common:]
        if tweak == "up":
            up += 1 + (bits % 3)
    if tweak == "bogus":
        elems[-1] = "zz"
    elif tweak == "deeper":
        elems.append(["zz", "0", "a"][bits % 3])
    elif tweak == "nested":
        j = bits % len(elems)
        name = f"h{len(helpers)}"
        helpers[name] = int(elems[j]) if elems[j].isdigit() and bits > 240 else elems[j]
        elems[j] = ("n", ("ref", None, [name]))
    ast = ("ref", up, elems)
    return "${" + spell(up, elems, bits if bits % 3 else 0) + "}", ast


def make_expr(tree, loc, s, helpers):
    if s[0] == "R":
        t, a = make_ref(tree, loc, s, helpers)
        return Expr(t, a)
    text, parts = "", []
    for p in s[1]:
        if isinstance(p, str):
            text += p
            parts.append(p)
        else:
            t, a = make_ref(tree, loc, p, helpers)
            text += t
            parts.append(a)
    if not any(not isinstance(p, str) for p in parts):
        return text
    if len(parts) == 1:
        return Expr(text, parts[0])
    return Expr(text, ("cat", parts))


def build(skel):
    """Skeleton with spec leaves -> tree with Expr leaves (helper keys appended at the root)."""
    helpers = {}

    def fill(v, loc):
        if isinstance(v, dict):
            return {k: fill(x, loc + (k,)) for k, x in v.items()}
        if isinstance(v, list):
            return [fill(x, loc + (i,)) for i, x in enumerate(v)]
        if is_spec(v):
            return make_expr(skel, loc, v, helpers)
        return v
    tree = fill(skel, ())
    tree.update(helpers)
    return tree


def n_exprs(tree):
    return sum(isinstance(v, Expr) for _, v in paths(tree))


# ---------------------------------------------------------------- simple references, as plain data ("X", up, [elem...])
def xrefs(elems=st.sampled_from(["a", "b", "c", "d", "0", "zz"])):
    return st.tuples(st.just("X"), st.sampled_from([None, None, None, 1, 2]), st.lists(elems, min_size=1, max_size=2))


def from_x(v):
    """Replaces ("X", up, elems) leaves by Expr, tuples by lists."""
    if isinstance(v, tuple) and v and v[0] == "X":
        return Expr("${" + spell(v[1], v[2], 0) + "}", ("ref", v[1], list(v[2])))
    if isinstance(v, dict):
        return {k: from_x(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [from_x(x) for x in v]
    return v


class Conflict(Exception):
    """A dict merged over a list or a list over a dict."""


def merge_into(root, dest, src, mode="REPLACE", loc=()):
    """Reference merge of untyped data with Expr leaves, in place. root: the config dest is part of, at loc."""
    if isinstance(dest, list):
        if not isinstance(src, list):
            raise Conflict
        items = copy.deepcopy(src)
        if mode == "REPLACE":
            dest[:] = items
        elif mode == "EXTEND":
            dest.extend(items)
        else:
            for x in items:
                if not any(same_item(x, y) for y in dest):
                    dest.append(x)
        return
    if not isinstance(src, dict):
        raise Conflict
    for k, s in src.items():
        missing = isinstance(s, str) and s == MISS
        if k not in dest:
            dest[k] = copy.deepcopy(s)
            continue
        if missing:
            continue
        d = dest[k]
        if isinstance(d, Expr) and isinstance(s, (dict, list)):
            try:
                r = ev_loc(root, loc + (k,), frozenset())
                if r[0] == "loc":
                    d = dest[k] = copy.deepcopy(at(root, r[1]))
            except Err:
                pass
        if isinstance(s, (dict, list)) and isinstance(d, (dict, list)):
            merge_into(root, d, s, mode, loc + (k,))
        else:
            dest[k] = copy.deepcopy(s)


def same_item(a, b):
    if isinstance(a, Expr) or isinstance(b, Expr):
        return isinstance(a, Expr) and isinstance(b, Expr) and a.text == b.text
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and all(same_item(a[k], b[k]) for k in a)
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(map(same_item, a, b))
    return bool(a == b)
