"""C17: key paths, against walking the tree by hand."""
import copy
from hypothesis import strategies as st
from omegaconf import DictConfig, ListConfig, OmegaConf, flag_override
from omegaconf.errors import (ConfigKeyError, InterpolationKeyError, InterpolationResolutionError, InterpolationToMissingValueError,
                              MissingMandatoryValue)
from ..core import Leg, fail
from ..gen import *
from .. import interp as I
from .c14 import KINDS, raw_node

DFLT = "the default"
NAMES = ["a", "b", "c", "d", "zz", "0", "1", "-1", "7", "é", "true", "x-y", " ", "???", "$", "0x1", "k:v", "1e1"]
keys = one_of(I.keys, st.sampled_from(NAMES), st.text(min_size=1, max_size=3)).map(lambda s: "".join(c for c in s if c not in ".[]") or "e").filter(lambda s: "${" not in s)
lv = one_of(I.plain_leaf, I.plain_leaf, I.spec, st.just(I.MISS))


def skel(leaf=lv, keys=keys):
    return st.dictionaries(keys, trees(leaf=leaf, keys=keys, max_leaves=10, width=4), min_size=1, max_size=4)


# ---------------------------------------------------------------- select
def sel(tree, base, up, names, tom, tor):
    """Reference select: ('loc', where) | ('val', value) | ('none',) | ('exc', classes)."""
    if up > len(base):
        return ("exc", (ConfigKeyError,))
    cur = base[:len(base) - up]
    for i, n in enumerate(names):
        v = I.at(tree, cur)
        if isinstance(v, list):
            try:
                j = int(n)
            except ValueError:
                return ("exc", (TypeError,)) if tor else ("none",)
            if not 0 <= j < len(v):
                return ("none",)
            cur += (j,)
        else:
            if n not in v:
                return ("none",)
            cur += (n,)
        v = I.at(tree, cur)
        last = i == len(names) - 1
        if isinstance(v, str) and v == I.MISS:
            return ("exc", (MissingMandatoryValue,)) if tom else ("none",)
        if isinstance(v, I.Expr):
            try:
                r = I.ev_loc(tree, cur, frozenset())
            except I.Err as e:
                return ("exc", (KINDS[e.kind],)) if tor else ("none",)
            if last:
                return r
            if r[0] == "val":
                return ("none",)
            cur = r[1]
        elif not isinstance(v, (dict, list)) and not last:
            return ("none",)
    v = I.at(tree, cur)
    return ("loc", cur) if isinstance(v, (dict, list)) else ("val", v)


def norm(elems):
    """names as they come out of the spelled path (an int index in canonical form)"""
    return [str(e) for e in elems]


query = st.tuples(st.integers(0, 60), st.integers(0, 60), st.integers(0, 255), st.sampled_from(["abs", "abs", "rel", "rel", "root"]),
                  st.sampled_from(["", "", "", "", "last", "extra", "mid", "up", "int"]), st.sampled_from(NAMES), st.booleans(), st.booleans(), st.booleans())


def run_select(case, ctx):
    sk, queries = case
    tree = I.build(sk)
    cfg = OmegaConf.create(I.raw(tree))
    before = cs(cfg)
    locs = [p for p, _ in I.paths(tree)]
    conts = [p for p, v in I.paths(tree) if isinstance(v, (dict, list))]
    for nb, nt, bits, mode, tweak, name, dflt, tom, tor_ in queries:
        tor = not tor_
        base, target = conts[nb % len(conts)], locs[nt % len(locs)]
        if mode == "root":
            base = ()
        if mode == "abs" or mode == "root":  # below base, without leading dot
            cands = [p for p in locs if p[:len(base)] == base]
            target = cands[nt % len(cands)]
            up, elems = 0, norm(target[len(base):])
        else:
            k = 0
            while k < min(len(base), len(target)) and base[k] == target[k]:
                k += 1
            up, elems = len(base) - k, norm(target[k:])
        if tweak == "last" and elems:
            elems[-1] = name
        elif tweak == "extra":
            elems.append(name)
        elif tweak == "mid" and elems:
            elems[bits % len(elems)] = name
        elif tweak == "up":
            up += 1 + bits % 2
            mode = "rel"
        elif tweak == "int" and elems:
            elems[-1] = str(bits % 9 - 4)
        key = I.spell(up + 1 if mode == "rel" else None, elems, bits if bits % 4 else 0)
        try:
            want = sel(tree, base, up if mode == "rel" else 0, elems, tom, tor)
        except I.Skip:
            continue
        kw = {"default": DFLT} if dflt else {}
        if tom:
            kw["throw_on_missing"] = True
        if not tor:
            kw["throw_on_resolution_failure"] = False
        node = raw_node(cfg, base)
        r = attempt(lambda: OmegaConf.select(node, key, **kw))
        where = f"select(node at {base}, {key!r}, {kw}) of {show(I.raw(tree), 700)}"
        if want[0] == "exc":
            if r[0] != "exc" or not isinstance(r[1], want[1]):
                fail(f"{where}: expected {want[1][0].__name__}, got {show(r)}")
            ctx.label("raises")
            continue
        if r[0] == "exc":
            fail(f"{where}: expected {show(want)}, raised {type(r[1]).__name__}: {r[1]}")
        if want[0] == "none":
            if r[1] is not (DFLT if dflt else None):
                fail(f"{where}: expected the default, got {show(plain(r[1]))}")
            ctx.label("default")
        elif want[0] == "val":
            if canon(r[1]) != canon(want[1]):
                fail(f"{where}: expected {want[1]!r}, got {show(plain(r[1]))}")
            ctx.hit("value")
        else:
            if r[1] is not raw_node(cfg, want[1]):
                fail(f"{where}: expected the container at {want[1]}, got {show(plain(r[1]))}")
            ctx.hit("container")
    if cs(cfg) != before:
        fail(f"select changed {show(I.raw(tree))} to {show(plain(cfg))}")


# ---------------------------------------------------------------- full keys
def full(loc, tree):
    out = ""
    for i, k in enumerate(loc):
        out += f"[{k}]" if isinstance(I.at(tree, loc[:i]), list) else (k if not out else "." + k)
    return out


def run_full(case, ctx):
    tree, as_list, n = case
    tree = I.from_x(tree)
    if as_list:
        tree = [tree, I.MISS]
    cfg = OmegaConf.create(I.raw(tree))
    miss = set()
    for loc, v in I.paths(tree):
        node = raw_node(cfg, loc)
        fk = node._get_full_key(None)
        if fk != full(loc, tree):
            fail(f"full key of the node at {loc} of {show(I.raw(tree))} is {fk!r}")
        if not loc:
            continue
        if isinstance(v, str) and v == I.MISS:
            miss.add(fk)
            r = attempt(lambda: OmegaConf.select(cfg, fk, throw_on_missing=True))
            if r[0] != "exc" or not isinstance(r[1], MissingMandatoryValue) or r[1].full_key != fk:
                fail(f"selecting {fk!r} of {show(I.raw(tree))}: {show(r)} {getattr(r[1], 'full_key', None)!r} instead of a missing value")
        elif not isinstance(v, I.Expr):
            r = attempt(lambda: OmegaConf.select(cfg, fk))
            if r[0] != "ok" or (r[1] is not node if isinstance(v, (dict, list)) else canon(r[1]) != canon(v)):
                fail(f"selecting the full key {fk!r} of {show(I.raw(tree))}: {show(r)}")
        if len(loc) > 1:
            ctx.hit()
    got = OmegaConf.missing_keys(cfg)
    if got != miss:
        fail(f"missing_keys of {show(I.raw(tree))} = {got}, expected {miss}")
    if OmegaConf.missing_keys(I.raw(tree)) != miss:
        fail(f"missing_keys of plain {show(I.raw(tree))} = {OmegaConf.missing_keys(I.raw(tree))}, expected {miss}")
    conts = [p for p, v in I.paths(tree) if isinstance(v, (dict, list))]
    sub = conts[n % len(conts)]
    want = {full(p, tree) for p, v in I.paths(tree) if p[:len(sub)] == sub and isinstance(v, str) and v == I.MISS}
    got = OmegaConf.missing_keys(raw_node(cfg, sub))
    if got != want:
        fail(f"missing_keys of the node at {sub} of {show(I.raw(tree))} = {got}, expected {want}")
    if miss:
        ctx.label("missing")


# ---------------------------------------------------------------- update
upd_leaf = one_of(I.plain_leaf, I.plain_leaf, I.xrefs())
upd_value = one_of(upd_leaf, trees(leaf=upd_leaf, keys=keys, max_leaves=5, width=3), st.dictionaries(keys, upd_leaf, max_size=2))
upd = st.tuples(st.integers(0, 60), st.lists(st.sampled_from(NAMES), max_size=2), st.integers(0, 1), st.integers(0, 255), upd_value,
                st.sampled_from([True, True, False]), st.booleans(), st.sampled_from([None, None, "force", "struct"]))


def run_update(case, ctx):
    tree, upds = case
    tree = I.from_x(tree)
    cfg = OmegaConf.create(I.raw(tree))
    for n, extra, drop, bits, value, merge, as_cfg, mode in upds:
        locs = [p for p, _ in I.paths(tree)]
        loc = locs[n % len(locs)]
        names = list(loc[:len(loc) - drop]) + list(extra)
        if not names:
            continue
        key = I.spell(None, [str(x) for x in names], bits if bits % 4 else 0)
        before = cs(cfg)
        new = copy.deepcopy(tree)
        val = I.from_x(value)
        # reference
        cur, where, ok = new, (), True
        for i, nm in enumerate(names):
            if isinstance(cur, list):
                try:
                    nm = int(nm)
                except (ValueError, TypeError):
                    ok = None
                    break
                if not 0 <= nm < len(cur):
                    ok = None  # indexing errors are covered by the list properties
                    break
            if i == len(names) - 1:
                break
            if nm not in (cur if isinstance(cur, dict) else range(len(cur))) or not isinstance(cur[nm], (dict, list)):
                cur[nm] = {}
            cur, where = cur[nm], where + (nm,)
        if not ok:
            continue
        exists = nm in cur if isinstance(cur, dict) else True
        added = not exists or sum(1 for _ in I.paths(new)) != sum(1 for _ in I.paths(tree))
        conflict = False
        if merge and isinstance(val, (dict, list)) and exists and isinstance(cur[nm], (dict, list)):
            try:
                I.merge_into(new, cur[nm], val, "REPLACE", where + (nm,))
            except I.Conflict:
                conflict = True
            except I.Skip:
                continue
            ctx.label("merged")
        else:
            cur[nm] = copy.deepcopy(val)
        raw_val = I.raw(val)
        arg = OmegaConf.create(copy.deepcopy(raw_val)) if as_cfg and isinstance(raw_val, (dict, list)) else copy.deepcopy(raw_val)
        arg0 = cs(arg)
        kw = {} if merge else {"merge": False}
        if mode:
            OmegaConf.set_struct(cfg, True)
        if mode == "force":
            kw["force_add"] = True
        r = attempt(lambda: OmegaConf.update(cfg, key, arg, **kw))
        if mode:
            OmegaConf.set_struct(cfg, None)
        tag = f"update({show(I.raw(tree), 500)}, {key!r}, {show(raw_val)}, {kw}{', struct' if mode else ''})"
        if mode == "struct" and conflict:
            return
        if mode == "struct" and cs(I.raw(new)) != before:
            # whether struct mode allows this is C12's business; here: all or what was asked for
            if r[0] == "exc":
                return
            if added:
                fail(f"{tag} added a key in struct mode: {show(plain(cfg))}")
        if conflict:
            if r[0] != "exc" or not isinstance(r[1], TypeError):
                fail(f"{tag}: a dict and a list at the same place should be a TypeError, got {show(r)}")
            return
        if mode == "force" and r[0] == "exc" and merge and isinstance(val, dict):
            return  # the path is created, merging new keys into an existing struct node is still refused
        if r[0] != "ok":
            fail(f"{tag} raised {type(r[1]).__name__}: {r[1]}")
        tree = new
        if cs(cfg) != cs(I.raw(tree)):
            fail(f"{tag} gives {show(plain(cfg), 600)}, expected {show(I.raw(tree), 600)}")
        if not isinstance(val, I.Expr) and not (isinstance(val, str) and val == I.MISS):
            s = attempt(lambda: OmegaConf.select(cfg, key))
            want = cs(I.raw(cur[nm]))
            if s[0] != "ok" or cs(s[1]) != want:
                fail(f"after {tag}, select gives {show(s)}")
        if isinstance(arg, (dict, list)) or OmegaConf.is_config(arg):
            if cs(arg) != arg0:
                fail(f"{tag} changed the value passed in to {show(plain(arg))}")
            scramble(arg)
            if cs(cfg) != cs(I.raw(tree)):
                fail(f"after {tag}, changing the value passed in changes the config to {show(plain(cfg))}")
        if extra or len(names) > 1:
            ctx.hit()
        if mode == "force":
            ctx.label("force_add")


# ---------------------------------------------------------------- update through containers that are interpolations
def run_alias(case, ctx):
    target, kind, chain, rel, hops, value, merge, force, struct = case
    box = (DictConfig if kind == "dict" else ListConfig)
    depth = "w" if rel else None
    ref = "..t" if rel else "t"
    if chain:
        ref = ref.replace("t", "m")

    def build(alias):
        m = DictConfig("${t}") if chain == "box" else "${t}"
        b = box("${" + ref + "}") if alias else 0
        data = {"t": copy.deepcopy(target), "m": m, "q": {"z": 1}}
        data.update({"w": {"b": b}} if rel else {"b": b})
        if target == "ABSENT":
            del data["t"]
        return OmegaConf.create(data)
    cfg, twin = build(True), build(True)
    rest, cur, fits = [], target, True
    for h in hops:
        if isinstance(cur, list):
            if not cur:
                fits = False
                break
            h = h[0] % len(cur)
            rest.append(str(h))
            cur = cur[h]
        elif isinstance(cur, dict):
            ks = sorted(k for k in cur if isinstance(k, str))
            h = ks[h[0] % len(ks)] if ks and h[1] else h[2]
            rest.append(h)
            cur = cur.get(h)
        else:
            rest.append(h[2])
            cur = None
    if not fits or not rest:
        return
    via = "w.b" if rel else "b"
    key = ".".join([via] + rest)
    kw = {"merge": merge, **({"force_add": True} if force else {})}
    tag = f"update({plain(cfg)}, {key!r}, {show(value)}, {kw}{', struct' if struct else ''})"
    before = cs(cfg)
    is_box = isinstance(target, (dict, list))
    if struct:
        OmegaConf.set_struct(cfg, True)
        OmegaConf.set_struct(twin, True)
    r = attempt(lambda: OmegaConf.update(cfg, key, copy.deepcopy(value), **kw))
    if struct:
        OmegaConf.set_struct(cfg, None)
        OmegaConf.set_struct(twin, None)
    if is_box:
        if struct:
            OmegaConf.set_struct(twin, True)
        w = attempt(lambda: OmegaConf.update(twin, ".".join(["t"] + rest), copy.deepcopy(value), **kw))
        if struct:
            OmegaConf.set_struct(twin, None)
        if r[0] != w[0] or r[0] == "exc" and type(r[1]) is not type(w[1]):
            fail(f"{tag}: {show(r)}, at the target itself: {show(w)}")
        if cs(cfg) != cs(twin):
            fail(f"{tag} gives {show(plain(cfg))}, at the target itself: {show(plain(twin))}")
        ctx.hit("container")
    elif target == "ABSENT" or isinstance(target, str) and target == I.MISS:
        if r[0] != "exc" or not isinstance(r[1], InterpolationResolutionError):
            fail(f"{tag}: {show(r)}, expected an interpolation error")
        if cs(cfg) != before:
            fail(f"{tag} failed and left {show(plain(cfg))}")
        ctx.hit("unresolvable")
    elif not struct:
        # a single value on the way is replaced by a dict
        want = value
        for k in reversed(rest):
            want = {k: want}
        if r[0] != "ok":
            fail(f"{tag}: {show(r)}")
        exp = OmegaConf.to_container(build(False))
        (exp["w"] if rel else exp)["b"] = want
        if cs(cfg) != cs(exp):
            fail(f"{tag} gives {show(plain(cfg))}, expected {show(exp)}")
        ctx.hit("single value")


alias_case = st.tuples(one_of(trees(leaf=I.plain_leaf, keys=keys, max_leaves=6, width=3), st.dictionaries(keys, trees(leaf=I.plain_leaf, keys=keys, max_leaves=4, width=2), min_size=1, max_size=3),
                              I.plain_leaf, st.none(), st.just(I.MISS), st.just("ABSENT")),
                       st.sampled_from(["dict", "list"]), st.sampled_from([None, None, "box", "plain"]), st.booleans(),
                       st.lists(st.tuples(st.integers(0, 9), st.sampled_from([True, True, False]), st.sampled_from(NAMES)), min_size=1, max_size=3),
                       one_of(I.plain_leaf, st.dictionaries(keys, I.plain_leaf, max_size=2)), st.booleans(), st.booleans(), st.sampled_from([False, False, True]))

data = skel(leaf=one_of(I.plain_leaf, I.xrefs(), st.just(I.MISS)))
LEGS = [
    Leg("select", lambda: st.tuples(one_of(skel(keys=I.keys), skel(leaf=one_of(I.plain_leaf, st.just(I.MISS)))), st.lists(query, min_size=2, max_size=8)), run_select, quick=7200,
        rule="configs with interpolations and missing values; paths to every kind of place (existing, altered, too long, climbing) in dot and bracket spellings from the root and from inner nodes, with and without default and throw flags; non-trivial: a value or container was selected"),
    Leg("full_keys", lambda: st.tuples(data, st.booleans(), st.integers(0, 50)), run_full, quick=4000,
        rule="every node's full key and every name in missing_keys selected; non-trivial: nested nodes"),
    Leg("update", lambda: st.tuples(data, st.lists(upd, min_size=1, max_size=4)), run_update, quick=8000,
        rule="histories of update at existing and new paths with scalars, interpolations, dicts, lists and configs, merge on/off, force_add; non-trivial: a nested or new path"),
    Leg("alias", lambda: alias_case, run_alias, quick=3000,
        rule="update at a path that passes through a container which is itself an interpolation (directly or by another alias, absolute or relative) to a container, a single value, None, a missing or absent value; "
             "the same update at the target is the oracle; non-trivial: the update is judged"),
]
