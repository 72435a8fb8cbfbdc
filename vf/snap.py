"""Snapshots of configs: every node with its type, flags, key and raw value."""
from .gen import *


def meta(n):
    m = n._metadata
    return (type(n).__name__, str(m.ref_type), m.ref_type, m.object_type, m.optional, m.key, dict(m.flags), m.flags_root, getattr(m, "key_type", None), getattr(m, "element_type", None),
            n.__dict__.get("enum_type"))


def raw(n):
    from omegaconf.base import UnionNode
    v = n._value()
    if isinstance(n, UnionNode) and not isinstance(v, (str, type(None))):
        return meta(v), canon(v._value())
    return None if isinstance(v, (dict, list)) else canon(v)


def walk(cfg):
    return [(p, meta(n), raw(n)) for p, n in nodes_of(cfg)]
