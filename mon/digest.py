"""Digests of the objects that computations must leave as they were."""
import hashlib
import numpy as np
import pandas as pd
from maxlike.tensor.tensor import BaseTensor
from maxlike.maxlike_base import Param


def mapping(m):
    return () if m is None else tuple(int(k) for k in m)


def canon(o, flags=True):
    """nested tuples that determine the content of an object"""
    if isinstance(o, np.ma.MaskedArray):
        return ("ma", canon(o.data, False), np.ma.getmaskarray(o).tobytes())
    if isinstance(o, np.ndarray):
        h = o.tobytes() if o.dtype != object else repr(o.tolist())
        return ("arr", o.shape, str(o.dtype), h, bool(o.flags.writeable) if flags else 0)
    if isinstance(o, BaseTensor):
        els = getattr(o, "elements", None)
        if els is not None:
            return ("gt", o.x_dim, o.y_dim, o.n, o.dim, tuple(canon(e, False) for e in els))
        return ("t", o.x_dim, o.y_dim, o.n, o.dim, canon(o.values, False),
                mapping(o.x_map), mapping(o.y_map))
    if isinstance(o, Param):
        return ("param", canon(o.values, False), canon(o.mask, False))
    if isinstance(o, pd.MultiIndex):
        return ("mi", tuple(o.names), tuple(map(repr, o.tolist())),
                tuple(tuple(map(repr, l)) for l in o.levels),
                tuple(bytes(np.asarray(c)) for c in o.codes))
    if isinstance(o, pd.Index):
        return ("idx", o.name, str(o.dtype), tuple(map(repr, o.tolist())))
    if isinstance(o, pd.Series):
        return ("ser", o.name, str(o.dtype), canon(o.index), tuple(map(repr, o.tolist())),
                bool(o.values.flags.writeable))
    if isinstance(o, pd.DataFrame):
        return ("df", canon(o.index), canon(o.columns),
                tuple(canon(o.iloc[:, k]) for k in range(o.shape[1])))
    if isinstance(o, dict):
        return ("dict", tuple((repr(k), canon(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(canon(v) for v in o))
    if isinstance(o, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, o))))
    if o is None or isinstance(o, (int, float, str, bytes, complex, np.generic)):
        return (type(o).__name__, repr(o))
    return ("obj", id(o))


class Watch:
    """
    objects that have to keep their content; in order not to compare an object
    with itself only, digests are taken once, before the computations
    """

    def __init__(self, ctx):
        self.ctx, self.items = ctx, []

    def add(self, name, *objs):
        for o in objs:
            self.items.append((name, o, canon(o)))
        return objs[0] if objs else None

    def verify(self, op):
        for name, o, c in self.items:
            self.ctx.event("judged:operand unchanged")
            d = canon(o)
            if d != c:
                from .core import Violation
                raise Violation("operand changed", "%s changed %s: %s -> %s" % (
                    op, name, str(c)[:300], str(d)[:300]))
