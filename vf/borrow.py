"""Borrows the workloads of other properties for cross-cutting monitors."""
import importlib

from vf import core


def workloads(props, skip=()):
    """The groups registered by the named properties, in order."""
    out = []
    for p in props:
        importlib.import_module("props." + p)
        for name, g in core.GROUPS[p].items():
            # (very large inputs are too slow under the other monitors)
            if (p, name) not in skip and p not in skip and name != "bulk":
                out.append(g)
    return out


def spread(variants, n):
    """At most n of the variants, spread evenly over the list, first and last
    (usually the simplest and the richest) included."""
    v = list(variants)
    if n is None or len(v) <= n:
        return v
    return [v[(i * (len(v) - 1)) // max(n - 1, 1)] for i in range(n)]
