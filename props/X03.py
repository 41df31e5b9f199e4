"""Values, not storage.

The workloads of the other properties run with a monitor around every call of
a function of the package that repeats the call with the same values stored
differently: Fortran ordered, strided, reversed, or read-only; the result has
to be the same."""
import types

import numpy as np

from props import X02
from vf import borrow
from vf.core import Skip, Violation, group

ASSUMPTIONS = [
    "a repetition may differ by rounding (loops over other strides are "
    "vectorised differently), not by more",
]

USE = ["A01", "A02", "R01", "R03", "R04", "R05", "M01", "M02", "M03", "M04",
       "C01", "K01", "K02", "G01", "G03", "L01", "L02", "U02", "D01"]
SKIP = {("G03", "gridding, bounds sanitizer"),
        ("G03", "degridding, bounds sanitizer"),
        ("U02", "splines, bounds sanitizer")}

MORE = {"R01": 4, "R05": 6, "K01": 3, "M01": 3}      # variants per workload

KINDS = ["strided", "fortran", "readonly", "reversed"]


def stored(a, kind):
    """The values of *a*, stored in another way."""
    if kind == "fortran":
        return np.array(a, order="F")
    if kind == "strided":
        b = np.full(a.shape + (2,), 0x5a, np.uint8).astype(a.dtype)
        b[..., 0] = a
        return b[..., 0]
    if kind == "reversed":
        rev = (slice(None, None, -1),) * a.ndim
        return np.array(a[rev], order="C")[rev]
    b = np.array(a)
    b.flags.writeable = False
    return b


def restore(x, kind, seen, depth=0):
    """x with every array stored in another way (shared ones stay shared)."""
    if type(x) is np.ndarray:
        if x.dtype.kind not in "fciub" or not x.ndim:
            return x
        if id(x) not in seen:
            seen[id(x)] = (x, stored(x, kind))
        return seen[id(x)][1]
    if depth < 4:
        if type(x) is dict:
            return {k: restore(v, kind, seen, depth + 1)
                    for k, v in x.items()}
        if type(x) in (list, tuple):
            return type(x)(restore(v, kind, seen, depth + 1) for v in x)
    return x


def again(ctx, fn, args, kwargs, first, kind):
    ref = X02.arrays(first)
    if not ref:
        return
    name = getattr(fn, "__name__", str(fn))
    seen = {}
    args, kwargs = restore((args, kwargs), kind, seen)
    if not seen:
        return
    try:
        got = X02.arrays(fn(*args, **kwargs))
    except Exception as e:
        raise Violation("storage", "%s raised %s: %s for %s arrays" % (
            name, type(e).__name__, e, kind))
    ctx.count("storage")
    ctx.count("storage: " + kind)
    d = X02.same(ref, got)
    if d:
        raise Violation("storage", "%s for %s arrays: %s" % (name, kind, d))


def wrap(g):
    def run(ctx, variant):
        def call(fn, *args, **kwargs):
            first = fn(*args, **kwargs)
            if not X02.ours(fn) or isinstance(fn, (type, types.MethodType)):
                return first
            if X02.lazy(first) or X02.lazy((args, kwargs)):
                return first
            try:
                again(ctx, fn, args, kwargs, first,
                      KINDS[ctx.case % len(KINDS)])
            except Violation as v:
                raise X02.Mine(v)
            return first
        ctx.call = call
        try:
            g.fn(ctx, variant)
        except X02.Mine as m:
            raise m.v
        except (Skip, MemoryError):
            raise
        except Exception:
            # what the values should be is another property's business
            ctx.count("workload stopped early")
        finally:
            del ctx.call
        ctx.count("cases under the monitor")
    return run


for _g in borrow.workloads(USE, SKIP):
    group("X03", "%s %s" % (_g.prop, _g.name),
          quick=max(2, min(8, _g.cases["quick"])),
          thorough=max(12, _g.cases["quick"]),
          variants={"quick": borrow.spread(
              _g.variants["quick"], MORE.get(_g.prop, 2)),
                    "thorough": _g.variants["thorough"]},
          require=[], env=_g.env, weight=_g.weight,
          rule="workload of %s/%s stored differently" % (_g.prop, _g.name))(
              wrap(_g))
