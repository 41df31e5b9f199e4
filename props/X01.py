"""Memory safety of the compiled kernels.

The workloads of the other properties run with every kernel compiled with
bounds checks (NUMBA_BOUNDSCHECK=1): an access outside an array raises
IndexError instead of reading or overwriting a neighbour."""
import traceback

import numpy as np

from vf import borrow
from vf.core import Skip, Violation, group

ASSUMPTIONS = [
    "numba's bounds checks see every indexed access of the compiled kernels; "
    "the arrays handed over obey the documented shapes and index ranges",
]

USE = ["A01", "A02", "R01", "R03", "R04", "R05", "M01", "M02", "M04", "C01",
       "K01", "K02", "G03", "L01", "U02", "D01", "A03", "R02", "K03"]
SKIP = {("R01", "parallel"), ("M01", "spectral_dask")}

ARMED = []


def armed(ctx):
    """The checker itself must notice an access out of bounds."""
    if not ARMED:
        import numba

        @numba.njit
        def peek(a, i):
            return a[i]
        try:
            peek(np.zeros(3), 3)
            ARMED.append(False)
        except IndexError:
            ARMED.append(True)
    if not ARMED[0]:
        raise RuntimeError("the bounds checker is not armed")
    ctx.count("bounds checker armed")


def out_of_bounds(v):
    return ("IndexError" in v.message or "out of bounds" in v.message
            or "SystemError" in v.message)


def wrap(g):
    def run(ctx, variant):
        armed(ctx)
        orig = type(ctx).call

        def call(fn, *args, **kwargs):
            ctx.count("checked calls")
            return orig(ctx, fn, *args, **kwargs)
        ctx.call = call
        try:
            g.fn(ctx, variant)
        except Violation as v:
            if v.monitor == "no-exception" and out_of_bounds(v):
                raise Violation("bounds", v.message)
            # what the values should be is another property's business
            ctx.count("workload stopped early")
        except (Skip, MemoryError):
            raise
        except IndexError:
            raise Violation("bounds", traceback.format_exc()[-3000:])
        except Exception:
            ctx.count("workload stopped early")
        finally:
            del ctx.call
        ctx.count("cases under the bounds checker")
    run.__doc__ = "workload of %s %s: %s" % (g.prop, g.name, g.rule)
    return run


for _g in borrow.workloads(USE, SKIP):
    group("X01", "%s %s" % (_g.prop, _g.name),
          quick=max(2, min(12, _g.cases["quick"])),
          thorough=max(10, _g.cases["quick"]),
          variants={"quick": borrow.spread(_g.variants["quick"], 3),
                    "thorough": _g.variants["thorough"]},
          require=["bounds checker armed", "checked calls"],
          env=dict(_g.env, NUMBA_BOUNDSCHECK="1"), weight=_g.weight,
          rule="bounds-checked workload of %s/%s" % (_g.prop, _g.name))(
              wrap(_g))
