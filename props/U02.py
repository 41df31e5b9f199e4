"""Cubic splines."""
import numpy as np

from vf.core import group

ASSUMPTIONS = [
    "knots are finite, increasing and not closer than a millionth of their "
    "span",
    "the reference is scipy's CubicSpline with the same end conditions; "
    "beyond the knots the splines continue as the parabola that matches "
    "value, slope and curvature at the end",
]


def knots(rng, n):
    kind = rng.randint(3)
    if kind == 0:
        x = np.arange(n) * rng.uniform(0.1, 3)
    elif kind == 1:
        x = np.cumsum(rng.uniform(0.05, 2.0, size=n))
    else:
        x = np.cumsum(10.0**rng.uniform(-2, 1, size=n))
    return x + rng.choice([0, -5, 100, 1e4])


@group("U02", "splines", quick=150, thorough=3000,
       variants=[(2, 2), (1, 2), (2, 1), (1, 1)],
       require=["knots reproduced", "interpolated", "slope", "curvature",
                "end conditions", "beyond the knots", "tridiagonal system",
                "any order of points", "inputs unmodified"])
def splines(ctx, variant):
    """random knots, values and end conditions, evaluated inside and beyond
    the knots in any order; non-trivial: at least four knots"""
    run(ctx, variant)


@group("U02", "splines, bounds sanitizer", quick=100, thorough=800,
       variants=[(2, 2), (1, 1)], env={"NUMBA_BOUNDSCHECK": "1"},
       require=["knots reproduced"])
def splines_bounds(ctx, variant):
    """the same with every array access checked; non-trivial: at least four
    knots"""
    run(ctx, variant)


def run(ctx, variant):
    from scipy.interpolate import CubicSpline
    from africanus.averaging import splines as sp
    rng = ctx.rng
    n = int(rng.choice([2, 3, 4, 5, 8, 17, 40]))
    if rng.rand() < 0.02:
        n = int(rng.randint(200, 3000))
    x = knots(rng, n)
    span = np.diff(x)
    y = rng.standard_normal(n) * 10.0**rng.randint(-2, 4)
    lv, rv = rng.standard_normal(2) * (rng.rand(2) < 0.7)
    lt, rt = variant
    ctx.sig(n=n, lv=bool(lv), rv=bool(rv), x0=float(x[0]))
    if n < 4:
        ctx.trivial()
    kx, ky = x.copy(), y.copy()
    if (lt, rt) == (2, 2) and lv == 0 and rv == 0:
        args = ()
    else:
        args = (lt, rt, float(lv), float(rv))
    b = ctx.call(sp.solve_trid_system, x, y, *args)
    s = ctx.call(sp.fit_cubic_spline, x, y, *args)
    ctx.equal("inputs unmodified", x, kx)
    ctx.equal("inputs unmodified", y, ky)
    ref = CubicSpline(x, y, bc_type=((lt, lv), (rt, rv)))
    # what a rounding error in the data amounts to
    big = max(np.abs(ref.c[k] * span**(3 - k)).max() for k in range(4))
    hmin = span.min()
    tol = 3e-11 * big * max(1.0, np.abs(x).max() * 1e-3 / hmin)
    d2 = ref(x, 2)
    ctx.close("tridiagonal system", b, d2 / 2, rtol=1e-7,
              atol=10 * tol / hmin**2)
    ev = sp.evaluate_spline
    ctx.close("knots reproduced", ctx.call(ev, s, x), y, rtol=1e-12,
              atol=tol)
    # continuity and values in between, in any order
    t = rng.uniform(x[0], x[-1], size=rng.randint(1, 30))
    if rng.rand() < 0.4:
        t = np.concatenate([t, x])
    t = np.clip(t, x[0], x[-1])
    t = t[rng.permutation(len(t))]
    kt = t.copy()
    order0 = ctx.call(ev, s, t, 0)
    ctx.close("interpolated", order0, ref(t), rtol=1e-9, atol=tol)
    ctx.close("slope", ctx.call(ev, s, t, 1), ref(t, 1), rtol=1e-7,
              atol=3 * tol / hmin)
    ctx.close("curvature", ctx.call(ev, s, t, 2), ref(t, 2), rtol=1e-6,
              atol=10 * tol / hmin**2)
    ctx.equal("inputs unmodified", t, kt)
    st = np.sort(t)
    ctx.equal("any order of points", ctx.call(ev, s, st, 0),
              order0[np.argsort(t, kind="stable")])
    one = int(rng.randint(len(t)))
    ctx.equal("any order of points", ctx.call(ev, s, t[one:one + 1], 0),
              order0[one:one + 1])
    # end conditions
    ends = x[[0, -1]]
    for typ, val, i in ((lt, lv, 0), (rt, rv, 1)):
        got = ctx.call(ev, s, ends, typ)[i]
        ctx.close("end conditions", got, val, rtol=1e-6,
                  atol=10 * tol / hmin**typ)
    # beyond the knots
    w = x[-1] - x[0]
    far = np.array([x[0] - w * rng.uniform(0.01, 0.5),
                    x[-1] + w * rng.uniform(0.01, 0.5)])
    pts = np.concatenate([far, t])[rng.permutation(len(t) + 2)]
    got = [dict(zip(pts, ctx.call(ev, s, pts, k))) for k in range(3)]
    for i, e in enumerate(far):
        h = e - ends[i]
        v0, v1, v2 = ref(ends[i]), ref(ends[i], 1), ref(ends[i], 2)
        a = 20 * tol * (1 + abs(h) / hmin)**2
        ctx.close("beyond the knots", got[0][e], v0 + v1 * h + v2 * h * h / 2,
                  rtol=1e-6, atol=a)
        ctx.close("beyond the knots", got[1][e], v1 + v2 * h, rtol=1e-6,
                  atol=a / hmin)
        ctx.close("beyond the knots", got[2][e], v2, rtol=1e-6,
                  atol=a / hmin**2)
    ctx.raises("rejected", ValueError, ev, s, t, 3)
    ctx.raises("rejected", ValueError, sp.fit_cubic_spline, x, y, 3, 2, 0., 0.)
    ctx.raises("rejected", ValueError, sp.fit_cubic_spline, x, y, 2, 0, 0., 0.)
