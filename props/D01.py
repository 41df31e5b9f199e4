"""Deconvolution and cell sizes."""
import numpy as np

from vf.core import Skip, group

ASSUMPTIONS = [
    "images are square, the PSF has twice their size and its centre at pixel "
    "npix-1 (where restoring and cleaning place it)",
    "cases in which two pixels tie for the peak are not generated",
    "the threshold is relative to the peak of the dirty image and the gain "
    "is at most one, as written",
]


def psf_of(rng, n):
    kind = rng.randint(3)
    y, x = np.mgrid[:2 * n, :2 * n] - (n - 1.0)
    if kind == 0:
        p = rng.standard_normal((2 * n, 2 * n)) * 0.2
    elif kind == 1:
        a, b = rng.uniform(0.7, 3, size=2)
        p = np.exp(-(x / a)**2 - (y / b)**2)
        p = p + 0.02 * rng.standard_normal(p.shape)
    else:
        p = np.sinc(x / rng.uniform(1, 4)) * np.sinc(y / rng.uniform(1, 4))
        p = p + 0.01 * rng.standard_normal(p.shape)
    p[n - 1, n - 1] = rng.choice([1.0, 1.0, 1.0, rng.uniform(0.8, 1.2)])
    return p


def shifted(psf, n, p, q):
    """The response of a unit source at (p, q)."""
    i = np.arange(n)
    return psf[np.ix_(i - p + n - 1, i - q + n - 1)]


@group("D01", "clean", quick=250, thorough=4000,
       require=["same components", "flux accounted for", "stopped",
                "iterations bounded", "inputs unmodified", "threshold reached",
                "iterations exhausted", "size rejected"])
def clean(ctx, variant):
    """random sources and noise seen through random PSFs, all gains,
    thresholds and iteration limits; non-trivial: several components"""
    from africanus.deconv.hogbom.clean import hogbom_clean
    rng = ctx.rng
    n = int(rng.randint(2, 17) if rng.rand() < 0.96 else
            rng.randint(60, 200))
    psf = psf_of(rng, n)
    truth = np.zeros((n, n))
    for _ in range(rng.randint(1, 6)):
        truth[rng.randint(n), rng.randint(n)] += rng.uniform(0.1, 5)
    dirty = sum(truth[p, q] * shifted(psf, n, p, q)
                for p, q in np.argwhere(truth))
    dirty = dirty + rng.standard_normal((n, n)) * rng.choice([1e-3, 0.3])
    kind = rng.randint(4)
    if kind == 0:
        dirty = rng.standard_normal((n, n)) - rng.choice([0, 10])
    dirty *= 10.0**rng.randint(-3, 4)
    gamma = float(rng.choice([0.1, 0.05, 0.3, 0.9, 1.0]))
    thr = [None, "default", 0.2, 0.05, 0.5, 0.0][rng.randint(6)]
    nit = [None, "default", 0, 1, 5, 40][rng.randint(6)]
    kw = {}
    if gamma != 0.1 or rng.rand() < 0.5:
        kw["gamma"] = gamma
    if thr is not None:
        kw["threshold"] = thr
    if nit is not None:
        kw["niter"] = nit
    limit = 3 * n if nit in (None, "default") else nit
    rel = 0.2 if thr in (None, "default") else thr
    # reference, with its own peak search
    res, comp, steps = dirty.copy(), np.zeros((n, n)), 0
    peak0 = abs(dirty.max())
    while True:
        top = np.sort(res, axis=None)[-2:]
        if not np.all(np.isfinite(top)) or np.abs(res).max() > 1e6 * max(
                np.abs(dirty).max(), 1e-300):
            raise Skip()        # diverged
        if top[1] - top[0] < 1e-7 * np.abs(res).max():
            raise Skip()        # tie
        pk = top[1]
        if abs(abs(pk) - rel * peak0) < 1e-8 * peak0 and rel > 0:
            raise Skip()
        if not (abs(pk) > rel * peak0 and steps < limit):
            break
        p, q = np.unravel_index(np.argmax(res), res.shape)
        comp[p, q] += gamma * pk
        res = res - gamma * pk * psf[n - 1 - p:2 * n - 1 - p,
                                     n - 1 - q:2 * n - 1 - q]
        steps += 1
    ctx.sig(n=n, gamma=gamma, thr=str(thr), nit=str(nit), steps=steps)
    if steps < 2:
        ctx.trivial()
    keep = dirty.copy(), psf.copy()
    c, r = ctx.call(hogbom_clean, dirty, psf, **kw)
    ctx.equal("inputs unmodified", dirty, keep[0])
    ctx.equal("inputs unmodified", psf, keep[1])
    sc = max(np.abs(dirty).max(), np.abs(res).max())
    # everything taken out of the image is in the model
    back = r.copy()
    for p, q in np.argwhere(c):
        back = back + c[p, q] * shifted(psf, n, p, q)
    big = sc + np.abs(comp).sum() * np.abs(psf).max()
    ctx.close("flux accounted for", back, dirty, atol=1e-10 * big, rtol=0)
    stopped = abs(r.max()) <= rel * peak0 * (1 + 1e-9)
    ctx.count("threshold reached" if stopped else "iterations exhausted")
    ctx.ok("stopped", stopped or steps >= limit,
           "stopped above the threshold before the last iteration")
    ctx.ok("iterations bounded", np.count_nonzero(c) <= limit,
           "more components than iterations", niter=limit)
    if limit == 0:
        ctx.equal("iterations bounded", r, dirty)
    ctx.close("same components", c, comp, atol=1e-9 * big, rtol=0)
    ctx.close("same components", r, res, atol=1e-9 * big, rtol=0)
    bad = rng.standard_normal([(2 * n + 1, 2 * n), (2 * n, 2 * n - 1),
                               (n, n)][rng.randint(3)])
    ctx.raises("size rejected", ValueError, hogbom_clean, dirty, bad)


@group("D01", "restore", quick=50, thorough=800,
       require=["gaussian", "beam fit", "convolved model", "restored",
                "inputs unmodified"])
def restoring(ctx, variant):
    """models restored with beams fitted to elliptical PSFs; non-trivial:
    all"""
    from scipy.optimize import least_squares
    from africanus.deconv.hogbom import clean as hc
    rng = ctx.rng
    n = int(rng.randint(8, 17))
    # the Gaussian itself
    N = int(rng.randint(3, 12))
    x, y = np.meshgrid(np.arange(float(N)), np.arange(float(N) + 2))
    amp, off = rng.uniform(0.1, 3), rng.standard_normal()
    x0, y0 = rng.uniform(0, N, size=2)
    sx, sy = rng.uniform(0.8, 4, size=2)
    th = rng.uniform(-7, 7)
    got = ctx.call(hc.twod_gaussian, (x, y), amp, x0, y0, sx, sy, th, off)
    u = (x - x0) * np.cos(th) - (y - y0) * np.sin(th)
    v = (x - x0) * np.sin(th) + (y - y0) * np.cos(th)
    ctx.close("gaussian", got, (off + amp * np.exp(
        -u**2 / (2 * sx**2) - v**2 / (2 * sy**2))).ravel(), rtol=1e-11,
        atol=1e-12)
    # a beam fitted to the lobe above half of the peak
    y, x = np.mgrid[:2 * n, :2 * n].astype(float)
    sx, sy = rng.uniform(1.5, 3.0), rng.uniform(1.5, 3.0)
    th = rng.uniform(-np.pi / 2, np.pi / 2)
    c = n - 1.0

    def gauss(p):
        u = (x - p[1]) * np.cos(p[5]) - (y - p[2]) * np.sin(p[5])
        v = (x - p[1]) * np.sin(p[5]) + (y - p[2]) * np.cos(p[5])
        return p[6] + p[0] * np.exp(-u**2 / (2 * p[3]**2)
                                    - v**2 / (2 * p[4]**2))
    psf = gauss([1.0, c, c, sx, sy, th, 0.0])
    psf = psf + 0.01 * rng.standard_normal(psf.shape)
    psf[n - 1, n - 1] = 1.05
    model = np.zeros((n, n))
    for _ in range(rng.randint(1, 5)):
        model[rng.randint(n), rng.randint(n)] = rng.uniform(0.2, 3)
    resid = rng.standard_normal((n, n)) * 0.1
    keep = psf.copy(), model.copy(), resid.copy()
    beam = ctx.call(hc.fit_2d_gaussian, psf)
    lobe = np.where(psf >= 0.5 * psf.max(), psf, 0.0)
    fit = least_squares(lambda p: (gauss(p) - lobe).ravel(),
                        [1.0, c, c, sx * 0.7, sy * 0.7, th, 0.0])
    best = gauss(fit.x)
    ctx.sig(n=n, sx=round(sx, 1), sy=round(sy, 1), th=round(th, 1))
    ctx.close("beam fit", beam.max(), 1.0, rtol=1e-12)
    ctx.close("beam fit", beam, best / best.max(), rtol=0, atol=0.02)
    # another PSF with the same pixels in other places
    beam2 = ctx.call(hc.fit_2d_gaussian, np.ascontiguousarray(psf.T))
    ctx.close("beam fit", beam2, best.T / best.max(), rtol=0, atol=0.02,
              what="transposed")
    restored, conv = ctx.call(hc.restore, model, psf, resid)
    want = np.zeros((n, n))
    for p, q in np.argwhere(model):
        want += model[p, q] * shifted(beam, n, p, q)
    ctx.close("convolved model", conv, want, rtol=1e-9, atol=1e-11)
    ctx.close("restored", restored, conv + resid, rtol=1e-12, atol=1e-13)
    for a, b in zip((psf, model, resid), keep):
        ctx.equal("inputs unmodified", a, b)


@group("D01", "cell size", quick=300, thorough=4000,
       require=["cell size", "samples every baseline", "grid accepted",
                "grid rejected", "type rejected", "inputs unmodified"])
def cell_size(ctx, variant):
    """random baselines and wavelengths, arrays and scalars; non-trivial:
    several baselines"""
    from africanus.gridding.util import estimate_cell_size
    rng = ctx.rng
    n = int(rng.randint(1, 9))
    sc = 10.0**rng.randint(0, 5)
    u, v = rng.standard_normal((2, n)) * sc
    if rng.rand() < 0.2:
        u, v = np.round(u) + (np.round(u) == 0), np.round(v) + 0.5
    wl = rng.uniform(0.05, 2, size=rng.randint(1, 5))
    uu = u if rng.rand() < 0.7 else float(u[0])
    vv = v if rng.rand() < 0.7 else float(v[0])
    ww = wl if rng.rand() < 0.7 else float(wl[0])
    ctx.sig(n=n, scale=sc, types=[type(a).__name__ for a in (uu, vv, ww)])
    if n < 2:
        ctx.trivial()
    au, av = np.abs(np.atleast_1d(uu)), np.abs(np.atleast_1d(vv))
    w = np.atleast_1d(ww).min()
    f = [3.0, 3.0, 1.0, 5.5][rng.randint(4)]
    kw = {} if f == 3.0 and rng.rand() < 0.5 else dict(factor=f)
    keep = [np.copy(a) for a in (uu, vv, ww)]
    got = ctx.call(estimate_cell_size, uu, vv, ww, **kw)
    rad = np.array([w / (2 * f * au.max()), w / (2 * f * av.max())])
    want = rad * 180 / np.pi * 3600
    ctx.close("cell size", got, want, rtol=1e-12)
    back = np.deg2rad(got / 3600)
    ctx.ok("samples every baseline",
           np.all(au / w <= 1 / (2 * back[0]) * (1 + 1e-9)) and
           np.all(av / w <= 1 / (2 * back[1]) * (1 + 1e-9)),
           "a baseline is undersampled")
    # the smallest grid whose cells still separate the shortest baseline
    need = [1.0 / (rad[0] * au.min() / w), 1.0 / (rad[1] * av.min() / w)]
    for d in (1.02, 1.5, 0.98, 0.5):
        ny = int(np.ceil(need[0] * d)) if d > 1 else int(need[0] * d)
        nx = int(np.ceil(need[1] * d)) if d > 1 else int(need[1] * d)
        good = dict(ny=int(np.ceil(need[0] * 1.1)),
                    nx=int(np.ceil(need[1] * 1.1)))
        if d > 1:
            g = ctx.call(estimate_cell_size, uu, vv, ww, ny=ny, nx=nx, **kw)
            ctx.close("grid accepted", g, want, rtol=1e-12)
        else:
            which = [dict(ny=ny), dict(nx=nx), dict(good, ny=ny),
                     dict(good, nx=nx)][rng.randint(4)]
            ctx.raises("grid rejected", ValueError, estimate_cell_size, uu,
                       vv, ww, **dict(kw, **which))
    for a, b in zip((uu, vv, ww), keep):
        ctx.equal("inputs unmodified", a, b)
    bad = ["1.0", [1.0]][rng.randint(2)]
    args = [uu, vv, ww]
    args[rng.randint(3)] = bad
    ctx.raises("type rejected", TypeError, estimate_cell_size, *args)
