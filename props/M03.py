"""Spectral index fits."""
import numpy as np

from vf import dk, gen
from vf.core import Skip, group

ASSUMPTIONS = [
    "components are bright (signal to noise per fit above 20), channels "
    "cover at least a tenth of the reference frequency, weights are positive "
    "inverse variances: the domain in which the least squares problem has "
    "one minimum near the truth",
]


def case(rng, dt, noisy):
    nc, nf = gen.size(rng, 6, 40), int(rng.randint(
        3, gen.choice(rng, [6, 40])))
    u = rng.rand()
    if u < 0.005:
        nc = int(rng.randint(500, 1500))
    elif u < 0.02:
        nf = int(rng.randint(100, 2000))
    f0 = float(rng.uniform(0.8, 1.2)) * gen.choice(rng, [1.0, 1e9])
    width = rng.uniform(0.2, 1.2)
    lo = rng.uniform(0.5, 1.0)
    freqs = np.sort(f0 * rng.uniform(lo, lo + width, nf))
    freqs[0], freqs[-1] = f0 * lo, f0 * (lo + width)
    u = rng.rand()
    if u < 0.3:
        freqs[rng.randint(nf)] = f0
        freqs.sort()
    elif u < 0.4:
        freqs = freqs[::-1].copy()
    alpha = rng.uniform(-1.5, 0.5, nc)
    i0 = rng.uniform(1, 10, nc)
    if rng.rand() < 0.3:
        i0 *= np.where(rng.rand(nc) < 0.5, -1, 1)
    beam = None
    b = np.ones((nc, nf))
    if rng.rand() < 0.5:
        w = rng.uniform(0.1, 0.8, nc)[:, None]
        b = np.exp(-w * (freqs[None] / f0 - 0.5)**2)
        beam = b.astype(dt)
        b = beam.astype("f8")
    sigma = rng.uniform(0.5, 2, nf) * (0.01 if noisy else 0.001)
    model = b * i0[:, None] * (freqs[None] / f0)**alpha[:, None]
    data = model + (rng.normal(size=model.shape) * sigma if noisy else 0)
    weights = 1 / sigma**2
    if rng.rand() < 0.5:        # weights on any scale, faint or bright units
        weights *= 10**rng.uniform(-3, 3)
        if dt == "f8":
            k = 10**rng.uniform(-3, 3)
            data, i0, weights = data * k, i0 * k, weights / k**2
            if rng.rand() < 0.3:
                weights /= weights.mean()
    return dict(data=data.astype(dt), weights=weights.astype(dt),
                freqs=freqs.astype(dt), freq0=f0, beam=beam), alpha, i0


def solve(data, weights, freqs, f0, beam, alpha, i0):
    """Weighted least squares from the truth, to convergence; covariance."""
    d = data.astype(np.longdouble)
    w = weights.astype(np.longdouble)
    x = freqs.astype(np.longdouble) / np.longdouble(f0)
    lx = np.log(x)
    b = 1 if beam is None else beam.astype(np.longdouble)
    a, i = np.longdouble(alpha), np.longdouble(i0)
    for k in range(200):
        j1 = b * x**a
        j0 = i * j1 * lx
        r = d - i * j1
        h00, h01, h11 = (w * j0 * j0).sum(), (w * j0 * j1).sum(), (
            w * j1 * j1).sum()
        g0, g1 = (w * j0 * r).sum(), (w * j1 * r).sum()
        det = h00 * h11 - h01**2
        da = (h11 * g0 - h01 * g1) / det
        di = (h00 * g1 - h01 * g0) / det
        a, i = a + da, i + di
        if max(abs(da), abs(di)) < 1e-15:
            break
    dof = len(d) - 2
    lik = (w * r * r).sum()
    return float(a), float(h11 / det * lik / dof), float(i), float(
        h00 / det * lik / dof), float(det), float(
            np.sqrt((w * d * d).sum() / lik) if lik else np.inf)


@group("M03", "fit", quick=150, thorough=2000,
       variants=[("f8", True), ("f8", False), ("f4", True), ("f4", False)],
       require=["spectral index", "reference flux", "variances",
                "initial guess does not matter", "component independence"])
def fit(ctx, variant):
    """noisy and noise-free spectra with and without a beam, any initial
    guess nearby; non-trivial: several components"""
    from africanus.model.spi import fit_spi_components
    rng = ctx.rng
    dt, noisy = variant
    kw, alpha, i0 = case(rng, dt, noisy)
    nc, nf = kw["data"].shape
    ctx.sig(comps=nc, chan=nf, beam=kw["beam"] is not None, f0=kw["freq0"])
    if nc == 1:
        ctx.trivial()
    tol = 1e-10 if dt == "f8" else 1e-4
    args = (kw["data"], kw["weights"], kw["freqs"], kw["freq0"])
    got = ctx.call(fit_spi_components, *args, beam=kw["beam"], tol=tol)
    ctx.ok("result", got.shape == (4, nc) and got.dtype == np.dtype(dt),
           got=(got.shape, got.dtype))
    ref = np.array([solve(kw["data"][c], kw["weights"], kw["freqs"],
                          kw["freq0"], None if kw["beam"] is None else
                          kw["beam"][c], alpha[c], i0[c])
                    for c in range(nc)]).T
    if np.any(ref[4] < (1e-3 if dt == "f4" else 1e-10)):
        raise Skip()        # near the determinant's floor
    at = 1e-7 if dt == "f8" else 2e-3
    ctx.close("spectral index", got[0], ref[0], rtol=0, atol=at)
    k = max(np.abs(i0).max() / 10, 1e-3)       # the unit of flux
    ctx.close("reference flux", got[2], ref[2], rtol=0, atol=10 * at * k)
    if not noisy:
        ctx.close("spectral index", got[0], alpha, rtol=0, atol=at * 3)
        ctx.close("reference flux", got[2], i0, rtol=0, atol=30 * at * k)
    else:
        # the misfit is a small difference of large numbers
        vt = (1e-5 if dt == "f8" else 2e-2) + 100 * gen.eps(got) * ref[5]
        # (a fit much better than its noise is dominated by the tolerance)
        ok = ref[5] < (1e7 if dt == "f8" else 1e3)
        for i in (1, 3):
            ctx.close("variances", got[i][ok], ref[i][ok], rtol=vt[ok])
    g2 = ctx.call(fit_spi_components, *args, beam=kw["beam"], tol=tol,
                  alphai=(alpha + rng.normal(size=nc) * 0.2).astype(dt),
                  I0i=(i0 * rng.uniform(0.8, 1.2, nc)).astype(dt))
    ctx.close("initial guess does not matter", g2[0], got[0], rtol=0,
              atol=2 * at)
    ctx.close("initial guess does not matter", g2[2], got[2], rtol=0,
              atol=20 * at * k)
    k = int(rng.randint(nc))
    one = ctx.call(fit_spi_components, kw["data"][k:k + 1], *args[1:],
                   beam=None if kw["beam"] is None else
                   kw["beam"][k:k + 1], tol=tol)
    ctx.equal("component independence", one[:, 0], got[:, k], "fit")


@group("M03", "dask", quick=40, thorough=400, variants=["f8", "f4"],
       require=["chunked fit", "metadata", "distinct task orders"])
def chunked(ctx, variant):
    """component and channel chunks change nothing"""
    from africanus.model.spi import fit_spi_components
    from africanus.model.spi.dask import fit_spi_components as dask_fit
    rng = ctx.rng
    kw, alpha, i0 = case(rng, variant, True)
    nc, nf = kw["data"].shape
    kch, fch = gen.chunks(rng, nc, 4), gen.chunks(rng, nf, 4)
    how = gen.choice(rng, dk.SCHEDULES)
    guess = rng.rand() < 0.5
    ctx.sig(kch=kch, fch=fch, how=how, beam=kw["beam"] is not None,
            guess=guess)
    if len(kch) * len(fch) == 1:
        ctx.trivial()
    tol = 1e-8 if variant == "f8" else 1e-4
    g, ng = {}, {}
    if guess:
        ng = dict(alphai=alpha.astype(variant), I0i=i0.astype(variant))
        g = {k: dk.arr(v, (kch,)) for k, v in ng.items()}
    lz = ctx.call(dask_fit, dk.arr(kw["data"], (kch, fch)),
                  dk.arr(kw["weights"], (fch,)), dk.arr(kw["freqs"], (fch,)),
                  kw["freq0"], beam=None if kw["beam"] is None else
                  dk.arr(kw["beam"], (kch, fch)), tol=tol, maxiter=100, **g)
    d = ctx.call(dk.compute, ctx, lz, how)
    dk.honest(ctx, "metadata", lz, d, "fit")
    want = ctx.call(fit_spi_components, kw["data"], kw["weights"],
                    kw["freqs"], kw["freq0"], beam=kw["beam"], tol=tol,
                    maxiter=100, **ng)
    ctx.equal("chunked fit", d, want, "fit")


@group("M03", "rejects", quick=6, thorough=10, variants=[None],
       require=["unsupported precision rejected"])
def rejects(ctx, variant):
    """data that are not floating point are refused"""
    from africanus.model.spi import fit_spi_components
    rng = ctx.rng
    n = gen.size(rng)
    ctx.sig(n=n, r=float(rng.rand()))
    ctx.raises("unsupported precision rejected", ValueError,
               fit_spi_components, np.ones((n, 4), gen.choice(
                   rng, [np.int64, np.complex128])), np.ones(4),
               np.linspace(1, 2, 4), 1.0)
