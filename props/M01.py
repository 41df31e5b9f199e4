"""Source models: spectra and Gaussian shapes."""
import numpy as np

from vf import bulk, dk, gen
from vf.core import group

ASSUMPTIONS = [
    "frequencies and reference frequencies are positive; logarithmic "
    "spectra have positive fluxes, wsclean's also positive coefficients "
    "(the code refuses others)",
]

L = np.longdouble
BASES = ["std", "log", "log10"]


def spec_case(rng, dt, npol, bases):
    ns, nc = gen.size(rng, 5, 20), gen.size(rng, 5, 20)
    nspi = gen.size(rng, 3, 5, huge=0)
    pol = () if npol == 0 else (npol,)
    stokes = (rng.uniform(0.01, 10, (ns,) + pol)).astype(dt)
    if all(b in ("std", 0) for b in bases):
        stokes *= np.where(rng.rand(*stokes.shape) < 0.4, -1, 1).astype(dt)
        stokes[rng.rand(*stokes.shape) < 0.1] = 0
    spi = (rng.normal(size=(ns, nspi) + pol) * 1.5).astype(dt)
    rf = rng.uniform(0.8e9, 1.6e9, ns).astype(dt)
    f = rng.uniform(0.8e9, 1.6e9, nc).astype(dt)
    if rng.rand() < 0.3:
        f[0] = rf[0]
    return stokes, spi, rf, f


def spec_ref(stokes, spi, rf, f, bases):
    """(source, chan, pol), magnitude of the exponent for the bound."""
    if stokes.ndim == 1:
        stokes, spi = stokes[:, None], spi[:, :, None]
    S, A = stokes.astype(L), spi.astype(L)
    x = np.log(f.astype(L)[None] / rf.astype(L)[:, None])
    out = np.zeros(x.shape + (S.shape[1],), L)
    ex = np.zeros(out.shape)
    for p in range(S.shape[1]):
        b = bases[min(p, len(bases) - 1)]
        if b in ("std", 0):
            e = x * A[:, :, p].sum(axis=1)[:, None]
            out[:, :, p] = S[:, p, None] * np.exp(e)
            ex[:, :, p] = (np.abs(A[:, :, p]).sum(axis=1)[:, None] *
                           (np.abs(x) + 2))
        else:
            y = x if b in ("log", 1) else x / np.log(L(10))
            k = L(1) if b in ("log", 1) else np.log(L(10))
            e = sum(A[:, i, p, None] * y**(i + 1) for i in range(A.shape[1]))
            # rounding of y itself is relative to 1, the ratio's magnitude
            m = sum(np.abs(A[:, i, p, None]) * (
                (i + 1) * np.abs(y)**i * (np.abs(y) + 2))
                for i in range(A.shape[1]))
            out[:, :, p] = S[:, p, None] * np.exp(k * e)
            ex[:, :, p] = k * m + np.abs(np.log(np.abs(S[:, p, None])))
    return out, ex


def base_variants():
    res = []
    for dt in ("f8", "f4"):
        for npol in (0, 4):
            for kind in ("int", "str"):
                for lst in (False, True):
                    if lst and npol == 0:
                        continue
                    if dt == "f4" and (kind == "str" or lst):
                        continue
                    res.append((dt, npol, kind, lst))
    res += [("mix", 0, "int", False), ("mix", 4, "str", True)]
    return res


@group("M01", "spectral model", quick=40, thorough=600,
       variants=base_variants(),
       require=["spectrum", "numpy spectrum", "reference frequency",
                "chunked spectrum", "metadata"])
def spectral(ctx, variant):
    """std, log and log10 spectra per polarisation, by name and number, one
    base or one per polarisation; numpy and chunked; non-trivial: several
    sources and channels"""
    from africanus.model.spectral import spectral_model
    from africanus.model.spectral.dask import spectral_model as dask_model
    from africanus.model.spectral.spec_model import numpy_spectral_model
    rng = ctx.rng
    dt, npol, kind, lst = variant
    if npol:
        npol = int(rng.randint(1, 5))
    names = [BASES[rng.randint(3)] for _ in range(
        int(rng.randint(1, npol + 1)) if lst else 1)]
    vals = names if kind == "str" else [BASES.index(b) for b in names]
    base = list(vals) if lst else vals[0]
    stokes, spi, rf, f = spec_case(rng, "f4" if dt == "mix" else dt, npol,
                                   names)
    if dt == "mix":
        stokes, spi, rf, f = gen.odd_one(rng, [stokes, spi, rf, f])
    want_dt = np.result_type(stokes, spi, rf, f)
    ctx.sig(shape=stokes.shape, spi=spi.shape, chan=len(f), base=str(base))
    if min(len(stokes), len(f)) == 1:
        ctx.trivial()
    kw = {}
    if base != 0 or rng.rand() < 0.5:
        kw["base"] = base
    got = ctx.call(spectral_model, stokes, spi, rf, f, **kw)
    want, ex = spec_ref(stokes, spi, rf, f, names)
    shape = (len(stokes), len(f)) + stokes.shape[1:]
    want, ex = want.reshape(shape), ex.reshape(shape)
    ctx.ok("result", got.shape == shape and got.dtype == want_dt,
           got=(got.shape, got.dtype))
    eps = gen.eps(stokes, spi, rf, f)
    tol = np.abs(want) * eps * (30 + 15 * ex)
    bad = ~(np.abs(got - want) <= tol)
    ctx.ok("spectrum", not bad.any(), where=np.argwhere(bad)[:3],
           got=got[bad][:3], want=want[bad][:3].astype(float))
    got = ctx.call(numpy_spectral_model, stokes, spi, rf, f, base)
    ctx.ok("result", got.shape == shape, got=(got.shape, got.dtype))
    bad = ~(np.abs(got - want) <= tol)
    ctx.ok("numpy spectrum", not bad.any(), where=np.argwhere(bad)[:3],
           got=got[bad][:3], want=want[bad][:3].astype(float))
    # at its reference frequency a source has its reference flux
    at = ctx.call(spectral_model, stokes, spi, rf, rf, **kw)
    i = np.arange(len(rf))
    ctx.close("reference frequency", at[i, i], stokes,
              rtol=60 * eps * (1 + np.abs(np.log(np.abs(
                  np.where(stokes == 0, 1, stokes)))).max()))
    sch, cch = gen.chunks(rng, len(rf), 4), gen.chunks(rng, len(f), 4)
    pch = (gen.chunks(rng, npol),) if npol else ()
    how = gen.choice(rng, dk.SCHEDULES)
    lz = ctx.call(dask_model, dk.arr(stokes, (sch,) + pch),
                  dk.arr(spi, (sch, (spi.shape[1],)) + pch),
                  dk.arr(rf, (sch,)), dk.arr(f, (cch,)), **kw)
    d = ctx.call(dk.compute, ctx, lz, how)
    dk.honest(ctx, "metadata", lz, d, "spectrum")
    ctx.ok("result", d.shape == shape, got=d.shape)
    bad = ~(np.abs(d - want) <= tol)
    ctx.ok("chunked spectrum", not bad.any(), where=np.argwhere(bad)[:3],
           got=d[bad][:3], want=want[bad][:3].astype(float),
           chunks=(sch, cch, pch))


@group("M01", "spectral rejects", quick=12, thorough=30, variants=[None],
       require=["bad spectral arguments rejected"])
def spectral_rejects(ctx, variant):
    """unknown bases and mismatched polarisations are refused"""
    from africanus.model.spectral import spectral_model
    from africanus.model.spectral.dask import spectral_model as dask_model
    rng = ctx.rng
    stokes, spi, rf, f = spec_case(rng, "f8", 2, ["std"])
    t = "bad spectral arguments rejected"
    mode = int(rng.randint(4))
    ctx.sig(mode=mode, shape=stokes.shape)
    if mode == 0:
        ctx.raises(t, Exception, spectral_model, stokes, spi, rf, f,
                   base=gen.choice(rng, ["ln", "", "LOG"]))
    elif mode == 1:
        ctx.raises(t, Exception, spectral_model, stokes, spi, rf, f,
                   base=int(gen.choice(rng, [3, -1, 10])))
    elif mode == 2:
        ctx.raises(t, Exception, spectral_model, stokes, spi[..., :1], rf, f)
    else:
        if spi.shape[1] < 2:
            spi = np.concatenate([spi, spi], axis=1)
        n = spi.shape[1]
        ctx.raises(t, ValueError, dask_model,
                   dk.arr(stokes, tuple((k,) for k in stokes.shape)),
                   dk.arr(spi, ((len(rf),), (1, n - 1), (2,))),
                   dk.arr(rf, ((len(rf),),)), dk.arr(f, ((len(f),),)))


def wsc_case(rng, dt, log):
    ns, nc, nk = gen.size(rng, 6, 20), gen.size(rng, 5, 20), gen.size(rng, 4,
                                                                      6)
    flux = rng.normal(size=ns) * 3
    coeffs = rng.normal(size=(ns, nk))
    if log == "array":
        lp = rng.rand(ns) < 0.5
    elif log == "true":
        lp = np.ones(ns, bool)
    else:
        lp = np.zeros(ns, bool)
    flux[lp] = np.abs(flux[lp]) + 0.01
    coeffs[lp] = np.abs(coeffs[lp]) + 0.01
    coeffs[~lp] *= (rng.rand(*coeffs[~lp].shape) < 0.8)
    rf = rng.uniform(0.8e9, 1.6e9, ns)
    f = rng.uniform(0.8e9, 1.6e9, nc)
    if rng.rand() < 0.3:
        f[0] = rf[0]
    return [flux.astype(dt), coeffs.astype(dt), lp, rf.astype(dt),
            f.astype(dt)]


def wsc_ref(flux, coeffs, lp, rf, f):
    I, A = flux.astype(L), coeffs.astype(L)
    r = f.astype(L)[None] / rf.astype(L)[:, None]
    x = np.where(lp[:, None], np.log(r), r - 1)
    k = np.arange(1, A.shape[1] + 1)
    term = A[:, None, :] * x[..., None]**k
    der = np.abs(A[:, None, :]) * (
        k * np.abs(x[..., None])**(k - 1) * (np.abs(x[..., None]) + 2))
    s, d = term.sum(axis=2), der.sum(axis=2)
    with np.errstate(all="ignore"):
        out = np.where(lp[:, None], I[:, None] * np.exp(s), I[:, None] + s)
        tol = np.where(lp[:, None], np.abs(out) * (
            30 + 15 * d + 4 * np.abs(np.log(np.abs(I[:, None])))),
            30 * np.abs(I[:, None]) + 15 * d)
    return out, tol.astype(float)


@group("M01", "wsclean spectra", quick=50, thorough=600,
       variants=[(d, k) for d in ("f8", "f4", "mix")
                 for k in ("array", "true", "false")],
       require=["wsclean spectrum", "chunked wsclean spectrum", "metadata",
                "non-positive flux rejected"])
def wsclean(ctx, variant):
    """ordinary and logarithmic component spectra; numpy and chunked (the
    coefficients too)"""
    from africanus.model.wsclean import spectra
    from africanus.model.wsclean.dask import spectra as dask_spectra
    rng = ctx.rng
    dt, log = variant
    flux, coeffs, lp, rf, f = wsc_case(rng, "f4" if dt == "mix" else dt, log)
    if dt == "mix":
        flux, coeffs, rf, f = gen.odd_one(rng, [flux, coeffs, rf, f])
    want_dt = np.result_type(flux, coeffs, rf, f)
    arg = lp if log == "array" else bool(log == "true")
    ctx.sig(src=len(flux), chan=len(f), coeffs=coeffs.shape[1],
            log=int(lp.sum()))
    if min(len(flux), len(f)) == 1:
        ctx.trivial()
    got = ctx.call(spectra, flux, coeffs, arg, rf, f)
    want, tol = wsc_ref(flux, coeffs, lp, rf, f)
    tol = tol * gen.eps(flux, coeffs, rf, f)
    ctx.ok("result", got.shape == want.shape and got.dtype == want_dt,
           got=(got.shape, got.dtype))
    bad = ~(np.abs(got - want) <= tol)
    ctx.ok("wsclean spectrum", not bad.any(), where=np.argwhere(bad)[:3],
           got=got[bad][:3], want=want[bad][:3].astype(float))
    sch, cch, kch = (gen.chunks(rng, n, 4) for n in want.shape +
                     coeffs.shape[1:])
    lz = ctx.call(dask_spectra, dk.arr(flux, (sch,)),
                  dk.arr(coeffs, (sch, kch)),
                  dk.arr(lp, (sch,)) if log == "array" else arg,
                  dk.arr(rf, (sch,)), dk.arr(f, (cch,)))
    d = ctx.call(dk.compute, ctx, lz, gen.choice(rng, dk.SCHEDULES))
    dk.honest(ctx, "metadata", lz, d, "spectrum")
    bad = ~(np.abs(d - want) <= tol)
    ctx.ok("chunked wsclean spectrum", not bad.any(),
           where=np.argwhere(bad)[:3], chunks=(sch, cch, kch))
    if lp.any() and log != "false":
        i = int(np.argwhere(lp)[0][0])
        b = flux.copy()
        b[i] = -b[i] if rng.rand() < 0.5 else 0
        ctx.raises("non-positive flux rejected", ValueError, spectra, b,
                   coeffs, arg, rf, f)


def gauss_case(rng, dt):
    ns, nr, nc = gen.size(rng, 5, 20), gen.size(rng, 6, 40), gen.size(rng, 4,
                                                                      20)
    uvw = rng.normal(size=(nr, 3)) * gen.choice(rng, [10, 300, 3000])
    if rng.rand() < 0.3:
        uvw[0] = 0
    emaj = 10 ** rng.uniform(-6, -2.5, ns)
    emin = emaj * rng.uniform(0, 1, ns)
    ang = rng.uniform(-7, 7, ns)
    u = rng.rand(ns)
    emin[u < 0.1] = 0
    emaj[u < 0.05] = 0
    circ = rng.rand(ns) < 0.1
    emin[circ] = emaj[circ]
    if rng.rand() < 0.25:       # milliarcseconds on very long baselines
        uvw *= 1e4
        emaj *= 1e-4
        emin *= 1e-4
    shp = np.stack([emaj, emin, ang], axis=1)
    f = rng.uniform(0.8e9, 1.6e9, nc)
    return uvw.astype(dt), f.astype(dt), shp.astype(dt)


def gauss_ref(uvw, f, shp):
    """exp(-x) of the Fourier transform of an elliptical Gaussian with the
    given FWHM, and the bound of the error of x per machine precision."""
    U, F, S = uvw.astype(L), f.astype(L), shp.astype(L)
    c = L(299792458.0)
    # FWHM -> sigma; transform exp(-2 pi^2 sigma^2 q^2)
    k = np.pi * np.sqrt(L(2)) / (2 * np.sqrt(2 * np.log(L(2)))) / c
    s, co = np.sin(S[:, 2]), np.cos(S[:, 2])
    u, v = U[None, :, 0], U[None, :, 1]
    a = (u * co[:, None] - v * s[:, None]) * S[:, 1, None]
    b = (u * s[:, None] + v * co[:, None]) * S[:, 0, None]
    am = (np.abs(u) + np.abs(v)) * (S[:, 1, None])
    bm = (np.abs(u) + np.abs(v)) * (S[:, 0, None])
    kf = (k * F)[None, None]
    x = (a[..., None] * kf)**2 + (b[..., None] * kf)**2
    # |d(a^2)| <= 2|a| da with da = eps * |a|_max
    xm = (2 * np.abs(a) * am + 2 * np.abs(b) * bm)[..., None] * kf**2
    xm = xm + 1e-15 * (am**2 + bm**2)[..., None] * kf**2
    return x, xm.astype(float)


@group("M01", "gaussian", quick=50, thorough=600,
       variants=["f8", "f4", "mix"],
       require=["gaussian shape", "chunked gaussian shape", "metadata"])
def gaussian_shape(ctx, variant):
    """the visibility of elliptical Gaussians of any size and orientation,
    degenerate ones included; numpy and chunked"""
    from africanus.model.shape import gaussian
    from africanus.model.shape.dask import gaussian as dask_gaussian
    rng = ctx.rng
    uvw, f, shp = gauss_case(rng, "f4" if variant == "mix" else variant)
    if variant == "mix":
        uvw, f, shp = gen.odd_one(rng, [uvw, f, shp])
    ctx.sig(src=len(shp), row=len(uvw), chan=len(f))
    if min(len(shp), len(uvw), len(f)) == 1:
        ctx.trivial()
    got = ctx.call(gaussian, uvw, f, shp)
    want_dt = np.result_type(uvw, f, shp)
    x, xm = gauss_ref(uvw, f, shp)
    ctx.ok("result", got.shape == x.shape and got.dtype == want_dt,
           got=(got.shape, got.dtype))
    eps = gen.eps(uvw, f, shp)
    want = np.exp(-x)
    tol = want * (np.expm1(np.minimum(20 * eps * (xm + x) + 1e-30, 5)) +
                  4 * eps) + np.finfo(want_dt).tiny * 4
    bad = ~(np.abs(got - want) <= tol)
    ctx.ok("gaussian shape", not bad.any(), where=np.argwhere(bad)[:3],
           got=got[bad][:3], want=want[bad][:3].astype(float))
    sch, rch, cch = (gen.chunks(rng, n, 4) for n in x.shape)
    lz = ctx.call(dask_gaussian, dk.arr(uvw, (rch, (3,))),
                  dk.arr(f, (cch,)), dk.arr(shp, (sch, (3,))))
    d = ctx.call(dk.compute, ctx, lz, gen.choice(rng, dk.SCHEDULES))
    dk.honest(ctx, "metadata", lz, d, "shape")
    ctx.equal("chunked gaussian shape", d, got, "shape")


@group("M01", "bulk", quick=6, thorough=18,
       variants=["spectral source", "spectral chan", "wsclean source",
                 "wsclean chan", "gaussian source", "gaussian row",
                 "gaussian chan"],
       require=["parts of very large inputs"])
def many(ctx, variant):
    """tens of thousands of sources, rows or channels; a selection of them is
    modelled as if it stood alone; non-trivial: all"""
    from africanus.model.shape import gaussian
    from africanus.model.spectral import spectral_model
    from africanus.model.wsclean.spec_model import spectra
    rng = ctx.rng
    n = bulk.size(ctx)
    mon = "parts of very large inputs"
    kind, axis = variant.split()
    k = dict(source=3, row=3, chan=3)
    k[axis] = n
    f = rng.uniform(1e9, 2e9, k["chan"])
    z0 = slice(None)

    def pick(z):
        return (z if axis == "source" else z0, z if axis == "row" else z0,
                z if axis == "chan" else z0)
    s = k["source"]
    rf = rng.uniform(1e9, 2e9, s)
    if kind == "gaussian":
        uvw = rng.uniform(-500, 500, (k["row"], 3))
        sh = np.stack([rng.uniform(1e-5, 1e-3, s), rng.uniform(
            1e-5, 1e-3, s), rng.uniform(-3, 3, s)], 1)
        bulk.parts(ctx, mon, gaussian, lambda z: (
            uvw[pick(z)[1]], f[pick(z)[2]], sh[pick(z)[0]]), n,
            dict(source=0, row=1, chan=2)[axis], 1e-11)
        return
    ax = int(axis == "chan")
    if kind == "spectral":
        st = rng.uniform(0.5, 2, (s, 2))
        sp = rng.uniform(-1, 1, (s, 2, 2))
        base = gen.choice(rng, [0, 1, 2])
        bulk.parts(ctx, mon, spectral_model, lambda z: (
            st[pick(z)[0]], sp[pick(z)[0]], rf[pick(z)[0]], f[pick(z)[2]]),
            n, ax, 1e-12, dict(base=base))
        return
    st = rng.uniform(0.5, 2, s)
    sp = rng.uniform(0.01, 1, (s, 2))
    lo = rng.rand(s) < 0.5
    bulk.parts(ctx, mon, spectra, lambda z: (
        st[pick(z)[0]], sp[pick(z)[0]], lo[pick(z)[0]], rf[pick(z)[0]],
        f[pick(z)[2]]), n, ax, 1e-12)
