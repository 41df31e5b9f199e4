"""Faceted gridding (Perley polyhedron)."""
import numpy as np

from vf import dk, gen, pp
from vf.core import Skip, group

ASSUMPTIONS = [
    "positions within 1e-5 of a rounding boundary are not generated, since "
    "the code is compiled with fastmath and may round either way there",
    "a chunked gridder returns the mean over its row chunks, as written",
    "the reference evaluates the convolution sample by sample with an "
    "arbitrary kernel, and rotates by the basis vectors of the two centres",
]

BP = ["None", "rotate", "wlinapprox"]
PP = ["None", "phase_rotate"]
PACKED = "conv_1d_axisymmetric_packed_"
UNPACKED = "conv_1d_axisymmetric_unpacked_"


def grid_variants():
    out = []
    conv = [PACKED + "scatter", UNPACKED + "scatter", "conv_nn_scatter"]
    for i, s in enumerate(pp.FROM_CORR):
        out.append((s, BP[i % 3], PP[(i // 2) % 2], conv[(i // 3) % 3],
                    ["c16", "c8"][i % 5 == 4]))
    return out


def degrid_variants():
    out = []
    for i, s in enumerate(pp.FROM_STOKES):
        out.append((s, BP[(i + 1) % 3], PP[(i // 2 + 1) % 2],
                    [PACKED, UNPACKED][(i // 3) % 2] + "gather",
                    ["c16", "c8"][i % 5 == 4]))
    return out


def phase_eps(c, eps):
    """Relative error of the phases."""
    if c.nrow == 0:
        return eps
    big = np.abs(c.uvw).max() / c.wl.min()
    return 60 * 2.3e-16 * (1 + 20 * big) + 20 * eps


def kernel(c, conv):
    from africanus.gridding.perleypolyhedron import kernels
    if "unpacked" in conv or "nn" in conv:
        return c.K
    return kernels.pack_kernel(c.K, c.W, oversample=c.OS)


def describe(ctx, c):
    ctx.sig(rows=c.nrow, chan=c.nchan, bands=c.nband, npix=c.npix, W=c.W,
            OS=c.OS)
    if c.nrow < 2 or c.npix < 5:
        ctx.trivial()


def grid_case(ctx, variant):
    from africanus.gridding.perleypolyhedron.gridder import gridder
    rng = ctx.rng
    spol, bpol, ppol, conv, dt = variant
    nn = "nn" in conv
    c = pp.case(ctx, bpol, ppol, nn)
    describe(ctx, c)
    ncorr = len(pp.corr_weights(spol))
    vis = gen.cplx(rng, (c.nrow, c.nchan, ncorr), dt)
    norm = bool(rng.rand() < 0.4)
    uvw0, vis0 = c.uvw.copy(), vis.copy()
    gdt = np.dtype(dt).type
    got = ctx.call(gridder, c.uvw, vis, c.wl, c.chanmap, c.npix, c.cell,
                   c.ic, c.pc, kernel(c, conv), c.W, c.OS, bpol, ppol, spol,
                   conv, grid_dtype=gdt, do_normalize=norm)
    want, mag, wt, n = pp.grid_ref(c, vis, bpol, ppol, spol, nn, norm)
    ctx.equal("inputs unmodified", c.uvw, uvw0)
    ctx.equal("inputs unmodified", vis, vis0)
    ctx.ok("grid dtype", got.dtype == np.dtype(dt), got=got.dtype)
    if norm and not nn and (np.abs(wt) < 1e-2).any():
        raise Skip()
    ctx.ok("grid shape", got.shape == want.shape, got=got.shape)
    tol = (phase_eps(c, gen.eps(np.dtype(dt))) * 4 + c.nrow * c.nchan
           * gen.eps(np.dtype(dt))) * mag
    bad = ~(np.abs(got - want) <= tol + 1e-300)
    ctx.ok("gridded visibilities", not bad.any(), where=np.argwhere(bad)[:3],
           got=got[bad][:3], want=want[bad][:3])
    ctx.count("samples gridded", n)


@group("G03", "gridding", quick=25, thorough=300, variants=grid_variants(),
       require=["gridded visibilities", "samples gridded",
                "inputs unmodified"])
def gridding(ctx, variant):
    """random baselines inside and beyond the grid, arbitrary kernels, band
    maps, facets, all Stokes policies; non-trivial: several rows and cells"""
    grid_case(ctx, variant)


@group("G03", "gridding, bounds sanitizer", quick=25, thorough=200,
       variants=[("I_FROM_XXYY", "rotate", "phase_rotate",
                  PACKED + "scatter", "c16"),
                 ("Q_FROM_XXXYYXYY", "wlinapprox", "phase_rotate",
                  UNPACKED + "scatter", "c16"),
                 ("V_FROM_XYYX", "None", "None", "conv_nn_scatter", "c16")],
       env={"NUMBA_BOUNDSCHECK": "1"}, require=["gridded visibilities"])
def gridding_bounds(ctx, variant):
    """the same with every array index checked"""
    grid_case(ctx, variant)


def degrid_case(ctx, variant, serial_too=True):
    from africanus.gridding.perleypolyhedron import degridder as dg
    rng = ctx.rng
    spol, bpol, ppol, conv, dt = variant
    c = pp.case(ctx, bpol, ppol)
    describe(ctx, c)
    nb = c.nband + int(rng.rand() < 0.2)
    grid = gen.cplx(rng, (nb, c.npix, c.npix), dt)
    uvw0, grid0 = c.uvw.copy(), grid.copy()
    vdt = np.dtype(dt).type
    args = (c.uvw, grid, c.wl, c.chanmap, c.cell, c.ic, c.pc,
            kernel(c, conv), c.W, c.OS, bpol, ppol, spol, conv)
    want, mag, cond = pp.degrid_ref(c, grid, bpol, ppol, spol)
    eps = gen.eps(np.dtype(dt))
    tol = (phase_eps(c, eps) * 4 + 100 * eps * (1 + cond)
           + 4e-16 * c.W**2 * cond) * mag
    for name in (["degridder_serial", "degridder"] if serial_too
                 else ["degridder_serial"]):
        got = ctx.call(getattr(dg, name), *args, vis_dtype=vdt)
        ctx.ok("visibility dtype", got.dtype == np.dtype(dt), got=got.dtype)
        ctx.ok("visibility shape", got.shape == want.shape, got=got.shape)
        bad = ~(np.abs(got - want) <= tol + 1e-300)
        bad &= cond < 1e4       # weights that cancel amplify anything
        ctx.ok("degridded visibilities", not bad.any(), name,
               where=np.argwhere(bad)[:3], got=got[bad][:3],
               want=want[bad][:3])
    ctx.equal("inputs unmodified", c.uvw, uvw0)
    ctx.equal("inputs unmodified", grid, grid0)


@group("G03", "degridding", quick=20, thorough=250,
       variants=degrid_variants(), weight=2,
       require=["degridded visibilities", "inputs unmodified"])
def degridding(ctx, variant):
    """random grids read at random baselines, serially and in parallel over
    rows; non-trivial: several rows and cells"""
    degrid_case(ctx, variant, ctx.variant[0] in pp.FROM_STOKES[::4])


@group("G03", "degridding, bounds sanitizer", quick=20, thorough=200,
       variants=[("XXYY_FROM_I", "rotate", "phase_rotate",
                  PACKED + "gather", "c16"),
                 ("RRRLLRLL_FROM_U", "wlinapprox", "phase_rotate",
                  UNPACKED + "gather", "c16")],
       env={"NUMBA_BOUNDSCHECK": "1"}, require=["degridded visibilities"])
def degridding_bounds(ctx, variant):
    """the same with every array index checked"""
    degrid_case(ctx, variant, False)


@group("G03", "kernels", quick=60, thorough=400, variants=[None],
       require=["packing", "unit sum", "symmetric", "detaper",
                "kernel formula"])
def kernels_(ctx, variant):
    """kernel samples, packing and detapering; non-trivial: all"""
    from scipy.special import jn
    from africanus.gridding.perleypolyhedron import kernels as k
    rng = ctx.rng
    W = 2 * int(rng.randint(0, 6)) + 1
    os = int(rng.choice([1, 2, 3, 4, 5, 8, 14, 21]))
    ctx.sig(W=W, OS=os)
    u = ctx.call(k.uspace, W, os)
    n = os * (W + 2)
    half = (W + 2) // 2
    ctx.ok("tap count", len(u) == n)
    ctx.close("taps", u, np.arange(n) / os - half, rtol=0, atol=1e-12)
    K = rng.normal(size=n).astype(gen.choice(rng, ["f8", "f4", "c16"]))
    if K.dtype.kind == "c":
        K = K + 1j * rng.normal(size=n)
    P = ctx.call(k.pack_kernel, K, W, oversample=os)
    ctx.ok("packed dtype", P.dtype == K.dtype)
    ctx.equal("packing", P, K.reshape(W + 2, os).T.ravel())
    ctx.equal("packing", ctx.call(k.unpack_kernel, P, W, oversample=os), K)
    x = np.arange(n) / float(os) - half
    sinc = np.sinc(x)
    for name in ("sinc", "hanningsinc", "kbsinc"):
        a = float(rng.uniform(0.5, 1.5)) if rng.rand() < 0.5 else None
        if name == "sinc":
            a = a or 1.0
            got = ctx.call(k.sinc, W, oversample=os, a=a)
            want = np.sinc(x * a)
        elif name == "hanningsinc":
            got = ctx.call(k.hanningsinc, W, a=a, oversample=os)
            if a is None:
                a = np.polyval(np.polyfit(
                    [1.5, 2.0, 2.5, 3.0, 3.5],
                    [0.7600, 0.7146, 0.6185, 0.5534, 0.5185], 3), W + 2)
            want = sinc * (a + (1 - a) * np.cos(2 * np.pi * x / (W + 3)))
        else:
            order = int(rng.choice([0, 1, 15, 18]))
            got = ctx.call(k.kbsinc, W, b=None if a is None else 5 * a,
                           oversample=os, order=order)
            b = 5 * a if a is not None else np.polyval(np.polyfit(
                [1.5, 2.0, 2.5, 3.0, 3.5, 4.0, 4.5, 5.0],
                [1.9980, 2.3934, 3.3800, 4.2054, 4.9107, 5.7567, 6.6291,
                 7.4302], 1), W + 2)
            want = sinc * jn(order, b * np.sqrt(1 - (2 * x / (W + 3))**2))
        s = want.sum()
        if abs(s) < 1e-3 * np.abs(want).sum():
            continue
        want = want / s
        scale = np.abs(want).max()
        ctx.close("kernel formula", got, want, rtol=0, atol=1e-9 * scale,
                  what=name)
        ctx.close("unit sum", got.sum(), 1.0, rtol=0,
                  atol=1e-9 * np.abs(want).sum())
        c = half * os
        w = min(c, n - 1 - c)
        ctx.close("symmetric", got[c - w:c + w + 1],
                  got[c - w:c + w + 1][::-1], rtol=0, atol=1e-9 * scale)
    npix = int(rng.choice([1, 2, 3, 8, 9, 12]))
    K = rng.normal(size=n)
    p = (np.arange(npix) - npix // 2) / float(npix)
    ft = np.exp(-2j * np.pi * np.outer(p, x)) @ K
    want = np.abs(np.outer(ft, ft))
    atol = 1e-11 * np.abs(K).sum()**2
    ctx.close("detaper", ctx.call(k.compute_detaper_dft_seperable, npix, K, W,
                                  os), want, rtol=0, atol=atol)
    K2 = np.outer(K, K)
    ctx.close("detaper", ctx.call(k.compute_detaper_dft, npix, K2, W, os),
              want, rtol=0, atol=atol)
    if npix >= W + 2:
        ctx.close("detaper by FFT", ctx.call(k.compute_detaper, npix, K2, W,
                                             os), want, rtol=0, atol=atol)


@group("G03", "chunked", quick=10, thorough=120, weight=4,
       variants=[("I_FROM_XXYY", "XXYY_FROM_I", "rotate", "phase_rotate"),
                 ("U_FROM_RRRLLRLL", "RRRLLRLL_FROM_U", "wlinapprox",
                  "phase_rotate"),
                 ("V_FROM_XXXYYXYY", "XXXYYXYY_FROM_V", "None",
                  "phase_rotate")],
       require=["facets of a chunk", "sum of facets",
                "mismatched chunks rejected", "dask metadata",
                "schedules"])
def chunked(ctx, variant):
    """facets, rows and channels in chunks on random schedules"""
    import dask.array as da
    from africanus.gridding.perleypolyhedron import dask as pd
    rng = ctx.rng
    gpol, dpol, bpol, ppol = variant
    c = pp.case(ctx, bpol, ppol, npix=int(rng.choice([5, 8, 12])), maxrow=20)
    nf = int(rng.randint(1, 4))
    ics = np.array([c.ic] + [
        (c.pc[0] + rng.uniform(-.05, .05), c.pc[1] + rng.uniform(-.05, .05))
        for _ in range(nf - 1)])
    ok = np.ones(c.nrow, bool)
    for ic in ics:
        _, _, d = pp.places(pp.facet(c.uvw, c.pc, ic, bpol), c.wl, c.npix,
                            c.cell)
        ok &= pp.clear(d, c.OS)
    c.uvw = np.ascontiguousarray(c.uvw[ok])
    c.nrow = len(c.uvw)
    if not c.nrow:
        raise Skip()
    rch, cch = gen.chunks(rng, c.nrow, 4), gen.chunks(rng, c.nchan, 3)
    fch = gen.chunks(rng, nf, 3)
    ctx.sig(rows=rch, chans=cch, facets=fch, npix=c.npix)
    how = gen.choice(rng, dk.SCHEDULES)
    conv = PACKED
    K = kernel(c, conv)
    ncorr = len(pp.corr_weights(gpol))
    vis = gen.cplx(rng, (c.nrow, c.nchan, ncorr))
    cm = dk.arr(c.chanmap, (cch,))
    wl = dk.arr(c.wl, (cch,))
    uvw = dk.arr(c.uvw, (rch, (3,)))
    cen = dk.arr(ics, (fch, (2,)))
    args = (uvw, dk.arr(vis, (rch, cch, (ncorr,))), wl, cm, c.npix, c.cell,
            cen, c.pc, K, c.W, c.OS, bpol, ppol, gpol, conv + "scatter")
    kw = {}
    norm = bool(rng.rand() < 0.4)
    if norm:
        kw["do_normalize"] = True
    if rng.rand() < 0.3:
        kw["grid_dtype"] = np.complex64
    g = ctx.call(pd.gridder, *args, **kw)
    got = ctx.call(dk.compute, ctx, g, how)
    want = np.zeros((nf, 1, c.nband, c.npix, c.npix), complex)
    mag = np.zeros(want.shape)
    whole, nrow = c.uvw, c.nrow
    for fi, ic in enumerate(ics):
        for a, b in gen.bounds(rch):
            c.ic, c.uvw, c.nrow = tuple(ic), whole[a:b], b - a
            w, m, wt, _ = pp.grid_ref(c, vis[a:b], bpol, ppol, gpol, False,
                                      norm)
            if norm and (np.abs(wt) < 1e-2).any():
                raise Skip()
            want[fi, 0] += w / len(rch)
            mag[fi, 0] += m / len(rch)
    c.uvw, c.nrow = whole, nrow
    ctx.ok("grid shape", got.shape == want.shape, got=got.shape,
           want=want.shape)
    dk.honest(ctx, "dask metadata", g, got, "gridder")
    ctx.ok("grid dtype", got.dtype == kw.get("grid_dtype", complex),
           got=got.dtype)
    eps = gen.eps(got.dtype)
    tol = (4 * phase_eps(c, eps) + 1e-13 + 4 * c.nrow * c.nchan * eps) * mag
    bad = ~(np.abs(got - want) <= tol + 1e-300)
    ctx.ok("facets of a chunk", not bad.any(), where=np.argwhere(bad)[:3],
           got=got[bad][:3], want=want[bad][:3])
    # and back
    dkw = dict(vis_dtype=np.complex64) if rng.rand() < 0.3 else {}
    grids = gen.cplx(rng, (nf, c.nband, c.npix, c.npix))
    d = ctx.call(pd.degridder, uvw, dk.arr(
        grids, (fch, (c.nband,), (c.npix,), (c.npix,))), wl, cm, c.cell, cen,
        c.pc, K, c.W, c.OS, bpol, ppol, dpol, conv + "gather", **dkw)
    got = ctx.call(dk.compute, ctx, d, gen.choice(rng, dk.SCHEDULES))
    want, mag, cond = 0, 0, 0
    for fi, ic in enumerate(ics):
        c.ic = tuple(ic)
        w, m, q = pp.degrid_ref(c, grids[fi], bpol, ppol, dpol)
        want, mag, cond = want + w, mag + m * (1 + q), np.maximum(cond, q)
    ctx.ok("visibility shape", got.shape == want.shape, got=got.shape)
    dk.honest(ctx, "dask metadata", d, got, "degridder")
    ctx.ok("visibility dtype", got.dtype == dkw.get("vis_dtype", complex),
           got=got.dtype)
    dk.honest_blocks(ctx, "dask block metadata", d, "degridder")
    eps = gen.eps(got.dtype)
    tol = (4 * phase_eps(c, eps) + 1e-13 + 400 * eps) * mag + 1e-300
    bad = ~(np.abs(got - want) <= tol) & (cond < 1e4)
    ctx.ok("sum of facets", not bad.any(), where=np.argwhere(bad)[:3],
           got=got[bad][:3], want=want[bad][:3])
    if c.nrow > 1:
        bad_rows = (c.nrow,) if rch != (c.nrow,) else (1, c.nrow - 1)
        ctx.raises("mismatched chunks rejected", ValueError, pd.gridder,
                   uvw.rechunk((bad_rows, (3,))), *args[1:])
    if c.nchan > 1:
        bad_ch = (c.nchan,) if cch != (c.nchan,) else (1, c.nchan - 1)
        ctx.raises("mismatched chunks rejected", ValueError, pd.gridder,
                   *(args[:2] + (da.from_array(c.wl, chunks=(bad_ch,)),)
                     + args[3:]))


@group("G03", "rejects", quick=12, thorough=60, variants=[None],
       require=["inconsistent input rejected"])
def rejects(ctx, variant):
    """inputs whose sizes disagree are refused, not read or written past"""
    from africanus.gridding.perleypolyhedron import degridder as dg
    from africanus.gridding.perleypolyhedron.gridder import gridder
    rng = ctx.rng
    c = pp.case(ctx, "rotate", "phase_rotate")
    if not c.nrow:
        raise Skip()
    ctx.sig(rows=c.nrow, chan=c.nchan)
    vis = gen.cplx(rng, (c.nrow, c.nchan, 2))
    grid = gen.cplx(rng, (c.nband, c.npix, c.npix))
    K = kernel(c, PACKED)
    tail = (c.cell, c.ic, c.pc, K, c.W, c.OS, "rotate", "phase_rotate")
    name = "inconsistent input rejected"

    def g(uvw=c.uvw, vis=vis, wl=c.wl, cm=c.chanmap):
        return gridder(uvw, vis, wl, cm, c.npix, *tail, "I_FROM_XXYY",
                       PACKED + "scatter")
    more = np.concatenate([c.uvw, c.uvw[:1]])
    longer = np.concatenate([c.wl, c.wl[:1]])
    for kw in (dict(uvw=more), dict(uvw=c.uvw[:-1]), dict(wl=longer),
               dict(cm=c.chanmap[:-1]), dict(uvw=c.uvw[:, :2].copy()),
               dict(wl=longer, cm=np.concatenate([c.chanmap,
                                                  c.chanmap[:1]]))):
        if not all(a.size for a in kw.values()):
            continue
        ctx.raises(name, ValueError, g, **kw)
    f = [dg.degridder_serial, dg.degridder][ctx.case % 2]

    def d(uvw=c.uvw, grid=grid, wl=c.wl, cm=c.chanmap):
        return f(uvw, grid, wl, cm, *tail, "XXYY_FROM_I", PACKED + "gather")
    for kw in (dict(wl=longer), dict(cm=c.chanmap + 1),
               dict(cm=c.chanmap[:-1]), dict(uvw=c.uvw[:, :2].copy()),
               dict(grid=np.concatenate([grid, grid[:, :1]], axis=1))):
        if not all(a.size for a in kw.values()):
            continue
        ctx.raises(name, ValueError, d, **kw)
