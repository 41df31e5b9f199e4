"""Parallel drivers of the NIFTY gridder."""
import pickle
import sys

import numpy as np

from vf import dk, fake_nifty as fn, gen
from vf.core import group

ASSUMPTIONS = [
    "nifty_gridder is not installed: a recording stand-in with the same "
    "interface takes its place (vf/fake_nifty.py), so that only what "
    "africanus adds around it is judged",
    "one channel chunk; the grid is a single chunk in u and v",
]


def module():
    sys.modules["nifty_gridder"] = fn
    from africanus.gridding.nifty import dask as nd
    return nd


@group("G04", "drivers", quick=150, thorough=2500,
       require=["gridded", "dirty image", "model grid", "degridded",
                "every sample gridded once", "metadata",
                "distinct task orders", "configuration survives pickling",
                "channel chunks rejected", "inputs unmodified"])
def drivers(ctx, variant):
    """row chunks, streams, flags, weights, w ranges and correlations under
    six schedules; non-trivial: several row chunks"""
    nd = module()
    rng = ctx.rng
    nrow, nchan = int(rng.randint(1, 30)), int(rng.randint(1, 5))
    ncorr = int(rng.choice([1, 2, 4]))
    nx, ny = int(rng.randint(2, 12)), int(rng.randint(2, 12))
    rch = gen.chunks(rng, nrow, int(rng.choice([3, 9])))
    cch = gen.chunks(rng, ncorr, 3)
    uvw = rng.standard_normal((nrow, 3)) * 3
    freq = np.sort(rng.uniform(1e8, 1e9, size=nchan))
    shape = (nrow, nchan, ncorr)
    vis = rng.standard_normal(shape) + 1j * rng.standard_normal(shape)
    wgt = rng.uniform(0.1, 2, size=shape)
    flag = rng.rand(*shape) < rng.choice([0, 0.3, 0.9])
    if rng.rand() < 0.4:        # nobody may look at what is flagged
        vis[flag] = gen.choice(rng, [np.nan, np.inf])
        wgt[flag] = gen.choice(rng, [np.nan, 1.0])
    cfg = dict(nx=nx, ny=ny, eps=float(rng.choice([2e-13, 1e-5])),
               cell_size_x=float(rng.uniform(0.5, 3)),
               cell_size_y=float(rng.uniform(0.5, 3)))
    gc = ctx.call(nd.grid_config, **cfg)
    args = (nx, ny, cfg["eps"], cfg["cell_size_x"], cfg["cell_size_y"])
    ctx.equal("configuration survives pickling", gc.object.args, args)
    back = pickle.loads(pickle.dumps(gc))
    ctx.equal("configuration survives pickling", back.object.args, args)
    import dask
    ctx.equal("configuration survives pickling", dask.base.tokenize(back),
              dask.base.tokenize(gc))
    for k in cfg:
        ctx.ok("configuration survives pickling", dask.base.tokenize(
            ctx.call(nd.grid_config, **dict(cfg, **{k: cfg[k] * 2})))
            != dask.base.tokenize(gc), "two configurations, one token")
    streams = [None, 1, 2, 3, len(rch), len(rch) + 2][rng.randint(6)]
    kw = {}
    lim = (-1e30, 1e30)
    if rng.rand() < 0.4:
        lim = tuple(float(x) for x in np.sort(np.round(
            rng.uniform(-1, 1, size=2) * gen.choice(rng, [1, 4, 12]), 3)))
        kw = dict(wmin=lim[0], wmax=lim[1])
    how = gen.choice(rng, dk.SCHEDULES)
    ctx.sig(rows=rch, chan=nchan, corr=cch, streams=streams, how=how,
            wrange=bool(kw))
    if len(rch) == 1:
        ctx.trivial()
    luvw, lfreq = dk.arr(uvw, (rch, (3,))), dk.arr(freq, ((nchan,),))
    full = (rch, (nchan,), cch)
    lvis, lwgt, lflag = (dk.arr(a, full) for a in (vis, wgt, flag))
    keep = [a.copy() for a in (uvw, freq, vis, wgt, flag)]
    # reference: everything at once
    bl = fn.Baselines(uvw, freq)
    g0 = gc.object
    idx = [fn.getIndices(bl, g0, flag[:, :, c], -1, -1, *lim)
           for c in range(ncorr)]
    want = np.stack([fn.ms2grid_c(bl, g0, idx[c], vis[:, :, c], None,
                                  wgt[:, :, c]) for c in range(ncorr)], 2)
    if streams is not None:
        kw2 = dict(kw, streams=streams)
    else:
        kw2 = dict(kw)
    lg = ctx.call(nd.grid, lvis, luvw, lflag, lwgt, lfreq, gc, **kw2)
    del fn.LOG[:]
    got = ctx.call(dk.compute, ctx, lg, how, alone=True)
    ev = [e for e in list(fn.LOG) if e[0] == "grid"]
    ctx.equal("every sample gridded once", sum(e[1] for e in ev),
              sum(len(i) for i in idx), "samples handed to the gridder")
    ctx.equal("every sample gridded once", len(ev), len(rch) * ncorr,
              "calls of the gridder")
    if streams is not None:
        fresh = sum(not e[2] for e in ev)
        ctx.ok("every sample gridded once", fresh <= streams * ncorr,
               "more grids than streams", fresh=fresh, streams=streams)
    dk.honest(ctx, "metadata", lg, got, "grid")
    ctx.close("gridded", got, want, rtol=1e-11, atol=1e-12)
    again = ctx.call(dk.compute, ctx, lg, gen.choice(rng, dk.SCHEDULES))
    ctx.close("gridded", again, want, rtol=1e-11, atol=1e-12,
              what="second computation")
    s2 = dict(wmin=-1.0, wmax=1.5)
    s2 = [dict(kw2, streams=int(rng.randint(1, 5))), dict(kw2, **s2),
          dict(kw, streams=None)][rng.randint(3)]
    gc2 = gc if rng.rand() < 0.6 else ctx.call(
        nd.grid_config, **dict(cfg, cell_size_x=cfg["cell_size_x"] * 1.5))
    a2 = [lvis, luvw, lflag, lwgt, lfreq]
    if rng.rand() < 0.6:
        # the same call but for one of the data
        k = rng.randint(5)
        gc2, s2 = gc, kw2
        a2[k] = ~lflag if k == 2 else a2[k] * 1.5
    lg2 = ctx.call(nd.grid, *a2, gc2, **s2)
    ctx.call(dk.together, ctx, lg, got, lg2)
    # image of the grid
    ld = ctx.call(nd.dirty, lg, gc)
    di = ctx.call(dk.compute, ctx, ld, how)
    wd = np.stack([g0.grid2dirty_c(want[:, :, c]).real
                   for c in range(ncorr)], 2)
    dk.honest(ctx, "metadata", ld, di, "dirty")
    ctx.close("dirty image", di, wd, rtol=1e-10, atol=1e-11)
    # and back
    img = rng.standard_normal((nx, ny, ncorr)) + 1j * rng.standard_normal(
        (nx, ny, ncorr))
    kimg = img.copy()
    lm = ctx.call(nd.model, dk.arr(img, ((nx,), (ny,), cch)), gc)
    mg = ctx.call(dk.compute, ctx, lm, how)
    wm = np.stack([g0.dirty2grid_c(img[:, :, c]) for c in range(ncorr)], 2)
    dk.honest(ctx, "metadata", lm, mg, "model")
    ctx.close("model grid", mg, wm, rtol=1e-12)
    lv = ctx.call(nd.degrid, lm, luvw, lflag, lwgt, lfreq, gc, **kw)
    dv = ctx.call(dk.compute, ctx, lv, how)
    wv = np.stack([fn.grid2ms_c(bl, g0, idx[c], wm[:, :, c])
                   for c in range(ncorr)], 2)
    dk.honest(ctx, "metadata", lv, dv, "visibilities")
    ctx.close("degridded", dv, wv, rtol=1e-11, atol=1e-12)
    for a, b in zip((uvw, freq, vis, wgt, flag), keep):
        ctx.equal("inputs unmodified", a, b)
    ctx.equal("inputs unmodified", img, kimg)
    if nchan > 1:
        two = dk.arr(freq, ((1, nchan - 1),))
        ctx.raises("channel chunks rejected", ValueError, nd.grid, lvis, luvw,
                   lflag, lwgt, two, gc)
        ctx.raises("channel chunks rejected", ValueError, nd.degrid, lm, luvw,
                   lflag, lwgt, two, gc)
