"""Chunked gridding and degridding with w-correction."""
import numpy as np

from props.G01 import near, opts, types
from vf import dk, gen, wg
from vf.core import group

ASSUMPTIONS = [
    "channel chunks hold whole imaging bands and correspond to the chunks of "
    "the band axis; otherwise as for the unchunked gridder",
]


@group("G02", "chunks", quick=70, thorough=700, variants=["f8", "f4"] * 3,
       require=["chunked dirty image", "chunked visibilities",
                "chunked residual", "chunked hessian", "metadata",
                "channels of no band are zero",
                "distinct task orders", "block metadata"])
def chunks(ctx, prec):
    """row and band chunks, six schedules, against direct sums;
    non-trivial: several chunks"""
    from africanus.gridding.wgridder import dask as wd
    rng = ctx.rng
    rt, ct = types(prec)
    s = wg.case(rng, prec)
    wt, mask = wg.weights(rng, s, prec)
    kw = opts(rng, s, wt, mask)
    rch, bch = gen.chunks(rng, s["nrow"], 4), gen.chunks(rng, s["nband"], 3)
    cch = tuple(int((s["cnt"] + s["gap"])[a:b].sum()) for a, b in gen.bounds(bch))
    how = gen.choice(rng, dk.SCHEDULES)
    ctx.sig(rows=rch, bands=bch, chans=cch, gap=s["gap"], nx=s["nx"], ny=s["ny"],
            eps=s["eps"], w=s["w"], wt=wt is not None, how=how,
            flag=mask is not None, celly=s["celly"] is not None)
    if len(rch) * len(bch) == 1:
        ctx.trivial()
    x = gen.real(rng, (s["nband"], s["nx"], s["ny"]), rt)
    v = gen.cplx(rng, (s["nrow"], s["nchan"]), ct)
    lkw = dict(kw)
    if wt is not None:
        lkw["weights"] = dk.arr(wt, (rch, cch))
    if mask is not None:
        lkw["flag"] = dk.arr(mask, (rch, cch))
    if rng.rand() < 0.05:
        lkw["nthreads"] = 0
    uvw, fr = dk.arr(s["uvw"], (rch, (3,))), dk.arr(s["freq"], (cch,))
    bins = dk.arr(s["idx"], (bch,)), dk.arr(s["cnt"], (bch,))
    lx = dk.arr(x, (bch, (s["nx"],), (s["ny"],)))
    v2 = v
    if mask is not None and rng.rand() < 0.5:
        v2 = v.copy()           # nobody may look at what is not selected
        v2[mask == 0] = gen.choice(rng, [np.nan, np.inf])
    lv = dk.arr(v2, (rch, cch))
    acc = {} if rng.rand() < 0.5 else dict(double_accum=True)
    jobs = [
        ("dirty image", ctx.call(wd.dirty, uvw, fr, lv, *bins, s["nx"],
                                 s["ny"], s["cell"], **dict(lkw, **acc)),
         wg.grid(s, v, wt, mask), wg.im_scale(s, v, wt, mask)),
        ("visibilities", ctx.call(wd.model, uvw, fr, lx, *bins, s["cell"],
                                  **lkw),
         wg.degrid(s, x, wt, mask), wg.vis_scale(s, x, wt, mask)),
        ("residual", ctx.call(wd.residual, uvw, fr, lx, lv, *bins, s["cell"],
                              **dict(lkw, **acc)),
         wg.grid(s, v - wg.degrid(s, x, None, mask), wt, mask),
         2 * (wg.im_scale(s, v, wt, mask) + wg.hess_scale(s, x, wt, mask))),
        ("hessian", ctx.call(wd.hessian, uvw, fr, lx, *bins, s["cell"],
                             **dict(lkw, **acc)),
         wg.grid(s, wg.degrid(s, x, None, mask), wt, mask),
         2 * wg.hess_scale(s, x, wt, mask)),
    ]
    f = 3.0 if len(rch) > 1 else 1.5      # the errors of chunks add up
    for name, lz, want, scale in jobs:
        got = ctx.call(dk.compute, ctx, lz, how)
        dk.honest(ctx, "metadata", lz, got, name)
        ctx.ok("result shape", got.shape == want.shape, got=got.shape)
        near(ctx, "chunked " + name, got, want, s, prec, scale, f)
        if name == "visibilities" and s["gap"].any():
            ctx.ok("channels of no band are zero",
                   not got[:, wg.band_of(s) < 0].any())
        if ctx.case % 7 == 0:
            ctx.call(dk.honest_blocks, ctx, "block metadata", lz, name)


@group("G02", "accumulation", quick=6, thorough=60, variants=["f4"],
       require=["chunked dirty image", "chunked residual",
                "chunked hessian"])
def accumulation(ctx, prec):
    """the requested double precision accumulation happens in each chunk"""
    from africanus.gridding.wgridder import dask as wd
    rng = ctx.rng
    s, n, v = wg.heap(rng)
    rch = gen.choice(rng, [(n,), (n - 9, 9)])
    bch = gen.choice(rng, [(2,), (1, 1)])
    ctx.sig(rows=rch, bands=bch)
    uvw = dk.arr(np.tile(s["uvw"], (n, 1)), (rch, (3,)))
    vn = dk.arr(np.tile(v, (n, 1)), (rch, bch))
    fr = dk.arr(s["freq"], (bch,))
    bins = dk.arr(s["idx"], (bch,)), dk.arr(s["cnt"], (bch,))
    x = gen.real(rng, (s["nband"], s["nx"], s["ny"]), np.float32)
    ic = (bch, (s["nx"],), (s["ny"],))
    kw = dict(epsilon=s["eps"], double_accum=True)
    im = ctx.call(wd.dirty, uvw, fr, vn, *bins, s["nx"], s["ny"], s["cell"],
                  **kw)
    r = ctx.call(wd.residual, uvw, fr, dk.arr(np.zeros_like(x), ic), vn,
                 *bins, s["cell"], **kw)
    h = ctx.call(wd.hessian, uvw, fr, dk.arr(x, ic), *bins, s["cell"], **kw)
    for name, lz, want, scale, f in (
            ("dirty image", im, wg.grid(s, v), wg.im_scale(s, v), 1.),
            ("residual", r, wg.grid(s, v), wg.im_scale(s, v), 1.),
            ("hessian", h, wg.grid(s, wg.degrid(s, x)), wg.hess_scale(s, x),
             2.)):
        got = ctx.call(dk.compute, ctx, lz, "sync")
        near(ctx, "chunked " + name, got, n * want, s, prec, n * scale, f)
