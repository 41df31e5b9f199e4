"""Gridding and degridding with w-correction."""
import numpy as np

from vf import gen, wg
from vf.core import group

ASSUMPTIONS = [
    "image sizes are even and at least 16, baselines stay within the "
    "Nyquist limit of the cell, the field within the hemisphere; visibility, "
    "weight and image precisions agree",
    "a flag array marks the samples to use (non-zero: use), as documented",
]


def near(ctx, name, got, want, s, prec, scale, factor=1.0):
    """distance below the requested accuracy, band by band"""
    tol = (4 * s["eps"] + (3e-6 if prec == "f4" else 1e-13)) * factor
    e = wg.errors(s, got, want)
    ref = np.maximum(wg.errors(s, want, 0 * want), scale)
    ctx.ok(name, np.all(e <= tol * ref), error=e, scale=ref, tol=tol)


def args(s):
    return s["idx"], s["cnt"]


def opts(rng, s, wt, mask):
    kw = dict(epsilon=s["eps"], do_wstacking=s["w"])
    if wt is not None:
        kw["weights"] = wt
    if mask is not None:
        kw["flag"] = mask
    if s["celly"] is not None:
        kw["celly"] = s["celly"]
    n = gen.choice(rng, [None, 1, 3])
    if n:
        kw["nthreads"] = n
    return kw


def setup(ctx, prec):
    rng = ctx.rng
    s = wg.case(rng, prec)
    wt, mask = wg.weights(rng, s, prec)
    ctx.sig(nx=s["nx"], ny=s["ny"], bands=s["cnt"], gap=s["gap"], rows=s["nrow"],
            eps=s["eps"], w=s["w"], wt=wt is not None,
            flag=mask is not None, celly=s["celly"] is not None)
    if s["nband"] == 1 or s["nrow"] == 1:
        ctx.trivial()
    return s, wt, mask, opts(rng, s, wt, mask)


def types(prec):
    return (np.float32, np.complex64) if prec == "f4" else (
        np.float64, np.complex128)


@group("G01", "accuracy", quick=150, thorough=1500, variants=["f8", "f4"] * 3,
       require=["dirty image", "model visibilities",
                "unselected visibilities are zero",
                "unselected data do not matter",
                "channels of no band are zero",
                "channels of no band do not matter"])
def accuracy(ctx, prec):
    """images and visibilities against direct sums at several requested
    accuracies, with bands, weights, flags, rectangular cells, with and
    without w-correction; non-trivial: several bands and rows"""
    from africanus.gridding.wgridder import dirty, model
    rng = ctx.rng
    rt, ct = types(prec)
    s, wt, mask, kw = setup(ctx, prec)
    x = gen.real(rng, (s["nband"], s["nx"], s["ny"]), rt)
    x[rng.rand(*x.shape) < 0.5] = 0
    v = gen.cplx(rng, (s["nrow"], s["nchan"]), ct)
    acc = {} if rng.rand() < 0.5 else dict(double_accum=True)
    im = ctx.call(dirty, s["uvw"], s["freq"], v, *args(s), s["nx"], s["ny"],
                  s["cell"], **dict(kw, **acc))
    ctx.ok("result dtype", im.dtype == rt, got=im.dtype)
    ctx.ok("result shape", im.shape == x.shape, got=im.shape)
    near(ctx, "dirty image", im, wg.grid(s, v, wt, mask), s, prec,
         wg.im_scale(s, v, wt, mask))
    mv = ctx.call(model, s["uvw"], s["freq"], x, *args(s), s["cell"], **kw)
    ctx.ok("result dtype", mv.dtype == ct, got=mv.dtype)
    ctx.ok("result shape", mv.shape == v.shape, got=mv.shape)
    near(ctx, "model visibilities", mv, wg.degrid(s, x, wt, mask), s, prec,
         wg.vis_scale(s, x, wt, mask))
    none = wg.band_of(s) < 0
    if none.any():
        ctx.ok("channels of no band are zero", not mv[:, none].any())
        v2 = v.copy()
        v2[:, none] = 1e6
        im2 = ctx.call(dirty, s["uvw"], s["freq"], v2, *args(s), s["nx"],
                       s["ny"], s["cell"], **dict(kw, **acc))
        ctx.close("channels of no band do not matter", im2, im, rtol=1e-5
                  if prec == "f4" else 1e-12, scale="max")
    if mask is not None:
        ctx.ok("unselected visibilities are zero", not mv[mask == 0].any())
        v2 = v.copy()
        v2[mask == 0] = gen.choice(rng, [1e6, np.nan, np.inf])
        im2 = ctx.call(dirty, s["uvw"], s["freq"], v2, *args(s), s["nx"],
                       s["ny"], s["cell"], **dict(kw, **acc))
        ctx.close("unselected data do not matter", im2, im, rtol=1e-5
                  if prec == "f4" else 1e-12, scale="max")


@group("G01", "operators", quick=100, thorough=1000, variants=["f8", "f4"] * 2,
       require=["adjoint", "residual image", "hessian", "self adjoint",
                "linear"])
def operators(ctx, prec):
    """gridder and degridder are adjoint and linear, the residual image is
    the image of the residual, the Hessian is symmetric"""
    from africanus.gridding.wgridder import dirty, hessian, model, residual
    rng = ctx.rng
    rt, ct = types(prec)
    s, wt, mask, kw = setup(ctx, prec)
    x, y = (gen.real(rng, (s["nband"], s["nx"], s["ny"]), rt)
            for _ in range(2))
    v = gen.cplx(rng, (s["nrow"], s["nchan"]), ct)
    acc = {} if rng.rand() < 0.5 else dict(double_accum=True)
    ikw = dict(kw, **acc)
    pos = (s["uvw"], s["freq"])
    mx = ctx.call(model, *pos, x, *args(s), s["cell"], **kw)
    iv = ctx.call(dirty, *pos, v, *args(s), s["nx"], s["ny"], s["cell"],
                  **ikw)
    a = np.vdot(v.astype("c16"), mx.astype("c16")).real
    b = np.vdot(iv.astype("f8"), x.astype("f8"))
    scale = np.linalg.norm(v) * np.linalg.norm(mx) + np.linalg.norm(
        iv) * np.linalg.norm(x) + np.linalg.norm(v) * wg.vis_scale(
            s, x, wt, mask).sum()
    tol = 3e-6 if prec == "f4" else 1e-13
    # (ducc may choose its kernel by the samples in use: only to accuracy)
    tol += 4 * s["eps"]
    ctx.ok("adjoint", abs(a - b) <= tol * scale, a=a, b=b, scale=scale)
    v2 = v
    if mask is not None and rng.rand() < 0.7:
        v2 = v.copy()
        v2[mask == 0] = gen.choice(rng, [1e6, np.nan, np.inf])
    r = ctx.call(residual, *pos, x, v2, *args(s), s["cell"], **ikw)
    ctx.ok("result dtype", r.dtype == rt, got=r.dtype)
    want = wg.grid(s, v - wg.degrid(s, x, None, mask), wt, mask)
    ctx.ok("result shape", r.shape == want.shape, got=r.shape)
    near(ctx, "residual image", r, want, s, prec,
         wg.im_scale(s, v, wt, mask) + wg.hess_scale(s, x, wt, mask), 2.0)
    hx = ctx.call(hessian, *pos, x, *args(s), s["cell"], **ikw)
    hy = ctx.call(hessian, *pos, y, *args(s), s["cell"], **ikw)
    near(ctx, "hessian", hx, wg.grid(s, wg.degrid(s, x, None, mask), wt,
                                     mask), s, prec,
         wg.hess_scale(s, x, wt, mask), 2.0)
    a, b = (np.vdot(p.astype("f8"), q.astype("f8"))
            for p, q in ((hx, y), (x, hy)))
    scale = (np.linalg.norm(hx) * np.linalg.norm(y) + np.linalg.norm(hy) *
             np.linalg.norm(x)) + np.linalg.norm(y) * wg.hess_scale(
                 s, x, wt, mask).sum()
    ctx.ok("self adjoint", abs(a - b) <= 2 * tol * scale, a=a, b=b)
    z = x * rt(2) + y
    mz = ctx.call(model, *pos, z, *args(s), s["cell"], **kw)
    my = ctx.call(model, *pos, y, *args(s), s["cell"], **kw)
    ctx.ok("linear", np.linalg.norm(mz - 2 * mx - my) <= 2 * tol * (
        np.linalg.norm(mx) + np.linalg.norm(my)) + 1e-300)


@group("G01", "bands", quick=80, thorough=600, variants=["f8"],
       require=["bands are independent", "offset bands", "order of bands",
                "threads do not matter", "bad types rejected"])
def bands(ctx, prec):
    """a band sees its own channels only; band indices of a chunk of a
    longer spectrum mean the same; bands may come in any order; the number
    of threads does not matter"""
    from africanus.gridding.wgridder import dirty, hessian, model, residual
    rng = ctx.rng
    s, wt, mask, kw = setup(ctx, prec)
    v = gen.cplx(rng, (s["nrow"], s["nchan"]))
    tail = (s["nx"], s["ny"], s["cell"])
    pos = (s["uvw"], s["freq"])
    im = ctx.call(dirty, *pos, v, *args(s), *tail, **kw)
    off = int(rng.randint(1, 500))
    im2 = ctx.call(dirty, *pos, v, s["idx"] + off, s["cnt"], *tail, **kw)
    ctx.close("offset bands", im2, im, rtol=1e-12, scale="max")
    x = gen.real(rng, im.shape)
    m1 = ctx.call(model, *pos, x, *args(s), s["cell"], **kw)
    m2 = ctx.call(model, *pos, x, s["idx"] + off, s["cnt"], s["cell"], **kw)
    ctx.close("offset bands", m2, m1, rtol=1e-12, scale="max")
    o = rng.permutation(s["nband"])
    im4 = ctx.call(dirty, *pos, v, s["idx"][o], s["cnt"][o], *tail, **kw)
    ctx.close("order of bands", im4, im[o], rtol=1e-12, scale="max")
    m4 = ctx.call(model, *pos, x[o], s["idx"][o], s["cnt"][o], s["cell"],
                  **kw)
    ctx.close("order of bands", m4, m1, rtol=1e-12, scale="max")
    for fn, data in ((residual, (v,)), (hessian, ())):
        r1 = ctx.call(fn, *pos, x, *data, *args(s), s["cell"], **kw)
        r2 = ctx.call(fn, *pos, x[o], *data, s["idx"][o], s["cnt"][o],
                      s["cell"], **kw)
        ctx.close("order of bands", r2, r1[o], rtol=1e-11, scale="max")
    b = int(rng.randint(s["nband"]))
    sl = slice(int(s["idx"][b]), int(s["idx"][b] + s["cnt"][b]))
    k1 = {k: (q[:, sl] if k in ("weights", "flag") else q)
          for k, q in kw.items()}
    one = ctx.call(dirty, s["uvw"], s["freq"][sl], v[:, sl],
                   s["idx"][b:b + 1], s["cnt"][b:b + 1], *tail, **k1)
    ctx.close("bands are independent", one[0], im[b], rtol=1e-12,
              scale="max")
    kt = dict(kw, nthreads=gen.choice(rng, [0, 2, 8]))
    im3 = ctx.call(dirty, *pos, v, *args(s), *tail, **kt)
    ctx.close("threads do not matter", im3, im, rtol=1e-11, scale="max")
    m3 = ctx.call(model, *pos, x, *args(s), s["cell"], **kt)
    ctx.close("threads do not matter", m3, m1, rtol=1e-11, scale="max")
    ctx.raises("bad types rejected", ValueError, dirty, *pos, v.real,
               *args(s), *tail)


@group("G01", "accumulation", quick=6, thorough=60, variants=["f4"],
       require=["dirty image", "residual image", "hessian"])
def accumulation(ctx, prec):
    """many equal single precision samples accumulated in double precision
    keep the accuracy"""
    from africanus.gridding.wgridder import dirty, hessian, residual
    rng = ctx.rng
    s, n, v = wg.heap(rng)
    uvw, vn = np.tile(s["uvw"], (n, 1)), np.tile(v, (n, 1))
    ctx.sig(rows=n)
    kw = dict(epsilon=s["eps"], double_accum=True)
    x = gen.real(rng, (s["nband"], s["nx"], s["ny"]), np.float32)
    z = np.zeros_like(x)
    pos = (uvw, s["freq"])
    im = ctx.call(dirty, *pos, vn, *args(s), s["nx"], s["ny"], s["cell"],
                  **kw)
    near(ctx, "dirty image", im, n * wg.grid(s, v), s, prec,
         n * wg.im_scale(s, v))
    r = ctx.call(residual, *pos, z, vn, *args(s), s["cell"], **kw)
    near(ctx, "residual image", r, n * wg.grid(s, v), s, prec,
         n * wg.im_scale(s, v))
    h = ctx.call(hessian, *pos, x, *args(s), s["cell"], **kw)
    near(ctx, "hessian", h, n * wg.grid(s, wg.degrid(s, x)), s, prec,
         n * wg.hess_scale(s, x), 2.0)
