"""Phase delays and the direct Fourier transform."""
import numpy as np

from vf import bulk, dk, gen
from vf.core import group

ASSUMPTIONS = [
    "the reference evaluates the documented sums in extended precision; the "
    "error bound follows from the rounding of the phases at the coarsest "
    "precision among the inputs",
]

C = 299792458.0


def sky(rng, ns, dt):
    """Directions with l^2+m^2 <= 1: centre, axes, wide fields, horizon."""
    mode = rng.randint(6)
    r = {0: 0.01, 1: 0.3, 2: 0.9, 3: 0.05, 4: 1e-4, 5: 0.9}[mode]
    rad = r * np.sqrt(rng.rand(ns))
    if mode == 4:       # very close to the centre
        rad *= 10**rng.uniform(-2, 0, ns)
    elif mode == 5:     # down to the horizon
        rad = np.cos(10**rng.uniform(-3, -0.3, ns))
    th = rng.uniform(0, 2 * np.pi, ns)
    lm = np.stack([rad * np.cos(th), rad * np.sin(th)], axis=1)
    for i in range(ns):
        u = rng.rand()
        if u < 0.1:
            lm[i] = 0
        elif u < 0.2:
            lm[i, rng.randint(2)] = 0
    return lm.astype(dt)


def coords(rng, nr, dt, scale=None):
    uvw = rng.normal(size=(nr, 3)) * (
        scale or gen.choice(rng, [1.0, 30.0, 1000.0]))
    if scale is None and rng.rand() < 0.15:     # very long baselines
        uvw *= 1000.0
    if rng.rand() < 0.2:
        uvw[:, 2] = 0
    if rng.rand() < 0.2:
        uvw[0] = 0
    return uvw.astype(dt)


def freqs(rng, nc, dt):
    f = np.sort(rng.uniform(0.5e9, 2e9, nc))
    if rng.rand() < 0.2:
        f = f[::-1].copy()
    return f.astype(dt)


def phases(lm, uvw, freq, sign=-1.0):
    """Phases in extended precision, shape (source, row, chan), and the bound
    of their rounding error per unit of machine precision."""
    L = np.longdouble
    lm, uvw, freq = lm.astype(L), uvw.astype(L), freq.astype(L)
    x = 1 - lm[:, 0]**2 - lm[:, 1]**2
    n = np.sqrt(x) - 1
    two_pi_c = 2 * L(np.pi) / L(C)
    # np.pi as a double: below every tolerance used here
    arg = (np.outer(lm[:, 0], uvw[:, 0]) + np.outer(lm[:, 1], uvw[:, 1]) +
           np.outer(n, uvw[:, 2]))
    nerr = 3 + 2 / np.sqrt(x)
    mag = (np.abs(np.outer(lm[:, 0], uvw[:, 0])) +
           np.abs(np.outer(lm[:, 1], uvw[:, 1])) +
           nerr[:, None] * np.abs(uvw[:, 2])[None])
    p = sign * two_pi_c * arg[:, :, None] * freq[None, None]
    e = two_pi_c * mag[:, :, None] * freq[None, None]
    return p, e.astype(float)


def expi(p):
    return np.cos(p) + 1j * np.sin(p)


def phase_dtypes(v):
    return tuple(np.dtype(x) for x in v.split())


@group("R03", "phase delay", quick=60, thorough=1500,
       variants=["f8 f8 f8", "f4 f4 f4", "f8 f4 f8", "f4 f8 f8", "f8 f8 f4"],
       require=["K term", "unit modulus", "conjugate convention"])
def phase(ctx, variant):
    """random directions, baselines and frequencies, both conventions;
    non-trivial: more than one of each"""
    from africanus.rime import phase_delay
    rng = ctx.rng
    ld, ud, fd = phase_dtypes(variant)
    ns, nr, nc = gen.size(rng), gen.size(rng), gen.size(rng)
    lm, uvw = sky(rng, ns, ld), coords(rng, nr, ud)
    f = freqs(rng, nc, fd)
    conv = gen.choice(rng, [None, "fourier", "casa"])
    kw = {} if conv is None else dict(convention=conv)
    ctx.sig(src=ns, row=nr, chan=nc, conv=conv)
    if min(ns, nr, nc) == 1:
        ctx.trivial()
    k = ctx.call(phase_delay, lm, uvw, f, **kw)
    want_dt = np.result_type(np.complex64, ld, ud, fd)
    ctx.ok("result dtype", k.dtype == want_dt, got=k.dtype, want=want_dt)
    p, e = phases(lm, uvw, f, 1.0 if conv == "casa" else -1.0)
    eps = gen.eps(lm, uvw, f)
    tol = eps * (4 + 6 * e)
    ctx.ok("result shape", k.shape == p.shape, got=k.shape)
    bad = ~(np.abs(k - expi(p)) <= tol)
    ctx.ok("K term", not bad.any(), where=np.argwhere(bad)[:3],
           got=k[bad][:3], want=expi(p)[bad][:3].astype(complex))
    ctx.ok("unit modulus", np.all(np.abs(np.abs(k) - 1) < 8 * gen.eps(k)))
    other = ctx.call(phase_delay, lm, uvw, f,
                     convention="fourier" if conv == "casa" else "casa")
    ctx.ok("conjugate convention", np.all(
        np.abs(other - np.conj(k)) <= 2 * tol))


@group("R03", "conventions", quick=10, thorough=20,
       variants=[None], require=["unknown convention rejected"])
def conventions(ctx, variant):
    """an unknown convention is refused everywhere"""
    from africanus.rime import phase_delay
    from africanus.dft import im_to_vis, vis_to_im
    rng = ctx.rng
    lm, uvw, f = sky(rng, 2, "f8"), coords(rng, 3, "f8"), freqs(rng, 2, "f8")
    bad = gen.choice(rng, ["casacore", "", "Fourier", "fouriers", "CASA"])
    ctx.sig(bad=bad, v=float(f[0]))
    t = "unknown convention rejected"
    ctx.raises(t, ValueError, phase_delay, lm, uvw, f, convention=bad)
    ctx.raises(t, ValueError, im_to_vis, np.ones((2, 2, 1)), uvw, lm, f,
               convention=bad)
    ctx.raises(t, ValueError, vis_to_im, np.ones((3, 2, 1), complex), uvw, lm,
               f, np.zeros((3, 2, 1), bool), convention=bad)


def im_case(rng, idt, dt):
    ns, nr, nc, nk = (gen.size(rng), gen.size(rng), gen.size(rng, 4, 8),
                      gen.choice(rng, [1, 2, 4]))
    d1 = "f4" if dt == "mix" else dt
    lm, uvw, f = sky(rng, ns, d1), coords(rng, nr, d1), freqs(rng, nc, d1)
    if dt == "mix":
        lm, uvw, f = gen.odd_one(rng, [lm, uvw, f])
    if np.dtype(idt).kind == "c":
        im = gen.cplx(rng, (ns, nc, nk), idt)
    else:
        im = gen.real(rng, (ns, nc, nk), idt)
    im = gen.wild(rng, im)
    im[rng.rand(*im.shape) < gen.choice(rng, [0, 0.4])] = 0
    return lm, uvw, f, im


def ref_vis(im, lm, uvw, f, sign):
    p, e = phases(lm, uvw, f, sign)
    v = np.einsum("src,sck->rck", expi(p), im.astype(np.clongdouble))
    m = np.einsum("src,sck->rck", 4 + 6 * e, np.abs(im).astype(float))
    return v, m


def ref_im(vis, flags, lm, uvw, f, sign):
    p, e = phases(lm, uvw, f, sign)
    w = vis.astype(np.clongdouble)
    w[np.any(flags, axis=-1)] = 0
    v = np.einsum("src,rck->sck", expi(p), w).real
    m = np.einsum("src,rck->sck", 4 + 6 * e, np.abs(w).astype(float))
    return v, m


@group("R03", "im to vis", quick=50, thorough=1000,
       variants=["f8 f8 -", "c16 f8 -", "f4 f4 -", "f8 f8 c8", "f4 f4 c16",
                 "f8 f4 -", "f4 f8 -", "c8 f8 -", "f4 mix -"],
       require=["visibilities of an image"])
def im2vis(ctx, variant):
    """direct transform of random images with zeros; non-trivial: several
    pixels, rows and channels"""
    from africanus.dft import im_to_vis
    rng = ctx.rng
    idt, dt, odt = variant.split()
    lm, uvw, f, im = im_case(rng, idt, dt)
    conv = gen.choice(rng, [None, "fourier", "casa"])
    kw = {} if conv is None else dict(convention=conv)
    if odt != "-":
        kw["dtype"] = np.dtype(odt).type
    ctx.sig(shape=im.shape, rows=len(uvw), conv=conv)
    if min(im.shape[:2] + (len(uvw),)) == 1:
        ctx.trivial()
    v = ctx.call(im_to_vis, im, uvw, lm, f, **kw)
    want_dt = (np.result_type(np.complex64, im, uvw, lm, f) if odt == "-"
               else np.dtype(odt))
    ctx.ok("result dtype", v.dtype == want_dt, got=v.dtype, want=want_dt)
    w, m = ref_vis(im, lm, uvw, f, 1.0 if conv == "casa" else -1.0)
    ctx.ok("result shape", v.shape == w.shape, got=v.shape)
    # the accumulator has the output's precision
    tol = m * (gen.eps(lm, uvw, f, im) + gen.eps(v) * len(lm)) + 1e-300
    bad = ~(np.abs(v - w) <= tol)
    ctx.ok("visibilities of an image", not bad.any(),
           where=np.argwhere(bad)[:3], got=v[bad][:3],
           want=w[bad][:3].astype(complex))


@group("R03", "vis to im", quick=50, thorough=1000,
       variants=["c16 f8 ? -", "c8 f8 u1 -", "c8 f4 ? -", "f8 f8 ? -",
                 "c16 f8 i8 f4", "f8 f4 ? -", "c16 f4 ? -", "c8 mix ? -"],
       require=["image of visibilities", "flagged samples ignored"])
def vis2im(ctx, variant):
    """adjoint transform of random visibilities and flags; non-trivial:
    partially flagged"""
    from africanus.dft import vis_to_im
    rng = ctx.rng
    vdt, dt, fdt, odt = variant.split()
    lm, uvw, f, im = im_case(rng, "f8", dt)
    shape = (len(uvw), len(f), im.shape[-1])
    vis = (gen.cplx(rng, shape, vdt) if np.dtype(vdt).kind == "c"
           else gen.real(rng, shape, vdt))
    vis = gen.wild(rng, vis)
    fl = gen.flags(rng, shape, np.dtype(fdt))
    conv = gen.choice(rng, [None, "fourier", "casa"])
    kw = {} if conv is None else dict(convention=conv)
    if odt != "-":
        kw["dtype"] = np.dtype(odt).type
    ctx.sig(shape=shape, src=len(lm), conv=conv, flagged=int(fl.sum()))
    if fl.all() or not fl.any():
        ctx.trivial()
    # what is flagged must not matter, whatever it is
    vis2 = vis.copy()
    vis2[np.any(fl, axis=-1)] = gen.choice(rng, [np.nan, 1e30, np.inf])
    i1 = ctx.call(vis_to_im, vis, uvw, lm, f, fl, **kw)
    i2 = ctx.call(vis_to_im, vis2, uvw, lm, f, fl, **kw)
    ctx.equal("flagged samples ignored", i2, i1, "image")
    want_dt = (np.result_type(vis.real, uvw, lm, f) if odt == "-"
               else np.dtype(odt))
    ctx.ok("result dtype", i1.dtype == want_dt, got=i1.dtype, want=want_dt)
    w, m = ref_im(vis, fl, lm, uvw, f, -1.0 if conv == "casa" else 1.0)
    ctx.ok("result shape", i1.shape == w.shape, got=i1.shape)
    tol = m * (gen.eps(lm, uvw, f, vis) + gen.eps(i1) * len(uvw)) + 1e-300
    bad = ~(np.abs(i1 - w) <= tol)
    ctx.ok("image of visibilities", not bad.any(),
           where=np.argwhere(bad)[:3], got=i1[bad][:3],
           want=w[bad][:3].astype(float))


@group("R03", "adjoint", quick=40, thorough=600, variants=[None],
       require=["<Ax,y> = <x,A'y>"])
def adjoint(ctx, variant):
    """the two transforms are adjoint under either convention"""
    from africanus.dft import im_to_vis, vis_to_im
    rng = ctx.rng
    lm, uvw, f, im = im_case(rng, "f8", "f8")
    shape = (len(uvw), len(f), im.shape[-1])
    vis = gen.cplx(rng, shape)
    conv = gen.choice(rng, ["fourier", "casa"])
    ctx.sig(shape=shape, src=len(lm), conv=conv)
    ax = ctx.call(im_to_vis, im, uvw, lm, f, convention=conv)
    ay = ctx.call(vis_to_im, vis, uvw, lm, f, np.zeros(shape, bool),
                  convention=conv)
    a = np.sum((np.conj(ax) * vis).real)
    b = np.sum(im * ay)
    _, e = phases(lm, uvw, f)
    s = np.abs(im).sum() * np.abs(vis).sum() * (10 + 12 * e.max())
    ctx.ok("<Ax,y> = <x,A'y>", abs(a - b) <= 2.3e-16 * s * 10, a=a, b=b)


@group("R03", "dask", quick=40, thorough=500,
       variants=["phase f8", "phase f4", "im2vis f8", "im2vis f4",
                 "vis2im f8", "vis2im f4"],
       require=["chunked phase", "chunked im_to_vis", "chunked vis_to_im",
                "metadata", "distinct task orders"])
def chunked(ctx, variant):
    """random chunks and schedules; non-trivial: several chunks"""
    from africanus.rime.dask import phase_delay
    from africanus.dft.dask import im_to_vis, vis_to_im
    rng = ctx.rng
    what, dt = variant.split()
    lm, uvw, f, im = im_case(rng, dt, dt)
    ns, nr, nc, nk = len(lm), len(uvw), len(f), im.shape[-1]
    sch, rch, cch = (gen.chunks(rng, n, 4) for n in (ns, nr, nc))
    how = gen.choice(rng, dk.SCHEDULES)
    conv = gen.choice(rng, [None, "fourier", "casa"])
    kw = {} if conv is None else dict(convention=conv)
    sign = 1.0 if conv == "casa" else -1.0
    # (l,m) and (u,v,w) are one chunk
    d_uvw, d_f = dk.arr(uvw, (rch, (3,))), dk.arr(f, (cch,))
    if what == "phase":
        ctx.sig(sch=sch, rch=rch, cch=cch, conv=conv, how=how)
        out = ctx.call(phase_delay, dk.arr(lm, (sch, (2,))), d_uvw, d_f, **kw)
        got = ctx.call(dk.compute, ctx, out, how)
        p, e = phases(lm, uvw, f, sign)
        want, tol = expi(p), gen.eps(lm) * (4 + 6 * e)
        tag = "chunked phase"
    elif what == "im2vis":
        kch = gen.chunks(rng, nk)
        ctx.sig(rch=rch, cch=cch, kch=kch, conv=conv, how=how)
        odt = gen.choice(rng, [None, np.complex64, np.complex128])
        if odt is not None:
            kw["dtype"] = odt
        out = ctx.call(im_to_vis, dk.arr(im, ((ns,), cch, kch)), d_uvw,
                       dk.arr(lm, ((ns,), (2,))), d_f, **kw)
        got = ctx.call(dk.compute, ctx, out, how)
        want, m = ref_vis(im, lm, uvw, f, sign)
        tol = m * (gen.eps(lm, im) + gen.eps(got) * ns) + 1e-300
        tag = "chunked im_to_vis"
        sch = (1,)
    else:
        vis = gen.cplx(rng, (nr, nc, nk), {"f8": "c16", "f4": "c8"}[dt])
        fl = gen.flags(rng, vis.shape, bool)
        kch = (nk,)
        odt = gen.choice(rng, [None, np.float32, np.float64])
        if odt is not None:
            kw["dtype"] = odt
        ctx.sig(sch=sch, rch=rch, cch=cch, kch=kch, conv=conv, how=how,
                flagged=int(fl.sum()))
        out = ctx.call(vis_to_im, dk.arr(vis, (rch, cch, kch)), d_uvw,
                       dk.arr(lm, (sch, (2,))), d_f,
                       dk.arr(fl, (rch, cch, kch)), **kw)
        got = ctx.call(dk.compute, ctx, out, how)
        want, m = ref_im(vis, fl, lm, uvw, f, -sign)
        tol = m * (gen.eps(lm, vis) + gen.eps(got) * nr) + 1e-300
        tag = "chunked vis_to_im"
    if len(rch) * len(cch) * len(sch) == 1:
        ctx.trivial()
    dk.honest(ctx, "metadata", out, got, what)
    ctx.ok("result shape", got.shape == want.shape, got=got.shape)
    bad = ~(np.abs(got - want) <= tol)
    ctx.ok(tag, not bad.any(), where=np.argwhere(bad)[:3], got=got[bad][:3])
    if ctx.case % 3 == 0:
        dk.honest_blocks(ctx, "block metadata", out, what)


@group("R03", "dask rejects", quick=12, thorough=40, variants=[None],
       require=["unsupported chunks rejected"])
def rejects(ctx, variant):
    """source chunks the wrappers cannot sum, and unequal chunks, are
    refused"""
    from africanus.dft.dask import im_to_vis, vis_to_im
    rng = ctx.rng
    ns, nr, nc = 4, 5, 3
    lm, uvw, f = sky(rng, ns, "f8"), coords(rng, nr, "f8"), freqs(
        rng, nc, "f8")
    im = gen.real(rng, (ns, nc, 2))
    vis = gen.cplx(rng, (nr, nc, 2))
    fl = np.zeros(vis.shape, bool)
    A = dk.arr
    mode = int(rng.randint(5))
    ctx.sig(mode=mode, x=float(im[0, 0, 0]))
    u, fr = A(uvw, ((2, 3), (3,))), A(f, ((1, 2),))
    t = "unsupported chunks rejected"
    if mode == 0:
        ctx.raises(t, ValueError, im_to_vis, A(im, ((2, 2), (1, 2), (2,))), u,
                   A(lm, ((2, 2), (2,))), fr)
    elif mode == 1:
        ctx.raises(t, ValueError, im_to_vis, A(im, ((4,), (2, 1), (2,))), u,
                   A(lm, ((4,), (2,))), fr)
    elif mode == 2:
        ctx.raises(t, ValueError, vis_to_im, A(vis, ((3, 2), (1, 2), (2,))),
                   u, A(lm, ((4,), (2,))), fr,
                   A(fl, ((3, 2), (1, 2), (2,))))
    elif mode == 3:
        ctx.raises(t, ValueError, vis_to_im, A(vis, ((2, 3), (2, 1), (2,))),
                   u, A(lm, ((4,), (2,))), fr,
                   A(fl, ((2, 3), (2, 1), (2,))))
    else:
        ctx.raises(t, ValueError, vis_to_im, A(vis, ((2, 3), (1, 2), (2,))),
                   u, A(lm, ((4,), (2,))), fr,
                   A(fl, ((2, 3), (3,), (2,))))


@group("R03", "bulk", quick=6, thorough=24,
       variants=["phase source", "phase row", "phase chan", "vis row",
                 "vis chan", "im source", "vis source", "im row"],
       require=["parts of very large inputs"])
def many(ctx, variant):
    """tens of thousands of sources, rows or channels; a selection of them is
    transformed as if it stood alone; non-trivial: all"""
    from africanus.dft import im_to_vis, vis_to_im
    from africanus.rime import phase_delay
    rng = ctx.rng
    n = bulk.size(ctx)
    kind, axis = variant.split()
    k = dict(source=2, row=2, chan=2)
    k[axis] = n
    lm = rng.uniform(-0.3, 0.3, (k["source"], 2))
    uvw = rng.uniform(-300, 300, (k["row"], 3))
    f = np.sort(rng.uniform(1e9, 2e9, k["chan"]))
    mon = "parts of very large inputs"
    ax = dict(source=0, row=1, chan=2)[axis]

    def pick(z):
        return [a[z] if i == ax else a for i, a in enumerate((lm, uvw, f))]
    if kind == "phase":
        bulk.parts(ctx, mon, phase_delay, pick, n, ax, 1e-12)
        return
    im = gen.real(rng, (k["source"], k["chan"], 1))
    vis = gen.cplx(rng, (k["row"], k["chan"], 1))
    fl = gen.flags(rng, vis.shape, bool)
    if kind == "vis" and axis != "source":
        bulk.parts(ctx, mon, im_to_vis, lambda z: (
            im[:, z] if axis == "chan" else im, pick(z)[1], lm, pick(z)[2]),
            n, ax - 1, 1e-12)
    elif kind == "im" and axis == "source":
        bulk.parts(ctx, mon, vis_to_im, lambda z: (vis, uvw, lm[z], f, fl),
                   n, 0, 1e-12)
    elif kind == "vis":         # sums over very many
        h = int(rng.randint(1, n))
        a = ctx.call(im_to_vis, im, uvw, lm, f)
        b = [ctx.call(im_to_vis, im[z], uvw, lm[z], f)
             for z in (slice(None, h), slice(h, None))]
        ctx.sig(n=n)
        ctx.close(mon, a, b[0] + b[1], rtol=1e-11, scale="max")
        b = (im[:, :, 0].T[None] * np.exp(-2j * np.pi / 2.99792458e8 * (
            uvw[:, None, None, 0] * lm[:, 0] + uvw[:, None, None, 1] *
            lm[:, 1] + uvw[:, None, None, 2] * (np.sqrt(
                1 - lm[:, 0]**2 - lm[:, 1]**2) - 1)) * f[:, None])).sum(2)
        ctx.close(mon, a[..., 0], b, rtol=1e-10, scale="max")
    else:
        h = int(rng.randint(1, n))
        a = ctx.call(vis_to_im, vis, uvw, lm, f, fl)
        b = [ctx.call(vis_to_im, vis[z], uvw[z], lm, f, fl[z])
             for z in (slice(None, h), slice(h, None))]
        ctx.sig(n=n)
        ctx.close(mon, a, b[0] + b[1], rtol=1e-11, scale="max")
