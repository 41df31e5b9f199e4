"""Primary beam evaluation from a beam cube."""
import numpy as np

from vf import bulk, dk, gen
from vf.core import group

ASSUMPTIONS = [
    "the beam frequency map is strictly increasing and has two entries or "
    "more, as do the cube's axes",
    "the reference interpolates trilinearly in extended precision, phase and "
    "amplitude separately; the bound grows where the phase is ill-defined",
]


def reference(beam, ext, bfreq, lm, pa, pe, asc, freq, eps):
    L = np.longdouble
    lw, mh, nud = beam.shape[:3]
    corrs = beam.shape[3:]
    fb = beam.reshape(lw, mh, nud, -1).astype(np.clongdouble)
    ab = np.abs(fb)
    top = float(ab.max()) if ab.size else 0.0
    (ll, ul), (ml, um) = ext.astype(L)
    lscale, mscale = (lw - 1) / (ul - ll), (mh - 1) / (um - ml)
    bf = bfreq.astype(L)
    out = np.zeros((len(lm),) + pa.shape + (len(freq), fb.shape[3]),
                   np.clongdouble)
    tol = np.zeros(out.shape)
    for f in range(len(freq)):
        v = L(freq[f])
        if v < bf[0]:
            scale, k, wu, werr = v / bf[0], 0, L(0), 0.0
        elif v >= bf[-1]:
            scale, k, wu, werr = v / bf[-1], nud - 2, L(1), 0.0
        else:
            k = int(np.searchsorted(bf, v, side="right")) - 1
            k = min(k, nud - 2)
            d = bf[k + 1] - bf[k]
            scale, wu = L(1), (v - bf[k]) / d
            werr = float(eps * 4 * (bf[k + 1] + v) / d)
        for t in range(pa.shape[0]):
            for a in range(pa.shape[1]):
                s, c = np.sin(L(pa[t, a])), np.cos(L(pa[t, a]))
                for i in range(len(lm)):
                    tl = L(lm[i, 0]) * scale + L(pe[t, a, f, 0])
                    tm = L(lm[i, 1]) * scale + L(pe[t, a, f, 1])
                    vl = (tl * c - tm * s) * L(asc[a, f, 0])
                    vm = (tl * s + tm * c) * L(asc[a, f, 1])
                    mag = float(abs(tl) + abs(tm)) * float(
                        max(abs(asc[a, f, 0]), abs(asc[a, f, 1])))
                    x, y = lscale * (vl - ll), mscale * (vm - ml)
                    xerr = float(10 * eps * (abs(lscale) * (
                        mag + abs(ll)) + abs(x) + 1))
                    yerr = float(10 * eps * (abs(mscale) * (
                        mag + abs(ml)) + abs(y) + 1))
                    x = min(max(x, L(0)), L(lw - 1))
                    y = min(max(y, L(0)), L(mh - 1))
                    xi, yi = int(np.floor(x)), int(np.floor(y))
                    xj, yj = min(xi + 1, lw - 1), min(yi + 1, mh - 1)
                    dx, dy = x - xi, y - yi
                    acc, amp = 0, 0
                    for (p, wp) in ((xi, 1 - dx), (xj, dx)):
                        for (q, wq) in ((yi, 1 - dy), (yj, dy)):
                            for (r, wr) in ((k, 1 - wu), (k + 1, wu)):
                                acc = acc + wp * wq * wr * fb[p, q, r]
                                amp = amp + wp * wq * wr * ab[p, q, r]
                    n = np.abs(acc)
                    # error of the weighted sums
                    e = 2 * top * (xerr + yerr + werr + 20 * eps)
                    with np.errstate(all="ignore"):
                        res = np.where(n > 0, acc / np.where(n > 0, n, 1) *
                                       amp, 0)
                        te = np.where(n > 2 * e, e + amp.astype(float) * 4 *
                                      e / n.astype(float), 3 * top + e)
                    out[i, t, a, f] = res
                    tol[i, t, a, f] = te
    sh = out.shape[:4] + corrs
    return out.reshape(sh), tol.reshape(sh)


def case(rng, corrs, cdt, dt):
    lw, mh, nud = (int(rng.randint(2, 9)) for _ in range(3))
    beam = gen.cplx(rng, (lw, mh, nud) + corrs, cdt)
    if rng.rand() < 0.3:
        beam[rng.rand(*beam.shape) < 0.3] = 0
    if rng.rand() < 0.2:        # real beam: amplitudes cancel
        beam = beam.real.astype(cdt)
    w = gen.choice(rng, [0.02, 0.5, 3.0])
    if rng.rand() < 0.5:
        ext = np.array([[-w, w], [-w, w]])
    else:
        lo = rng.uniform(-w, 0, 2)
        ext = np.stack([lo, lo + rng.uniform(0.3 * w, 2 * w, 2)], axis=1)
    bf = np.sort(rng.uniform(1e9, 2e9, nud))
    bf += np.arange(nud) * 1e6
    ns, nt, na, nc = (gen.size(rng, 4, 8), gen.size(rng, 3, 5),
                      gen.size(rng, 3, 5), gen.size(rng, 4, 8))
    span = gen.choice(rng, [0.5, 1.0, 2.0])     # 2: many sources clamped
    lm = rng.uniform(-w * span, w * span, (ns, 2))
    if rng.rand() < 0.3:        # on grid points and edges
        gx = np.linspace(ext[0, 0], ext[0, 1], lw)
        gy = np.linspace(ext[1, 0], ext[1, 1], mh)
        lm = np.stack([gx[rng.randint(0, lw, ns)],
                       gy[rng.randint(0, mh, ns)]], axis=1)
    pa = rng.uniform(-np.pi, np.pi, (nt, na))
    if rng.rand() < 0.3:
        pa[:] = 0
    pe = rng.normal(size=(nt, na, nc, 2)) * 0.1 * w
    asc = rng.uniform(0.5, 1.5, (na, nc, 2))
    if rng.rand() < 0.3:
        pe[:] = 0
        asc[:] = 1
    # below, inside, on and above the cube's frequencies
    fr = np.where(rng.rand(nc) < 0.4, bf[rng.randint(0, nud, nc)],
                  rng.uniform(0.5e9, 2.6e9, nc))
    arr = [a.astype(dt) for a in (ext, bf, lm, pa, pe, asc, fr)]
    if np.any(np.diff(arr[1]) <= 0):
        arr[1] = (1e9 + 1e8 * np.arange(nud)).astype(dt)
    return [beam] + arr


VARS = ["2,2 c16 f8", "1 c16 f8", "2 c16 f8", "2,2 c8 f4", "2,2 c16 f4"]


def parse(v):
    c, cdt, dt = v.split()
    return tuple(int(x) for x in c.split(",")), np.dtype(cdt), np.dtype(dt)


@group("R04", "interpolation", quick=45, thorough=700, variants=VARS,
       require=["beam value", "frequency below the cube",
                "frequency above the cube", "source clamped"])
def interpolation(ctx, variant):
    """random cubes, extents, sources inside and outside them, frequencies
    below, on, between and above the cube's, rotations, pointing errors,
    scalings; non-trivial: all axes longer than one"""
    from africanus.rime import beam_cube_dde
    rng = ctx.rng
    corrs, cdt, dt = parse(variant)
    a = case(rng, corrs, cdt, dt)
    beam, ext, bf, lm, pa, pe, asc, fr = a
    ctx.sig(beam=beam.shape, src=len(lm), pa=pa.shape, chan=len(fr))
    if min(len(lm), pa.shape[1], len(fr)) == 1:
        ctx.trivial()
    got = ctx.call(beam_cube_dde, *a)
    ctx.ok("result dtype", got.dtype == beam.dtype, got=got.dtype)
    want, tol = reference(*a, eps=gen.eps(*a))
    ctx.ok("result shape", got.shape == want.shape, got=got.shape,
           want=want.shape)
    bad = ~(np.abs(got - want) <= tol)
    ctx.ok("beam value", not bad.any(), where=np.argwhere(bad)[:3],
           got=got[bad][:3], want=want[bad][:3].astype(complex),
           tol=tol[bad][:3])
    ctx.count("frequency below the cube", (fr < bf[0]).sum())
    ctx.count("frequency above the cube", (fr > bf[-1]).sum())
    ctx.count("source clamped", (np.abs(lm) > np.abs(ext).max()).sum())


@group("R04", "cube points", quick=40, thorough=400, variants=["c16", "c8"],
       require=["cube values reproduced"])
def cube_points(ctx, variant):
    """without rotation, errors or scaling a source on a cube point sees the
    cube's value there"""
    from africanus.rime import beam_cube_dde
    rng = ctx.rng
    a = case(rng, (2, 2), np.dtype(variant), np.float64)
    beam, ext, bf = a[:3]
    lw, mh, nud = beam.shape[:3]
    n = 6
    i, j = rng.randint(0, lw, n), rng.randint(0, mh, n)
    k = rng.randint(0, nud, 4)
    lm = np.stack([np.linspace(ext[0, 0], ext[0, 1], lw)[i],
                   np.linspace(ext[1, 0], ext[1, 1], mh)[j]], axis=1)
    ctx.sig(beam=beam.shape, i=i, j=j, k=k)
    got = ctx.call(beam_cube_dde, beam, ext, bf, lm, np.zeros((1, 2)),
                   np.zeros((1, 2, 4, 2)), np.ones((2, 4, 2)), bf[k])
    want = beam[i[:, None], j[:, None], k[None]][:, None, None]
    want = np.broadcast_to(want, got.shape)
    # a grid point is hit up to rounding; where a value is exactly zero the
    # phase comes from its neighbours, hence the scale
    ctx.close("cube values reproduced", got, want, rtol=1e-9, atol=float(
        np.abs(beam).max()) * (1e-9 + 20 * gen.eps(beam)))


@group("R04", "small axes", quick=8, thorough=20, variants=[None],
       require=["degenerate cube rejected"])
def small(ctx, variant):
    """cubes with an axis shorter than two are refused"""
    from africanus.rime import beam_cube_dde
    rng = ctx.rng
    a = case(rng, (2, 2), np.dtype("c16"), np.dtype("f8"))
    ax = int(rng.randint(3))
    ctx.sig(axis=ax, shape=a[0].shape)
    sl = [slice(None)] * 3
    sl[ax] = slice(0, 1)
    a[0] = np.ascontiguousarray(a[0][tuple(sl)])
    if ax == 2:
        a[2] = a[2][:1]
    ctx.raises("degenerate cube rejected", ValueError, beam_cube_dde, *a)


@group("R04", "dask", quick=30, thorough=300,
       variants=[VARS[0], VARS[2], VARS[3]],
       require=["chunked beam", "metadata", "distinct task orders"])
def chunked(ctx, variant):
    """random source, time, antenna and channel chunks and schedules"""
    from africanus.rime.dask import beam_cube_dde
    rng = ctx.rng
    corrs, cdt, dt = parse(variant)
    a = case(rng, corrs, cdt, dt)
    beam, ext, bf, lm, pa, pe, asc, fr = a
    sch, tch, ach, cch = (gen.chunks(rng, n, 3) for n in (
        len(lm),) + pa.shape + (len(fr),))
    how = gen.choice(rng, dk.SCHEDULES)
    ctx.sig(sch=sch, tch=tch, ach=ach, cch=cch, how=how)
    if len(sch) * len(tch) * len(ach) * len(cch) == 1:
        ctx.trivial()
    pch = gen.chunks(rng, 2) if rng.rand() < 0.3 else (2,)
    ctx.sig(pch=pch)
    one = lambda x: dk.arr(x, tuple((n,) for n in x.shape))  # noqa: E731
    out = ctx.call(beam_cube_dde, one(beam), one(ext), one(bf),
                   dk.arr(lm, (sch, (2,))), dk.arr(pa, (tch, ach)),
                   dk.arr(pe, (tch, ach, cch, pch)),
                   dk.arr(asc, (ach, cch, pch)), dk.arr(fr, (cch,)))
    got = ctx.call(dk.compute, ctx, out, how)
    dk.honest(ctx, "metadata", out, got, "beam")
    want, tol = reference(*a, eps=gen.eps(*a))
    ctx.ok("result shape", got.shape == want.shape, got=got.shape)
    bad = ~(np.abs(got - want) <= tol)
    ctx.ok("chunked beam", not bad.any(), where=np.argwhere(bad)[:3],
           got=got[bad][:3], want=want[bad][:3].astype(complex))
    if ctx.case % 3 == 0:
        dk.honest_blocks(ctx, "block metadata", out, "beam")


@group("R04", "bulk", quick=6, thorough=18,
       variants=["source", "chan", "time", "ant"],
       require=["parts of very large inputs"])
def many(ctx, variant):
    """tens of thousands of sources, channels, times or antennas; a selection
    of them sees the beam as if it stood alone; non-trivial: all"""
    from africanus.rime import beam_cube_dde
    rng = ctx.rng
    n = bulk.size(ctx)
    k = dict(source=2, time=2, ant=2, chan=2)
    k[variant] = n
    s, t, a, c = (k[x] for x in ("source", "time", "ant", "chan"))
    big = ctx.case % 2
    nb = (int(rng.randint(200, 400)), 3, 3) if big else (
        4, int(rng.randint(200, 400)), 3)
    if ctx.case % 3 == 2:
        nb = (4, 3, int(rng.randint(300, 600)))
    beam = gen.cplx(rng, nb + (1,))
    ext = np.array([[-1.0, 1.0], [-0.8, 1.2]])
    bf = np.linspace(1e9, 2e9, nb[2])
    lm = rng.uniform(-1.1, 1.1, (s, 2))
    pa = rng.uniform(-3, 3, (t, a))
    pe = rng.uniform(-0.1, 0.1, (t, a, c, 2))
    sc = rng.uniform(0.9, 1.1, (a, c, 2))
    f = rng.uniform(0.9e9, 2.1e9, c)
    z = slice(None)
    pos = ["source", "time", "ant", "chan"].index(variant)

    def cut(sel):
        i = [z] * 4
        i[pos] = sel
        return (beam, ext, bf, lm[i[0]], pa[i[1]][:, i[2]],
                pe[i[1]][:, i[2]][:, :, i[3]], sc[i[2]][:, i[3]], f[i[3]])
    bulk.parts(ctx, "parts of very large inputs", beam_cube_dde, cut, n, pos,
               1e-11)
