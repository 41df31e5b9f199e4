"""Feed rotation, parallactic angles, beam coordinates, Zernike beams."""
import numpy as np

from vf import bulk, dk, gen
from vf.core import group

ASSUMPTIONS = [
    "the parallactic angle reference is the spherical triangle with mean "
    "sidereal time and the geocentric up direction: it bounds the casacore "
    "backend to 0.05 rad away from the zenith and the pole, not more tightly",
    "Noll indices are zero based and the polynomials unnormalised, as the "
    "eidos reference data of the test suite have it",
]


# ------------------------------------------------------------ feed rotation
@group("R05", "feed rotation", quick=60, thorough=600,
       variants=[(d, n) for d in ("f8", "f4") for n in (1, 2, 3)],
       require=["feed matrix", "unitary"])
def feeds(ctx, variant):
    """angles of any rank, both feeds, numpy and chunked"""
    from africanus.rime import feed_rotation
    from africanus.rime.dask import feed_rotation as dask_feed_rotation
    rng = ctx.rng
    dt, nd = variant
    shape = tuple(gen.size(rng, 4, 12) for _ in range(nd))
    pa = (rng.normal(size=shape) * gen.choice(rng, [1, 4, 30])).astype(dt)
    pa[rng.rand(*shape) < 0.1] = 0
    feed = gen.choice(rng, [None, "linear", "circular"])
    ctx.sig(shape=shape, feed=feed)
    kw = {} if feed is None else dict(feed_type=feed)
    got = ctx.call(feed_rotation, pa, **kw)
    want_dt = np.result_type(pa.dtype, np.complex64)
    ctx.ok("result dtype", got.dtype == want_dt, got=got.dtype)
    p = pa.astype(np.float64)
    want = np.zeros(shape + (2, 2), np.complex128)
    if feed == "circular":
        want[..., 0, 0] = np.exp(-1j * p)
        want[..., 1, 1] = np.exp(1j * p)
    else:
        want[..., 0, 0] = want[..., 1, 1] = np.cos(p)
        want[..., 0, 1] = np.sin(p)
        want[..., 1, 0] = -np.sin(p)
    eps = gen.eps(pa)
    ctx.close("feed matrix", got, want, rtol=0, atol=8 * eps)
    uu = np.einsum("...ij,...kj->...ik", got, got.conj())
    ctx.close("unitary", uu, np.broadcast_to(np.eye(2), uu.shape), rtol=0,
              atol=20 * eps)
    # another memory layout holds the same angles
    got2 = ctx.call(feed_rotation, np.asfortranarray(pa), **kw)
    ctx.equal("memory layout", got2, got, "feed matrix")
    ch = tuple(gen.chunks(rng, n, 3) for n in shape)
    how = gen.choice(rng, dk.SCHEDULES)
    lz = ctx.call(dask_feed_rotation, dk.arr(pa, ch), feed or "linear")
    d = ctx.call(dk.compute, ctx, lz, how)
    dk.honest(ctx, "metadata", lz, d, "feed matrix")
    ctx.close("chunked feed matrix", d, want, rtol=0, atol=8 * eps)


@group("R05", "feed rejects", quick=12, thorough=20, variants=[None],
       require=["bad feed arguments rejected"])
def feed_rejects(ctx, variant):
    """unknown feeds and integer angles are refused"""
    from africanus.rime import feed_rotation
    from africanus.rime.dask import feed_rotation as dask_feed_rotation
    rng = ctx.rng
    n = gen.size(rng)
    t = "bad feed arguments rejected"
    bad = gen.choice(rng, ["elliptical", "", "Linear", "lin"])
    ctx.sig(n=n, bad=bad)
    ctx.raises(t, ValueError, feed_rotation, np.zeros(n), bad)
    ctx.raises(t, ValueError, feed_rotation, np.zeros(n, int), "linear")
    ctx.raises(t, ValueError, dask_feed_rotation,
               dk.arr(np.zeros(n, int), ((n,),)), "linear")


# --------------------------------------------------------- transform_sources
@group("R05", "transform sources", quick=50, thorough=500,
       variants=["f8", "f4", "f8 f4"],
       require=["beam coordinates", "chunked beam coordinates", "metadata"])
def transform(ctx, variant):
    """rotation, pointing error and scaling of random sources"""
    from africanus.rime import transform_sources
    from africanus.rime.dask import transform_sources as dask_transform
    rng = ctx.rng
    dt = variant.split()[0]
    odt = {"f8": None, "f4": np.float32, "f8 f4": np.float32}[variant]
    ns, nt, na, nc = (gen.size(rng, 4, 20) for _ in range(4))
    lm = (rng.normal(size=(ns, 2)) * 0.1).astype(dt)
    pa = rng.uniform(-7, 7, (nt, na)).astype(dt)
    pe = (rng.normal(size=(nt, na, 2)) * 0.05).astype(dt)
    asc = rng.uniform(0.2, 2, (na, nc)).astype(dt)
    fr = rng.uniform(1e9, 2e9, nc).astype(dt)
    ctx.sig(src=ns, time=nt, ant=na, chan=nc)
    if min(ns, nt, na, nc) == 1:
        ctx.trivial()
    kw = {} if odt is None else dict(dtype=odt)
    got = ctx.call(transform_sources, lm, pa, pe, asc, fr, **kw)
    want_dt = np.dtype(odt or np.float64)
    ctx.ok("result dtype", got.dtype == want_dt, got=got.dtype)
    L, P, E = lm.astype("f8"), pa.astype("f8"), pe.astype("f8")
    s, c = np.sin(P), np.cos(P)
    lr = (L[:, None, None, 0] * c - L[:, None, None, 1] * s + E[..., 0])
    mr = (L[:, None, None, 0] * s + L[:, None, None, 1] * c + E[..., 1])
    A = asc.astype("f8")
    want = np.stack([lr[..., None] * A, mr[..., None] * A,
                     np.broadcast_to(fr.astype("f8"), lr.shape + (nc,))])
    eps = gen.eps(lm, got)
    for k, sc in ((0, 1.0), (1, 1.0), (2, 2e9)):
        ctx.close("beam coordinates", got[k], want[k], rtol=0,
                  atol=20 * eps * sc, what="component %d" % k)
    sch, tch, ach, cch = (gen.chunks(rng, n, 3) for n in (ns, nt, na, nc))
    how = gen.choice(rng, dk.SCHEDULES)
    lz = ctx.call(dask_transform, dk.arr(lm, (sch, (2,))),
                  dk.arr(pa, (tch, ach)), dk.arr(pe, (tch, ach, (2,))),
                  dk.arr(asc, (ach, cch)), dk.arr(fr, (cch,)), **kw)
    d = ctx.call(dk.compute, ctx, lz, how)
    dk.honest(ctx, "metadata", lz, d, "coordinates")
    ctx.equal("chunked beam coordinates", d, got, "coordinates")


# -------------------------------------------------------------------- zernike
def noll(jmax):
    """zero based Noll index -> (n, m), m > 0 cosine, m < 0 sine."""
    res, j = [], 1
    n = 0
    while len(res) < jmax:
        for m in range(n % 2, n + 1, 2):
            if m == 0:
                res.append((n, 0))
                j += 1
            else:
                for _ in range(2):
                    res.append((n, m if j % 2 == 0 else -m))
                    j += 1
        n += 1
    return res[:jmax]


def zernike(n, m, rho, phi):
    from scipy.special import eval_jacobi
    am = abs(m)
    k = (n - am) // 2
    r = (-1)**k * rho**am * eval_jacobi(k, am, 0, 1 - 2 * rho**2)
    return r * (np.cos(am * phi) if m >= 0 else np.sin(am * phi))


@group("R05", "zernike", quick=40, thorough=400,
       variants=["2,2 i8 c16", "1 f8 c16", "2 i4 c8", "2,2 f8 c16"],
       require=["zernike value", "on the rim", "outside the unit disk", "chunked zernike",
                "metadata"])
def zern(ctx, variant):
    """sums of Zernike polynomials up to order 12 inside and outside the unit
    disk; non-trivial: several polynomials"""
    from africanus.rime import zernike_dde
    from africanus.rime.dask import zernike_dde as dask_zernike
    rng = ctx.rng
    cs, idt, cdt = variant.split()
    corrs = tuple(int(x) for x in cs.split(","))
    ns, nt, na, nc = (gen.size(rng, 4, 10, 0.05) for _ in range(4))
    npoly = gen.size(rng, 6, 12, huge=40)
    table = noll(91)
    top = gen.choice(rng, [6, 30, 91])
    co = np.zeros((3, ns, nt, na, nc))
    co[:2] = rng.uniform(-1, 1, (2, ns, nt, na, nc)) * gen.choice(
        rng, [0.7, 1.2])
    if rng.rand() < 0.3:
        co[:2, 0] = 0
    if rng.rand() < 0.3:
        co[gen.choice(rng, [0, 1]), -1] = 0
    rho = np.sqrt(co[0]**2 + co[1]**2)
    co[:2] *= np.where(np.abs(rho - 1) < 1e-6, 0.9, 1.0)
    if rng.rand() < 0.3:            # exactly on the rim, which belongs to it
        co[:2, 0] = np.reshape(gen.choice(rng, [
            (1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)]), (2, 1, 1, 1))
        ctx.count("on the rim")
    co[2] = rng.uniform(1e9, 2e9, co[2].shape)
    coeffs = gen.cplx(rng, (na, nc) + corrs + (npoly,), cdt)
    ind = rng.randint(0, top, coeffs.shape).astype(idt)
    ctx.sig(shape=co.shape, npoly=npoly, top=top)
    if npoly == 1:
        ctx.trivial()
    got = ctx.call(zernike_dde, co, coeffs, ind)
    ctx.ok("result dtype", got.dtype == coeffs.dtype, got=got.dtype)
    rho, phi = np.sqrt(co[0]**2 + co[1]**2), np.arctan2(co[0], co[1])
    want = np.zeros((ns, nt, na, nc) + corrs, np.complex128)
    mag = np.zeros(want.shape)
    for q in np.ndindex(*coeffs.shape):
        a, c = q[:2]
        n, m = table[int(ind[q])]
        z = np.where(rho[:, :, a, c] > 1, 0,
                     zernike(n, m, rho[:, :, a, c], phi[:, :, a, c]))
        want[(slice(None), slice(None), a, c) + q[2:-1]] += coeffs[q] * z
        mag[(slice(None), slice(None), a, c) + q[2:-1]] += abs(
            coeffs[q]) * 2.5**n
    ctx.ok("result shape", got.shape == want.shape, got=got.shape)
    ctx.count("outside the unit disk", (rho > 1).sum())
    tol = mag * 40 * gen.eps(coeffs) + 1e-300
    tol = np.minimum(tol, mag)
    bad = ~(np.abs(got - want) <= tol)
    ctx.ok("zernike value", not bad.any(), where=np.argwhere(bad)[:3],
           got=got[bad][:3], want=want[bad][:3])
    sch, tch, ach, cch = (gen.chunks(rng, n, 3) for n in (ns, nt, na, nc))
    cc = tuple((n,) for n in corrs)
    pch = gen.chunks(rng, npoly, 3)
    lz = ctx.call(dask_zernike, dk.arr(co, ((3,), sch, tch, ach, cch)),
                  dk.arr(coeffs, (ach, cch) + cc + (pch,)),
                  dk.arr(ind, (ach, cch) + cc + (pch,)))
    d = ctx.call(dk.compute, ctx, lz, gen.choice(rng, dk.SCHEDULES))
    dk.honest(ctx, "metadata", lz, d, "zernike")
    ctx.equal("chunked zernike", d, got, "zernike")


# ---------------------------------------------------------------- parangles
def ants(rng, n):
    lon, lat = rng.uniform(-np.pi, np.pi), rng.uniform(-0.9, 0.9)
    lon = lon + rng.normal(size=n) * 1e-3
    lat = lat + rng.normal(size=n) * 1e-3
    r = 6371e3
    pos = r * np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon),
                        np.sin(lat)], axis=1)
    return pos, lon, lat


def triangle(times, lon, lat, fc):
    d = times[:, None] / 86400.0 - 51544.5
    gmst = np.deg2rad((280.46061837 + 360.98564736629 * d) % 360.0)
    H = gmst + lon[None] - fc[0]
    dec = fc[1]
    y = np.sin(H) * np.cos(lat)
    x = np.sin(lat) * np.cos(dec) - np.cos(lat) * np.sin(dec) * np.cos(H)
    return np.arctan2(y, x), np.hypot(x, y)


@group("R05", "parallactic angles", quick=25, thorough=300,
       variants=["casa", "test"],
       require=["casa angle", "test angle", "chunked angles",
                "concurrent angles"])
def parangles(ctx, variant):
    """random observatories, fields and times around 2000; chunked and
    concurrently from eight threads: every antenna and time sees its own
    reference frame"""
    from concurrent.futures import ThreadPoolExecutor
    from africanus.rime import parallactic_angles
    from africanus.rime.dask import parallactic_angles as dask_pa
    rng = ctx.rng
    nt, na = gen.size(rng, 4, 12), gen.size(rng, 4, 8)
    pos, lon, lat = ants(rng, na)
    if rng.rand() < 0.5:        # antennas all over the world
        parts = [ants(rng, 1) for _ in range(na)]
        pos, lon, lat = (np.concatenate([p[i] for p in parts])
                         for i in range(3))
    # 1998-2003: precession stays below the tolerance
    times = np.sort(rng.uniform(50900, 52600, nt)) * 86400.0
    fc = np.array([rng.uniform(0, 2 * np.pi), rng.uniform(-1.2, 1.2)])
    ctx.sig(time=nt, ant=na, fc=fc)
    if nt * na == 1:
        ctx.trivial()
    got = np.asarray(ctx.call(parallactic_angles, times, pos, fc,
                              backend=variant))
    ctx.ok("result shape", got.shape == (nt, na), got=got.shape)
    if variant == "casa":
        want, size = triangle(times, lon, lat, fc)
        diff = np.angle(np.exp(1j * (got - want)))
        # ill-conditioned at the zenith
        ok = np.abs(diff) <= 0.02 + 0.02 / np.maximum(size, 1e-6)
        ctx.ok("casa angle", ok.all(), got=got[~ok][:3], want=want[~ok][:3])
    else:
        ctx.close("test angle", got, times[:, None] * pos.sum(axis=1),
                  rtol=1e-10, scale="max")
    tch, ach = gen.chunks(rng, nt, 4), gen.chunks(rng, na, 3)
    lz = ctx.call(dask_pa, dk.arr(times, (tch,)), dk.arr(pos, (ach, (3,))),
                  dk.arr(fc, ((2,),)), backend=variant)
    d = ctx.call(dk.compute, ctx, lz, gen.choice(rng, dk.SCHEDULES))
    dk.honest(ctx, "metadata", lz, d, "angles")
    ctx.equal("chunked angles", d, got, "angles")
    if ctx.case % 3 == 0:
        jobs = [(int(t), int(a)) for t in range(nt) for a in range(na)]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda x: np.asarray(parallactic_angles(
                times[x[0]:x[0] + 1], pos[x[1]:x[1] + 1], fc,
                backend=variant))[0, 0], jobs * 3))
        ctx.equal("concurrent angles", np.array(res),
                  np.array([got[j] for j in jobs * 3]), "angles")


@group("R05", "backends", quick=6, thorough=10, variants=[None],
       require=["bad parangle arguments rejected"])
def backends(ctx, variant):
    """unknown backends and malformed field centres are refused"""
    from africanus.rime import parallactic_angles
    rng = ctx.rng
    pos, _, _ = ants(rng, 2)
    t = np.array([51000 * 86400.0])
    name = gen.choice(rng, ["CASA", "erfa", ""])
    ctx.sig(name=name, p=pos[0])
    m = "bad parangle arguments rejected"
    ctx.raises(m, ValueError, parallactic_angles, t, pos, np.zeros(2),
               backend=name)
    ctx.raises(m, ValueError, parallactic_angles, t, pos, np.zeros(3),
               backend="test")


@group("R05", "bulk", quick=6, thorough=18,
       variants=["feeds", "transform source", "transform time",
                 "transform chan", "zernike source", "zernike chan"],
       require=["parts of very large inputs"])
def many(ctx, variant):
    """tens of thousands of angles, sources, times or channels; a selection
    of them as if it stood alone; non-trivial: all"""
    from africanus.rime import feed_rotation, transform_sources, zernike_dde
    rng = ctx.rng
    n = bulk.size(ctx)
    mon = "parts of very large inputs"
    kind, axis = (variant.split() + [""])[:2]
    if kind == "feeds":
        pa = rng.uniform(-4, 4, (n, 2))
        bulk.parts(ctx, mon, feed_rotation, lambda z: (pa[z],), n, 0, kw=dict(
            feed_type=gen.choice(rng, ["linear", "circular"])))
        return
    k = dict(source=2, time=2, ant=2, chan=2)
    k[axis] = n
    s, t, a, c = (k[x] for x in ("source", "time", "ant", "chan"))
    pos = ["source", "time", "ant", "chan"].index(axis)
    if kind == "transform":
        lm, pa = rng.uniform(-1, 1, (s, 2)), rng.uniform(-4, 4, (t, a))
        pe = rng.uniform(-1, 1, (t, a, 2))
        sc = rng.uniform(0.5, 2, (a, c))
        f = rng.uniform(1e9, 2e9, c)

        def cut(z):
            i = [slice(None)] * 4
            i[pos] = z
            return lm[i[0]], pa[i[1]], pe[i[1]], sc[:, i[3]], f[i[3]]
        bulk.parts(ctx, mon, transform_sources, cut, n, 1 + pos)
        return
    co = rng.uniform(-1, 1, (3, s, t, a, c))
    cf = gen.cplx(rng, (a, c, 1, 4))
    nj = rng.randint(0, 30, (a, c, 1, 4))

    def cut(z):
        i = [slice(None)] * 4
        i[pos] = z
        return (co[:, i[0]][:, :, :, :, i[3]], cf[:, i[3]], nj[:, i[3]])
    bulk.parts(ctx, mon, zernike_dde, cut, n, pos)
