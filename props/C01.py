"""Celestial and direction cosine coordinates."""
import numpy as np

from vf import bulk, dk, gen
from vf.core import group

ASSUMPTIONS = [
    "directions lie in the hemisphere around the phase centre, where a pair "
    "of direction cosines names one direction; errors are bounded by the "
    "conditioning (1/n at the horizon, 1/cos(dec) at the poles)",
]

L = np.longdouble


def field(rng, ns, dt, centre=True, low=-3):
    """phase centre and directions within 90 degrees of it, as unit vectors
    in extended precision: at the centre, near, far, across ra = 0 and over
    the pole."""
    if centre:
        mode = rng.randint(4)
        dec0 = {0: rng.uniform(-1.55, 1.55), 1: rng.uniform(-0.8, 0.8),
                2: gen.choice(rng, [-1, 1]) * rng.uniform(1.4, np.pi / 2),
                3: 0.0}[mode]
        ra0 = gen.choice(rng, [rng.uniform(-np.pi, 2 * np.pi), 0.0, 0.02,
                               6.27, -3.13])
    else:
        ra0 = dec0 = 0.0
    pc = np.array([ra0, dec0]).astype(dt)
    a0, d0 = pc.astype(L)
    rad = gen.choice(rng, [1e-4, 0.05, 0.7, 1.48]) * np.sqrt(rng.rand(ns))
    th = rng.uniform(0, 2 * np.pi, ns)
    if rng.rand() < 0.25:       # down to the horizon
        rad = np.pi / 2 - 10**rng.uniform(low, -0.5, ns)
    rad[rng.rand(ns) < 0.1] = 0
    th[rng.rand(ns) < 0.1] = gen.choice(rng, [0, np.pi / 2, np.pi])
    lmn = np.stack([np.sin(rad) * np.sin(th), np.sin(rad) * np.cos(th),
                    np.cos(rad)], axis=1).astype(L)
    if abs(np.sin(d0)) > 0.1:       # at the pole in view, to rounding
        s = np.sign(d0)
        at = rng.rand(ns) < 0.1
        lmn[at] = np.array([0, s * np.cos(d0), s * np.sin(d0)])
    return pc, lmn, a0, d0


def to_radec(lmn, a0, d0):
    """rotation of the tangent frame (east, north, centre) to the sky."""
    l, m, n = lmn.T
    x = n * np.cos(d0) - m * np.sin(d0)     # towards ra0 on the equator
    z = n * np.sin(d0) + m * np.cos(d0)
    return (a0 + np.arctan2(l, x), np.arctan2(z, np.hypot(x, l)),
            np.hypot(x, l))


def to_lmn(radec, a0, d0):
    a, d = radec.astype(L).T
    v = np.stack([np.cos(d) * np.cos(a - a0), np.cos(d) * np.sin(a - a0),
                  np.sin(d)], axis=1)
    return np.stack([v[:, 1], v[:, 2] * np.cos(d0) - v[:, 0] * np.sin(d0),
                     v[:, 2] * np.sin(d0) + v[:, 0] * np.cos(d0)], axis=1)


def bounded(ctx, name, got, want, tol, what=""):
    bad = ~(np.abs(got.astype(L) - want) <= tol)
    ctx.ok(name, not bad.any(), what, where=np.argwhere(bad)[:3],
           got=got[bad][:3], want=want[bad][:3].astype(float))


TYPES = ["f8 f8", "f4 f4", "f8 -", "f4 -", "f8 f4"]


@group("C01", "to direction cosines", quick=150, thorough=4000,
       variants=TYPES,
       require=["direction cosines", "third cosine", "chunked cosines",
                "metadata", "distinct task orders"])
def forward(ctx, variant):
    """directions around random phase centres, poles and the ra wrap
    included; non-trivial: several directions off the centre"""
    from africanus.coordinates import radec_to_lm, radec_to_lmn
    from africanus.coordinates import dask as cd
    rng = ctx.rng
    dt, pdt = variant.split()
    ns = gen.size(rng, 6, 60)
    pc, lmn, a0, d0 = field(rng, ns, "f8" if pdt == "-" else pdt,
                            pdt != "-", -5)
    ra, dec, _ = to_radec(lmn, a0, d0)
    radec = np.stack([ra, dec], axis=1)
    if rng.rand() < 0.3:        # the same directions, other turns
        radec[:, 0] += 2 * np.pi * rng.randint(-1, 2, ns)
    radec = np.clip(radec.astype(dt), [-20, -np.pi / 2], [20, np.pi / 2])
    radec = radec.astype(dt)
    args = () if pdt == "-" else (pc,)
    ctx.sig(ns=ns, pc=pc)
    if ns == 1:
        ctx.trivial()
    want = to_lmn(radec, a0, d0)
    eps = gen.eps(radec, *args) * (1 + np.abs(radec[:, :1]).max())
    if rng.rand() < 0.25:
        radec = np.asfortranarray(radec)
    lm = ctx.call(radec_to_lm, radec, *args)
    full = ctx.call(radec_to_lmn, radec, *args)
    ctx.ok("result dtype", lm.dtype == radec.dtype == full.dtype,
           got=[lm.dtype, full.dtype])
    ctx.ok("result shape", lm.shape == (ns, 2) and full.shape == (ns, 3),
           got=[lm.shape, full.shape])
    bounded(ctx, "direction cosines", lm, want[:, :2], 16 * eps)
    bounded(ctx, "direction cosines", full[:, :2], want[:, :2], 16 * eps)
    n = np.maximum(want[:, 2], 1e-6)
    # (nearer to the horizon n is lost in rounding)
    good = want[:, 2]**2 > 1000 * eps
    bounded(ctx, "third cosine", full[good, 2], want[good, 2],
            (40 * eps / n)[good])
    sch = gen.chunks(rng, ns)
    r = dk.arr(np.ascontiguousarray(radec), (sch, (2,)))
    dargs = () if pdt == "-" else (dk.arr(pc, ((2,),)),)
    for fn, ref in ((cd.radec_to_lm, lm), (cd.radec_to_lmn, full)):
        lz = ctx.call(fn, r, *dargs)
        d = ctx.call(dk.compute, ctx, lz, gen.choice(rng, dk.SCHEDULES))
        dk.honest(ctx, "metadata", lz, d, fn.__name__)
        ctx.equal("chunked cosines", d, ref, fn.__name__)


@group("C01", "to celestial", quick=150, thorough=4000, variants=TYPES,
       require=["celestial coordinates", "there and back",
                "chunked celestial coordinates", "metadata"])
def backward(ctx, variant):
    """direction cosines around random phase centres back to the sky, and
    from there to the direction cosines again"""
    from africanus.coordinates import (lm_to_radec, lmn_to_radec,
                                       radec_to_lm, radec_to_lmn)
    from africanus.coordinates import dask as cd
    rng = ctx.rng
    dt, pdt = variant.split()
    ns = gen.size(rng, 6, 60)
    pc, lmn, a0, d0 = field(rng, ns, "f8" if pdt == "-" else pdt,
                            pdt != "-")
    lmn = lmn.astype(dt)
    args = () if pdt == "-" else (pc,)
    ctx.sig(ns=ns, pc=pc)
    if ns == 1:
        ctx.trivial()
    e = gen.eps(lmn, *args)
    turn = 1 + abs(float(a0))
    lm = np.ascontiguousarray(lmn[:, :2])
    if rng.rand() < 0.25:
        lm, lmn = np.asfortranarray(lm), np.asfortranarray(lmn)
    exact = lm.astype(L)
    exact = np.concatenate([exact, np.sqrt(np.maximum(
        1 - (exact**2).sum(axis=1, keepdims=True), 0))], axis=1)
    for name, fn, x, truth in (("lm", lm_to_radec, lm, exact),
                               ("lmn", lmn_to_radec, lmn, lmn.astype(L))):
        got = ctx.call(fn, x, *args)
        ctx.ok("result dtype", got.dtype == x.dtype, got=got.dtype)
        ctx.ok("result shape", got.shape == (ns, 2), got=got.shape)
        ra, dec, rho = to_radec(truth, a0, d0)
        # a unit vector to rounding: conditioned by the pole, the horizon
        err = 40 * e / np.maximum(truth[:, 2], 0.05)
        ok = rho > 0.02
        ctx.count("directions at a pole", (~ok).sum())
        sep = np.maximum(rho, 0.02)
        want = np.stack([ra, dec], axis=1)
        diff = got.astype(L) - want
        diff[:, 0] -= 2 * np.pi * np.round(diff[:, 0] / (2 * np.pi))
        good = (np.abs(diff[:, 0]) <= err / sep + 8 * e * turn) & (
            np.abs(diff[:, 1]) <= err / sep)
        ctx.ok("celestial coordinates", (good | ~ok).all(), name,
               got=got[~good & ok][:3], want=want[~good & ok][:3].astype(
                   float))
        # back: well conditioned as a direction, everywhere
        back = to_lmn(got, a0, d0)
        tb = (60 * e * turn / np.maximum(truth[:, 2], 0.05)
              + np.where(ok, 0, 10 * np.sqrt(e)))
        bounded(ctx, "same direction", back, truth, tb[:, None], name)
        fwd = radec_to_lm if name == "lm" else radec_to_lmn
        again = ctx.call(fwd, np.ascontiguousarray(got), *args)
        tol = (100 * e * turn / np.maximum(truth[:, 2], 0.05)
               + np.where(ok, 0, 10 * np.sqrt(e)))[:, None]
        near = truth[:, 2] > 0.1
        if name == "lmn":
            bounded(ctx, "there and back", again[near], truth[near],
                    (tol / np.maximum(truth[:, 2:], 0.05))[near], name)
        else:
            bounded(ctx, "there and back", again[near], truth[near, :2],
                    tol[near], name)
        sch = gen.chunks(rng, ns)
        dx = dk.arr(np.ascontiguousarray(x), (sch, (x.shape[1],)))
        dargs = () if pdt == "-" else (dk.arr(pc, ((2,),)),)
        lz = ctx.call(getattr(cd, name + "_to_radec"), dx, *dargs)
        d = ctx.call(dk.compute, ctx, lz, gen.choice(rng, dk.SCHEDULES))
        dk.honest(ctx, "metadata", lz, d, name)
        ctx.equal("chunked celestial coordinates", d, got, name)


@group("C01", "whole sphere", quick=60, thorough=1500, variants=TYPES,
       require=["direction on the sphere", "first two cosines"])
def sphere(ctx, variant):
    """all three cosines name a direction anywhere on the sphere, behind the
    phase centre too; the first two are right for any direction; any number
    of directions, none included"""
    from africanus.coordinates import lmn_to_radec, radec_to_lm
    rng = ctx.rng
    dt, pdt = variant.split()
    ns = 0 if rng.rand() < 0.05 else gen.size(rng, 6, 60)
    pc, _, a0, d0 = field(rng, 1, "f8" if pdt == "-" else pdt, pdt != "-")
    v = rng.normal(size=(ns, 3))
    v[rng.rand(ns) < 0.1, :2] *= 1e-3
    v /= np.sqrt((v**2).sum(axis=1, keepdims=True))
    at = rng.rand(ns) < 0.1         # the poles
    v[at] = gen.choice(rng, [-1, 1]) * np.array(
        [0, float(np.cos(d0)), float(np.sin(d0))])
    lmn = v.astype(dt)
    args = () if pdt == "-" else (pc,)
    ctx.sig(ns=ns, pc=pc, behind=int((lmn[:, 2] < 0).sum()))
    if ns < 2:
        ctx.trivial()
    e = gen.eps(lmn, *args) * (4 + abs(float(a0)))
    got = ctx.call(lmn_to_radec, lmn, *args)
    ctx.ok("result shape", got.shape == (ns, 2), got=got.shape)
    _, _, rho = to_radec(lmn.astype(L), a0, d0)
    bounded(ctx, "direction on the sphere", to_lmn(got, a0, d0),
            lmn.astype(L), np.where(rho > 0.02, 60 * e / np.maximum(
                rho, 0.02), 10 * np.sqrt(e))[:, None])
    lm = ctx.call(radec_to_lm, got, *args)
    ctx.ok("result shape", lm.shape == (ns, 2), got=lm.shape)
    bounded(ctx, "first two cosines", lm, to_lmn(got, a0, d0)[:, :2],
            16 * e)


@group("C01", "rejects", quick=20, thorough=60, variants=[None],
       require=["bad coordinates rejected"])
def rejects(ctx, variant):
    """coordinates with the wrong number of components are refused"""
    from africanus.coordinates import (lm_to_radec, lmn_to_radec,
                                       radec_to_lm, radec_to_lmn)
    rng = ctx.rng
    ns = gen.size(rng)
    pc = rng.normal(size=2)
    ctx.sig(ns=ns, pc=pc)
    for fn, bad in ((radec_to_lm, 3), (radec_to_lmn, 3), (lm_to_radec, 3),
                    (lmn_to_radec, 2), (radec_to_lm, 1), (lm_to_radec, 1)):
        ctx.raises("bad coordinates rejected", ValueError, fn,
                   rng.normal(size=(ns, bad)) * 0.1, pc)


@group("C01", "astropy", quick=30, thorough=200, variants=[None],
       require=["agrees with astropy"])
def astropy(ctx, variant):
    """the astropy conversion names the same directions"""
    from astropy import units
    from astropy.coordinates import SkyCoord
    from africanus.coordinates import radec_to_lmn
    from africanus.coordinates.coordinates import astropy_radec_to_lmn
    rng = ctx.rng
    ns = gen.size(rng, 6, 30)
    pc, lmn, a0, d0 = field(rng, ns, "f8")
    ra, dec, _ = to_radec(lmn, a0, d0)
    radec = np.stack([ra, dec], axis=1).astype(float)
    ctx.sig(ns=ns, pc=pc)
    want = ctx.call(astropy_radec_to_lmn,
                    SkyCoord(*radec.T, unit=units.rad),
                    SkyCoord(*pc, unit=units.rad))
    ctx.close("agrees with astropy", want, lmn.astype(float), rtol=0,
              atol=1e-12)
    got = ctx.call(radec_to_lmn, radec, pc)
    n = lmn[:, 2] > 0.05
    ctx.close("agrees with astropy", got[n], want[n], rtol=0, atol=1e-12)


@group("C01", "bulk", quick=6, thorough=18,
       variants=["radec_to_lm", "radec_to_lmn", "lm_to_radec",
                 "lmn_to_radec"],
       require=["parts of very large inputs"])
def many(ctx, variant):
    """tens of thousands of directions; a selection of them is converted as
    if it stood alone; non-trivial: all"""
    from africanus import coordinates
    rng = ctx.rng
    n = bulk.size(ctx)
    x = rng.uniform(-0.5, 0.5, (n, 2))
    if variant == "lmn_to_radec":
        x = np.concatenate([x, np.sqrt(1 - (x**2).sum(1))[:, None]], 1)
    pc = rng.uniform(-1, 1, 2)
    bulk.parts(ctx, "parts of very large inputs", getattr(
        coordinates, variant), lambda z: (x[z], pc), n, 0, 1e-12)
