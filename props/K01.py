"""Corrupting and correcting visibilities with gains."""
import numpy as np

from props.R03 import coords, expi, freqs, phases, sky
from vf import bulk, cal, gen
from vf.core import group

ASSUMPTIONS = [
    "rows are sorted by time, as the time bins describe them; gains are "
    "invertible (condition number at most ten)",
    "the reference evaluates the documented products row by row with "
    "matrices",
]

V = ["scalar c16", "diag c16", "two c16", "full c16", "diag c8", "two c8",
     "full c8"]


def bins(ctx, time, t):
    """The time bins as the library computes them, checked."""
    from africanus.calibration.utils import chunkify_rows
    ntime = t[-1] + 1
    k = int(ctx.rng.randint(1, ntime + 3))
    ch, idx, cnt = ctx.call(chunkify_rows, time, k)
    first = np.searchsorted(t, np.arange(ntime))
    last = np.searchsorted(t, np.arange(ntime), side="right")
    ctx.equal("time bin starts", idx, first)
    ctx.equal("time bin counts", cnt, last - first)
    want = [int(last[min(i + k, ntime) - 1] - first[i])
            for i in range(0, ntime, k)]
    ctx.ok("row chunks hold whole times", [int(c) for c in ch] == want,
           got=ch, want=want)
    return k, idx, cnt


def case(ctx, variant, ndir=None):
    rng = ctx.rng
    kind, dt = variant.split()
    corr, jc = cal.MODES[kind]
    na = gen.size(rng, 5, 8, huge=30)
    t, time, a1, a2 = cal.rows(rng, na)
    k, idx, cnt = bins(ctx, time, t)
    nc, nd = gen.size(rng, 4, 8), ndir or gen.size(rng, 3, 5)
    J = cal.gains(rng, (t[-1] + 1, na, nc, nd) + jc, dt, kind == "full")
    it = gen.choice(rng, ["i4", "i8"])
    ctx.sig(rows=len(t), times=int(t[-1] + 1), ant=na, chan=nc, dirs=nd)
    if len(t) == 1 or nc == 1:
        ctx.trivial()
    if rng.rand() < 0.4:        # as in a chunk of a longer observation
        idx = idx + np.int32(rng.randint(1, 1000))
    return t, a1.astype(it), a2.astype(it), idx, cnt, nc, nd, J, corr, dt


@group("K01", "corrupt and residual", quick=40, thorough=500, variants=V,
       require=["corrupted visibilities", "residual visibilities",
                "flagged samples are zero", "time bin starts",
                "row chunks hold whole times"])
def corrupt(ctx, variant):
    """random rows (either orientation, with and without autocorrelations,
    missing baselines), directions and flags; non-trivial: several rows and
    channels"""
    from africanus.calibration.utils import corrupt_vis, residual_vis
    rng = ctx.rng
    t, a1, a2, idx, cnt, nc, nd, J, corr, dt = case(ctx, variant)
    nr = len(t)
    M = gen.cplx(rng, (nr, nc, nd) + corr, dt)
    M[rng.rand(nr) < 0.1] = 0
    got = ctx.call(corrupt_vis, idx, cnt, a1, a2, J, M)
    want, mag = cal.corrupt_ref(t, a1, a2, J, M)
    eps = gen.eps(M)
    ctx.ok("result dtype", got.dtype == M.dtype, got=got.dtype)
    ctx.ok("result shape", got.shape == want.shape, got=got.shape)
    tol = 8 * (nd + 4) * eps * mag
    bad = ~(np.abs(got - want) <= tol)
    ctx.ok("corrupted visibilities", not bad.any(),
           where=np.argwhere(bad)[:3], got=got[bad][:3], want=want[bad][:3])
    vis = gen.cplx(rng, got.shape, dt)
    if rng.rand() < 0.3:
        vis = got.copy()
    flag = gen.flags(rng, got.shape, gen.choice(rng, ["?", "u1"]))
    junk = gen.choice(rng, [np.nan, np.inf, 1e30])
    if rng.rand() < 0.5:        # nobody may look at what is flagged
        f = flag.reshape(nr, nc, -1).any(axis=2)
        vis[f] = junk
        if rng.rand() < 0.5:
            M = M.copy()
            M[f] = junk
    res = ctx.call(residual_vis, idx, cnt, a1, a2, J, vis, flag, M)
    ctx.ok("result dtype", res.dtype == vis.dtype, got=res.dtype)
    f = flag.reshape(nr, nc, -1).any(axis=2)
    ctx.ok("flagged samples are zero", not res[f].any())
    with np.errstate(all="ignore"):
        bad = ~(np.abs(res - (vis - want)) <= tol + 8 * eps * np.abs(vis))
    bad[f] = False
    ctx.ok("residual visibilities", not bad.any(),
           where=np.argwhere(bad)[:3], got=res[bad][:3],
           want=(vis - want)[bad][:3])


@group("K01", "time bins", quick=60, thorough=600,
       variants=["few", "many"],
       require=["time bin starts", "row chunks hold whole times"])
def time_bins(ctx, variant):
    """the time bins of long observations: tens of thousands of rows, in a
    few or in many times"""
    rng = ctx.rng
    if variant == "few":
        n = int(rng.randint(1, 8))
        cnt = rng.randint(1, gen.choice(rng, [100, 70000]), n)
    else:
        n = int(rng.randint(200, 3000))
        cnt = rng.randint(1, gen.choice(rng, [3, 60]), n)
    t = np.repeat(np.arange(n), cnt)
    time = (np.cumsum(rng.uniform(0.5, 20, n)) * gen.choice(
        rng, [1, 1e-4]) + gen.choice(rng, [0.0, 4.5e9]))[t]
    ctx.sig(rows=len(t), times=n)
    bins(ctx, time, t)


@group("K01", "correct", quick=40, thorough=500, variants=V,
       require=["corrected visibilities", "correcting undoes corrupting",
                "flagged samples are zero",
                "direction dependent gains rejected"])
def correct(ctx, variant):
    """the inverse gains of random rows, and of corrupted visibilities"""
    from africanus.calibration.utils import correct_vis, corrupt_vis
    rng = ctx.rng
    t, a1, a2, idx, cnt, nc, nd, J, corr, dt = case(ctx, variant, 1)
    nr = len(t)
    if rng.rand() < 0.3:        # very small and very large gains
        J = (J * 10**rng.uniform(-6, 6)).astype(dt)
    vis = gen.cplx(rng, (nr, nc) + corr, dt)
    flag = gen.flags(rng, vis.shape, gen.choice(rng, ["?", "u1"]))
    if rng.rand() < 0.5:        # nobody may look at what is flagged
        vis[flag.reshape(nr, nc, -1).any(axis=2)] = gen.choice(
            rng, [np.nan, np.inf, 1e30])
    got = ctx.call(correct_vis, idx, cnt, a1, a2, J, vis, flag)
    ctx.ok("result dtype", got.dtype == vis.dtype, got=got.dtype)
    ctx.ok("result shape", got.shape == vis.shape, got=got.shape)
    f = flag.reshape(nr, nc, -1).any(axis=2)
    ctx.ok("flagged samples are zero", not got[f].any())
    eps = gen.eps(vis)
    J8, v8 = J.astype("c16"), vis.astype("c16")
    want = np.zeros(vis.shape, "c16")
    mag = np.zeros(vis.shape)
    for r in range(nr):
        for c in range(nc):
            jp, jq = J8[t[r], a1[r], c, 0], J8[t[r], a2[r], c, 0]
            want[r, c] = cal.inv_mul(jp, v8[r, c], jq)
            mag[r, c] = np.abs(want[r, c]).max() + np.abs(
                v8[r, c]).max() / (np.abs(jp).max() * np.abs(jq).max())
    bad = ~(np.abs(got - want) <= 3000 * eps * mag)
    bad[f] = False
    ctx.ok("corrected visibilities", not bad.any(),
           where=np.argwhere(bad)[:3], got=got[bad][:3], want=want[bad][:3])
    M = gen.cplx(rng, (nr, nc, 1) + corr, dt)
    vis = ctx.call(corrupt_vis, idx, cnt, a1, a2, J, M)
    back = ctx.call(correct_vis, idx, cnt, a1, a2, J, vis,
                    np.zeros(vis.shape, flag.dtype))
    scale = np.abs(M[:, :, 0]).max() if M.size else 0
    ctx.close("correcting undoes corrupting", back, M[:, :, 0], rtol=0,
              atol=5000 * eps * scale)
    if ctx.case % 8 == 0:
        ctx.raises("direction dependent gains rejected", ValueError,
                   correct_vis, idx, cnt, a1, a2,
                   np.concatenate([J, J], axis=3), vis, flag)


@group("K01", "compute and corrupt", quick=30, thorough=400,
       variants=[v + " f8" for v in V] + ["full c8 f4"],
       require=["visibilities of a moving sky"])
def compute(ctx, variant):
    """point sources that move and vary with time, seen through gains;
    non-trivial: several rows and channels"""
    from africanus.calibration.utils import compute_and_corrupt_vis
    rng = ctx.rng
    kd, xdt = variant.rsplit(" ", 1)
    t, a1, a2, idx, cnt, nc, nd, J, corr, dt = case(ctx, kd)
    nr, nt = len(t), t[-1] + 1
    M = gen.cplx(rng, (nt, nc, nd) + corr, dt)
    lm = np.stack([sky(rng, nd, xdt) for _ in range(nt)])
    uvw, fr = coords(rng, nr, xdt, 30.0), freqs(rng, nc, xdt)
    got = ctx.call(compute_and_corrupt_vis, idx, cnt, a1, a2, J, M, uvw, fr,
                   lm)
    ctx.ok("result dtype", got.dtype == J.dtype, got=got.dtype)
    full = np.zeros((nr, nc, nd) + corr, "c16")
    rel = np.zeros((nr, nc, nd))
    ex = (slice(None),) * 3 + (None,) * len(corr)
    for r in range(nr):
        p, e = phases(lm[t[r]], uvw[r:r + 1], fr)
        n = np.sqrt(1 - (lm[t[r]].astype(np.longdouble)**2).sum(axis=1))
        k = (expi(p[:, 0].T) / n).astype("c16")       # chan, dir
        full[r] = M[t[r]] * k[(Ellipsis,) + (None,) * len(corr)]
        rel[r] = (e[:, 0].T * 6 + (20 / n**2)[None]).astype(float)
    want, mag = cal.corrupt_ref(t, a1, a2, J, full)
    _, bound = cal.corrupt_ref(t, a1, a2, np.abs(J), np.abs(full) * rel[ex])
    eps = gen.eps(J, uvw)
    ctx.ok("result shape", got.shape == want.shape, got=got.shape)
    bad = ~(np.abs(got - want) <= eps * (bound + 8 * (nd + 4) * mag))
    ctx.ok("visibilities of a moving sky", not bad.any(),
           where=np.argwhere(bad)[:3], got=got[bad][:3], want=want[bad][:3])


@group("K01", "rejects", quick=20, thorough=40, variants=[None],
       require=["incompatible gains rejected"])
def rejects(ctx, variant):
    """gains and visibilities of incompatible rank are refused"""
    from africanus.calibration.utils import check_type
    rng = ctx.rng
    n = [gen.size(rng, 3, 4, huge=30) for _ in range(4)]
    ctx.sig(n=n)
    m = "incompatible gains rejected"
    j5, j6 = np.zeros(n + [2]), np.zeros(n + [2, 2])
    v3, v4 = np.zeros(n[:2] + [2]), np.zeros(n[:2] + [2, 2])
    ctx.ok("mode", [check_type(j5, v3), check_type(j5, v4),
                    check_type(j6, v4)] == [0, 1, 2])
    m4, m5 = np.zeros(n[:3] + [2]), np.zeros(n[:3] + [2, 2])
    ctx.ok("mode", [check_type(j5, m4, "model"), check_type(j5, m5, "model"),
                    check_type(j6, m5, "model")] == [0, 1, 2])
    ctx.raises(m, RuntimeError, check_type, j6, v3)
    ctx.raises(m, RuntimeError, check_type, j5[0], v4)
    ctx.raises(m, RuntimeError, check_type, j5, v4[None])
    ctx.raises(m, RuntimeError, check_type, j6, m4, "model")
    ctx.raises(m, ValueError, check_type, j5, v3, "data")


@group("K01", "bulk", quick=6, thorough=18,
       variants=["times", "rows", "chan"],
       require=["parts of very large inputs"])
def many(ctx, variant):
    """tens of thousands of rows, times or channels; a selection of them as
    if it stood alone; non-trivial: all"""
    from africanus.calibration.utils import (
        compute_and_corrupt_vis, correct_vis, corrupt_vis, residual_vis)
    rng = ctx.rng
    n = bulk.size(ctx)
    mon = "parts of very large inputs"
    nr, nt, nc, na = 12, 3, 2, 5
    if variant == "times":
        nt = nr = n
    elif variant == "rows":
        nr = n
    else:
        nc = n
    t = np.sort(np.concatenate([np.arange(nt), rng.randint(
        0, nt, nr - nt)])) if nr > nt else np.arange(nt)
    a1, a2 = rng.randint(0, na, (2, nr))
    J = gen.cplx(rng, (nt, na, nc, 1, 1)) + 3
    M = gen.cplx(rng, (nr, nc, 1, 1))
    vis = gen.cplx(rng, (nr, nc, 1))
    fl = gen.flags(rng, vis.shape, bool)
    lm = rng.uniform(-0.3, 0.3, (nt, 1, 2))
    M2 = gen.cplx(rng, (nt, nc, 1, 1))
    uvw = rng.uniform(-300, 300, (nr, 3))
    f = rng.uniform(1e9, 2e9, nc)

    def cut(z, which):
        rz, cz = (slice(None), z) if variant == "chan" else (z, slice(None))
        ut, inv, cnt = np.unique(t[rz], return_inverse=True,
                                 return_counts=True)
        idx = np.concatenate([[0], np.cumsum(cnt)[:-1]])
        a = (idx, cnt, a1[rz], a2[rz], J[ut][:, :, cz])
        if which == "corrupt":
            return a + (M[rz][:, cz],)
        if which == "residual":
            return a + (vis[rz][:, cz], fl[rz][:, cz], M[rz][:, cz])
        if which == "correct":
            return a + (vis[rz][:, cz], fl[rz][:, cz])
        return a + (M2[ut][:, cz], uvw[rz], f[cz], lm[ut])
    ax = int(variant == "chan")
    for w, fn in (("corrupt", corrupt_vis), ("residual", residual_vis),
                  ("correct", correct_vis),
                  ("compute", compute_and_corrupt_vis)):
        bulk.parts(ctx, mon, fn, lambda z: cut(z, w), n, ax, 1e-11)
