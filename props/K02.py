"""Phase-only calibration."""
import numpy as np

from vf import cal, gen
from vf.core import group

ASSUMPTIONS = [
    "rows are sorted by time; where the solver runs they hold no "
    "autocorrelations and every antenna keeps an unflagged baseline per time "
    "and channel",
    "phase errors stay below 0.4 rad between the initial guess and the truth "
    "where recovery of the truth is judged",
]


def derivatives(t, a1, a2, J, R, M, flag):
    """J^H J (diagonal) and J^H r of the phases, by their definition."""
    J, M = J.astype("c16"), M.astype("c16")
    nr, nc, nd = M.shape[:3]
    jhj, jhr = np.zeros(J.shape), np.zeros(J.shape, "c16")
    mag = np.zeros(J.shape)
    for r in range(nr):
        for c in range(nc):
            if flag[r, c].any():
                continue
            for s in range(nd):
                p, q = (t[r], a1[r], c, s), (t[r], a2[r], c, s)
                v = J[p] * M[r, c, s] * np.conj(J[q])
                for ant, d in ((p, 1j * v), (q, -1j * v)):
                    jhj[ant] += np.abs(d)**2
                    if R is not None:
                        jhr[ant] += np.conj(d) * R[r, c].astype("c16")
                        mag[ant] += np.abs(d) * np.abs(R[r, c])
    return jhj, jhr, mag


def case(ctx, variant, unit):
    rng = ctx.rng
    corr, dt = variant.split()
    nco = int(corr)
    na = int(rng.randint(3 if unit else 2, 8))
    t, time, a1, a2 = cal.rows(rng, na, auto=False if unit else None,
                               ntime=int(rng.randint(1, 5) if na > 4 or
                                         rng.rand() < 0.85 else
                                         rng.randint(20, 90)))
    nc = gen.size(rng, 4, 8) if len(t) < 60 else 1
    nt = int(t[-1] + 1)
    first = np.searchsorted(t, np.arange(nt)).astype(np.int32)
    cnt = np.bincount(t).astype(np.int32)
    it = "i4" if dt == "c16" else "i8"
    if rng.rand() < 0.4:
        first = first + np.int32(rng.randint(1, 1000))
    return (t, a1.astype(it), a2.astype(it), first, cnt, nt, na, nc, nco, dt)


@group("K02", "derivatives", quick=60, thorough=900,
       variants=["1 c16", "2 c16", "2 c8"],
       require=["hessian diagonal", "projected residual"])
def deriv(ctx, variant):
    """the diagonal Hessian and projected residual of random rows, flags and
    directions; non-trivial: several rows"""
    from africanus.calibration.phase_only import (
        compute_jhj, compute_jhr, compute_jhj_and_jhr)
    rng = ctx.rng
    t, a1, a2, idx, cnt, nt, na, nc, nco, dt = case(ctx, variant, False)
    nd = gen.size(rng, 3, 5)
    J = cal.gains(rng, (nt, na, nc, nd, nco), dt, False)
    M = gen.cplx(rng, (len(t), nc, nd, nco), dt)
    R = gen.cplx(rng, (len(t), nc, nco), dt)
    flag = gen.flags(rng, R.shape, "?" if nco == 1 else "u1")
    f = flag.any(axis=2)
    if dt == "c16" and rng.rand() < 0.3:
        R[f] = np.nan       # flagged: nobody may look
    ctx.sig(rows=len(t), times=nt, ant=na, chan=nc, dirs=nd,
            flagged=int(f.sum()))
    if len(t) == 1:
        ctx.trivial()
    jhj, jhr, mag = derivatives(t, a1, a2, J, R, M, flag)
    eps = gen.eps(J) * 16 * (len(t) + 4)
    g1 = ctx.call(compute_jhj, idx, cnt, a1, a2, J, M, flag)
    g2 = ctx.call(compute_jhr, idx, cnt, a1, a2, J, R, M, flag)
    g3, g4 = ctx.call(compute_jhj_and_jhr, idx, cnt, a1, a2, J, R, M, flag)
    for g in (g1, g3):
        ctx.ok("result dtype", g.dtype == J.real.dtype, got=g.dtype)
        ctx.close("hessian diagonal", g, jhj, rtol=eps)
    for g in (g2, g4):
        ctx.ok("result dtype", g.dtype == J.dtype, got=g.dtype)
        ctx.ok("projected residual", g.shape == jhr.shape and np.all(
            np.abs(g - jhr) <= eps * mag), got=g.ravel()[:3],
            want=jhr.ravel()[:3])


@group("K02", "solver", quick=40, thorough=600,
       variants=["1 c16 1", "2 c16 1", "2 c16 2", "2 c8 1"],
       require=["unit gains", "stationary", "truth recovered",
                "flagged data do not matter", "iterations counted",
                "stops when converged", "weights without channels"])
def solver(ctx, variant):
    """noise free and noisy observations through random phases, with flags,
    weights, one or more directions; non-trivial: always"""
    from africanus.calibration.phase_only import gauss_newton
    rng = ctx.rng
    v, nd = variant.rsplit(" ", 1)
    nd = int(nd)
    _, _, _, _, _, nt, na, nc, nco, dt = case(ctx, v, True)
    # every baseline, so that every antenna is determined
    p, q = gen.baselines(na)
    nb = len(p)
    t = np.repeat(np.arange(nt), nb)
    a1, a2 = np.tile(p, nt), np.tile(q, nt)
    if rng.rand() < 0.5:
        sw = rng.rand(len(t)) < 0.4
        a1, a2 = np.where(sw, a2, a1), np.where(sw, a1, a2)
    idx = (np.arange(nt) * nb).astype(np.int32)
    cnt = np.full(nt, nb, np.int32)
    nr = len(t)
    M = (gen.cplx(rng, (nr, nc, nd, nco)) * 0.2 + rng.uniform(
        0.5, 2, (1, nc, nd, nco)) * np.exp(
            1j * rng.uniform(-3, 3, (nr, 1, nd, 1)))).astype(dt)
    size = gen.choice(rng, [0.05, 0.2])
    truth = np.exp(1j * rng.uniform(-size, size, (nt, na, nc, nd, nco)))
    vis, _ = cal.corrupt_ref(t, a1, a2, truth, M)
    noisy = rng.rand() < 0.4
    if noisy:
        vis = vis + gen.cplx(rng, vis.shape, scale=0.05)
    W = rng.uniform(0.5, 2, vis.shape)
    flag = np.zeros(vis.shape, bool)
    if rng.rand() < 0.6 and na > 3:
        # at most one flagged baseline per time and channel
        for k in range(nt):
            for c in range(nc):
                if rng.rand() < 0.5:
                    flag[k * nb + rng.randint(nb), c,
                         rng.randint(nco)] = True
    f = flag.any(axis=2)
    J0 = np.ones(truth.shape, dt)
    if rng.rand() < 0.5:
        J0 = (truth * np.exp(1j * rng.uniform(-size, size, truth.shape))
              ).astype(dt)
    vis = vis.astype(dt)
    W = W.astype(vis.real.dtype)
    tol = 1e-7 if dt == "c16" else 2e-4
    maxiter = int(gen.choice(rng, [400, 400, 400, 2]))
    ctx.sig(times=nt, ant=na, chan=nc, noisy=bool(noisy),
            flagged=int(f.sum()), maxiter=maxiter)
    args = (idx, cnt, a1, a2)
    g, jhj, jhr, k = ctx.call(gauss_newton, *args, J0, vis, flag, M, W,
                              tol=tol, maxiter=maxiter)
    ctx.ok("result shape", g.shape == J0.shape == jhj.shape == jhr.shape)
    ctx.ok("iterations counted", 1 <= k <= maxiter, got=k)
    ctx.close("unit gains", np.abs(g), np.ones(g.shape), rtol=4 * gen.eps(g))
    sw = np.sqrt(W.astype("f8"))
    wM = M * sw[:, :, None]
    rj, _, _ = derivatives(t, a1, a2, J0, None, wM, flag)
    ctx.close("hessian diagonal", jhj, rj,
              rtol=gen.eps(jhj) * 16 * (nr + 4))
    if k < maxiter and nd == 1:
        model, _ = cal.corrupt_ref(t, a1, a2, g, M)
        res = (vis - model) * sw
        _, rr, _ = derivatives(t, a1, a2, g, res, wM, flag)
        step = np.abs(0.5 * rr.real / rj)
        ctx.ok("stationary", step.max() <= 4 * tol, step=step.max(), tol=tol)
        if not noisy:
            # distance to the truth, up to a common phase per solution
            d = np.angle(g * np.conj(truth))[:, :, :, 0]
            d = np.angle(np.exp(1j * (d - d[:, :1])))
            ctx.ok("truth recovered", np.abs(d).max() <= 60 * tol,
                   got=np.abs(d).max(), tol=tol, k=k)
    # iterating stops with the first step within the tolerance
    if k < maxiter:
        def after(n):
            if n == 0:
                return J0
            return ctx.call(gauss_newton, *args, J0, vis, flag, M, W,
                            tol=tol, maxiter=n)[0]
        last = np.abs(np.angle(g * np.conj(after(k - 1)))).max()
        slack = 0.01 * tol + 8 * gen.eps(g)
        ctx.ok("stops when converged", last <= tol + slack, step=last, k=k)
        if k > 1:
            prev = np.abs(np.angle(after(k - 1) *
                                   np.conj(after(k - 2)))).max()
            ctx.ok("stops when converged", prev > tol - slack, step=prev,
                   k=k)
    else:
        ctx.ok("iterations counted", k == maxiter, got=k)
    if rng.rand() < 0.3:        # weights shared by the channels
        W1 = W[:, 0]
        a = ctx.call(gauss_newton, *args, J0, vis, flag, M, W1,
                     tol=tol, maxiter=maxiter)
        b = ctx.call(gauss_newton, *args, J0, vis, flag, M,
                     np.repeat(W1[:, None], nc, axis=1),
                     tol=tol, maxiter=maxiter)
        for x, y in zip(a, b):
            ctx.equal("weights without channels", x, y)
    if maxiter == 2 and not noisy and nd == 1:
        ctx.count("stopped early")
    v2, M2 = vis.copy(), M.copy()
    v2[f] = gen.choice(rng, [1e6, np.nan])
    M2[f] = 1e3
    g2, jhj2, jhr2, k2 = ctx.call(gauss_newton, *args, J0, v2, flag, M2, W,
                                  tol=tol, maxiter=maxiter)
    ctx.equal("flagged data do not matter", g2, g)
    ctx.equal("flagged data do not matter", jhr2, jhr)
    ctx.ok("flagged data do not matter", k2 == k)


@group("K02", "defaults", quick=10, thorough=40, variants=[None],
       require=["default tolerance", "unsupported modes rejected"])
def defaults(ctx, variant):
    """the default tolerance and iteration limit; matrix gains are refused"""
    from africanus.calibration.phase_only import gauss_newton
    rng = ctx.rng
    na, nc = int(rng.randint(3, 7)), gen.size(rng, 3, 5)
    a1, a2 = gen.baselines(na)
    truth = np.exp(1j * rng.uniform(-0.2, 0.2, (1, na, nc, 1, 2)))
    M = np.ones((len(a1), nc, 1, 2), complex) * 2
    vis, _ = cal.corrupt_ref(np.zeros(len(a1), int), a1, a2, truth, M)
    idx, cnt = np.array([0], np.int32), np.array([len(a1)], np.int32)
    ctx.sig(ant=na, chan=nc, x=float(truth[0, 0, 0, 0, 0].imag))
    flag = np.zeros(vis.shape, bool)
    one = np.ones(truth.shape, complex)
    g, _, _, k = ctx.call(gauss_newton, idx, cnt, a1, a2, one, vis, flag, M,
                          np.ones(vis.shape))
    d = np.angle(g * np.conj(truth))
    d = d - d[:, :1]
    ctx.ok("default tolerance", np.abs(d).max() < 1e-3 and k < 100, k=k,
           got=np.abs(d).max())
    v4 = np.ones((len(a1), nc, 2, 2), complex)
    ctx.raises("unsupported modes rejected", NotImplementedError,
               gauss_newton, idx, cnt, a1, a2,
               np.ones((1, na, nc, 1, 2), complex), v4, v4.real > 2,
               np.ones((len(a1), nc, 1, 2, 2), complex), np.ones(v4.shape))
