"""Chunked calibration."""
import numpy as np

from props.K01 import V
from props.R03 import coords, freqs, sky
from vf import cal, dk, gen
from vf.core import group

ASSUMPTIONS = [
    "row chunks hold whole times and correspond one to one to the chunks of "
    "the time axis, as chunkify_rows lays them out",
]


def layout(ctx, variant, nd=None):
    """rows of several times in chunks of whole times."""
    from africanus.calibration.utils import chunkify_rows
    rng = ctx.rng
    kind, dt = variant.split()
    corr, jc = cal.MODES[kind]
    na = gen.size(rng, 5, 7, huge=0)
    t, time, a1, a2 = cal.rows(rng, na)
    nt = int(t[-1] + 1)
    k = int(rng.randint(1, nt + 2))
    rch, idx, cnt = ctx.call(chunkify_rows, time, k)
    tch = tuple(min(k, nt - i) for i in range(0, nt, k))
    nc, nd = gen.size(rng, 4, 8), nd or gen.size(rng, 3, 5)
    cch = gen.chunks(rng, nc, 3)
    J = cal.gains(rng, (nt, na, nc, nd) + jc, dt, kind == "full")
    how = gen.choice(rng, dk.SCHEDULES)
    ctx.sig(rows=rch, times=tch, chan=cch, ant=na, dirs=nd, how=how)
    if len(rch) == 1 and len(cch) == 1:
        ctx.trivial()
    rch = tuple(int(r) for r in rch)
    s = dict(t=t, nt=nt, na=na, nc=nc, nd=nd, J=J, a1=a1, a2=a2, idx=idx,
             cnt=cnt, rch=rch, tch=tch, cch=cch, corr=corr, jc=jc, dt=dt,
             how=how, nr=len(t))
    s["cc"] = tuple((n,) for n in corr)
    s["jcc"] = tuple((n,) for n in jc)
    s["lazy"] = (dk.arr(idx, (tch,)), dk.arr(cnt, (tch,)),
                 dk.arr(a1, (rch,)), dk.arr(a2, (rch,)))
    s["dJ"] = dk.arr(J, (tch, (na,), cch, (nd,)) + s["jcc"])
    return s


def compare(ctx, name, lz, want, how):
    got = ctx.call(dk.compute, ctx, lz, how)
    dk.honest(ctx, "metadata", lz, got, name)
    # the kernels may reassociate sums differently per memory layout
    ctx.close("chunked " + name, got, want, rtol=200 * gen.eps(want),
              scale="max", what=name)
    if ctx.case % 6 == 0:
        ctx.call(dk.honest_blocks, ctx, "block metadata", lz, name)


@group("K03", "chunks", quick=24, thorough=250, variants=V,
       require=["chunked corruption", "chunked residual",
                "chunked correction", "metadata", "block metadata",
                "distinct task orders"])
def chunks(ctx, variant):
    """corrupt, residual and correct in chunks of times and channels, five
    schedules; non-trivial: several chunks"""
    from africanus.calibration import utils as cu
    from africanus.calibration.utils import dask as du
    rng = ctx.rng
    s = layout(ctx, variant)
    nr, nc, nd, dt = s["nr"], s["nc"], s["nd"], s["dt"]
    np_ = (s["idx"], s["cnt"], s["a1"], s["a2"])
    M = gen.cplx(rng, (nr, nc, nd) + s["corr"], dt)
    vis = gen.cplx(rng, (nr, nc) + s["corr"], dt)
    flag = gen.flags(rng, vis.shape)
    dM = dk.arr(M, (s["rch"], s["cch"], (nd,)) + s["cc"])
    dv, df = (dk.arr(x, (s["rch"], s["cch"]) + s["cc"]) for x in (vis, flag))
    compare(ctx, "corruption",
            ctx.call(du.corrupt_vis, *s["lazy"], s["dJ"], dM),
            ctx.call(cu.corrupt_vis, *np_, s["J"], M), s["how"])
    compare(ctx, "residual",
            ctx.call(du.residual_vis, *s["lazy"], s["dJ"], dv, df, dM),
            ctx.call(cu.residual_vis, *np_, s["J"], vis, flag, M), s["how"])
    J1 = np.ascontiguousarray(s["J"][:, :, :, :1])
    dJ1 = dk.arr(J1, (s["tch"], (s["na"],), s["cch"], (1,)) + s["jcc"])
    compare(ctx, "correction",
            ctx.call(du.correct_vis, *s["lazy"], dJ1, dv, df),
            ctx.call(cu.correct_vis, *np_, J1, vis, flag), s["how"])


@group("K03", "compute and corrupt", quick=20, thorough=200,
       variants=["diag c16", "two c16", "full c16", "full c8"],
       require=["chunked prediction", "metadata"])
def compute(ctx, variant):
    """a moving sky through gains, in chunks of times and channels"""
    from africanus.calibration import utils as cu
    from africanus.calibration.utils import dask as du
    rng = ctx.rng
    s = layout(ctx, variant)
    nt, nr, nc, nd = s["nt"], s["nr"], s["nc"], s["nd"]
    M = gen.cplx(rng, (nt, nc, nd) + s["corr"], s["dt"])
    lm = np.stack([sky(rng, nd, "f8") for _ in range(nt)])
    uvw, fr = coords(rng, nr, "f8"), freqs(rng, nc, "f8")
    compare(ctx, "prediction", ctx.call(
        du.compute_and_corrupt_vis, *s["lazy"], s["dJ"],
        dk.arr(M, (s["tch"], s["cch"], (nd,)) + s["cc"]),
        dk.arr(uvw, (s["rch"], (3,))), dk.arr(fr, (s["cch"],)),
        dk.arr(lm, (s["tch"], (nd,), (2,)))),
        ctx.call(cu.compute_and_corrupt_vis, s["idx"], s["cnt"], s["a1"],
                 s["a2"], s["J"], M, uvw, fr, lm), s["how"])


@group("K03", "phase only", quick=24, thorough=250,
       variants=["scalar c16", "diag c16", "diag c8"], weight=3,
       require=["chunked hessian", "chunked projection", "metadata"])
def phase_only(ctx, variant):
    """Hessian and projected residual in chunks of times, channels,
    directions"""
    from africanus.calibration import phase_only as po
    from africanus.calibration.phase_only import dask as dpo
    rng = ctx.rng
    s = layout(ctx, variant)
    nr, nc, nd, dt = s["nr"], s["nc"], s["nd"], s["dt"]
    M = gen.cplx(rng, (nr, nc, nd) + s["corr"], dt)
    R = gen.cplx(rng, (nr, nc) + s["corr"], dt)
    flag = gen.flags(rng, R.shape)
    dch = gen.chunks(rng, nd, 3)
    np_ = (s["idx"], s["cnt"], s["a1"], s["a2"])
    dJ = dk.arr(s["J"], (s["tch"], (s["na"],), s["cch"], dch) + s["jcc"])
    dM = dk.arr(M, (s["rch"], s["cch"], dch) + s["cc"])
    dR, df = (dk.arr(x, (s["rch"], s["cch"]) + s["cc"]) for x in (R, flag))
    compare(ctx, "hessian", ctx.call(dpo.compute_jhj, *s["lazy"], dJ, dM,
                                     df),
            ctx.call(po.compute_jhj, *np_, s["J"], M, flag), s["how"])
    compare(ctx, "projection", ctx.call(dpo.compute_jhr, *s["lazy"], dJ, dR,
                                        dM, df),
            ctx.call(po.compute_jhr, *np_, s["J"], R, M, flag), s["how"])


@group("K03", "rejects", quick=8, thorough=40, variants=V[1:4],
       require=["unsupported chunks rejected"])
def rejects(ctx, variant):
    """chunks over antennas or directions that would need sums across chunks
    are refused"""
    from africanus.calibration.phase_only import dask as dpo
    from africanus.calibration.utils import dask as du
    rng = ctx.rng
    s = layout(ctx, variant, 2)
    nr, nc, na = s["nr"], s["nc"], s["na"]
    m = "unsupported chunks rejected"
    M = dk.arr(gen.cplx(rng, (nr, nc, 2) + s["corr"]),
               (s["rch"], s["cch"], (2,)) + s["cc"])
    M2 = dk.arr(gen.cplx(rng, (nr, nc, 2) + s["corr"]),
                (s["rch"], s["cch"], (1, 1)) + s["cc"])
    v = dk.arr(gen.cplx(rng, (nr, nc) + s["corr"]),
               (s["rch"], s["cch"]) + s["cc"])
    J2 = dk.arr(s["J"], (s["tch"], (na,), s["cch"], (1, 1)) + s["jcc"])
    z = s["lazy"]
    ctx.raises(m, ValueError, du.corrupt_vis, *z, J2, M)
    ctx.raises(m, ValueError, du.corrupt_vis, *z, s["dJ"], M2)
    ctx.raises(m, ValueError, du.residual_vis, *z, J2, v, v.real > 0, M)
    ctx.raises(m, ValueError, du.residual_vis, *z, s["dJ"], v, v.real > 0,
               M2)
    ctx.raises(m, ValueError, du.correct_vis, *z, J2, v, v.real > 0)
    if na > 1:
        J3 = dk.arr(s["J"], (s["tch"], (1, na - 1), s["cch"], (2,))
                    + s["jcc"])
        ctx.raises(m, ValueError, du.corrupt_vis, *z, J3, M)
        ctx.raises(m, ValueError, du.residual_vis, *z, J3, v, v.real > 0, M)
        ctx.raises(m, ValueError, du.correct_vis, *z, J3, v, v.real > 0)
        if len(s["corr"]) == 1:
            ctx.raises(m, ValueError, dpo.compute_jhj, *z, J3, M, v.real > 0)
            ctx.raises(m, ValueError, dpo.compute_jhr, *z, J3, v, M,
                       v.real > 0)
