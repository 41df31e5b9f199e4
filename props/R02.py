"""Chunked prediction of visibilities."""
import numpy as np

from props.R01 import COMBOS, arrays, model, names, sizes, tolerance
from vf import dk, gen
from vf.core import group

ASSUMPTIONS = [
    "row and time chunks align and the antenna axis is one chunk, as the "
    "documentation demands",
]

VARIANTS = [(c, full, "c16") for c in COMBOS for full in (0, 1)
            if c != (0, 0, 0, 1)]
MIXED = [((1, 1, 1, 1), 0, "c8"), ((0, 1, 1, 1), 1, "mix"),
         ((1, 0, 1, 1), 1, "mix"), ((0, 1, 0, 1), 1, "mix"),
         ((1, 1, 1, 1), 1, "only die2"), ((1, 1, 0, 1), 0, "only base"),
         ((1, 1, 1, 0), 1, "only dde2"), ((0, 0, 1, 1), 0, "only die1")]


def chunked_rows(rng, na):
    """time index (global or per chunk), antennas, row and time chunks."""
    ntime = gen.size(rng, 5, 12)
    tch = gen.chunks(rng, ntime, 4)
    ti, rch, off = [], [], 0
    local = rng.rand() < 0.4
    base = int(rng.randint(0, 50)) if rng.rand() < 0.3 else 0
    for t in tch:
        n = int(rng.randint(1, 9))
        x = np.sort(rng.randint(0, t, size=n))
        x[0] = 0
        ti.append(x + (base if local else base + off))
        rch.append(n)
        off += t
    ti = np.concatenate(ti)
    n = len(ti)
    return (ntime, tch, tuple(rch), ti, rng.randint(0, na, size=n),
            rng.randint(0, na, size=n))


@group("R02", "chunks", quick=20, thorough=250, variants=VARIANTS + MIXED,
       require=["chunked = formula", "metadata", "distinct task orders",
                "block metadata", "deterministic",
                "computed together with a sibling"])
def chunks(ctx, variant):
    """random row+time, source and channel chunks, both reductions, five
    kinds of schedule; non-trivial: several source and row chunks"""
    from africanus.rime.dask import predict_vis
    rng = ctx.rng
    c, full, dt = variant
    nsrc, _, na, nchan = sizes(rng)
    ntime, tch, rch, ti, a1, a2 = chunked_rows(rng, na)
    a, corr = arrays(rng, c, full, dt, nsrc, ntime, na, len(ti), nchan)
    sch, cch = gen.chunks(rng, nsrc, 5), gen.chunks(rng, nchan, 3)
    corrch = tuple((n,) for n in corr)
    streams = gen.choice(rng, [None, True, False])
    how = gen.choice(rng, dk.SCHEDULES)
    ctx.sig(terms=names(c), dtype=dt, corr=corr, sch=sch, rch=rch, tch=tch,
            cch=cch, streams=streams, schedule=how, ant=na)
    if len(rch) == 1 and len(sch) == 1:
        ctx.trivial()
    d = {}
    for k, v in a.items():
        if v is None:
            d[k] = None
            continue
        ch = {"dde1": (sch, tch, (na,), cch), "coh": (sch, rch, cch),
              "die1": (tch, (na,), cch), "base": (rch, cch)}
        ch["dde2"], ch["die2"] = ch["dde1"], ch["die1"]
        d[k] = dk.arr(v, ch[k] + corrch)
    out = ctx.call(predict_vis, dk.arr(ti, (rch,)), dk.arr(a1, (rch,)),
                   dk.arr(a2, (rch,)), d["dde1"], d["coh"], d["dde2"],
                   d["die1"], d["base"], d["die2"], streams=streams)
    got = ctx.call(dk.compute, ctx, out, how)
    ctx.ok("row chunks", out.chunks[0] == rch and out.chunks[1] == cch,
           got=out.chunks, want=(rch, cch))
    dk.honest(ctx, "metadata", out, got, "visibilities")
    shape = (len(ti), nchan) + corr
    ctx.ok("result shape", got.shape == shape, got=got.shape, want=shape)
    # reference: each chunk on its own
    want = np.zeros(shape, np.complex128)
    mag = np.zeros(shape)
    for (r0, r1), (t0, t1) in zip(gen.bounds(rch), gen.bounds(tch)):
        s = {k: (None if v is None else
                 v[:, t0:t1] if k[:3] == "dde" else
                 v[:, r0:r1] if k == "coh" else
                 v[t0:t1] if k[:3] == "die" else v[r0:r1])
             for k, v in a.items()}
        want[r0:r1], mag[r0:r1] = model(
            full, ti[r0:r1], a1[r0:r1], a2[r0:r1], s["dde1"], s["coh"],
            s["dde2"], s["die1"], s["base"], s["die2"],
            (r1 - r0,) + shape[1:])
    bad = ~(np.abs(got - want) <= tolerance(nsrc, *a.values()) * mag)
    ctx.ok("chunked = formula", not bad.any(), where=np.argwhere(bad)[:3],
           got=got[bad][:3], want=want[bad][:3])
    if ctx.case % 4 == 0:
        dk.honest_blocks(ctx, "block metadata", out, "visibilities")
    if ctx.case % 4 == 1:
        again = ctx.call(dk.compute, ctx, out,
                         gen.choice(rng, dk.SCHEDULES))
        ctx.equal("deterministic", again, got, "a second run")
    if ctx.case % 4 == 2:
        # the same rows through one other term, or the other reduction
        k = gen.choice(rng, [k for k, v in d.items() if v is not None] + [
            "streams", "exchange"])
        d2, st2, b1, b2 = dict(d), streams, a1, a2
        if k == "streams":
            st2 = not streams
        elif k == "exchange":
            # the same data in other places
            b1, b2 = a2, a1
            if rng.rand() < 0.7:
                b1, b2 = a1, a2
                for t in ("dde", "die"):
                    d2[t + "1"], d2[t + "2"] = d[t + "2"], d[t + "1"]
        else:
            d2[k] = d2[k] * 2
        out2 = ctx.call(predict_vis, dk.arr(ti, (rch,)), dk.arr(b1, (rch,)),
                        dk.arr(b2, (rch,)), d2["dde1"], d2["coh"],
                        d2["dde2"], d2["die1"], d2["base"], d2["die2"],
                        streams=st2)
        ctx.call(dk.together, ctx, out, got, out2)


@group("R02", "rejects", quick=12, thorough=60, variants=[0, 1],
       require=["split antenna axis rejected"])
def rejects(ctx, variant):
    """chunkings that would silently give wrong answers are refused"""
    from africanus.rime.dask import predict_vis
    rng = ctx.rng
    na = int(rng.randint(2, 6))
    ntime, tch, rch, ti, a1, a2 = chunked_rows(rng, na)
    a, corr = arrays(rng, (1, 1, 1, 1), variant, "c16", 2, ntime, na, len(ti),
                     3)
    cc = tuple((n,) for n in corr)
    good = dict(dde1=((2,), tch, (na,), (3,)) + cc,
                coh=((2,), rch, (3,)) + cc, die1=(tch, (na,), (3,)) + cc,
                base=(rch, (3,)) + cc)
    good["dde2"], good["die2"] = good["dde1"], good["die1"]
    mode = gen.choice(rng, ["ant", "time", "unequal"])
    which = gen.choice(rng, ["dde", "die"])
    ctx.sig(mode=mode, which=which, tch=tch, rch=rch, ant=na)
    bad = dict(good)
    names_ = [which + "1", which + "2"]
    off = 1 if which == "dde" else 0
    if mode == "ant":
        k = int(rng.randint(1, na))
        for n in names_:
            ch = list(good[n])
            ch[off + 1] = (k, na - k)
            bad[n] = tuple(ch)
        tag = "split antenna axis rejected"
    elif mode == "time":
        if len(tch) == 1:
            ch_t = None
        else:
            ch_t = (sum(tch),)
        for n in names_:
            ch = list(good[n])
            if ch_t is None:
                if ntime == 1:
                    return
                ch[off] = (1,) * ntime
            else:
                ch[off] = ch_t
            bad[n] = tuple(ch)
        tag = "unaligned row and time chunks rejected"
    else:
        ch = list(good[names_[1]])
        ch[off + 2] = (1, 2)
        bad[names_[1]] = tuple(ch)
        tag = "unequal chunks of the antennas rejected"
    order = ("dde1", "coh", "dde2", "die1", "base", "die2")
    idx = [dk.arr(x, (rch,)) for x in (ti, a1, a2)]
    ctx.raises(tag, ValueError, predict_vis, *(
        idx + [dk.arr(a[k], bad[k]) for k in order]))
