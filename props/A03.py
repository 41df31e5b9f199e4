"""Chunked averaging."""
from types import SimpleNamespace

import numpy as np

from props.A02 import V, fill
from vf import avg, dk, gen
from vf.core import Skip, group

ASSUMPTIONS = [
    "chunks are averaged independently, as documented",
]

AX = dict(time=1, vis=3, flag=3, weight_spectrum=3, sigma_spectrum=3,
          weight=2, sigma=2)


@group("A03", "chunks", quick=24, thorough=200,
       variants=[V[i] for i in (0, 1, 3, 4, 7, 8, 9, 11, 13, 14)] +
                ["vis flag weight uvw exposure chan_freq flag_row"],
       require=["chunk metadata", "computed together with a sibling", "distinct task orders",
                "DATA, WEIGHT_SPECTRUM, SIGMA_SPECTRUM of a bin",
                "WEIGHT sum", "UVW mean", "CHAN_FREQ", "FLAG_ROW"])
def chunks(ctx, variant):
    """random columns in random row, channel, correlation and uvw chunks,
    computed under five kinds of schedule (orders recorded); non-trivial:
    several chunks"""
    from africanus.averaging.dask import time_and_channel
    rng = ctx.rng
    rows, tbs = avg.make_rows(rng, maxant=4, maxtime=7)
    n = len(rows["time"])
    rch = gen.chunks(rng, n, 4)
    kw, nchan = fill(rng, variant.split(), np.float64, np.complex128, rows)
    refs = []
    for a, b in gen.bounds(rch):
        r = avg.bins_of({k: v[a:b] for k, v in rows.items()}, tbs)
        if r is None:
            raise Skip()
        refs.append(r)
    cch = gen.chunks(rng, nchan, 4)
    cbs = int(rng.randint(1, nchan + 2))
    how = dk.SCHEDULES[ctx.case % len(dk.SCHEDULES)]
    cb = []
    ochan = []
    for a, b in gen.bounds(cch):
        bb = [[a + i for i in c] for c in avg.chan_bins(b - a, cbs)]
        cb += bb
        ochan.append(len(bb))
    corr_chunks = {}

    def lazy(nm, a):
        if nm in avg.CHANCOLS:
            return dk.arr(a, (cch,))
        ch = [rch]
        if a.ndim == 3:
            ch.append(cch)
        for d in range(len(ch), a.ndim):
            k = (nm == "uvw", a.shape[d])
            if k not in corr_chunks:
                corr_chunks[k] = (gen.chunks(rng, a.shape[d])
                                  if rng.rand() < 0.3 else (a.shape[d],))
            ch.append(corr_chunks[k])
        return dk.arr(a, tuple(ch))
    ctx.sig(rows=n, row_chunks=rch, chan_chunks=cch, cbs=cbs, tbs=tbs,
            schedule=how, columns=variant, other=sorted(
                str(v) for v in corr_chunks.values()))
    if len(rch) * len(cch) == 1:
        ctx.trivial()
    ins = {k: lazy(k, v) for k, v in rows.items()}
    ins.update({k: lazy(k, v) for k, v in kw.items()})
    out = ctx.call(time_and_channel, time_bin_secs=tbs, chan_bin_size=cbs,
                   **ins)
    names = [f for f in out._fields if getattr(out, f) is not None]
    vals = dict(zip(names, ctx.call(
        dk.compute, ctx, [getattr(out, f) for f in names], how)))
    for f in names:
        lz = getattr(out, f)
        dk.honest(ctx, "chunk metadata", lz, vals[f], f)
        if f in avg.CHANCOLS:
            ctx.equal("channel chunks", lz.chunks[0], tuple(ochan), f)
        elif f in avg.RCCOLS:
            ctx.equal("channel chunks", lz.chunks[1], tuple(ochan), f)
    # the same columns averaged in another way, in the same computation
    other = [dict(time_bin_secs=tbs, chan_bin_size=int(rng.randint(
        1, nchan + 2))), dict(time_bin_secs=tbs * 2, chan_bin_size=cbs)]
    two = ctx.call(time_and_channel, **gen.choice(rng, other), **ins)
    f = gen.choice(rng, [n for n in names if n in avg.RCCOLS + avg.CHANCOLS]
                   or names)
    ctx.call(dk.together, ctx, getattr(out, f), vals[f], getattr(two, f))
    full = dict((f, vals.get(f)) for f in out._fields)
    avg.check_chan_columns(ctx, kw, cbs, SimpleNamespace(**full), cb)
    want_rows = sum(len(r) for r in refs)
    for f in names:
        if f not in avg.CHANCOLS:
            ctx.ok("output row count", len(vals[f]) == want_rows, f,
                   got=len(vals[f]), want=want_rows)
    start = 0
    for (a, b), ref in zip(gen.bounds(rch), refs):
        end = start + len(ref)
        o = SimpleNamespace(**{
            f: (None if v is None else v[start:end]
                if f not in avg.CHANCOLS else v) for f, v in full.items()})
        start = end
        r = {k: v[a:b] for k, v in rows.items()}
        k2 = {k: v[a:b] for k, v in kw.items() if k not in avg.CHANCOLS}
        mapping = avg.output_rows(ctx, r, tbs, o, ref)
        avg.check_flag_row(ctx, k2, mapping, o)
        avg.check_row_columns(ctx, k2, mapping, o)
        avg.check_row_chan(ctx, k2, cbs, mapping, o, cb)
