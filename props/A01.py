"""Time averaging partitions the rows."""
import numpy as np

from vf import avg, gen
from vf.core import Skip, group

ASSUMPTIONS = [
    "times closer than 1e-5 relative to a bin boundary are only judged when "
    "all values are multiples of 1/64, where the arithmetic is exact",
]

FL = ["none", "flag_row", "flag", "both", "bool_row", "many_valued"]


def fill_flags(rng, kw, how, nrow):
    nchan, ncorr = int(rng.randint(1, 5)), gen.choice(rng, [1, 2, 4])
    if how in ("flag_row", "bool_row", "many_valued"):
        f = gen.flags(rng, (nrow,))
        if how == "bool_row":
            f = f.astype(bool)
        if how == "many_valued":
            f = f * rng.randint(1, 200, size=nrow).astype(np.uint8)
        kw["flag_row"] = f
    if how in ("flag", "both"):
        kw["flag"] = gen.flags(rng, (nrow, nchan, ncorr))
    if how == "both":
        kw["flag_row"] = (kw["flag"] != 0).all(axis=(1, 2)).astype(np.uint8)


@group("A01", "partition", quick=260, thorough=3000,
       variants=[(f, np.float64) for f in FL] + [("none", np.float32),
                                                 ("flag_row", np.float32)],
       require=["order", "bins with several samples", "flagged output rows"])
def partition(ctx, variant):
    """random incomplete (baseline x time) grids, times with gaps, unequal
    intervals, sparse antenna numbers, rows in random order; non-trivial: at
    least one bin averages several samples"""
    from africanus.averaging import time_and_channel
    how, tdt = variant
    rows, tbs = avg.make_rows(ctx.rng, tdtype=tdt,
                              dyadic=True if tdt == np.float32 else None)
    ref = avg.bins_of(rows, tbs)
    if ref is None:
        raise Skip()
    kw = {}
    fill_flags(ctx.rng, kw, how, len(rows["time"]))
    ctx.sig(rows=len(rows["time"]), bins=len(ref), tbs=tbs,
            nbl=len(set(b for _, b, _ in ref)), hash=float(
                np.sum(rows["time"] * np.arange(len(rows["time"])))))
    if len(ref) == len(rows["time"]):
        ctx.trivial()
    out = ctx.call(time_and_channel, time_bin_secs=tbs, **rows, **kw)
    mapping = avg.output_rows(ctx, rows, tbs, out, ref)
    avg.check_flag_row(ctx, kw, mapping, out)


@group("A01", "many rows", quick=1, thorough=4,
       variants=["none", "flag_row"], require=["order"])
def many_rows(ctx, variant):
    """more rows than 16 bits count"""
    from africanus.averaging import time_and_channel
    rows, tbs = avg.make_rows(ctx.rng, dyadic=True, many=(
        int(ctx.rng.randint(39, 44)), int(ctx.rng.randint(48, 60))))
    tbs = float(np.ceil(ctx.rng.uniform(0.5, 1.5) * 64 *
                        rows["interval"].mean())) / 64
    ref = avg.bins_of(rows, tbs)
    if ref is None:
        raise Skip()
    kw = {}
    fill_flags(ctx.rng, kw, variant, len(rows["time"]))
    ctx.sig(rows=len(rows["time"]), bins=len(ref), tbs=tbs)
    out = ctx.call(time_and_channel, time_bin_secs=tbs, **rows, **kw)
    mapping = avg.output_rows(ctx, rows, tbs, out, ref)
    avg.check_flag_row(ctx, kw, mapping, out)


@group("A01", "rejects", quick=60, thorough=600, variants=["dup", "flags"],
       require=["duplicate rows are rejected",
                "inconsistent flags are rejected"])
def rejects(ctx, variant):
    """illegal inputs: one duplicated (time, antenna1, antenna2), or one row
    whose FLAG_ROW contradicts FLAG"""
    from africanus.averaging import time_and_channel
    rng = ctx.rng
    rows, tbs = avg.make_rows(rng)
    n = len(rows["time"])
    ctx.sig(rows=n, tbs=tbs)
    if variant == "dup":
        i = int(rng.randint(n))
        j = int(rng.randint(n + 1))
        rows = {k: np.insert(v, j, v[i]) for k, v in rows.items()}
        ctx.raises("duplicate rows are rejected", ValueError,
                   time_and_channel, time_bin_secs=tbs, **rows)
    else:
        kw = {}
        fill_flags(rng, kw, "both", n)
        i = int(rng.randint(n))
        kw["flag_row"][i] = 1 - kw["flag_row"][i]
        ctx.raises("inconsistent flags are rejected", ValueError,
                   time_and_channel, time_bin_secs=tbs, **rows, **kw)
