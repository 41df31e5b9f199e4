"""Averaged values."""
import numpy as np

from props.A01 import fill_flags
from vf import avg, gen
from vf.core import Skip, group

ASSUMPTIONS = [
    "weights are non-negative; where the weights of a bin sum to zero only "
    "finiteness (zero) is expected",
    "a channel bin whose samples are all flagged in an output row that is not "
    "flagged may or may not count the samples of wholly flagged rows",
]

# (columns, dtypes of real / complex columns)
V = [
    "tc ex uvw w s | f w:flag_row",
    "vis",
    "vis flag",
    "vis flag weight",
    "vis flag weight_spectrum",
    "vis flag weight_spectrum sigma_spectrum weight sigma uvw exposure "
    "time_centroid chan_freq chan_width effective_bw resolution",
    "vis sigma_spectrum weight flag",
    "sigma_spectrum weight_spectrum flag",
    "vis flag_row weight_spectrum sigma_spectrum",
    "time_centroid exposure uvw weight sigma flag_row",
    "time_centroid exposure uvw sigma flag",
    "exposure weight sigma",
    "vis sigma_spectrum flag flag_row",
    "vis weight_spectrum weight sigma",
    "flag chan_freq chan_width",
    "chan_freq chan_width effective_bw resolution",
][1:]


def fill(rng, cols, rdt, cdt, rows, nchan=None):
    n = len(rows["time"])
    nchan = nchan or gen.size(rng, 7, 40)
    ncorr = gen.choice(rng, [1, 2, 4, 4, 3])
    kw = {}
    wscale = gen.choice(rng, [1.0, 1e-3, 1e4])

    def weights(shape):
        w = rng.uniform(0.1, 2.0, size=shape) * wscale
        u = rng.rand()
        if u < 0.2:
            w[rng.rand(*shape) < 0.3] = 0.0
        elif u < 0.3:
            w[...] = 1.0
        return w.astype(rdt)
    for c in cols:
        if c == "vis":
            kw[c] = gen.cplx(rng, (n, nchan, ncorr), cdt)
        elif c == "flag":
            kw[c] = gen.flags(rng, (n, nchan, ncorr),
                              bool if rdt == np.float32 else np.uint8)
        elif c == "weight_spectrum":
            kw[c] = weights((n, nchan, ncorr))
        elif c == "sigma_spectrum":
            kw[c] = rng.uniform(0.1, 3, size=(n, nchan, ncorr)).astype(rdt)
        elif c == "weight":
            kw[c] = weights((n, ncorr))
        elif c == "sigma":
            kw[c] = rng.uniform(0.1, 3, size=(n, ncorr)).astype(rdt)
        elif c == "uvw":
            kw[c] = gen.real(rng, (n, 3), np.float64, 1000)
        elif c == "exposure":
            kw[c] = rng.uniform(0.1, 2, size=n)
        elif c == "time_centroid":
            kw[c] = rows["time"] + rng.uniform(-.1, .1, size=n)
        elif c == "chan_freq":
            kw[c] = np.sort(rng.uniform(1e8, 2e9, size=nchan))[
                ::gen.choice(rng, [1, -1])].copy()
        elif c in ("chan_width", "effective_bw", "resolution"):
            kw[c] = rng.uniform(1e3, 1e6, size=nchan)
    if "flag_row" in cols:
        if "flag" in cols:
            kw["flag_row"] = (kw["flag"] != 0).all(axis=(1, 2)).astype(
                np.uint8)
        else:
            fill_flags(rng, kw, "flag_row", n)
    return kw, nchan


@group("A02", "values", quick=28, thorough=400,
       variants=[(v, np.float64, np.complex128) for v in V] +
                [(V[i], np.float32, np.complex64) for i in (1, 3, 4, 8)],
       require=["SIGMA weighted mean", "UVW mean", "EXPOSURE sum",
                "TIME_CENTROID mean", "WEIGHT sum", "CHAN_FREQ",
                "CHAN_WIDTH", "EFFECTIVE_BW", "RESOLUTION",
                "bins with all samples flagged",
                "bins with some samples flagged",
                "FLAG is set iff all samples are flagged",
                "what flagged samples hold does not matter",
                "DATA, WEIGHT_SPECTRUM, SIGMA_SPECTRUM of a bin"])
def values(ctx, variant):
    """random columns over random incomplete grids, channel bins that do and
    do not divide the band, flags and weights of all patterns including zero
    weights; non-trivial: several samples are averaged"""
    from africanus.averaging import time_and_channel
    cols, rdt, cdt = variant
    rng = ctx.rng
    rows, tbs = avg.make_rows(rng, maxant=4, maxtime=7)
    ref = avg.bins_of(rows, tbs)
    if ref is None:
        raise Skip()
    kw, nchan = fill(rng, cols.split(), rdt, cdt, rows)
    u = rng.rand()
    cbs = (int(rng.randint(1, nchan + 1)) if u < 0.6 else
           1 if u < 0.75 else nchan if u < 0.9 else
           nchan + int(rng.randint(1, 4)))
    ctx.sig(rows=len(rows["time"]), bins=len(ref), tbs=tbs, nchan=nchan,
            cbs=cbs, columns=cols)
    if len(ref) == len(rows["time"]) and cbs == 1:
        ctx.trivial()
    out = ctx.call(time_and_channel, time_bin_secs=tbs, chan_bin_size=cbs,
                   **rows, **kw)
    mapping = avg.output_rows(ctx, rows, tbs, out, ref)
    avg.check_flag_row(ctx, kw, mapping, out)
    avg.check_row_columns(ctx, kw, mapping, out)
    avg.check_chan_columns(ctx, kw, cbs, out)
    avg.check_row_chan(ctx, kw, cbs, mapping, out)
    spoilt(ctx, time_and_channel, rows, kw, tbs, cbs, out)


def spoilt(ctx, fn, rows, kw, tbs, cbs, out):
    """Whatever flagged samples hold, infinities included, the output that
    is not flagged stays the same."""
    rng = ctx.rng
    junk = gen.choice(rng, [np.nan, np.inf, 1e30])
    new = dict(kw)
    wide, tall = [], []
    if "flag" in kw:
        f = kw["flag"] != 0
        for k in ("vis", "weight_spectrum", "sigma_spectrum"):
            if k in kw:
                new[k] = kw[k].copy()
                new[k][f] = junk
                wide.append(k)
    if "flag_row" in kw:
        f = kw["flag_row"] != 0
        for k in ("uvw", "weight", "sigma", "exposure", "time_centroid"):
            if k in kw and rng.rand() < 0.7:
                new[k] = kw[k].copy()
                new[k][f] = junk
                tall.append(k)
    if not wide and not tall:
        return
    again = ctx.call(fn, time_bin_secs=tbs, chan_bin_size=cbs, **rows, **new)
    for name, keys, flag in (("flag", wide, out.flag),
                             ("flag_row", tall, out.flag_row)):
        if not keys:
            continue
        good = np.asarray(flag) == 0
        for k in keys:
            a, b = getattr(out, k), getattr(again, k)
            if k == "vis" and isinstance(a, tuple):
                a, b = a[0], b[0]
            ctx.equal("what flagged samples hold does not matter",
                      np.asarray(b)[good], np.asarray(a)[good],
                      "%s with %s in flagged samples" % (k, junk))


@group("A02", "large bins", quick=9, thorough=60,
       variants=["time_centroid exposure uvw weight sigma flag_row",
                 "vis flag weight_spectrum sigma_spectrum",
                 "chan_freq chan_width effective_bw resolution vis"],
       require=["UVW mean", "WEIGHT sum", "CHAN_FREQ",
                "DATA, WEIGHT_SPECTRUM, SIGMA_SPECTRUM of a bin"])
def large(ctx, variant):
    """hundreds to tens of thousands of samples in one bin (counters of any
    width wrap around in some case); non-trivial: all"""
    from africanus.averaging import time_and_channel
    rng = ctx.rng
    v = variant.split()
    nt, nc = int(rng.randint(1, 4)), int(rng.randint(1, 3))
    big = int([256, 512, 257, 1024, 300][ctx.case % 5])
    if "chan_freq" in v:
        nc = big if ctx.case else 65536
    else:
        nt = big
        if ctx.case == 0 and "uvw" in v:
            nt = 65536
    nbl = 1 if nt > 5000 else int(rng.randint(1, 3))
    time = np.repeat(np.arange(nt) * 0.5 + 10.25, nbl)
    n = len(time)
    rows = dict(time=time, interval=np.full(n, 0.5),
                antenna1=np.zeros(n, np.int32),
                antenna2=np.tile(np.arange(nbl), nt).astype(np.int32))
    bins = gen.choice(rng, [nt, nt, (nt + 1) // 2])
    tbs = 0.5 * bins
    cbs = nc if rng.rand() < 0.7 else 1
    kw, _ = fill(rng, v, np.float64, np.complex128, rows, nc)
    ref = avg.bins_of(rows, tbs)
    ctx.sig(rows=n, bins=len(ref), tbs=tbs, nchan=nc, cbs=cbs)
    out = ctx.call(time_and_channel, time_bin_secs=tbs, chan_bin_size=cbs,
                   **rows, **kw)
    mapping = avg.output_rows(ctx, rows, tbs, out, ref)
    avg.check_flag_row(ctx, kw, mapping, out)
    avg.check_row_columns(ctx, kw, mapping, out)
    avg.check_chan_columns(ctx, kw, cbs, out)
    avg.check_row_chan(ctx, kw, cbs, mapping, out)
