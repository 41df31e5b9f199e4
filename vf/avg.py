"""Averaging: workload generator and reference model (plain python)."""
import numpy as np

from vf import gen

ROWCOLS = ["time_centroid", "exposure", "uvw", "weight", "sigma"]
CHANCOLS = ["chan_freq", "chan_width", "effective_bw", "resolution"]
RCCOLS = ["vis", "flag", "weight_spectrum", "sigma_spectrum"]


def make_rows(rng, maxant=7, maxtime=9, tdtype=np.float64, dyadic=None,
              many=False):
    """Rows of a randomly incomplete (baseline x time) grid, in random, time
    or baseline order."""
    na = int(rng.randint(1, maxant + 1))
    sparse = False
    if gen.is_huge(rng):
        na, maxtime = int(rng.randint(20, 48)), 2
        # a large table of baselines and times with few rows in it
        sparse = rng.rand() < 0.5
    if many:
        na, sparse = many[0], False
    u = rng.rand()
    if u < 0.2:
        # antennas with large, sparse numbers
        ants = np.sort(rng.choice(300, size=na, replace=False))
    elif u < 0.3:
        ants = np.sort(rng.choice(70000, size=na, replace=False))
    else:
        ants = np.arange(na)
    auto = na == 1 or rng.rand() < 0.4
    a1, a2 = gen.baselines(na, auto)
    if rng.rand() < 0.25:       # reversed baselines are baselines too
        sw = rng.rand(a1.size) < 0.4
        a1, a2 = np.where(sw, a2, a1), np.where(sw, a1, a2)
    a1, a2 = ants[a1], ants[a2]
    nt = int(rng.randint(1, maxtime + 1))
    if maxtime > 2 and gen.is_huge(rng, 0.03):
        nt = int(rng.randint(100, 300))
    elif maxtime > 2 and rng.rand() < 0.08:
        nt = int(rng.randint(20, 60))
    if many:
        nt = many[1]
    if sparse:
        nt = int(rng.randint(80, 400))
    if dyadic is None:
        dyadic = rng.rand() < 0.7
    u = rng.rand()
    if u < 0.5:                 # regular
        dt = gen.choice(rng, [0.25, 0.5, 1.0, 2.0, 8.0])
        t = np.arange(nt) * dt
    else:                       # gaps
        dt = gen.choice(rng, [0.5, 1.0, 2.0])
        t = np.cumsum(rng.randint(1, 6, size=nt)) * dt
    if not dyadic:
        t = np.cumsum(rng.uniform(0.1, 2.0, size=nt))
        dt = 0.7
    if tdtype == np.float64:
        t = t + gen.choice(rng, [0.0, 10.0, -100.0, 4.5e9])
    nbl = a1.size
    frac = gen.choice(rng, [0.4, 0.8, 1.0, 1.0])
    if many or sparse:
        frac = 0.97 if many else 800 / (nt * nbl)
    keep = rng.rand(nt, nbl) < frac
    keep[rng.randint(nt), rng.randint(nbl)] = True
    ti, bi = np.nonzero(keep)
    u = rng.rand()
    if u < 0.4:
        order = rng.permutation(ti.size)
    elif u < 0.6:
        order = np.lexsort((ti, bi))
    else:
        order = np.arange(ti.size)
    ti, bi = ti[order], bi[order]
    time = t[ti].astype(tdtype)
    u = rng.rand()
    if u < 0.5:
        interval = np.full(ti.size, dt, tdtype)
    elif u < 0.8:               # per row
        interval = gen.choice(rng, [0.25, 0.5, 1.0]) * rng.randint(
            1, 5, size=ti.size)
    else:                       # per time
        interval = (0.25 * rng.randint(1, 9, size=nt))[ti]
    interval = np.asarray(interval, tdtype)
    if not dyadic:
        interval = (interval * rng.uniform(0.5, 1.5)).astype(tdtype)
    u = rng.rand()
    if u < 0.3:
        tbs = float(dt)
    elif u < 0.9:
        tbs = float(dt * rng.randint(1, 9))
    else:
        tbs = float(gen.choice(rng, [0.125, 1.0, 1e6]))
    return dict(time=time, interval=interval,
                antenna1=a1[bi].astype(np.int32),
                antenna2=a2[bi].astype(np.int32)), tbs


def bins_of(rows, tbs):
    """The reference partition: list of lists of input rows, in output order.

    Returns None when a sample lies too close to a bin boundary for the
    outcome to be specified (only possible for non dyadic times)."""
    time, interval = rows["time"], rows["interval"]
    per_bl = {}
    for r in range(len(time)):
        per_bl.setdefault((int(rows["antenna1"][r]),
                           int(rows["antenna2"][r])), []).append(r)
    out = []
    for bl, rs in per_bl.items():
        rs = sorted(rs, key=lambda r: time[r])
        cur = []
        for r in rs:
            t, h = float(time[r]), float(interval[r]) * 0.5
            if not cur:
                low, cur = t - h, [r]
                continue
            width = t + h - low
            if abs(width - tbs) < 1e-5 * max(1.0, abs(tbs)) and not exact(
                    t, h, low, tbs):
                return None
            if width > tbs:
                out.append((bl, cur))
                low, cur = t - h, [r]
            else:
                cur.append(r)
        out.append((bl, cur))
    res = []
    for bl, rs in out:
        res.append((float(np.mean([float(time[r]) for r in rs])), bl, rs))
    return res


def exact(*vals):
    """All values are multiples of 1/64 (arithmetic on them is exact)."""
    return all(v * 64 == round(v * 64) and abs(v) < 2**40 for v in vals)


def output_rows(ctx, rows, tbs, out, ref=None):
    """Checks the partition (every sample in one output of its baseline, bins
    of bounded width, order) and returns the input rows of each output."""
    ref = bins_of(rows, tbs) if ref is None else ref
    per_bl = {}
    for t, bl, rs in ref:
        per_bl.setdefault(bl, []).append((t, rs))
    nout = len(ref)
    for nm in ("time", "interval", "antenna1", "antenna2"):
        ctx.equal("output row count", np.shape(getattr(out, nm)), (nout,),
                  nm)
    o_t = np.asarray(out.time)
    o_a1, o_a2 = np.asarray(out.antenna1), np.asarray(out.antenna2)
    seen = {}
    mapping = []
    for o in range(nout):
        bl = (int(o_a1[o]), int(o_a2[o]))
        k = seen.get(bl, 0)
        seen[bl] = k + 1
        ctx.ok("baseline of output row", bl in per_bl and
               k < len(per_bl[bl]), "unexpected output row", baseline=bl,
               row=o)
        mapping.append(per_bl[bl][k][1])
        if o:
            prev = (o_t[o-1], int(o_a1[o-1]), int(o_a2[o-1]))
            ctx.ok("order", prev < (o_t[o],) + bl,
                   "rows %d, %d out of (TIME, ANTENNA1, ANTENNA2) order" % (
                       o - 1, o), before=prev, after=(o_t[o],) + bl)
    e = gen.eps(rows["time"])
    n = max(len(m) for m in mapping)
    ctx.close("TIME is the mean of all samples", o_t,
              [np.mean(rows["time"][m].astype(np.float64)) for m in mapping],
              rtol=4 * n * e, what="time")
    ctx.close("INTERVAL is the sum of all samples", out.interval,
              [np.sum(rows["interval"][m].astype(np.float64))
               for m in mapping], rtol=4 * n * gen.eps(rows["interval"]),
              what="interval")
    ctx.count("averaged input rows", sum(len(m) for m in mapping))
    ctx.count("bins with several samples", sum(len(m) > 1 for m in mapping))
    return mapping


def merged_flag_row(kw):
    if kw.get("flag_row") is not None:
        return np.asarray(kw["flag_row"]) != 0
    if kw.get("flag") is not None:
        return (np.asarray(kw["flag"]) != 0).all(axis=(1, 2))
    return None


def check_flag_row(ctx, kw, mapping, out):
    fr = merged_flag_row(kw)
    if fr is None:
        ctx.ok("FLAG_ROW", out.flag_row is None, "unexpected flag_row")
        return None
    want = np.array([fr[m].all() for m in mapping])
    ctx.equal("FLAG_ROW", np.asarray(out.flag_row) != 0, want, "flag_row")
    ctx.count("flagged output rows", want.sum())
    return want


def effective(m, fr):
    """The samples of a bin that count: unflagged ones, or all of them."""
    if fr is None:
        return m
    u = [r for r in m if not fr[r]]
    return u or m


def check_row_columns(ctx, kw, mapping, out):
    fr = merged_flag_row(kw)
    eff = [effective(m, fr) for m in mapping]
    n = max(len(m) for m in mapping)
    f8 = lambda a: np.asarray(a, np.float64)     # noqa: E731

    def get(nm):
        a = kw.get(nm)
        o = getattr(out, nm)
        ctx.ok("outputs correspond to inputs", (a is None) == (o is None),
               nm)
        if a is not None:
            ctx.ok("output dtype", np.asarray(o).dtype == a.dtype, nm,
                   got=str(np.asarray(o).dtype), want=str(a.dtype))
        return a, o

    a, o = get("time_centroid")
    if a is not None:
        ctx.close("TIME_CENTROID mean", o, [f8(a)[m].mean() for m in eff],
                  rtol=8 * n * gen.eps(a), what="time_centroid")
    a, o = get("exposure")
    if a is not None:
        ctx.close("EXPOSURE sum", o, [f8(a)[m].sum() for m in eff],
                  rtol=8 * n * gen.eps(a), what="exposure")
    a, o = get("uvw")
    if a is not None:
        ctx.close("UVW mean", o, np.array([f8(a)[m].mean(0) for m in eff]),
                  rtol=8 * n * gen.eps(a), scale="max", what="uvw")
    w, o = get("weight")
    if w is not None:
        ctx.close("WEIGHT sum", o, np.array([f8(w)[m].sum(0) for m in eff]),
                  rtol=8 * n * gen.eps(w), what="weight")
    s, o = get("sigma")
    if s is not None:
        want = []
        for m in eff:
            ww = f8(w)[m] if w is not None else np.ones(s[m].shape)
            num = (f8(s)[m]**2 * ww**2).sum(0)
            den = ww.sum(0)
            want.append(np.sqrt(np.where(
                den != 0, num / np.where(den != 0, den, 1)**2, num)))
        ctx.close("SIGMA weighted mean", o, np.array(want),
                  rtol=16 * n * gen.eps(s, s if w is None else w),
                  what="sigma")


def chan_bins(nchan, cbs):
    return [list(range(i, min(i + cbs, nchan)))
            for i in range(0, nchan, cbs)]


def check_chan_columns(ctx, kw, cbs, out, cb=None):
    for nm in CHANCOLS:
        a, o = kw.get(nm), getattr(out, nm)
        ctx.ok("outputs correspond to inputs", (a is None) == (o is None),
               nm)
        if a is None:
            continue
        b = cb or chan_bins(len(a), cbs)
        f = np.mean if nm == "chan_freq" else np.sum
        ctx.close(nm.upper(), o, [f(a[c].astype(np.float64)) for c in b],
                  rtol=8 * cbs * gen.eps(a), what=nm)
        ctx.ok("output dtype", np.asarray(o).dtype == a.dtype, nm)


def check_row_chan(ctx, kw, cbs, mapping, out, cb=None):
    have = [kw.get(nm) for nm in RCCOLS]
    for nm in RCCOLS:
        ctx.ok("outputs correspond to inputs",
               (kw.get(nm) is None) == (getattr(out, nm) is None), nm)
    shp = [a.shape for a in have if a is not None]
    if not shp:
        return
    nchan, ncorr = shp[0][1:]
    cb = cb or chan_bins(nchan, cbs)
    oshape = (len(mapping), len(cb), ncorr)
    vis, flag, wspec, sspec = have
    weight = kw.get("weight")
    fr = merged_flag_row(kw)
    flg = None if flag is None else (flag != 0)
    wide = {}
    for nm in ("vis", "weight_spectrum", "sigma_spectrum"):
        if kw.get(nm) is not None:
            a = kw[nm]
            ctx.equal("output shape", np.shape(getattr(out, nm)), oshape, nm)
            ctx.ok("output dtype", np.asarray(getattr(out, nm)).dtype ==
                   a.dtype, nm)
            wide[nm] = a.astype(np.complex128 if a.dtype.kind == "c"
                                else np.float64)
    if flag is not None:
        ctx.equal("output shape", np.shape(out.flag), oshape, "flag")
        ctx.ok("output dtype", np.asarray(out.flag).dtype == flag.dtype,
               "flag")

    def wt(rs, cs, c):
        if wspec is not None:
            return wide["weight_spectrum"][np.ix_(rs, cs)][:, :, c]
        if weight is not None:
            return np.repeat(weight.astype(np.float64)[rs, c][:, None],
                             len(cs), 1)
        return np.ones((len(rs), len(cs)))

    e = gen.eps(*[a for a in (vis, wspec, sspec, weight) if a is not None])
    n = max(len(m) for m in mapping) * cbs

    def values(rs, cs, c, sel):
        w = wt(rs, cs, c)[sel]
        r = {}
        if vis is not None:
            v = wide["vis"][np.ix_(rs, cs)][:, :, c][sel]
            ws = w.sum()
            r["vis"] = (((v * w).sum() / ws if ws != 0 else 0.0),
                        ((np.abs(v * w).sum() / abs(ws)) if ws != 0
                         else np.abs(v * w).sum()))
        if sspec is not None:
            s = wide["sigma_spectrum"][np.ix_(rs, cs)][:, :, c][sel]
            ws = w.sum()
            num = (s**2 * w**2).sum()
            x = np.sqrt(num) / abs(ws) if ws != 0 else 0.0
            r["sigma_spectrum"] = (x, x)
        if wspec is not None:
            ws = wide["weight_spectrum"][np.ix_(rs, cs)][:, :, c][sel].sum()
            r["weight_spectrum"] = (ws, ws)
        return r

    nflagged = nsome = 0
    for o, m in enumerate(mapping):
        eff = effective(m, fr)
        for oc, cs in enumerate(cb):
            for c in range(ncorr):
                alts = []
                if flg is None:
                    alts.append((eff, np.ones((len(eff), len(cs)), bool)))
                    all_flagged = False
                else:
                    f = flg[np.ix_(m, cs)][:, :, c]
                    all_flagged = f.all()
                    if not all_flagged:
                        alts.append((m, ~f))
                        nsome += f.any()
                    else:
                        nflagged += 1
                        # all samples flagged: the documentation says all of
                        # them are used; those of wholly flagged rows may be
                        # left out when the row itself is not flagged
                        alts.append((m, np.ones((len(m), len(cs)), bool)))
                        alts.append((eff, np.ones((len(eff), len(cs)),
                                                  bool)))
                    ctx.ok("FLAG is set iff all samples are flagged",
                           bool(np.asarray(out.flag)[o, oc, c]) ==
                           bool(all_flagged), "flag", at=(o, oc, c))
                good, msg = False, []
                for rs, sel in alts:
                    r = values(rs, cs, c, sel)
                    bad = None
                    for nm, (x, sc) in r.items():
                        g = np.asarray(getattr(out, nm))[o, oc, c]
                        if not abs(g - x) <= 16 * (n + 4) * e * max(
                                sc, 1e-300):
                            bad = "%s got %s expected %s" % (nm, g, x)
                            break
                    if bad is None:
                        good = True
                        break
                    msg.append(bad)
                ctx.ok("DATA, WEIGHT_SPECTRUM, SIGMA_SPECTRUM of a bin", good,
                       " / ".join(msg), at=(o, oc, c))
    ctx.count("bins with all samples flagged", nflagged)
    ctx.count("bins with some samples flagged", nsome)
