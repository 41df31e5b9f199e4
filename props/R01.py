"""The measurement equation: predict_vis and apply_gains."""
import itertools

import numpy as np

from vf import bulk, gen
from vf.core import group

ASSUMPTIONS = [
    "the reference evaluates the documented formula row by row with 2x2 "
    "matrix products (element-wise for 1 or 2 correlations)",
    "time indices are looked up relative to the smallest one of the call, "
    "as documented for chunked use",
]

COMBOS = [c for c in itertools.product((0, 1), repeat=4)
          if any(c) and c != (0, 0, 1, 0)]      # dde, coh, die, base
C64, C128, F64, F32 = "c8", "c16", "f8", "f4"


def names(c):
    return "+".join(n for n, x in zip(("dde", "coh", "die", "base"), c) if x)


VARIANTS = [(c, full, "c16") for c in COMBOS for full in (0, 1)]
MIXED = [((1, 1, 1, 1), 0, "c8"), ((1, 1, 1, 1), 1, "c8"),
         ((0, 1, 1, 1), 1, "mix"), ((1, 1, 1, 0), 0, "mix"),
         ((1, 0, 1, 1), 1, "mix"), ((0, 1, 0, 1), 0, "real"),
         ((1, 1, 1, 1), 0, "only dde1"), ((1, 1, 1, 0), 1, "only dde2"),
         ((0, 0, 1, 1), 0, "only die1"), ((1, 1, 1, 1), 1, "only die2"),
         ((1, 1, 0, 1), 0, "only base"), ((1, 1, 0, 0), 1, "only coh")]


def herm(full, x):
    return np.conj(np.swapaxes(x, -1, -2)) if full else np.conj(x)


def mul(full, a, b):
    return a @ b if full else a * b


def model(full, ti, a1, a2, dde1, coh, dde2, die1, base, die2, shape):
    """V = G_p (B + sum_s E_ps X_pqs E_qs^H) G_q^H, and the sum of the
    magnitudes that enter (for the error bound)."""
    v = np.zeros(shape, np.complex128)
    mag = np.zeros(shape)
    ti = ti - ti.min()
    absd = lambda x: np.abs(x.astype(np.complex128))    # noqa: E731
    wide = lambda x: x.astype(np.complex128)            # noqa: E731
    for r in range(shape[0]):
        acc = np.zeros(shape[1:], np.complex128)
        am = np.zeros(shape[1:])
        nsrc = dde1.shape[0] if dde1 is not None else (
            coh.shape[0] if coh is not None else 0)
        for s in range(nsrc):
            if dde1 is not None:
                e1 = dde1[s, ti[r], a1[r]]
                e2 = dde2[s, ti[r], a2[r]]
                if coh is not None:
                    x = coh[s, r]
                    acc += mul(full, mul(full, wide(e1), wide(x)),
                               herm(full, wide(e2)))
                    am += mul(full, mul(full, absd(e1), absd(x)),
                              herm(full, absd(e2))).real
                else:
                    acc += mul(full, wide(e1), herm(full, wide(e2)))
                    am += mul(full, absd(e1), herm(full, absd(e2))).real
            else:
                acc += coh[s, r]
                am += absd(coh[s, r])
        if base is not None:
            acc += base[r]
            am += absd(base[r])
        if die1 is not None:
            g1, g2 = die1[ti[r], a1[r]], die2[ti[r], a2[r]]
            acc = mul(full, mul(full, wide(g1), acc), herm(full, wide(g2)))
            am = mul(full, mul(full, absd(g1), am),
                     herm(full, absd(g2))).real
        v[r] = acc
        mag[r] = am
    return v, mag


def rows(rng, ntime, na, nrow=None, ragged=True):
    """time index (in order or not, maybe offset, maybe with gaps) and
    antennas; autocorrelations and conjugate order included."""
    nrow = nrow or gen.size(rng, 8, 60)
    ti = rng.randint(0, ntime, size=nrow)
    if rng.rand() < 0.5:
        ti[rng.randint(nrow)] = 0
    if rng.rand() < 0.6:
        ti = np.sort(ti)
    a1 = rng.randint(0, na, size=nrow)
    a2 = rng.randint(0, na, size=nrow)
    ti = ti + (int(rng.randint(1, 1000)) if rng.rand() < 0.4 else 0)
    return ti, a1, a2


def arrays(rng, c, full, dt, nsrc, ntime, na, nrow, nchan):
    dde, coh, die, base = c
    corr = (2, 2) if full else (gen.choice(rng, [1, 2]),)

    def make(shape, d):
        if d in (F64, F32):
            return gen.real(rng, shape, d)
        return gen.cplx(rng, shape, d)
    if dt == "mix":
        dts = dict(dde="c8", coh="f8", die="c16", base="c8")
        if not coh:
            dts["base"] = "f4"
    elif dt == "real":
        dts = dict(dde="f8", coh="f8", die="f8", base="f4")
    else:
        dts = dict.fromkeys(("dde", "coh", "die", "base"), dt)
    for k in ("dde1", "dde2", "die1", "die2"):
        dts[k] = dts.get(k[:3])
    if dt[:4] == "only":            # one term is wider than all others
        dts = dict.fromkeys(("dde1", "dde2", "coh", "die1", "die2", "base"),
                            "c8")
        dts[dt[5:]] = "c16"
    a = dict(dde1=None, coh=None, dde2=None, die1=None, base=None, die2=None)
    same = rng.rand() < 0.2 and dt[:4] != "only"
    if dde:
        a["dde1"] = make((nsrc, ntime, na, nchan) + corr, dts["dde1"])
        a["dde2"] = (a["dde1"] if same else
                     make((nsrc, ntime, na, nchan) + corr, dts["dde2"]))
    if coh:
        a["coh"] = make((nsrc, nrow, nchan) + corr, dts["coh"])
    if die:
        a["die1"] = make((ntime, na, nchan) + corr, dts["die1"])
        a["die2"] = (a["die1"] if same else
                     make((ntime, na, nchan) + corr, dts["die2"]))
    if base:
        a["base"] = make((nrow, nchan) + corr, dts["base"])
    # hostile values: exact zeros and wildly different magnitudes
    for k, v in a.items():
        if v is None:
            continue
        if rng.rand() < 0.3:
            v[rng.rand(*v.shape) < 0.3] = 0
        if rng.rand() < 0.2:
            v *= v.dtype.type(10.0 ** rng.randint(-6, 7))
    return a, corr


def tolerance(nsrc, *arrs):
    return 40 * (nsrc + 3) * gen.eps(*[x for x in arrs if x is not None])


def sizes(rng):
    return (gen.size(rng, 4, 20), gen.size(rng, 4, 10), gen.size(rng, 5, 15),
            gen.size(rng, 4, 12))


@group("R01", "formula", quick=40, thorough=600,
       variants=VARIANTS + MIXED, require=["V = Gp(B+sum EXE^H)Gq^H",
                                           "result dtype"])
def formula(ctx, variant):
    """random presence of terms, 1, 2 or 2x2 correlations, precisions, sizes,
    time index offsets and gaps, autocorrelations; non-trivial: more than one
    row and one antenna"""
    from africanus.rime import predict_vis
    rng = ctx.rng
    c, full, dt = variant
    nsrc, ntime, na, nchan = sizes(rng)
    ti, a1, a2 = rows(rng, ntime, na)
    a, corr = arrays(rng, c, full, dt, nsrc, ntime, na, len(ti), nchan)
    ctx.sig(terms=names(c), dtype=dt, corr=corr, src=nsrc, time=ntime, ant=na,
            chan=nchan, rows=len(ti), t0=int(ti[0]))
    if len(ti) == 1 or na == 1:
        ctx.trivial()
    out = ctx.call(predict_vis, ti, a1, a2, a["dde1"], a["coh"], a["dde2"],
                   a["die1"], a["base"], a["die2"])
    shape = (len(ti), nchan) + corr
    ctx.ok("result shape", out.shape == shape, got=out.shape, want=shape)
    want_dt = np.result_type(*[x.dtype for x in a.values() if x is not None])
    ctx.ok("result dtype", out.dtype == want_dt, got=out.dtype, want=want_dt)
    v, mag = model(full, ti, a1, a2, a["dde1"], a["coh"], a["dde2"],
                   a["die1"], a["base"], a["die2"], shape)
    if out.dtype.kind == "f":
        v = v.real
    tol = tolerance(nsrc, *a.values())
    err = np.abs(out.astype(v.dtype) - v)
    bad = ~(err <= tol * mag)
    ctx.ok("V = Gp(B+sum EXE^H)Gq^H", not bad.any(),
           "visibilities differ from the formula",
           where=np.argwhere(bad)[:3], got=out[bad][:3], want=v[bad][:3])


@group("R01", "apply_gains", quick=30, thorough=400,
       variants=[(0, "c16"), (1, "c16"), (1, "c8")],
       require=["G C G^H"])
def gains(ctx, variant):
    """apply_gains against G_p C_pq G_q^H and against predict_vis"""
    from africanus.rime.predict import apply_gains
    rng = ctx.rng
    full, dt = variant
    _, ntime, na, nchan = sizes(rng)
    ti, a1, a2 = rows(rng, ntime, na)
    a, corr = arrays(rng, (0, 0, 1, 1), full, dt, 1, ntime, na, len(ti),
                     nchan)
    ctx.sig(dtype=dt, corr=corr, time=ntime, ant=na, chan=nchan, rows=len(ti))
    shape = (len(ti), nchan) + corr
    out = ctx.call(apply_gains, ti, a1, a2, a["die1"], a["base"], a["die2"])
    v, mag = model(full, ti, a1, a2, None, None, None,
                   a["die1"], a["base"], a["die2"], shape)
    tol = tolerance(1, *a.values())
    ctx.ok("result shape", out.shape == shape)
    bad = ~(np.abs(out - v) <= tol * mag)
    ctx.ok("G C G^H", not bad.any(), "differs", where=np.argwhere(bad)[:3])


@group("R01", "linearity", quick=25, thorough=300,
       variants=[(0,), (1,)], require=["sources add up", "row independence"])
def linearity(ctx, variant):
    """the sky is additive over sources and a row depends on nothing but its
    own data: splits the source axis, permutes the rows"""
    from africanus.rime import predict_vis
    rng = ctx.rng
    full, = variant
    nsrc, ntime, na, nchan = sizes(rng)
    nsrc += 1
    ti, a1, a2 = rows(rng, ntime, na)
    a, corr = arrays(rng, (1, 1, 0, 0), full, "c16", nsrc, ntime, na, len(ti),
                     nchan)
    ctx.sig(corr=corr, src=nsrc, rows=len(ti), ant=na, time=ntime)
    k = int(rng.randint(1, nsrc))
    f = lambda *x: ctx.call(predict_vis, *x)    # noqa: E731
    whole = f(ti, a1, a2, a["dde1"], a["coh"], a["dde2"], None, None, None)
    p1 = f(ti, a1, a2, a["dde1"][:k], a["coh"][:k], a["dde2"][:k],
           None, None, None)
    p2 = f(ti, a1, a2, a["dde1"][k:], a["coh"][k:], a["dde2"][k:],
           None, None, None)
    _, mag = model(full, ti, a1, a2, a["dde1"], a["coh"], a["dde2"],
                   None, None, None, whole.shape)
    bad = ~(np.abs(p1 + p2 - whole) <= 40 * (nsrc + 3) * 2.3e-16 * mag)
    ctx.ok("sources add up", not bad.any(), where=np.argwhere(bad)[:3])
    # the sum runs over sources in the same order: bitwise equality per row
    # is expected, a tolerance is granted all the same
    p = rng.permutation(len(ti))
    perm = f(ti[p], a1[p], a2[p], a["dde1"],
             np.ascontiguousarray(a["coh"][:, p]), a["dde2"], None, None,
             None)
    bad = ~(np.abs(perm - whole[p]) <= 40 * (nsrc + 3) * 2.3e-16 * mag[p])
    ctx.ok("row independence", not bad.any(), where=np.argwhere(bad)[:3])


@group("R01", "rejects", quick=10, thorough=60, variants=[None],
       require=["one-sided Jones terms rejected"])
def rejects(ctx, variant):
    """one-sided or mismatched Jones terms are refused"""
    from africanus.rime import predict_vis
    rng = ctx.rng
    nsrc, ntime, na, nchan = sizes(rng)
    ti, a1, a2 = rows(rng, ntime, na)
    full = int(rng.randint(2))
    a, corr = arrays(rng, (1, 1, 1, 1), full, "c16", nsrc, ntime, na,
                     len(ti), nchan)
    which = gen.choice(rng, ["dde1", "dde2", "die1", "die2"])
    order = ("dde1", "coh", "dde2", "die1", "base", "die2")
    ctx.sig(which=which, corr=corr)
    b = dict(a)
    b[which] = None
    ctx.raises("one-sided Jones terms rejected", Exception, predict_vis,
               ti, a1, a2, *[b[k] for k in order])
    b = dict(a)
    k = gen.choice(rng, order)
    b[k] = b[k][..., 0] if full else b[k][..., None]
    ctx.raises("mismatched correlations rejected", Exception, predict_vis,
               ti, a1, a2, *[b[k] for k in order])
    ctx.call(predict_vis, ti, a1, a2, *[a[k] for k in order])


@group("R01", "bulk", quick=6, thorough=24,
       variants=["row", "source", "chan", "ant", "time"],
       require=["parts of very large inputs"])
def many(ctx, variant):
    """tens of thousands of rows, sources, channels, antennas or times; a
    selection of them is predicted as if it stood alone; non-trivial: all"""
    from africanus.rime import apply_gains, predict_vis
    rng = ctx.rng
    n = bulk.size(ctx)
    k = dict(row=12, source=2, chan=2, ant=4, time=3)
    k[variant] = n
    if variant == "row":
        k["source"] = 1
    elif variant in ("ant", "time"):
        k["row"] = 500
    else:
        k["row"] = 3
    ti = np.sort(rng.randint(0, k["time"], k["row"]))
    ti[0] = 0
    a1, a2 = rng.randint(0, k["ant"], (2, k["row"]))
    corr = (2, 2) if ctx.case % 3 == 0 else (1,)
    s, t, a, r, c = (k[x] for x in ("source", "time", "ant", "row", "chan"))
    e1, e2 = (gen.cplx(rng, (s, t, a, c) + corr) for _ in range(2))
    x = gen.cplx(rng, (s, r, c) + corr)
    g1, g2 = (gen.cplx(rng, (t, a, c) + corr) for _ in range(2))
    b = gen.cplx(rng, (r, c) + corr)
    mon = "parts of very large inputs"
    if variant == "source":
        ctx.sig(n=n)
        v = ctx.call(predict_vis, ti, a1, a2, e1, x, e2, g1, b, g2)
        h = int(rng.randint(1, n))
        v2 = sum(ctx.call(predict_vis, ti, a1, a2, e1[i], x[i], e2[i], g1,
                          None, g2) for i in (slice(None, h),
                                              slice(h, None)))
        v2 = v2 + ctx.call(predict_vis, ti, a1, a2, None, None, None, g1, b,
                           g2)
        ctx.close(mon, v, v2, rtol=1e-11, scale="max")
        w, mag = model(len(corr) == 2, ti, a1, a2, e1[-40:], x[-40:],
                       e2[-40:], g1, b, g2, v.shape)
        v = ctx.call(predict_vis, ti, a1, a2, e1[:-40], x[:-40], e2[:-40],
                     g1, None, g2) + w
        ctx.close(mon, v2, v, rtol=1e-11, scale="max")
        return
    if variant in ("ant", "time"):
        ctx.sig(n=n)
        v = ctx.call(predict_vis, ti, a1, a2, e1, x, e2, g1, b, g2)
        for i in rng.randint(0, r, 60):
            w, mag = model(len(corr) == 2, ti[[0, i]], a1[[0, i]],
                           a2[[0, i]], e1, x[:, [0, i]], e2, g1, b[[0, i]],
                           g2, (2,) + v.shape[1:])
            ctx.close(mon, v[[0, i]], w, rtol=1e-11, scale="max")
        return
    if variant == "chan":
        bulk.parts(ctx, mon, predict_vis, lambda z: (
            ti, a1, a2, e1[:, :, :, z], x[:, :, z], e2[:, :, :, z],
            g1[:, :, z], b[:, z], g2[:, :, z]), n, 1)
        return

    def cut(z):
        t0 = 0 if ti[z].min() == 0 else int(ti[z].min())
        return (ti[z], a1[z], a2[z], e1[:, t0:], x[:, z], e2[:, t0:],
                g1[t0:], b[z], g2[t0:])
    bulk.parts(ctx, mon, predict_vis, cut, n, 0)
    bulk.parts(ctx, mon, apply_gains, lambda z: (
        ti[z], a1[z], a2[z], g1[int(ti[z].min()):], b[z],
        g2[int(ti[z].min()):]), n, 0)
