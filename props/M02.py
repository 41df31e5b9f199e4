"""wsclean component lists: parsing and prediction."""
import os

import numpy as np

from props.M01 import gauss_ref, wsc_case, wsc_ref
from props.R03 import coords, expi, freqs, phases, sky
from vf import bulk, dk, gen
from vf.core import group

ASSUMPTIONS = [
    "component files are written as wsclean writes them: one header, one "
    "component per line",
    "log polynomial coefficients are positive (others are refused)",
]

COLS = ["Name", "Type", "Ra", "Dec", "I", "SpectralIndex", "LogarithmicSI",
        "ReferenceFrequency", "MajorAxis", "MinorAxis", "Orientation"]


def sexa(rng, kind):
    """text and value (rad) of an angle."""
    sign = gen.choice(rng, ["", "-", "+"])
    neg = sign == "-"
    a = int(rng.randint(0, 24 if kind == "h" else 90))
    if rng.rand() < 0.2:
        a = 0                       # -00.xx.yy keeps its sign
    b = int(rng.randint(0, 60))
    s = gen.choice(rng, ["%d" % rng.randint(0, 60),
                         "%02d.%s" % (rng.randint(0, 60),
                                      rng.randint(0, 10**6))])
    if rng.rand() < 0.03:       # the poles, and a full turn
        a, b, s = (23, 59, "59.9999") if kind == "h" else (90, 0, "0")
    sep = ":" if kind == "h" else "."
    fmt = gen.choice(rng, ["%d%s%d%s%s", "%02d%s%02d%s%s"])
    txt = sign + fmt % (a, sep, b, sep, s)
    v = (a + b / 60.0 + float(s) / 3600.0) * (15.0 if kind == "h" else 1.0)
    return txt, np.deg2rad(-v if neg else v)


def number(rng):
    return gen.choice(rng, [
        lambda: "%d" % rng.randint(0, 1000),
        lambda: "%.6f" % rng.normal(),
        lambda: "%.3e" % rng.normal(),
        lambda: "-%g" % rng.rand(),
        lambda: repr(float(rng.normal() * 1e-5))])()


def cell(rng, col, i):
    if col == "Name":
        t = "s%dc%d" % (i, rng.randint(100))
        return t, t
    if col == "Type":
        t = gen.choice(rng, ["POINT", "GAUSSIAN"])
        return t, t
    if col in ("Ra", "Dec"):
        return sexa(rng, "h" if col == "Ra" else "d")
    if col == "SpectralIndex":
        v = [number(rng) for _ in range(rng.randint(0, 5))]
        sep = gen.choice(rng, [",", ", "])
        return "[%s]" % sep.join(v), [float(x) for x in v]
    if col == "LogarithmicSI":
        t = gen.choice(rng, ["true", "false"])
        return t, t == "true"
    t = number(rng)
    v = float(t)
    if col in ("MajorAxis", "MinorAxis"):
        v = np.deg2rad(v / 3600.0)
    elif col == "Orientation":
        v = np.deg2rad(v)
    return t, v


def same(a, b):
    if isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, bool) or isinstance(b, str):
        return a == b
    return abs(a - b) <= 1e-13 * max(abs(b), 1e-300) + 1e-16


@group("M02", "load", quick=150, thorough=3000,
       variants=["file", "lines"],
       require=["component value", "default value", "column"])
def load_(ctx, variant):
    """random component lists: columns in any order, defaults in the header,
    empty cells, leading comments, every number format; from a file and from
    lines; non-trivial: several sources"""
    from africanus.model.wsclean import load
    rng = ctx.rng
    cols = list(COLS)
    if rng.rand() < 0.3:
        cols = [c for c in cols if rng.rand() < 0.7] or ["Name"]
    if rng.rand() < 0.3:
        rng.shuffle(cols)
    n = gen.size(rng, 8, 60)
    if rng.rand() < 0.05:
        n = 0
    head, defaults = [], {}
    for c in cols:
        if c in ("ReferenceFrequency", "I") and rng.rand() < 0.6:
            t, v = cell(rng, c, 0)
            defaults[c] = v
            q = gen.choice(rng, ["='%s'", " = '%s'", "= '%s' "])
            head.append(c + q % t)
        else:
            head.append(c)
    implicit = {"MajorAxis": 0.0, "MinorAxis": 0.0, "Orientation": 0.0}
    lines = []
    for _ in range(rng.randint(3)):
        lines.append(gen.choice(rng, ["\n", "# a comment\n", "   \n"]))
    lines.append("Format = " + gen.choice(rng, [",", ", "]).join(head) + "\n")
    want = {c: [] for c in cols}
    filled = 0
    for i in range(n):
        parts = []
        for c in cols:
            if (c in defaults or c in implicit) and rng.rand() < 0.4:
                parts.append("")
                want[c].append(defaults.get(c, implicit.get(c)))
                filled += 1
            else:
                t, v = cell(rng, c, i)
                parts.append(t)
                want[c].append(v)
        lines.append(gen.choice(rng, [",", ", ", ",  "]).join(parts) +
                     ("\n" if i < n - 1 or rng.rand() < 0.8 else ""))
    ctx.sig(cols=cols, sources=n, defaults=sorted(defaults), filled=filled)
    if n < 2:
        ctx.trivial()
    if variant == "file":
        path = os.path.join(os.environ["VF_SCRATCH"], "w%d.txt" % os.getpid())
        with open(path, "w") as f:
            f.writelines(lines)
        got = dict(ctx.call(load, path))
        os.remove(path)
    else:
        got = dict(ctx.call(load, gen.choice(rng, [list, tuple, iter])(
            lines)))
    ctx.ok("column", sorted(got) == sorted(cols), got=sorted(got))
    for c in cols:
        ctx.ok("column", len(got[c]) == n, c, got=len(got[c]), want=n)
        for i in range(n):
            ctx.ok("component value", same(got[c][i], want[c][i]), c,
                   row=i, got=got[c][i], want=want[c][i], line=lines[-n + i])
    ctx.count("default value", filled)


@group("M02", "load rejects", quick=40, thorough=400, variants=[None],
       require=["malformed list rejected"])
def load_rejects(ctx, variant):
    """malformed headers, rows and angles are refused"""
    from africanus.model.wsclean import load
    rng = ctx.rng
    good = "s,POINT,1:2:3.5,-4.5.6.7,1.0,[1.0],false,1e9,,,"
    head = "Format = " + ", ".join(COLS)
    mode = int(rng.randint(7))
    ctx.sig(mode=mode, x=int(rng.randint(100)))
    if mode == 0:
        lines = []
    elif mode == 1:
        lines = ["Formats = " + ", ".join(COLS), good]
    elif mode == 2:
        lines = [head + ", Extra", good + ","]
    elif mode == 3:
        lines = [head, good + ","]
    elif mode == 4:
        lines = [head, good.replace("1:2:3.5", gen.choice(
            rng, ["a:2:3", "1;2;3", "12"]))]
    elif mode == 5:
        lines = [head, good.replace("-4.5.6.7", gen.choice(
            rng, ["x.5.6", "-4:5:6", "+4"]))]
    else:
        lines = [head, good.replace("1:2:3.5", "")]
    ctx.call(lambda: list(load([head, good])))
    ctx.raises("malformed list rejected", ValueError,
               lambda: list(load(lines)))


def case(rng, dt):
    flux, coeffs, lp, rf, f = wsc_case(rng, dt, "array")
    ns = len(flux)
    lm, uvw = sky(rng, ns, dt), coords(rng, gen.size(rng), dt)
    fr = freqs(rng, gen.size(rng), dt)
    typ = np.array([gen.choice(rng, ["POINT", "GAUSSIAN"])
                    for _ in range(ns)], dtype="U8")
    if rng.rand() < 0.2:
        typ[:] = gen.choice(rng, ["POINT", "GAUSSIAN"])
    emaj = 10 ** rng.uniform(-6, -2.5, ns)
    shp = np.stack([emaj, emaj * rng.uniform(0, 1, ns),
                    rng.uniform(-4, 4, ns)], axis=1)
    shp[rng.rand(ns) < 0.1] = 0
    return uvw, lm, typ, flux, coeffs, lp, rf, shp.astype(dt), fr


def mixed(rng, dt):
    """Arguments of one precision, or of both ("mix")."""
    if dt != "mix":
        return case(rng, dt)
    a = list(case(rng, "f4"))
    which = [0, 1, 3, 4, 6, 7, 8]
    for i, x in zip(which, gen.odd_one(rng, [a[i] for i in which])):
        a[i] = x
    return tuple(a)


def reference(uvw, lm, typ, flux, coeffs, lp, rf, shp, f):
    spec, stol = wsc_ref(flux, coeffs, lp, rf, f)
    p, pe = phases(lm, uvw, f, +1.0)
    x, xm = gauss_ref(uvw, f, shp)
    g = np.where((typ == "GAUSSIAN")[:, None, None], np.exp(-x), 1)
    ge = np.where((typ == "GAUSSIAN")[:, None, None], g * (x + xm), 0)
    k = expi(p)
    v = np.sum(spec[:, None] * g * k, axis=0)
    a = np.abs(spec)[:, None]
    tol = np.sum(a * g * (8 + 6 * pe) + a * ge * 20 + stol[:, None] * g,
                 axis=0)
    return v[..., None], tol.astype(float)[..., None], len(flux)


@group("M02", "predict", quick=60, thorough=800,
       variants=["f8", "f4", "mix"],
       require=["component visibilities"])
def predict(ctx, variant):
    """visibilities of random point and Gaussian components with ordinary
    and logarithmic spectra; non-trivial: both types present"""
    from africanus.rime import wsclean_predict
    rng = ctx.rng
    a = mixed(rng, variant)
    ctx.sig(src=len(a[3]), rows=len(a[0]), chan=len(a[8]),
            gauss=int((a[2] == "GAUSSIAN").sum()), log=int(a[5].sum()))
    if len(set(a[2])) == 1:
        ctx.trivial()
    got = ctx.call(wsclean_predict, *a)
    want, tol, n = reference(*a)
    cdt = np.result_type(np.complex64, *(x.dtype for i, x in enumerate(a)
                                         if i not in (2, 5, 7)))
    ctx.ok("result", got.shape == want.shape and got.dtype == cdt,
           got=(got.shape, got.dtype))
    tol = tol * gen.eps(*a[:2], *a[3:]) * (1 + 0.2 * n) + 1e-30
    bad = ~(np.abs(got - want) <= tol)
    ctx.ok("component visibilities", not bad.any(),
           where=np.argwhere(bad)[:3], got=got[bad][:3],
           want=want[bad][:3].astype(complex))


@group("M02", "predict dask", quick=50, thorough=500,
       variants=["f8", "f4", "mix"],
       require=["chunked component visibilities", "metadata",
                "distinct task orders"])
def predict_dask(ctx, variant):
    """the same from chunked components, rows and channels"""
    from africanus.rime.dask import wsclean_predict
    rng = ctx.rng
    a = mixed(rng, variant)
    uvw, lm, typ, flux, coeffs, lp, rf, shp, f = a
    sch, rch, cch = (gen.chunks(rng, len(x), 4) for x in (flux, uvw, f))
    kch = gen.chunks(rng, coeffs.shape[1])
    split = lambda n: (gen.chunks(rng, n) if rng.rand() < 0.3  # noqa: E731
                       else (n,))
    how = gen.choice(rng, dk.SCHEDULES)
    ctx.sig(sch=sch, rch=rch, cch=cch, kch=kch, how=how)
    if len(sch) * len(rch) * len(cch) == 1:
        ctx.trivial()
    lz = ctx.call(wsclean_predict, dk.arr(uvw, (rch, split(3))),
                  dk.arr(lm, (sch, split(2))), dk.arr(typ, (sch,)),
                  dk.arr(flux, (sch,)), dk.arr(coeffs, (sch, kch)),
                  dk.arr(lp, (sch,)), dk.arr(rf, (sch,)),
                  dk.arr(shp, (sch, split(3))), dk.arr(f, (cch,)))
    got = ctx.call(dk.compute, ctx, lz, how)
    dk.honest(ctx, "metadata", lz, got, "visibilities")
    cdt = np.result_type(np.complex64, *(x.dtype for i, x in enumerate(a)
                                         if i not in (2, 5, 7)))
    ctx.ok("result", got.dtype == cdt, got=got.dtype, want=cdt)
    want, tol, n = reference(*a)
    ctx.ok("result", got.shape == want.shape, got=got.shape)
    tol = tol * gen.eps(*a[:2], *a[3:]) * (1 + 0.2 * n) + 1e-30
    bad = ~(np.abs(got - want) <= tol)
    ctx.ok("chunked component visibilities", not bad.any(),
           where=np.argwhere(bad)[:3], got=got[bad][:3],
           want=want[bad][:3].astype(complex))


@group("M02", "types", quick=10, thorough=30, variants=[None],
       require=["unknown source type rejected"])
def types(ctx, variant):
    """a component that is neither a point nor a Gaussian is refused"""
    from africanus.rime import wsclean_predict
    rng = ctx.rng
    a = list(case(rng, "f8"))
    i = int(rng.randint(len(a[2])))
    t = a[2].astype("U12")
    t[i] = gen.choice(rng, ["DISK", "POINTS", "point", "GAUSS"])
    ctx.sig(i=i, t=str(t[i]), n=len(t))
    a[2] = t
    ctx.raises("unknown source type rejected", ValueError, wsclean_predict,
               *a)


@group("M02", "bulk", quick=6, thorough=18,
       variants=["row", "chan", "source", "load"],
       require=["parts of very large inputs"])
def many(ctx, variant):
    """thousands of components, rows or channels: sums and selections as if
    they stood alone; non-trivial: all"""
    from africanus.model.wsclean.file_model import load
    from africanus.rime.wsclean_predict import wsclean_predict
    rng = ctx.rng
    n = bulk.size(ctx)
    mon = "parts of very large inputs"
    if variant == "load":
        n = 1500 + int(rng.randint(1500))
        ctx.sig(n=n)
        num = rng.randint(0, 10**6, n)
        pt = rng.rand(n) < 0.5
        lines = ["Format = Name, Type, Ra, Dec, I, SpectralIndex, "
                 "LogarithmicSI, ReferenceFrequency='1.5e9', MajorAxis, "
                 "MinorAxis, Orientation"]
        for i in range(n):
            lines.append("c%d,%s,00:00:%02d.5,-00.00.%02d.25,%d.5,[0.5,%d],"
                         "%s,,%s" % (
                             i, "POINT" if pt[i] else "GAUSSIAN", i % 60,
                             i % 59, num[i], i, "true" if i % 3 else "false",
                             ",," if pt[i] else "%d,1,2" % (1 + i % 9)))
        cols = dict(ctx.call(load, lines))
        ctx.ok(mon, all(len(v) == n for v in cols.values()),
               got={k: len(v) for k, v in cols.items()})
        ctx.ok(mon, list(cols["Name"]) == ["c%d" % i for i in range(n)])
        ctx.equal(mon, np.asarray(cols["I"], float), num + 0.5)
        ctx.ok(mon, [list(x) for x in cols["SpectralIndex"]] ==
               [[0.5, float(i)] for i in range(n)])
        ctx.ok(mon, [bool(x) for x in cols["LogarithmicSI"]] ==
               [bool(i % 3) for i in range(n)])
        ctx.ok(mon, list(cols["Type"]) == [
            "POINT" if p else "GAUSSIAN" for p in pt])
        ctx.ok(mon, all(float(x) == 1.5e9
                        for x in cols["ReferenceFrequency"]))
        return
    k = dict(row=3, chan=2, source=3)
    k[variant] = n
    s = k["source"]
    uvw = rng.uniform(-300, 300, (k["row"], 3))
    f = rng.uniform(1e9, 2e9, k["chan"])
    lm = rng.uniform(-0.1, 0.1, (s, 2))
    ty = np.where(rng.rand(s) < 0.5, "POINT", "GAUSSIAN")
    flux, rf = rng.uniform(0.5, 2, s), rng.uniform(1e9, 2e9, s)
    co, lo = rng.uniform(0.01, 0.5, (s, 2)), rng.rand(s) < 0.5
    sh = np.stack([rng.uniform(1e-5, 1e-3, s), rng.uniform(1e-5, 1e-3, s),
                   rng.uniform(-3, 3, s)], 1)

    def part(z):
        return (uvw, lm[z], ty[z], flux[z], co[z], lo[z], rf[z], sh[z], f)
    if variant == "source":
        ctx.sig(n=n)
        h = int(rng.randint(1, n))
        a = ctx.call(wsclean_predict, *part(slice(None)))
        b = sum(ctx.call(wsclean_predict, *part(z))
                for z in (slice(None, h), slice(h, n - 30),
                          slice(max(h, n - 30), None)) if lm[z].size)
        ctx.close(mon, a, b, rtol=1e-10, scale="max")
        return
    bulk.parts(ctx, mon, wsclean_predict, lambda z: (
        (uvw[z],) + part(slice(None))[1:] if variant == "row" else
        part(slice(None))[:-1] + (f[z],)), n, int(variant == "chan"), 1e-11)
