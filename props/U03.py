"""Beam cube descriptions: FITS axes, grids and file names."""
import os
import shutil
import string
import tempfile

import numpy as np

from props.U01 import STOKES
from vf.core import group

ASSUMPTIONS = [
    "headers name a reference pixel for every axis; irregular grids are "
    "given for the frequency axis only",
]


def header(rng, astropy):
    """A header, and the expected grids in radians / Hz."""
    names = [["L", "X", "PX", "l", "px"][rng.randint(5)],
             ["M", "Y", "PY", "m", "y"][rng.randint(5)], "FREQ"]
    extra = ["STOKES", None, "BEAM"][:rng.randint(0, 3)]
    order = names + extra
    order = [order[i] for i in rng.permutation(len(order))]
    h = {"SIMPLE": True, "NAXIS": len(order)}
    want = []
    for i, ct in enumerate(order, 1):
        n = int(rng.randint(1, 9))
        h["NAXIS%d" % i] = n
        if ct is not None:
            h["CTYPE%d" % i] = ct + ("  " if rng.rand() < 0.3 else "")
        unit = [None, "DEG", "deg  ", "RAD", "", "Hz"][rng.randint(6)]
        if ct == "FREQ":
            unit = [None, "HZ", "Hz"][rng.randint(3)]
        if unit is not None:
            h["CUNIT%d" % i] = unit
        sc = 1e6 if ct == "FREQ" else 1.0
        crpix = float(rng.randint(-2, n + 3))
        if rng.rand() < 0.3:
            crpix += 0.5
        h["CRPIX%d" % i] = crpix
        val, delta = 0.0, 1.0
        if rng.rand() < 0.8:
            h["CRVAL%d" % i] = val = float(rng.standard_normal() * sc)
        if rng.rand() < 0.8:
            h["CDELT%d" % i] = delta = float(rng.standard_normal() * sc)
        grid = [(p - (crpix - 1)) * delta + val for p in range(n)]
        if (unit or "").strip().upper() == "DEG":
            grid = [g * np.pi / 180 for g in grid]
        irr = rng.randint(3) if ct == "FREQ" else 0
        if irr:
            gf = [float(v) for v in np.sort(rng.uniform(1e9, 2e9, size=n))]
            miss = int(rng.randint(n)) if irr == 2 else -1
            for j, v in enumerate(gf):
                if j != miss:
                    h["GFREQ%d" % (j + 1)] = v
            if irr == 1:
                grid = gf
        want.append(dict(ctype=ct, grid=np.array(grid), unit=unit,
                         n=n, crpix=crpix - 1, irregular=irr == 1))
    if astropy:
        from astropy.io import fits
        fh = fits.Header()
        for k, v in h.items():
            fh[k] = v
        h = fh
    return h, order, want


@group("U03", "grids", quick=400, thorough=8000,
       variants=["dict", "astropy"],
       require=["axes", "grid", "irregular grid", "beam grids", "inverted",
                "missing axis rejected", "inputs unmodified"])
def grids(ctx, variant):
    """random headers: any order of axes, reference pixels, units and
    irregular frequencies; non-trivial: more than one pixel along an axis"""
    from africanus.util.beams import BeamAxes, axis_and_sign, beam_grids
    rng = ctx.rng
    h, order, want = header(rng, variant == "astropy")
    keep = dict(h)
    ctx.sig(order=order, n=[w["n"] for w in want],
            unit=[str(w["unit"]) for w in want])
    if max(w["n"] for w in want) < 2:
        ctx.trivial()
    b = ctx.call(BeamAxes, h)
    ctx.equal("axes", b.ndims, len(order))
    for i, w in enumerate(want):
        ctx.equal("axes", b.naxis[i], w["n"])
        if w["ctype"] is not None:
            ctx.equal("axes", b.ctype[i], w["ctype"])
        ctx.equal("axes", b.crpix[i], w["crpix"])
        u = (w["unit"] or "").strip().upper()
        ctx.equal("axes", b.cunit[i], "RAD" if u == "DEG" else u)
        ctx.close("grid", b.grid[i], w["grid"], rtol=1e-12,
                  atol=1e-12 * max(1.0, np.abs(w["grid"]).max()))
        if w["irregular"]:
            ctx.equal("irregular grid", b.grid[i], w["grid"])
        else:
            at = b.crval[i] + (np.arange(w["n"]) - b.crpix[i]) * b.cdelt[i]
            ctx.close("grid", b.grid[i], at, rtol=1e-12,
                      atol=1e-12 * max(1.0, np.abs(at).max()))
    la = [None, "L", "-L", "X", "-X"][rng.randint(5)]
    ma = [None, "M", "-M", "Y", "-Y"][rng.randint(5)]
    args = (la, ma) if (la or ma) or rng.rand() < 0.5 else ()
    (l, lg), (m, mg), (f, fg) = ctx.call(beam_grids, h, *args)
    up = [str(o).upper() for o in order]
    for got, g, kinds, ax in ((l, lg, ("L", "X", "PX"), la),
                              (m, mg, ("M", "Y", "PY"), ma),
                              (f, fg, ("FREQ",), None)):
        i = [j for j, o in enumerate(up) if o in kinds][0]
        ctx.equal("beam grids", got, i + 1)
        s = -1.0 if ax and ax[0] == "-" else 1.0
        if s < 0:
            ctx.count("inverted")
        w = want[i]["grid"] * s
        ctx.close("beam grids", g, w, rtol=1e-12,
                  atol=1e-12 * max(1.0, np.abs(w).max()))
    ctx.ok("inputs unmodified", dict(h) == keep, "header changed")
    gone = rng.randint(3)
    kinds = [("L", "X", "PX"), ("M", "Y", "PY"), ("FREQ",)][gone]
    i = [j for j, o in enumerate(up) if o in kinds][0]
    h["CTYPE%d" % (i + 1)] = "OTHER"
    ctx.raises("missing axis rejected", ValueError, beam_grids, h)
    for s, d in ((la, "L"), (ma, "M")):
        ctx.equal("axes", axis_and_sign(s, d)[0], s.lstrip("-") if s else d)
    ctx.raises("missing axis rejected", ValueError, axis_and_sign, None)
    ctx.raises("missing axis rejected", TypeError, axis_and_sign, 3)


NAMES = ("RR RL LR LL XX XY YX YY").split()
ALL = STOKES[1:]
IDS = {n: i for i, n in enumerate(STOKES)}


@group("U03", "file names", quick=400, thorough=8000,
       require=["pairs", "order", "bad schema rejected",
                "unknown correlation rejected"])
def filenames(ctx, variant):
    """random schemas and correlations; non-trivial: several
    correlations"""
    from africanus.util.beams import beam_filenames
    rng = ctx.rng
    letters = string.ascii_letters + string.digits + "_-./{} "

    def junk():
        return "".join(letters[i] for i in rng.randint(
            len(letters), size=rng.randint(0, 8)))
    cv, rv = [["corr", "CORR"][rng.randint(2)], ["reim", "REIM"][
        rng.randint(2)]]
    bits = [junk(), "$(%s)" % cv, "_" + junk(), "$(%s)" % rv, "." + junk()]
    if rng.rand() < 0.2:
        bits = [bits[0], bits[3], bits[2], bits[1], bits[4]]
    if rng.rand() < 0.2:
        bits.insert(2, "$$")
    schema = "".join(bits)
    if rng.rand() < 0.7:
        pick = [NAMES[i] for i in rng.permutation(8)[:rng.randint(1, 9)]]
    else:
        pick = [ALL[i] for i in rng.permutation(len(ALL))[:rng.randint(1, 9)]]
    ctx.sig(schema=schema, corr=pick)
    if len(pick) < 2:
        ctx.trivial()
    got = ctx.call(beam_filenames, schema, [IDS[p] for p in pick])
    ctx.equal("order", list(got), [p.lower() for p in pick])
    for p in pick:
        pair = []
        for ri in ("re", "im"):
            c = p.lower() if cv == "corr" else p.upper()
            r = ri if rv == "reim" else ri.upper()
            out = ""
            for b in bits:
                out += {"$(%s)" % cv: c, "$(%s)" % rv: r, "$$": "$"}.get(b, b)
            pair.append(out)
        ctx.equal("pairs", list(got[p.lower()]), pair)
    ctx.raises("bad schema rejected", ValueError, beam_filenames,
               schema + "$(nope)", [9])
    bad = ["$(corr", "$(", "$ ", "$(1)", "$()", "$)", "$(Corr)_x", "$(cor)",
           "${corr}", "$-", "$nope"][rng.randint(11)]
    ctx.raises("bad schema rejected", ValueError, beam_filenames,
               [schema + bad, bad + "_" + schema][rng.randint(2)], [9])
    ctx.raises("unknown correlation rejected", ValueError, beam_filenames,
               schema, [int(rng.choice([99, -1, 33]))])


@group("U03", "written beams", quick=12, thorough=100,
       require=["files", "consistent header", "beam pattern"])
def written(ctx, variant):
    """beams written to disk and read back; non-trivial: all"""
    from astropy.io import fits
    from africanus.testing.beam_factory import beam_factory
    from africanus.util.beams import beam_filenames, beam_grids
    rng = ctx.rng
    npix = int(rng.choice([3, 5, 9, 17]))
    f0 = rng.uniform(.5e9, 1e9)
    freq = np.linspace(f0, f0 * rng.uniform(1.1, 2), rng.randint(2, 9))
    pol = ["linear", "circular"][rng.randint(2)]
    d = tempfile.mkdtemp(prefix="vf-u03-")
    try:
        schema = os.path.join(d, "b_$(corr)_$(REIM).fits")
        kw = {} if rng.rand() < 0.3 else dict(frequency=freq)
        if not kw:
            freq = np.linspace(.856e9, .856e9 * 2, 64)
        kf = freq.copy()
        np.random.seed(int(rng.randint(2**31)))
        got = ctx.call(beam_factory, polarisation_type=pol, npix=npix,
                       schema=schema, **kw)
        ctx.sig(npix=npix, pol=pol, nfreq=len(freq))
        ids = [9, 10, 11, 12] if pol == "linear" else [5, 6, 7, 8]
        want = beam_filenames(schema, ids)
        ctx.ok("files", dict(got) == dict(want), "names")
        names = [f for p in got.values() for f in p]
        ctx.ok("files", sorted(os.path.join(d, f) for f in os.listdir(d))
               == sorted(names), "written files")
        for f in names:
            with fits.open(f) as hl:
                h, data = hl[0].header, hl[0].data
            (l, lg), (m, mg), (q, fg) = ctx.call(beam_grids, h)
            ctx.equal("consistent header", (l, m, q), (1, 2, 3))
            ctx.equal("consistent header", data.shape,
                      (len(fg), len(mg), len(lg)))
            e = np.deg2rad(1.5)
            for g in (lg, mg):
                ctx.close("consistent header", g,
                          np.linspace(-e, e, npix), rtol=1e-9, atol=1e-12)
            ctx.ok("consistent header", np.all(np.diff(fg) > 0),
                   "frequencies not increasing")
            ctx.close("consistent header", fg[[0, -1]], freq[[0, -1]],
                      rtol=1e-12)
            r = np.sqrt(lg[None, None, :]**2 + mg[None, :, None]**2)
            w = np.cos(np.minimum(65 * fg[:, None, None] * 1e-9 * r,
                                  1.0881))**3
            ctx.close("beam pattern", data, w, rtol=1e-8, atol=1e-10)
        ctx.equal("consistent header", freq, kf)
        ctx.raises("files", ValueError, beam_factory, polarisation_type="no",
                   npix=npix, schema=schema)
        ctx.raises("files", ValueError, beam_factory, npix=npix + 1,
                   schema=schema)
    finally:
        shutil.rmtree(d, ignore_errors=True)
