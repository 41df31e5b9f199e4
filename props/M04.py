"""Conversion between Stokes parameters and correlations."""
import numpy as np

from vf import dk, gen
from vf.core import group

ASSUMPTIONS = [
    "the reference is the linear map the documentation defines (casacore "
    "Stokes numbering); inputs hold one polarisation basis",
]

IDS = {n: i for i, n in enumerate(
    "Undefined I Q U V RR RL LR LL XX XY YX YY".split())}
LIN, CIRC, STOKES = (["XX", "XY", "YX", "YY"], ["RR", "RL", "LR", "LL"],
                     list("IQUV"))
# rows: correlation as a combination of I, Q, U, V
TO = {"XX": (1, 1, 0, 0), "XY": (0, 0, 1, 1j), "YX": (0, 0, 1, -1j),
      "YY": (1, -1, 0, 0), "RR": (1, 0, 0, 1), "RL": (0, 1, 1j, 0),
      "LR": (0, 1, -1j, 0), "LL": (1, 0, 0, -1)}
NEED = {c: [s for s, k in zip(STOKES, v) if k] for c, v in TO.items()}
FROM = {"lin": {"I": ("XX", "YY"), "Q": ("XX", "YY"), "U": ("XY", "YX"),
                "V": ("XY", "YX")},
        "circ": {"I": ("RR", "LL"), "Q": ("RL", "LR"), "U": ("RL", "LR"),
                 "V": ("RR", "LL")}}


def nest(rng, names):
    """A schema of the names: flat or nested, strings or CASA numbers,
    lists or tuples."""
    num = rng.rand() < 0.4
    v = [IDS[n] if num and rng.rand() < 0.8 else n for n in names]
    if num and rng.rand() < 0.3:
        v = [np.int32(x) if isinstance(x, int) else x for x in v]
    if len(v) == 1 and rng.rand() < 0.3:
        return v[0], (1,)
    if len(v) == 4 and rng.rand() < 0.5:
        s = [v[:2], v[2:]]
        if rng.rand() < 0.3:
            s = tuple(tuple(x) for x in s)
        return s, (2, 2)
    if len(v) in (2, 4) and rng.rand() < 0.15:
        return [[x] for x in v], (len(v), 1)
    return (tuple(v) if rng.rand() < 0.3 else v), (len(v),)


def combine(kind, data, names, out):
    """Reference value of the output `out`, and the sum of magnitudes."""
    get = lambda n: data[..., names.index(n)]       # noqa: E731
    if kind == "stokes":
        v = sum(k * get(s).astype(np.complex128)
                for s, k in zip(STOKES, TO[out]) if k)
        m = sum(np.abs(get(s)) for s, k in zip(STOKES, TO[out]) if k)
        return v, m
    a, b = (get(n).astype(np.complex128) for n in FROM[kind][out])
    # invert the two rows
    ra, rb = (np.array(TO[n]) for n in FROM[kind][out])
    i = STOKES.index(out)
    sgn = rb[i] / ra[i]
    v = ((a + sgn * b) / (2 * ra[i])).real
    return v, np.abs(a) + np.abs(b)


def pick(rng, kind):
    if kind == "stokes":
        names = [s for s in STOKES if rng.rand() < 0.85] or ["I", "Q"]
        poss = [c for c in LIN + CIRC if all(s in names for s in NEED[c])]
    else:
        full = LIN if kind == "lin" else CIRC
        names = [c for c in full if rng.rand() < 0.85] or full
        poss = [s for s in STOKES
                if all(c in names for c in FROM[kind][s])]
    if not poss:
        return pick(rng, kind)
    names = list(names)
    if rng.rand() < 0.4:
        rng.shuffle(names)
    k = len(poss) if rng.rand() < 0.5 else int(rng.randint(1, len(poss) + 1))
    if rng.rand() < 0.4:
        k = min(k, 4)
    out = [poss[i] for i in rng.permutation(len(poss))[:k]]
    return names, out


KINDS = [(k, d) for k, ds in (("stokes", ("f8", "f4", "c16")),
                              ("lin", ("c16", "c8", "f8")),
                              ("circ", ("c16", "c8"))) for d in ds]


@group("M04", "values", quick=200, thorough=4000, variants=KINDS,
       require=["converted value", "chunked conversion", "metadata",
                "distinct task orders"])
def values(ctx, variant):
    """random sets, orders and nestings of inputs and outputs, by name and
    CASA number, any leading shape; numpy and chunked (correlations too)"""
    from africanus.model.coherency import convert
    from africanus.model.coherency.dask import convert as dask_convert
    rng = ctx.rng
    kind, dt = variant
    names, out = pick(rng, kind)
    ischema, ishape = nest(rng, names)
    oschema, oshape = nest(rng, out)
    lead = tuple(gen.size(rng, 4, 10) for _ in range(rng.randint(0, 4)))
    if rng.rand() < 0.01:
        lead = (int(rng.randint(1000, 40000)),) + lead[:rng.randint(2)]
    flat = (gen.cplx if dt[0] == "c" else gen.real)(
        rng, lead + (len(names),), dt)
    flat = gen.wild(rng, flat)
    if rng.rand() < 0.1:
        flat[...] = 0
    ctx.sig(inp=str(ischema), out=str(oschema), lead=lead)
    if len(out) == 1:
        ctx.trivial()
    data = flat.reshape(lead + ishape)
    if rng.rand() < 0.2:
        data = gen.layout(rng, data)
    got = ctx.call(convert, data, ischema, oschema)
    ctx.ok("result shape", got.shape == lead + oshape, got=got.shape,
           want=lead + oshape)
    ctx.ok("result kind", got.dtype.kind == (
        "c" if kind == "stokes" else "f"), got=got.dtype)
    ctx.ok("result precision", gen.eps(got) <= gen.eps(data), got=got.dtype)
    g = got.reshape(lead + (len(out),))
    eps = gen.eps(data)
    for i, o in enumerate(out):
        v, m = combine(kind, flat, names, o)
        bad = ~(np.abs(g[..., i] - v) <= 4 * eps * m)
        ctx.ok("converted value", not bad.any(), o,
               where=np.argwhere(bad)[:3], got=g[..., i][bad][:2],
               want=v[bad][:2])
    if lead and ctx.case % 4 == 0:
        lch = tuple(gen.chunks(rng, n, 3) for n in lead)
        cch = tuple(gen.chunks(rng, n) if rng.rand() < 0.3 else (n,)
                    for n in ishape)
        lz = ctx.call(dask_convert, dk.arr(np.ascontiguousarray(data),
                                           lch + cch), ischema, oschema)
        d = ctx.call(dk.compute, ctx, lz, gen.choice(rng, dk.SCHEDULES))
        dk.honest(ctx, "metadata", lz, d, "conversion")
        ctx.equal("chunked conversion", d, got, "conversion")


@group("M04", "mixed", quick=150, thorough=2500,
       variants=["c16", "c8", "f8"],
       require=["converted value", "chunked conversion"])
def mixed(ctx, variant):
    """inputs that hold Stokes parameters and correlations of one basis side
    by side, outputs of either kind in any order: each output from its own
    inputs, none losing its imaginary part to its neighbours"""
    from africanus.model.coherency import convert
    from africanus.model.coherency.dask import convert as dask_convert
    rng = ctx.rng
    kind = gen.choice(rng, ["lin", "circ"])
    full = LIN if kind == "lin" else CIRC
    names = STOKES + full
    if rng.rand() < 0.5:
        names = [n for n in names if rng.rand() < 0.9]
    names = [names[i] for i in rng.permutation(len(names))]
    poss = [(c, "stokes") for c in LIN + CIRC
            if all(s in names for s in NEED[c])]
    poss += [(s, kind) for s in STOKES
             if all(c in names for c in FROM[kind][s])]
    if not poss:
        ctx.trivial()
        return
    k = int(rng.randint(1, len(poss) + 1))
    out = [poss[i] for i in rng.permutation(len(poss))[:k]]
    ischema, ishape = nest(rng, names)
    oschema, oshape = nest(rng, [o for o, _ in out])
    lead = tuple(gen.size(rng, 4, 10) for _ in range(rng.randint(0, 3)))
    flat = (gen.cplx if variant[0] == "c" else gen.real)(
        rng, lead + (len(names),), variant)
    ctx.sig(inp=str(ischema), out=str(oschema), lead=lead)
    if len({k for _, k in out}) == 1:
        ctx.trivial()
    data = flat.reshape(lead + ishape)
    got = ctx.call(convert, data, ischema, oschema)
    ctx.ok("result shape", got.shape == lead + oshape, got=got.shape,
           want=lead + oshape)
    g = got.reshape(lead + (len(out),))
    eps = gen.eps(data)
    for i, (o, kd) in enumerate(out):
        v, m = combine(kd, flat, names, o)
        bad = ~(np.abs(g[..., i] - v) <= 4 * eps * m)
        ctx.ok("converted value", not bad.any(), o,
               where=np.argwhere(bad)[:3], got=g[..., i][bad][:2],
               want=v[bad][:2])
    if lead and ctx.case % 4 == 0:
        lz = ctx.call(dask_convert, dk.arr(data, tuple(
            gen.chunks(rng, n, 3) for n in lead) + tuple(
                (n,) for n in ishape)), ischema, oschema)
        d = ctx.call(dk.compute, ctx, lz, gen.choice(rng, dk.SCHEDULES))
        dk.honest(ctx, "metadata", lz, d, "conversion")
        ctx.equal("chunked conversion", d, got, "conversion")


@group("M04", "round trip", quick=150, thorough=2000,
       variants=["lin", "circ"],
       require=["stokes survive", "hermitian brightness"])
def roundtrip(ctx, variant):
    """Stokes -> correlations -> Stokes is the identity, the brightness
    matrix of real Stokes parameters is Hermitian"""
    from africanus.model.coherency import convert
    rng = ctx.rng
    full = LIN if variant == "lin" else CIRC
    dt = gen.choice(rng, ["f8", "f4"])
    lead = tuple(gen.size(rng, 4, 10) for _ in range(rng.randint(1, 3)))
    s = gen.real(rng, lead + (4,), dt) * np.dtype(dt).type(
        10**rng.uniform(-12, 12) if rng.rand() < 0.3 else 1)
    schema = [full[:2], full[2:]]
    ctx.sig(lead=lead, dt=dt, v=float(s.ravel()[0]))
    c = ctx.call(convert, s, STOKES, schema)
    ctx.equal("hermitian brightness", np.conj(np.swapaxes(c, -1, -2)), c,
              "brightness")
    b = ctx.call(convert, c, schema, STOKES)
    m = np.abs(s).max() if s.size else 0
    ctx.close("stokes survive", b, s, rtol=0, atol=4 * gen.eps(s) * m)


@group("M04", "rejects", quick=60, thorough=600, variants=[None],
       require=["impossible conversion rejected"])
def rejects(ctx, variant):
    """schemas that cannot be served are refused: missing inputs, wrong
    shapes, repeated or unknown names, ragged nestings"""
    from africanus.model.coherency import convert
    from africanus.model.coherency.conversion import (
        DimensionMismatch, MissingConversionInputs)
    rng = ctx.rng
    x4 = gen.cplx(rng, (3, 4))
    mode = int(rng.randint(10))
    ctx.sig(mode=mode, x=complex(x4[0, 0]).real)
    t = "impossible conversion rejected"
    if mode == 0:
        miss = gen.choice(rng, [(["XX", "XY"], ["I"]), (["RR", "RL"], ["Q"]),
                                (["I", "Q"], ["XY"]), (["XX", "LL"], ["I"]),
                                (["I", "U"], ["XX"])])
        ctx.raises(t, MissingConversionInputs, convert, x4[:, :2], *miss)
    elif mode == 1:
        ctx.raises(t, ValueError, convert, x4, ["XX", "XY", "YY"], ["I"])
    elif mode == 2:
        ctx.raises(t, ValueError, convert, x4, ["XX", "XX", "YX", "YY"],
                   ["I"])
    elif mode == 3:
        ctx.raises(t, ValueError, convert, x4, [9, 10, 11, 99], ["I"])
    elif mode == 4:
        ctx.raises(t, DimensionMismatch, convert, x4,
                   [["XX", "XY"], ["YX"]], ["I"])
    elif mode == 5:
        ctx.raises(t, TypeError, convert, x4, ["XX", "XY", "YX", 1.5], ["I"])
    elif mode == 7:
        ctx.raises(t, ValueError, convert, x4, gen.choice(rng, [
            [9, 9, 11, 12], ["XX", 9, 11, 12], [9, "XX", "YX", "YY"],
            [[9, 10], [11, 9]]]), ["I"])
    elif mode == 8:
        ctx.raises(t, ValueError, convert, gen.cplx(rng, gen.choice(
            rng, [(3, 2), (3, 1, 2), (4, 2), (2, 2, 1), (2, 4)])),
            [["XX", "XY"], ["YX", "YY"]], ["I"])
    elif mode == 9:
        ctx.raises(t, ValueError, convert, x4, LIN, gen.choice(
            rng, [["I", "I"], [1, 1], ["I", 1], [["I", "Q"], ["U", "Q"]]]))
    else:
        ctx.raises(t, ValueError, convert, x4, LIN, ["Z"])
