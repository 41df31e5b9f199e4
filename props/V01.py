"""The CUDA and JAX variants, on an emulated device."""
import types
import sys

import numpy as np

from vf import fake_cupy as fc, gen
from vf.core import Skip, Violation, group
from props import M04, R01, R03, R04

ASSUMPTIONS = [
    "the real templates and host code run against an emulated device "
    "(vf/cuda_emu.h): threads of a block run in random order between the "
    "points where CUDA orders them, shared memory and fresh arrays hold "
    "garbage, arrays end at guard pages, UBSan is compiled in; neither "
    "nvcc nor a GPU is available here",
    "arrays are contiguous and all terms of a prediction have the same "
    "precision, as the templates require",
    "jax.numpy is stood in for by numpy",
]


def device(ctx):
    if "cupy" not in sys.modules:
        fc.install()
    fc.SEED[0] = int(ctx.rng.randint(1, 2**31))
    ctx.store["stats"] = dict(fc.STATS)


def observed(ctx):
    old = ctx.store["stats"]
    for k, v in fc.STATS.items():
        ctx.count("device " + k, v - old[k])


def launch(ctx, fn, *args):
    """A call on the device: inputs are write protected there."""
    keep = [(a, a.flags.writeable) for a in args if isinstance(a, np.ndarray)]
    for a, _ in keep:
        a.flags.writeable = False
    try:
        r = fn(*args)
    except (fc.EmulatorError, fc.CompileException) as e:
        raise Violation("device", "%s: %s" % (type(e).__name__, e))
    except (Violation, Skip):
        raise
    except Exception as e:
        raise Violation("no-exception", "%s: %s" % (type(e).__name__, e))
    finally:
        for a, w in keep:
            a.flags.writeable = w
    observed(ctx)
    ctx.count("device runs")
    return r


@group("V01", "phase delay", quick=12, thorough=200,
       variants=["f8 f8 f8", "f4 f4 f4", "f8 f4 f8", "f4 f8 f8", "f8 f8 f4"],
       require=["device K term", "device syncs"])
def phase(ctx, variant):
    """phase delays for one to several blocks of rows and channels"""
    device(ctx)
    from africanus.rime.cuda.phase import phase_delay
    rng = ctx.rng
    dl, du, df = R03.phase_dtypes(variant)
    ns = gen.size(rng, 4, 10)
    nr, nc = int(rng.randint(1, 80)), int(rng.randint(1, 80))
    if rng.rand() < 0.3:
        nr, nc = gen.choice(rng, [(32, 32), (16, 33), (1, 1), (33, 16)])
    lm, uvw = R03.sky(rng, ns, dl), R03.coords(rng, nr, du)
    fr = R03.freqs(rng, nc, df)
    ctx.sig(src=ns, row=nr, chan=nc, u=float(uvw[-1, 0]))
    got = launch(ctx, phase_delay, lm, uvw, fr)
    p, e = R03.phases(lm, uvw, fr)
    eps = gen.eps(lm, uvw, fr)
    ctx.ok("device result shape", got.shape == p.shape, got=got.shape)
    ctx.ok("device result dtype", got.dtype == np.result_type(
        dl, du, df, np.complex64), got=got.dtype)
    bad = ~(np.abs(got - R03.expi(p)) <= 12 * eps * (e + 1))
    ctx.ok("device K term", not bad.any(), where=np.argwhere(bad)[:3],
           got=got[bad][:2], want=R03.expi(p)[bad][:2])


@group("V01", "feed rotation", quick=12, thorough=200,
       variants=["linear f8", "linear f4", "circular f8", "circular f4"],
       require=["device feed matrix"])
def feeds(ctx, variant):
    """parallactic angles of any shape, up to several blocks"""
    device(ctx)
    from africanus.rime.cuda.feeds import feed_rotation
    rng = ctx.rng
    kind, dt = variant.split()
    sh = tuple(int(rng.randint(1, 40)) for _ in range(rng.randint(1, 3)))
    if rng.rand() < 0.3:
        sh = (int(gen.choice(rng, [1, 511, 512, 513, 1024, 1025, 2100])),)
    pa = rng.uniform(-7, 7, sh).astype(dt)
    ctx.sig(shape=sh, a=float(pa.ravel()[0]))
    got = launch(ctx, feed_rotation, pa, kind)
    c, s = np.cos(pa.astype("f8")), np.sin(pa.astype("f8"))
    z = np.zeros_like(c)
    want = (np.stack([c, s, -s, c], -1) if kind == "linear" else
            np.stack([c - 1j * s, z, z, c + 1j * s], -1)).reshape(
                sh + (2, 2))
    ctx.ok("device result dtype", got.dtype == np.result_type(
        dt, np.complex64), got=got.dtype)
    ctx.close("device feed matrix", got, want, rtol=0,
              atol=8 * gen.eps(pa))


PRED = [(c, corr, dt) for c, corr, dt in (
    ((1, 1, 1, 1), (2, 2), "c16"), ((1, 1, 1, 1), (2, 2), "c8"),
    ((1, 1, 1, 1), (2,), "c16"), ((1, 1, 1, 1), (1,), "c8"),
    ((1, 0, 0, 0), (2, 2), "c8"), ((0, 1, 1, 0), (2, 2), "c16"),
    ((0, 1, 0, 0), (2,), "c16"), ((0, 0, 1, 1), (2, 2), "c8"),
    ((1, 0, 1, 1), (1,), "c16"), ((1, 1, 0, 1), (4,), "c16"),
    ((0, 1, 0, 1), (2, 2), "c8"), ((1, 0, 1, 0), (2,), "c8"))]
PRED_ALL = PRED + [
    (c, corr, "c16") for c in R01.COMBOS for corr in ((2, 2), (2,), (1,))
    if c != (0, 0, 0, 1) and (c, corr, "c16") not in PRED]


@group("V01", "predict", quick=10, thorough=60,
       variants={"quick": PRED, "thorough": PRED_ALL},
       require=["device visibilities", "device warp_ops"])
def predict(ctx, variant):
    """predicted visibilities, every combination of terms, one to several
    blocks of rows and channels"""
    device(ctx)
    from africanus.rime.cuda.predict import predict_vis
    rng = ctx.rng
    c, corr, dt = variant
    four = corr == (4,)
    full = int(corr in ((2, 2), (4,)))
    ns, nt, na, nc = R01.sizes(rng)
    if rng.rand() < 0.3:
        nc = int(rng.randint(8, 40))
    nr = int(rng.randint(1, 70)) if rng.rand() < 0.5 else gen.size(rng, 8, 40)
    ti, a1, a2 = R01.rows(rng, nt, na, nr)
    ti, a1, a2 = (x.astype(np.int32) for x in (ti, a1, a2))

    def make(shape):
        return gen.cplx(rng, shape + ((2, 2) if full else corr), dt)
    a = dict(dde1=None, coh=None, dde2=None, die1=None, base=None, die2=None)
    if c[0]:
        a["dde1"], a["dde2"] = make((ns, nt, na, nc)), make((ns, nt, na, nc))
    if c[1]:
        a["coh"] = make((ns, nr, nc))
    if c[2]:
        a["die1"], a["die2"] = make((nt, na, nc)), make((nt, na, nc))
    if c[3]:
        a["base"] = make((nr, nc))
    ctx.sig(src=ns, time=nt, ant=na, row=nr, chan=nc, t0=int(ti[0]))
    args = [a[k] for k in ("dde1", "coh", "dde2", "die1", "base", "die2")]
    want, mag = R01.model(full, ti, a1, a2, *args, shape=(nr, nc) + (
        (2, 2) if full else corr))
    if four:        # four correlations on one axis are a flattened matrix
        args = [x if x is None else x.reshape(x.shape[:-2] + (4,))
                for x in args]
        want, mag = (x.reshape(nr, nc, 4) for x in (want, mag))
    got = launch(ctx, predict_vis, ti, a1, a2, *args)
    ctx.ok("device result shape", got.shape == want.shape, got=got.shape)
    ctx.ok("device result dtype", got.dtype == np.dtype(dt), got=got.dtype)
    bad = ~(np.abs(got - want) <= 40 * (ns + 3) * gen.eps(got) * mag)
    ctx.ok("device visibilities", not bad.any(), where=np.argwhere(bad)[:3],
           got=got[bad][:2], want=want[bad][:2])


@group("V01", "beam", quick=10, thorough=100,
       variants=["2,2 c16 f8", "2,2 c8 f4", "1 c16 f8", "2 c8 f4",
                 "2,2 c16 f4"],
       require=["device beam value", "device syncs"])
def beam(ctx, variant):
    """beam cubes as in R04; few and very many channels"""
    device(ctx)
    from africanus.rime.cuda.beam import beam_cube_dde
    rng = ctx.rng
    corrs, cdt, dt = R04.parse(variant)
    a = R04.case(rng, corrs, cdt, dt)
    many = rng.rand() < 0.15
    if many:        # more channels than a block of the frequency kernel
        nc = int(rng.randint(1020, 1300))
        b, ext, bf, lm, pa, pe, asc, fr = a
        fr = rng.uniform(0.5e9, 2.6e9, nc).astype(dt)
        lm, pa = lm[:1], pa[:1, :1].copy()
        pe = np.zeros((1, 1, nc, 2), dt)
        asc = np.ones((1, nc, 2), dt)
        a = [b, ext, bf, lm, pa, pe, asc, fr]
    b, ext, bf, lm, pa, pe, asc, fr = a
    ctx.sig(beam=b.shape, src=len(lm), pa=pa.shape, chan=len(fr))
    got = launch(ctx, beam_cube_dde, *a)
    ctx.ok("device result shape", got.shape == (
        len(lm),) + pa.shape + (len(fr),) + corrs, got=got.shape)
    ctx.ok("device result dtype", got.dtype == b.dtype, got=got.dtype)
    if many:
        sel = np.unique(np.concatenate([
            rng.randint(0, len(fr), 40), [0, 1023, len(fr) - 1]]))
        sel = sel[sel < len(fr)]
        a[5], a[6], a[7] = pe[:, :, sel], asc[:, sel], fr[sel]
        got = got[:, :, :, sel]
        ctx.count("channels beyond a block", (sel >= 1024).sum())
    want, tol = R04.reference(*a, eps=gen.eps(*a))
    bad = ~(np.abs(got - want) <= 2 * tol)
    ctx.ok("device beam value", not bad.any(), where=np.argwhere(bad)[:3],
           got=got[bad][:2], want=want[bad][:2])


@group("V01", "conversion", quick=12, thorough=120,
       variants=[(k, d) for k, d in M04.KINDS
                 if (k == "stokes") == (d[0] == "f")],
       require=["device converted value", "device warp_ops"])
def conversion(ctx, variant):
    """Stokes parameters and correlations, one, two or four elements, nested
    or flat, any number of sources"""
    device(ctx)
    from africanus.model.coherency.cuda.conversion import convert
    kind, dt = variant
    pool = np.random.RandomState((ctx.case % 4) + 17 * ctx.seed)
    for _ in range(1000):
        names, out = M04.pick(pool, kind)
        if len(names) == len(out) and len(out) in (1, 2, 4):
            break
    else:
        raise Skip()
    ischema, ishape = M04.nest(pool, names)
    oschema, oshape = M04.nest(pool, out)
    rng = ctx.rng
    lead = tuple(int(rng.randint(1, 40)) for _ in range(rng.randint(1, 3)))
    if rng.rand() < 0.3:
        lead = (int(gen.choice(rng, [1, 2, 3, 5, 511, 512, 513, 1026])),)
    flat = (gen.cplx if dt[0] == "c" else gen.real)(
        rng, lead + (len(names),), dt)
    ctx.sig(inp=str(ischema), out=str(oschema), lead=lead)
    got = launch(ctx, convert, flat.reshape(lead + ishape), ischema, oschema)
    ctx.ok("device result shape", got.shape == lead + oshape, got=got.shape)
    g = got.reshape(lead + (len(out),))
    eps = gen.eps(flat)
    for i, o in enumerate(out):
        v, m = M04.combine(kind, flat, names, o)
        bad = ~(np.abs(g[..., i] - v) <= 4 * eps * m)
        ctx.ok("device converted value", not bad.any(), o,
               where=np.argwhere(bad)[:3], got=g[..., i][bad][:2],
               want=v[bad][:2])


SEQUENCE = {
    "feeds": (feeds, ["linear f8", "circular f8", "linear f4",
                      "circular f4"]),
    "phase": (phase, ["f8 f8 f8", "f4 f4 f4", "f8 f4 f8"]),
    "predict": (predict, PRED),
    "beam": (beam, ["2,2 c16 f8", "1 c16 f8", "2 c16 f8", "2 c8 f4",
                    "2,2 c16 f4"]),
    "conversion": (conversion, [("lin", "c16"), ("circ", "c16"),
                                ("lin", "c8"), ("circ", "c8")]),
}


@group("V01", "one after another", quick=3, thorough=20,
       variants=sorted(SEQUENCE), require=["calls in a sequence"])
def sequence(ctx, variant):
    """calls with other types, shapes and options one after another: what
    was generated for one is not used for another"""
    fn, kinds = SEQUENCE[variant]
    for i in ctx.rng.permutation(len(kinds))[:4]:
        fn(ctx, kinds[i])
        ctx.count("calls in a sequence")


@group("V01", "beam refused", quick=4, thorough=40, variants=["c16", "c8"],
       require=["small beam refused"])
def refused(ctx, variant):
    """cubes that cannot be interpolated, before and after ones that can"""
    device(ctx)
    from africanus.rime.cuda.beam import beam_cube_dde
    rng = ctx.rng
    dt = "f8" if variant == "c16" else "f4"
    for turn in range(2):
        a = list(R04.case(rng, (2, 2), np.dtype(variant), np.dtype(dt)))
        d = int(rng.randint(3))
        b = np.ascontiguousarray(np.take(a[0], [0], axis=d))
        bf = a[2][:1].copy() if d == 2 else a[2]
        ctx.sig(turn=turn, axis=d)
        ctx.raises("small beam refused", ValueError, beam_cube_dde, b,
                   a[1], bf, *a[3:])
        if turn == 0:
            launch(ctx, beam_cube_dde, *a)


TRANSPOSE = """#include <cupy/carray.cuh>
{%- from "rime/cuda/macros.j2" import warp_transpose %}
extern "C" __global__ void kernel(const CArray<{{type}}, 2> input,
                                  CArray<{{type}}, 2> output)
{
    int n = {{n}} * ((input.shape()[0] + {{n}} - 1) / {{n}});
    int v = blockIdx.x*blockDim.x + threadIdx.x;
    if(v >= n) { return; }
    {{type}} values[{{n}}];
    for(int i = 0; i < {{n}}; ++i)
        if(v < input.shape()[0]) values[i] = input[v*{{n}} + i];
    {{ warp_transpose("values", type, n) }}
    for(int i = 0; i < {{n}}; ++i)
        if(v < input.shape()[0]) output[v*{{n}} + i] = values[i];
}
"""


@group("V01", "warp transpose", quick=6, thorough=60,
       variants=[(1, "float"), (2, "int"), (4, "double2"), (8, "float"),
                 (4, "float2"), (16, "double")],
       require=["transposed"])
def transpose(ctx, variant):
    """the warp transpose macro swaps registers and lanes"""
    device(ctx)
    from africanus.util.jinja2 import jinja_env
    rng = ctx.rng
    n, t = variant
    dt = {"float": "f4", "double": "f8", "int": "i4", "float2": "c8",
          "double2": "c16"}[t]
    rows = n * int(rng.randint(1, 80))
    x = np.arange(rows * n).astype(dt).reshape(rows, n)
    if dt[0] == "c":
        x = x + (1j * x[::-1]).astype(dt)
    ctx.sig(rows=rows, n=n, t=t)
    key = ("kernel", variant)
    if key not in ctx.store:
        code = jinja_env.from_string(TRANSPOSE).render(type=t, n=n)
        ctx.store[key] = fc.RawKernel(code.encode(), "kernel")
    out = fc.empty(x.shape, x.dtype)

    def run(x):
        ctx.store[key](((rows + 255) // 256, 1, 1), (256, 1, 1), (x, out))
        return out
    got = launch(ctx, run, x)
    want = np.swapaxes(x.reshape(-1, n, n), 1, 2).reshape(rows, n)
    ctx.equal("transposed", got, want)


@group("V01", "jax phase delay", quick=40, thorough=800,
       variants=["f8", "f4"], require=["jax K term"])
def jax_phase(ctx, variant):
    """the JAX phase delay, with numpy standing in for jax.numpy"""
    if "jax" not in sys.modules:
        jax, jnp = types.ModuleType("jax"), types.ModuleType("jax.numpy")
        jnp.__dict__.update({k: v for k, v in np.__dict__.items()
                             if not k.startswith("__")})
        jax.__path__ = []
        jax.numpy = jnp
        sys.modules.update({"jax": jax, "jax.numpy": jnp})
    from africanus.rime.jax.phase import phase_delay
    rng = ctx.rng
    ns, nr, nc = (gen.size(rng, 6, 20) for _ in range(3))
    lm, uvw = R03.sky(rng, ns, variant), R03.coords(rng, nr, variant)
    fr = R03.freqs(rng, nc, variant)
    ctx.sig(src=ns, row=nr, chan=nc, u=float(uvw[-1, 0]))
    got = ctx.call(phase_delay, lm, uvw, fr)
    p, e = R03.phases(lm, uvw, fr)
    ctx.ok("jax result shape", got.shape == p.shape, got=got.shape)
    bad = ~(np.abs(got - R03.expi(p)) <= 12 * gen.eps(lm) * (e + 1))
    ctx.ok("jax K term", not bad.any(), where=np.argwhere(bad)[:3],
           got=got[bad][:2], want=R03.expi(p)[bad][:2])
