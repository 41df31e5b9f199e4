"""Very many rows, sources or channels: each part as if it stood alone."""
import numpy as np

from vf import gen

SIZES = [33000, 66000, 40001, 70001, 3000, 5001]


def size(ctx):
    return SIZES[ctx.case % len(SIZES)] + int(ctx.rng.randint(50))


def parts(ctx, monitor, fn, cut, n, axis=0, rtol=None, kw=None):
    """fn(*cut(selection of n elements)) is fn of everything, selected along
    *axis*: around powers of two, at both ends, and anywhere."""
    rng = ctx.rng
    kw = kw or {}
    ctx.sig(n=n, axis=axis)
    full = np.asarray(ctx.call(fn, *cut(slice(None)), **kw))
    ctx.ok(monitor, full.shape[axis] == n, got=full.shape)
    starts = [0, n - 20] + [2**k - 7 for k in (8, 12, 15, 16)]
    starts += [int(rng.randint(0, n - 20)) for _ in range(3)]
    sel = np.unique(np.concatenate(
        [np.arange(s, s + 20) for s in starts if 0 <= s <= n - 20]))
    # a few neighbours alone, then everything selected at once
    one = slice(int(sel[-20]), int(sel[-1]) + 1)
    for s in (one, sel):
        part = np.asarray(ctx.call(fn, *cut(s), **kw))
        want = np.take(full, np.arange(n)[s], axis=axis)
        ctx.ok(monitor, part.shape == want.shape and part.dtype ==
               want.dtype, got=(part.shape, part.dtype), want=want.shape)
        tol = rtol or 200 * gen.eps(part)
        ctx.close(monitor, want, part, rtol=tol, scale="max")
