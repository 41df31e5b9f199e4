"""Workload generators shared by the properties."""
import numpy as np


def choice(rng, seq):
    return seq[rng.randint(len(seq))]


def cplx(rng, shape, dtype=np.complex128, scale=1.0):
    return ((rng.normal(size=shape) + 1j * rng.normal(size=shape))
            * scale).astype(dtype)


def real(rng, shape, dtype=np.float64, scale=1.0):
    return (rng.normal(size=shape) * scale).astype(dtype)


class Rng(np.random.RandomState):
    """The generator of one case; at most one dimension of it is huge."""
    huge = 1


def is_huge(rng, p=0.02):
    """Whether this dimension is the huge one of its case."""
    if rng.rand() < p and getattr(rng, "huge", 0):
        rng.huge -= 1
        return True
    return False


def size(rng, small=6, big=40, p_big=0.15, huge=200):
    """Mostly small sizes, some large ones, ones included; rarely a huge one
    (beyond blocks, vector widths and small counters)."""
    if huge and is_huge(rng):
        return int(rng.randint(huge // 3, huge + 1))
    u = rng.rand()
    if u < 0.12:
        return 1
    if u < 1.0 - p_big:
        return int(rng.randint(2, small + 1))
    return int(rng.randint(small + 1, big + 1))


def chunks(rng, n, maxchunks=6):
    """A random composition of n."""
    if n == 0:
        return (0,)
    u = rng.rand()
    if n == 1 or u < 0.2:
        return (n,)
    if u < 0.35 and n <= 12:
        return (1,) * n
    if u > 0.95:
        maxchunks = 24
    k = int(rng.randint(2, min(maxchunks, n) + 1))
    cuts = np.sort(rng.choice(np.arange(1, n), size=k - 1, replace=False))
    return tuple(int(x) for x in np.diff(np.concatenate([[0], cuts, [n]])))


def bounds(ch):
    e = np.cumsum((0,) + tuple(ch))
    return [(int(a), int(b)) for a, b in zip(e[:-1], e[1:])]


def flags(rng, shape, dtype=np.uint8):
    """Flags with structure: none, all, sparse, dense, whole rows/columns."""
    u = rng.rand()
    if u < 0.1:
        f = np.zeros(shape, bool)
    elif u < 0.2:
        f = np.ones(shape, bool)
    else:
        f = rng.rand(*shape) < choice(rng, [0.05, 0.3, 0.5, 0.9])
        if rng.rand() < 0.6 and len(shape) > 1:
            f[rng.rand(shape[0]) < 0.4] = True
        if rng.rand() < 0.3 and len(shape) > 1:
            f[:, rng.rand(shape[1]) < 0.3] = True
    return f.astype(dtype)


def baselines(na, auto=False):
    return np.triu_indices(na, 0 if auto else 1)


def layout(rng, a):
    """The same values with another memory layout (numba compiles these
    separately, so only used where that is affordable)."""
    u = rng.randint(3)
    if u == 0:
        return np.asfortranarray(a)
    if u == 1:
        b = np.zeros(a.shape + (2,), a.dtype)
        b[..., 0] = a
        return b[..., 0]
    return np.ascontiguousarray(a)


def eps(*arrays):
    """The coarsest machine precision of the floating point arguments."""
    e = 2.3e-16
    for a in arrays:
        dt = np.dtype(getattr(a, "dtype", a))
        if dt.kind in "fc":
            e = max(e, float(np.finfo(dt).eps))
    return e


def odd_one(rng, arrs, a="f4", b="f8"):
    """Every array in precision *a* but one (or a random few) in *b*."""
    n = len(arrs)
    if rng.rand() < 0.6:
        up = {int(rng.randint(n))}
    else:
        up = {i for i in range(n) if rng.rand() < 0.5}
    return [x.astype(b if i in up else a) for i, x in enumerate(arrs)]


def wild(rng, a):
    """The array as it is, or (half of the time) at another magnitude, with
    magnitudes that differ from element to element, or complex values without
    a real or an imaginary part."""
    u = rng.rand()
    if u < 0.5:
        return a
    lo, hi = (-18, 12) if eps(a) < 1e-10 else (-9, 7)
    if u < 0.75:
        f = 10**rng.uniform(lo, hi)
    elif u < 0.9:
        f = 10**rng.uniform(lo, hi, a.shape)
    elif a.dtype.kind == "c":
        b = a.copy()
        sel = rng.rand(*a.shape) < choice(rng, [0.3, 1.0])
        b[sel] = 1j * b[sel].imag if rng.rand() < 0.7 else b[sel].real
        return b
    else:
        f = -1
    return (a * f).astype(a.dtype)
