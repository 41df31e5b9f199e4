"""Workloads and reference for the calibration properties."""
import numpy as np

from vf import gen

MODES = {"scalar": ((1,), (1,)), "diag": ((2,), (2,)), "two": ((2, 2), (2,)),
         "full": ((2, 2), (2, 2))}


def rows(rng, na, big=False, auto=None, contiguous=True, ntime=None):
    """time (sorted), antenna1, antenna2: a random set of baselines per time,
    in random order, either orientation."""
    auto = rng.rand() < 0.3 if auto is None else auto
    ntime = ntime or gen.size(rng, 5, 14)
    p, q = gen.baselines(na, auto or na == 1)
    t, a1, a2 = [], [], []
    for k in range(ntime):
        sel = rng.permutation(len(p))
        if rng.rand() < 0.4:
            sel = sel[:max(1, int(rng.randint(len(p) + 1)))]
        swap = rng.rand(len(sel)) < 0.3
        t.append(np.full(len(sel), k))
        a1.append(np.where(swap, q[sel], p[sel]))
        a2.append(np.where(swap, p[sel], q[sel]))
    t, a1, a2 = (np.concatenate(x) for x in (t, a1, a2))
    # from fractions of a millisecond to seconds apart
    gaps = np.cumsum(rng.uniform(0.5, 20, ntime)) * gen.choice(
        rng, [1, 1, 1e-4]) + gen.choice(rng, [0.0, 4.5e9])
    return t, gaps[t], a1, a2


def mul(jp, x, jq):
    """G_p X G_q^H for trailing correlation axes of any of the three
    kinds."""
    if x.ndim == jp.ndim and jp.ndim == 1:
        return jp * x * np.conj(jq)
    if jp.ndim == 1:
        return jp[:, None] * x * np.conj(jq)[None, :]
    return jp @ x @ np.conj(jq).T


def inv_mul(jp, x, jq):
    if x.ndim == 1:
        return x / (jp * np.conj(jq))
    if jp.ndim == 1:
        return x / (jp[:, None] * np.conj(jq)[None, :])
    return np.linalg.inv(jp) @ x @ np.linalg.inv(np.conj(jq).T)


def amul(jp, x, jq):
    return np.abs(mul(np.abs(jp), np.abs(x), np.abs(jq)))


def corrupt_ref(t, a1, a2, jones, model):
    """sum_s G_p,s M_s G_q,s^H per row and channel, and a bound."""
    J, M = jones.astype(np.complex128), model.astype(np.complex128)
    nr, nc, nd = model.shape[:3]
    out = np.zeros((nr, nc) + model.shape[3:], np.complex128)
    mag = np.zeros(out.shape)
    for r in range(nr):
        for c in range(nc):
            for s in range(nd):
                jp, jq = J[t[r], a1[r], c, s], J[t[r], a2[r], c, s]
                out[r, c] += mul(jp, M[r, c, s], jq)
                mag[r, c] += amul(jp, M[r, c, s], jq)
    return out, mag


def gains(rng, shape, dt, full):
    """invertible gains: condition number at most about ten."""
    if not full:
        g = rng.uniform(0.3, 2, shape) * np.exp(1j * rng.uniform(
            -np.pi, np.pi, shape))
        return g.astype(dt)
    base = np.eye(2) * np.exp(1j * rng.uniform(-np.pi, np.pi,
                                               shape[:-2] + (1, 1)))
    g = base * rng.uniform(0.5, 2, shape[:-2] + (1, 1)) + 0.15 * gen.cplx(
        rng, shape)
    # now and then the off-diagonal terms lead
    swap = rng.rand(*shape[:-2]) < 0.3
    g[swap] = g[swap][..., ::-1]
    bad = np.linalg.cond(g) > 10
    g[bad] = np.eye(2)
    return g.astype(dt)
