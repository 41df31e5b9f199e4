"""Kronecker products and Gaussian process covariances."""
import numpy as np

from vf.core import group

ASSUMPTIONS = [
    "the reference forms the full Kronecker product with numpy.kron",
    "matrices handed to kron_matvec and kron_matmat are square, as "
    "documented; covariance matrices are numerically positive definite "
    "after the documented jitter",
]


def obj(mats):
    A = np.empty(len(mats), dtype=object)
    for i, m in enumerate(mats):
        A[i] = m
    return A


def full(mats):
    out = np.ones((1, 1))
    for m in mats:
        out = np.kron(out, m)
    return out


def matrix(rng, n, m, kind):
    if kind == "int":
        return rng.randint(-4, 5, size=(n, m)).astype(np.float64)
    if kind == "f4":
        return rng.standard_normal((n, m)).astype(np.float32)
    x = rng.standard_normal((n, m))
    if kind == "c16":
        x = x + 1j * rng.standard_normal((n, m))
    return x


def shapes(rng, square, limit):
    """Sizes of the factors, the product of rows and columns bounded."""
    D = rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 5])
    if rng.rand() < 0.15:           # beyond eight bits
        big = int(rng.choice([128, 129, 200, 256, 300]))
        sh = [(big, big if square else int(rng.randint(1, 4)))]
        if not square and rng.rand() < 0.5:
            sh = [sh[0][::-1]]
        for _ in range(rng.randint(0, 2)):
            n = rng.randint(1, 4)
            sh.insert(rng.randint(0, len(sh) + 1),
                      (n, n if square else rng.randint(1, 4)))
        return [(int(a), int(b)) for a, b in sh]
    top = 8
    if rng.rand() < 0.05:
        D, top = rng.randint(6, 9), 3
    while True:
        sh = [(int(rng.randint(1, top)), int(rng.randint(1, top)))
              for _ in range(D)]
        if square:
            sh = [(a, a) for a, _ in sh]
        r = np.prod([a for a, _ in sh])
        c = np.prod([b for _, b in sh])
        if r <= limit and c <= limit:
            return sh


def unchanged(ctx, mats, keep, *pairs):
    for a, b in zip(mats, keep):
        ctx.equal("inputs unmodified", a, b)
    for a, b in pairs:
        ctx.equal("inputs unmodified", a, b)


@group("L01", "kronecker", quick=150, thorough=3000,
       variants=["int", "f8", "c16", "mixed", "f4"],
       require=["rows", "matrix vector", "tensor vector", "matrix matrix",
                "tensor matrix", "inputs unmodified", "large factor"])
def kronecker(ctx, variant):
    """products of one to five factors, square and rectangular, real and
    complex, factors beyond 127 rows; non-trivial: at least two factors"""
    from africanus.linalg import kronecker_tools as kt
    rng = ctx.rng
    kinds = (["f8", "c16", "int"] if variant == "mixed" else [variant])
    eps = 1e-5 if variant == "f4" else 1e-11

    def pick():
        return kinds[rng.randint(len(kinds))]

    for square in (True, False):
        sh = shapes(rng, square, 400)
        ctx.sig(**{"square%d" % square: sh})
        if len(sh) < 2:
            ctx.trivial()
        if max(max(s) for s in sh) > 127:
            ctx.count("large factor")
        mats = [matrix(rng, a, b, pick()) for a, b in sh]
        keep = [m.copy() for m in mats]
        A = obj(mats)
        F = full(mats)
        absF = full([np.abs(m) for m in mats])
        ctx.equal("rows", ctx.call(kt.kron_N, A), F.shape[0])
        b = matrix(rng, F.shape[1], 1, pick())[:, 0]
        ncol = int(rng.randint(1, 5))
        B = matrix(rng, F.shape[1], ncol, pick())
        if rng.rand() < 0.3:
            B = np.asfortranarray(B)
        kb, kB = b.copy(), B.copy()
        s = absF.dot(np.abs(b))
        S = absF.dot(np.abs(B))
        got = ctx.call(kt.kron_tensorvec, A, b)
        ctx.ok("tensor vector", np.all(np.abs(got - F.dot(b)) <= eps * s),
               "not A.dot(b)", shapes=sh)
        ctx.equal("tensor vector shape", got.shape, (F.shape[0],))
        got = ctx.call(kt.kron_tensormat, A, B)
        ctx.equal("tensor matrix shape", got.shape, (F.shape[0], ncol))
        ctx.ok("tensor matrix", np.all(np.abs(got - F.dot(B)) <= eps * S),
               "not A.dot(B)", shapes=sh)
        if square:
            got = ctx.call(kt.kron_matvec, A, b)
            ctx.equal("matrix vector shape", got.shape, (F.shape[0],))
            ctx.ok("matrix vector", np.all(np.abs(got - F.dot(b)) <= eps * s),
                   "not A.dot(b)", shapes=sh)
            got = ctx.call(kt.kron_matmat, A, B)
            ctx.equal("matrix matrix shape", got.shape, (F.shape[0], ncol))
            ctx.ok("matrix matrix",
                   np.all(np.abs(got - F.dot(B)) <= eps * S),
                   "not A.dot(B)", shapes=sh)
        unchanged(ctx, mats, keep, (b, kb), (B, kB))


@group("L01", "cholesky", quick=200, thorough=3000,
       variants=["f8", "c16"],
       require=["factors", "lower triangular", "product factor",
                "inputs unmodified"])
def cholesky(ctx, variant):
    """covariances as Kronecker products, nearly singular ones included;
    non-trivial: at least two factors"""
    from africanus.linalg import kronecker_tools as kt
    rng = ctx.rng
    mats, sing = [], []
    for _ in range(rng.randint(1, 4)):
        n = rng.randint(1, 8)
        X = matrix(rng, n, n, variant)
        s = rng.rand() < 0.2 and n > 1
        if s:
            # smooth covariance: positive definite up to rounding, which is
            # what the jitter is for
            t = np.linspace(0, 1, n) * rng.uniform(1e-3, 1.0)
            M = np.exp(-(t[:, None] - t[None, :])**2 / 2).astype(X.dtype)
        else:
            M = X.dot(X.conj().T) + np.eye(n) * 0.1
            M = M * 10.0**rng.randint(-3, 4)
        sing.append(s)
        mats.append(M)
    for m in mats:
        w = np.linalg.eigvalsh(m + 1e-13 * np.eye(m.shape[0]))
        if w.min() < 1e-14 * w.max():
            ctx.trivial()
            return
    keep = [m.copy() for m in mats]
    ctx.sig(n=[m.shape[0] for m in mats], smooth=sing)
    if len(mats) < 2:
        ctx.trivial()
    L = ctx.call(kt.kron_cholesky, obj(mats))
    ctx.equal("factors", len(L), len(mats))
    for l, m in zip(L, mats):
        ctx.equal("lower triangular", np.triu(l, 1), np.zeros(m.shape))
        ctx.ok("lower triangular", np.all(np.diag(l).real > 0)
               and np.all(np.diag(l).imag == 0), "diagonal not positive")
        ctx.close("factors", l.dot(l.conj().T), m, rtol=1e-10, atol=2e-13,
                  scale="max", what="L L^H")
    # the factor of the product is the product of the factors
    F = full(list(L))
    v = matrix(rng, F.shape[1], 1, variant)[:, 0]
    ctx.close("product factor", ctx.call(kt.kron_matvec, L, v), F.dot(v),
              rtol=1e-9, scale="max")
    unchanged(ctx, mats, keep)


@group("L01", "covariance functions", quick=300, thorough=4000,
       require=["differences", "covariance", "symmetric", "rejected",
                "power spectrum", "inputs unmodified"])
def covariances(ctx, variant):
    """distances between random points in one to four dimensions and the
    squared exponential of them; non-trivial: several points"""
    from africanus.gps import abs_diff, exponential_squared
    rng = ctx.rng
    D = int(rng.randint(1, 5))
    n, m = int(rng.randint(1, 9)), int(rng.randint(1, 9))
    sc = 10.0**rng.randint(-2, 4)
    x, xp = rng.standard_normal((n, D)) * sc, rng.standard_normal((m, D)) * sc
    if rng.rand() < 0.3:
        x, xp = np.round(x), np.round(xp)
    flat = D == 1 and rng.rand() < 0.5
    if flat:
        x, xp = x[:, 0], xp[:, 0]
    kx, kxp = x.copy(), xp.copy()
    ctx.sig(D=D, n=n, m=m, flat=flat, scale=sc)
    if min(n, m) < 2:
        ctx.trivial()
    want = np.empty((n, m))
    X, XP = x.reshape(n, D), xp.reshape(m, D)
    for i in range(n):
        for j in range(m):
            want[i, j] = np.sqrt(np.sum((X[i] - XP[j])**2))
    d = ctx.call(abs_diff, x, xp)
    ctx.close("differences", d, want, rtol=1e-13)
    ctx.equal("symmetric", ctx.call(abs_diff, xp, x), d.T)
    ctx.equal("symmetric", np.diag(ctx.call(abs_diff, x, x)), np.zeros(n))
    sf, l = rng.uniform(0.1, 4), sc * rng.uniform(0.2, 3)
    K = ctx.call(exponential_squared, x, xp, sf, l)
    arg = want**2 / (2 * l**2)
    ctx.close("covariance", K, sf**2 * np.exp(-arg), rtol=1e-12,
              atol=1e-300)
    ctx.close("symmetric", ctx.call(exponential_squared, xp, x, sf, l), K.T,
              rtol=1e-13)
    ctx.equal("inputs unmodified", x, kx)
    ctx.equal("inputs unmodified", xp, kxp)
    # power spectra are only defined on one regular axis
    N = int(rng.randint(3, 12))
    dx = 2.0**rng.randint(-3, 4)
    t = (np.arange(N) * dx)[:, None]
    P = ctx.call(exponential_squared, t, t, sf, l, pspec=True)
    f = (np.arange(N) - N // 2) / (N * dx)
    ctx.equal("power spectrum", P.shape, (N,))
    ctx.ok("power spectrum", np.argmax(P) == N // 2, "peak not at zero")
    P0 = P[N // 2]
    ctx.close("power spectrum", P / P0, np.exp(-l**2 * f**2 / 2),
              rtol=1e-11, atol=1e-290)
    bad = t.copy()
    bad[rng.randint(N)] += dx * 0.3
    ctx.raises("rejected", ValueError, exponential_squared, bad, bad, sf, l,
               pspec=True)
    ctx.raises("rejected", ValueError, exponential_squared, t, t + dx, sf, l,
               pspec=True)
    ctx.raises("rejected", NotImplementedError, exponential_squared,
               np.hstack([t, t]), np.hstack([t, t]), sf, l, pspec=True)
