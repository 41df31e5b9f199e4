"""Workloads and reference (direct sums) for the w-gridder."""
import numpy as np

from vf import gen

C = 299792458.0


def case(rng, prec):
    """An observation and image within the gridder's domain."""
    nx, ny = (2 * int(rng.randint(8, 17)) for _ in range(2))
    fov = gen.choice(rng, [0.5, 5.0, 20.0]) * np.pi / 180
    cell = fov / nx
    celly = None if rng.rand() < 0.4 else cell * rng.uniform(0.6, 1.4)
    cy = celly or cell
    nband = gen.size(rng, 3, 5, huge=0)
    if rng.rand() < 0.04:
        nband = int(rng.randint(12, 25))
    cnt = rng.randint(1, 4, nband)
    # channels after a band which belong to no band
    gap = rng.randint(0, 3, nband) * (rng.rand() < 0.35)
    nchan = int((cnt + gap).sum())
    nrow = gen.size(rng, 30, 120, 0.4, huge=900)
    freq = np.sort(rng.uniform(0.8e9, 1.6e9, nchan))
    lim = 0.48 * C / freq[-1] / np.array([cell, cy, max(cell, cy)])
    uvw = rng.uniform(-1, 1, (nrow, 3)) * lim
    if rng.rand() < 0.2:
        uvw[:, 2] = 0
    if rng.rand() < 0.3:
        uvw[0] = 0
    idx = np.concatenate([[0], np.cumsum(cnt + gap)[:-1]])
    it = gen.choice(rng, ["i8", "i4"])
    eps = float(gen.choice(rng, [1e-3, 1e-4, 1e-5] if prec == "f4" else
                           [1e-3, 1e-5, 1e-8, 1e-11]))
    w = bool(rng.rand() < 0.7)
    return dict(nx=nx, ny=ny, cell=cell, celly=celly, nband=nband,
                gap=gap, cnt=cnt.astype(it), idx=idx.astype(it), nchan=nchan,
                nrow=nrow, freq=freq, uvw=uvw, eps=eps, w=w)


def weights(rng, s, prec):
    wt = None
    if rng.rand() < 0.6:
        wt = rng.uniform(0, 2, (s["nrow"], s["nchan"])).astype(prec)
        if rng.rand() < 0.3:
            wt[rng.rand(*wt.shape) < 0.2] = 0
    mask = None
    if rng.rand() < 0.5:
        mask = gen.flags(rng, (s["nrow"], s["nchan"]), np.uint8)
    return wt, mask


def matrix(s, c):
    """R for channel c: (row, pixel)."""
    cy = s["celly"] or s["cell"]
    x = (np.arange(s["nx"]) - s["nx"] // 2) * s["cell"]
    y = (np.arange(s["ny"]) - s["ny"] // 2) * cy
    x, y = (a.ravel() for a in np.meshgrid(x, y, indexing="ij"))
    e = x**2 + y**2
    nm1 = -e / (np.sqrt(1 - e) + 1) if s["w"] else np.zeros_like(e)
    u = s["uvw"] * s["freq"][c] / C
    ph = np.outer(u[:, 0], x) + np.outer(u[:, 1], y) - np.outer(u[:, 2], nm1)
    return np.exp(-2j * np.pi * ph) / (nm1 + 1)


def band_of(s):
    """the band of each channel, -1: none"""
    b = np.full(s["nchan"], -1)
    for i, (k, n) in enumerate(zip(s["idx"], s["cnt"])):
        b[k:k + n] = i
    return b


def degrid(s, image, wt=None, mask=None):
    vis = np.zeros((s["nrow"], s["nchan"]), np.complex128)
    b = band_of(s)
    for c in np.flatnonzero(b >= 0):
        vis[:, c] = matrix(s, c) @ image[b[c]].ravel().astype("f8")
    if wt is not None:
        vis *= wt
    if mask is not None:
        vis[mask == 0] = 0
    return vis


def grid(s, vis, wt=None, mask=None):
    im = np.zeros((s["nband"], s["nx"] * s["ny"]))
    b = band_of(s)
    v = vis.astype(np.complex128)
    if wt is not None:
        v = v * wt
    if mask is not None:
        v = np.where(mask == 0, 0, v)
    for c in np.flatnonzero(b >= 0):
        im[b[c]] += (np.conj(matrix(s, c)).T @ v[:, c]).real
    return im.reshape(s["nband"], s["nx"], s["ny"])


def vis_scale(s, image, wt=None, mask=None):
    """The magnitude of incoherent visibilities per band: the gridder's
    accuracy is relative to this where the samples happen to cancel."""
    w = np.ones((s["nrow"], s["nchan"])) if wt is None else wt.astype("f8")
    if mask is not None:
        w = w * (mask != 0)
    b = band_of(s)
    n = 1.0
    if s["w"]:
        cy = s["celly"] or s["cell"]
        n = np.sqrt(1 - (s["nx"] * s["cell"] / 2)**2 - (s["ny"] * cy / 2)**2)
    return np.array([np.linalg.norm(w[:, b == i]) / n *
                     np.linalg.norm(image[i].astype("f8"))
                     for i in range(s["nband"])])


def im_scale(s, vis, wt=None, mask=None):
    v = np.abs(vis.astype("c16"))
    if wt is not None:
        v = v * wt
    if mask is not None:
        v = v * (mask != 0)
    b = band_of(s)
    return np.array([np.linalg.norm(v[:, b == i]) * np.sqrt(
        s["nx"] * s["ny"]) for i in range(s["nband"])])


def hess_scale(s, image, wt=None, mask=None):
    w = np.ones((s["nrow"], s["nchan"])) if wt is None else wt.astype("f8")
    if mask is not None:
        w = w * (mask != 0)
    b = band_of(s)
    return np.array([np.linalg.norm(w[:, b == i]) * np.sqrt(
        s["nx"] * s["ny"]) * np.linalg.norm(image[i].astype("f8"))
        for i in range(s["nband"])])


def errors(s, a, b):
    """Norms of the difference per band, of images or visibilities."""
    d = np.abs(a.astype(np.complex128) - b)
    if a.ndim == 2:
        k = band_of(s)
        return np.array([np.linalg.norm(d[:, k == i])
                         for i in range(s["nband"])])
    return np.array([np.linalg.norm(x) for x in d])


def heap(rng):
    """Many equal single precision samples, where only accumulation in
    double precision keeps the accuracy; its direct sum is that of one."""
    n = int(rng.randint(50000, 80000))
    s = dict(nx=16, ny=18, cell=0.01, celly=None, nband=2, gap=np.zeros(2),
             cnt=np.array([1, 1]), idx=np.array([0, 1]), nchan=2, nrow=1,
             freq=np.array([1e9, 1.2e9]), eps=1e-5, w=True,
             uvw=rng.uniform(-5, 5, (1, 3)))
    v = gen.cplx(rng, (1, 2), np.complex64)
    return s, n, v
