"""Workload and reference for the faceting (perleypolyhedron) gridder."""
import numpy as np

from vf import gen
from vf.core import Skip

# the Stokes parameter as a combination of the correlations, by definition
LIN = {"I": {"XX": .5, "YY": .5}, "Q": {"XX": .5, "YY": -.5},
       "U": {"XY": .5, "YX": .5}, "V": {"XY": -.5j, "YX": .5j}}
CIRC = {"I": {"RR": .5, "LL": .5}, "Q": {"RL": .5, "LR": .5},
        "U": {"RL": -.5j, "LR": .5j}, "V": {"RR": .5, "LL": -.5}}

# policy names: Stokes parameter <- products and back
FROM_CORR = ["I_FROM_XXYY", "I_FROM_XXXYYXYY", "I_FROM_RRLL",
             "I_FROM_RRRLLRLL", "Q_FROM_XXYY", "Q_FROM_XXXYYXYY",
             "Q_FROM_RRRLLRLL", "U_FROM_XYYX", "U_FROM_XXXYYXYY",
             "U_FROM_RLLR", "U_FROM_RRRLLRLL", "V_FROM_RRLL",
             "V_FROM_RRRLLRLL", "V_FROM_XYYX", "V_FROM_XXXYYXYY"]
FROM_STOKES = ["XXYY_FROM_I", "XXXYYXYY_FROM_I", "RRLL_FROM_I",
               "RRRLLRLL_FROM_I", "XXYY_FROM_Q", "XXXYYXYY_FROM_Q",
               "RLLR_FROM_Q", "RRRLLRLL_FROM_Q", "XYYX_FROM_U",
               "XXXYYXYY_FROM_U", "RLLR_FROM_U", "RRRLLRLL_FROM_U",
               "XYYX_FROM_V", "XXXYYXYY_FROM_V", "RRLL_FROM_V",
               "RRRLLRLL_FROM_V"]


def pairs(s):
    return [s[i:i + 2] for i in range(0, len(s), 2)]


def corr_weights(policy):
    """Weights of the correlations in the Stokes parameter of the policy."""
    st, prods = policy.split("_FROM_")
    table = LIN if "X" in prods else CIRC
    return np.array([table[st].get(p, 0) for p in pairs(prods)], complex)


def stokes_weights(policy):
    """What each correlation is, for the Stokes parameter of the policy."""
    prods, st = policy.split("_FROM_")
    table = LIN if "X" in prods else CIRC
    # the inverse of the definition: corr = sum_s conj(2 w) s
    return np.array([2 * np.conj(table[st].get(p, 0)) for p in pairs(prods)],
                    complex)


def basis(ra, dec):
    sr, cr, sd, cd = np.sin(ra), np.cos(ra), np.sin(dec), np.cos(dec)
    return np.array([[-sr, cr, 0], [-sd * cr, -sd * sr, cd],
                     [cd * cr, cd * sr, sd]])


def facet(uvw, pc, ic, policy):
    uvw = np.asarray(uvw, float)
    if policy == "None":
        return uvw
    R = basis(*ic) @ basis(*pc).T
    if policy == "rotate":
        return uvw @ R.T
    l, m, n = R[2]
    out = uvw.copy()
    out[:, 0] -= uvw[:, 2] * l / n
    out[:, 1] -= uvw[:, 2] * m / n
    return out


def phasor(uvw, wl, pc, ic, policy, sign):
    if policy == "None":
        return np.ones((len(uvw), len(wl)), complex)
    l, m, n = (basis(*ic) @ basis(*pc).T)[2]
    p = np.asarray(uvw, float) @ np.array([l, m, np.sqrt(
        1 - l * l - m * m) - 1])
    return np.exp(2j * np.pi * sign * p[:, None] / wl[None])


def places(uvw, wl, npix, cell):
    """Cell and kernel sample of every (row, channel), with their distance
    from the rounding boundaries."""
    scale = npix * cell / 3600.0 * np.pi / 180.0
    off = uvw[:, None, :2] * scale / wl[None, :, None] + npix // 2
    disc = np.round(off)
    d = disc - off
    return off, disc.astype(int), d


def clear(d, os):
    """Rows whose positions do not sit on a rounding boundary."""
    f = d * os
    near = np.abs(f - np.round(f)) < 1e-5
    near |= np.abs(np.abs(d) - 0.5) < 1e-5
    return ~near.reshape(len(d), -1).any(axis=1)


class Case(object):
    pass


def case(ctx, bpol, ppol, nn=False, npix=None, maxrow=40):
    rng = ctx.rng
    c = Case()
    c.W = 2 * int(rng.randint(1, 5)) + 1
    c.OS = int(rng.choice([2, 3, 4, 5, 8, 11, 63]))
    c.npix = npix or int(rng.choice([1, 2, 5, 8, 16, 17, 24, 33]))
    c.cell = float(rng.choice([0.5, 3.0, 30.0]))
    nchan = gen.size(rng, 4, 6, huge=60)
    c.wl = np.sort(rng.uniform(0.2, 0.6, size=nchan))
    if rng.rand() < 0.5:
        c.wl = c.wl[::-1].copy()
    nband = int(rng.randint(1, nchan + 1))
    c.chanmap = np.sort(rng.randint(0, nband, size=nchan))
    if rng.rand() < 0.3:
        c.chanmap = rng.permutation(c.chanmap)
    c.nband = int(c.chanmap.max()) + 1
    c.pc = (float(rng.uniform(0, 6.3)), float(rng.uniform(-1.4, 1.4)))
    if bpol == "None" and ppol == "None":
        c.ic = (c.pc[0] + float(rng.uniform(-.3, .3)),
                c.pc[1] + float(rng.uniform(-.1, .1)))
    else:
        r = float(rng.choice([0, 1e-3, 0.05, 0.4]))
        c.ic = (c.pc[0] + float(rng.uniform(-r, r)),
                c.pc[1] + float(rng.uniform(-r, r)))
    nrow = gen.size(rng, 8, maxrow)
    scale = c.npix * c.cell / 3600.0 * np.pi / 180.0
    # metres per grid cell at the shortest wavelength
    m = c.wl.min() / scale
    reach = float(rng.choice([0.3, 0.5, 0.8])) * c.npix + 1
    uvw = rng.uniform(-reach, reach, size=(4 * nrow, 3)) * m
    uvw[rng.rand(4 * nrow) < 0.1, 2] = 0
    if rng.rand() < 0.2:
        uvw[:2] = 0.0
        # on cell centres: u = integer cells of the first channel
        k = rng.randint(-c.npix, c.npix + 1, size=(2, 2))
        uvw[2:4, :2] = k * c.wl[0] / scale
    uvw = uvw.astype("f8")
    f = facet(uvw, c.pc, c.ic, bpol)
    _, _, d = places(f, c.wl, c.npix, c.cell)
    ok = clear(d, 1 if nn else c.OS)
    ok[:2] |= ~uvw[:2].any(axis=1)      # zero stays exactly zero
    uvw = uvw[ok][:nrow]
    if not len(uvw):
        raise Skip()
    c.uvw = np.ascontiguousarray(uvw)
    c.nrow, c.nchan = len(uvw), nchan
    c.K = rng.uniform(0.05, 1.0, size=c.OS * (c.W + 2))
    if rng.rand() < 0.5:
        c.K -= 0.2
    return c


def taps(c, d):
    """Values of the kernel at its W taps for the offset d (cells)."""
    f = int(d * c.OS)
    return np.array([c.K[(t + 1) * c.OS + f] for t in range(c.W)])


def grid_ref(c, vis, bpol, ppol, spol, nn, normalize):
    w = corr_weights(spol)
    v = vis.astype("c16") * phasor(c.uvw, c.wl, c.pc, c.ic, ppol, 1)[
        :, :, None]
    s = v @ w
    f = facet(c.uvw, c.pc, c.ic, bpol)
    _, disc, d = places(f, c.wl, c.npix, c.cell)
    g = np.zeros((c.nband, c.npix, c.npix), complex)
    mag = np.zeros(g.shape)
    wt = np.zeros(c.nband)
    h = c.W // 2
    n = 0
    for r in range(c.nrow):
        for k in range(c.nchan):
            b = c.chanmap[k]
            x, y = disc[r, k]
            a = np.abs(s[r, k])
            if nn:
                wt[b] += 1
                if 0 <= x < c.npix and 0 <= y < c.npix:
                    g[b, y, x] += s[r, k]
                    mag[b, y, x] += a
                    n += 1
                continue
            tu, tv = taps(c, d[r, k, 0]), taps(c, d[r, k, 1])
            wt[b] += tu.sum() * tv.sum()
            for j in range(c.W):
                for i in range(c.W):
                    xx, yy = x + i - h, y + j - h
                    if 0 <= xx < c.npix and 0 <= yy < c.npix:
                        q = tv[j] * tu[i]
                        g[b, yy, xx] += q * s[r, k]
                        mag[b, yy, xx] += abs(q) * a
                        n += 1
    if normalize:
        z = wt + 1e-8
        g /= z[:, None, None]
        mag /= np.abs(z)[:, None, None]
    return g, mag, wt, n


def degrid_ref(c, grid, bpol, ppol, spol):
    w = stokes_weights(spol)
    f = facet(c.uvw, c.pc, c.ic, bpol)
    _, disc, d = places(f, c.wl, c.npix, c.cell)
    h = c.W // 2
    v = np.zeros((c.nrow, c.nchan), complex)
    mag = np.zeros(v.shape)
    cond = np.zeros(v.shape)
    for r in range(c.nrow):
        for k in range(c.nchan):
            g = grid[c.chanmap[k]]
            tu, tv = taps(c, d[r, k, 0]), taps(c, d[r, k, 1])
            x, y = disc[r, k]
            acc, cw, am, wm = 0j, 0.0, 0.0, 0.0
            for j in range(c.W):
                for i in range(c.W):
                    xx, yy = x + i - h, y + j - h
                    if 0 <= xx < c.npix and 0 <= yy < c.npix:
                        q = tv[j] * tu[i]
                        acc += q * g[yy, xx]
                        am += abs(q * g[yy, xx])
                        cw += q
                        wm += abs(q)
            v[r, k] = acc / (cw + 1e-8)
            mag[r, k] = am / abs(cw + 1e-8)
            cond[r, k] = wm / abs(cw + 1e-8)
    v = v * phasor(c.uvw, c.wl, c.pc, c.ic, ppol, -1)
    return (v[:, :, None] * w, mag[:, :, None] * np.abs(w),
            cond[:, :, None] + 0 * np.abs(w))
