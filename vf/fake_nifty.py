"""A stand-in for nifty_gridder, which is not installed.

It has the interface africanus calls, records every call, and grids by
dropping each selected sample into the nearest cell: linear in the samples and
cheap, so that the parallel drivers around it can be judged."""
import threading

import numpy as np

C = 2.99792458e8
LOG = []
LOCK = threading.Lock()


def log(*a):
    with LOCK:
        LOG.append(a)


class GridderConfig(object):
    def __init__(self, nx, ny, eps, csx, csy):
        self.args = (nx, ny, eps, csx, csy)

    def Nxdirty(self):
        return self.args[0]

    def Nydirty(self):
        return self.args[1]

    def Nu(self):
        return self.args[0] + 3

    def Nv(self):
        return self.args[1] + 5

    def grid2dirty_c(self, grid):
        grid = np.asarray(grid)
        assert grid.shape == (self.Nu(), self.Nv()) and grid.ndim == 2
        nx, ny = self.args[:2]
        return (grid[:nx, :ny] * (2 + 1j)
                + grid[3:, 5:] * self.args[3] + self.args[4])

    def dirty2grid_c(self, image):
        image = np.asarray(image)
        assert image.shape == self.args[:2]
        out = np.zeros((self.Nu(), self.Nv()), dtype=np.complex128)
        out[:self.args[0], :self.args[1]] = image * (1 - 2j)
        out[3:, 5:] += image
        return out


class Baselines(object):
    def __init__(self, uvw, freq):
        uvw, freq = np.asarray(uvw), np.asarray(freq)
        if uvw.ndim != 2 or uvw.shape[1] != 3 or freq.ndim != 1:
            raise ValueError("Baselines: bad shapes")
        self.uvw, self.freq = uvw, freq


def getIndices(bl, gc, flag, chbegin, chend, wmin, wmax):
    assert isinstance(gc, GridderConfig)
    flag = np.asarray(flag)
    nr, nc = len(bl.uvw), len(bl.freq)
    if flag.shape != (nr, nc):
        raise ValueError("getIndices: bad shape of flags")
    b = 0 if chbegin < 0 else chbegin
    e = nc if chend < 0 else chend
    w = bl.uvw[:, 2][:, None] * bl.freq[None, :] / C
    ch = np.arange(nc)
    sel = (~flag.astype(bool)) & (w >= wmin) & (w < wmax) & (
        (ch >= b) & (ch < e))[None, :]
    return np.flatnonzero(sel.ravel()).astype(np.int32)


def cells(bl, gc, idx):
    nc = len(bl.freq)
    r, c = idx // nc, idx % nc
    f = bl.freq[c] / C
    u = np.floor(bl.uvw[r, 0] * f * 7).astype(int) % gc.Nu()
    v = np.floor(bl.uvw[r, 1] * f * 7).astype(int) % gc.Nv()
    return r, c, u, v


def ms2grid_c(bl, gc, idx, vis, grid_in=None, wgt=None):
    vis = np.asarray(vis)
    if vis.shape != (len(bl.uvw), len(bl.freq)):
        raise ValueError("ms2grid_c: bad shape of visibilities")
    if wgt is not None and np.shape(wgt) != vis.shape:
        raise ValueError("ms2grid_c: bad shape of weights")
    r, c, u, v = cells(bl, gc, idx)
    val = vis[r, c] * (1.0 if wgt is None else np.asarray(wgt)[r, c])
    # like the original, adds to the given grid in place
    out = (np.zeros((gc.Nu(), gc.Nv()), dtype=np.complex128)
           if grid_in is None else grid_in)
    np.add.at(out, (u, v), val)
    log("grid", len(idx), grid_in is not None, len(bl.uvw))
    return out


def grid2ms_c(bl, gc, idx, grid):
    grid = np.asarray(grid)
    if grid.shape != (gc.Nu(), gc.Nv()):
        raise ValueError("grid2ms_c: bad shape of grid")
    r, c, u, v = cells(bl, gc, idx)
    out = np.zeros((len(bl.uvw), len(bl.freq)), dtype=np.complex128)
    out[r, c] = grid[u, v] * (1 + bl.uvw[r, 2] * bl.freq[c] / C)
    return out
