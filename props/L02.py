"""Image regions: hulls, boxes, masks, extraction and stitching."""
import numpy as np

from vf.core import Skip, group

ASSUMPTIONS = [
    "corners and pixels are integers, hulls have area and boxes at least "
    "two pixels a side",
    "a box is split so that no part would be empty "
    "(ceil(n/k)*(k-1) < n - 1)",
    "data outside the image or the hull is requested as 0 or NaN, or, for "
    "regions with a full mask, as any value",
]


# ------------------------------------------------------------ reference
def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def hull(points):
    """Strict counterclockwise hull (monotone chain), exact integers."""
    pts = sorted({(int(x), int(y)) for x, y in points})
    if len(pts) < 3:
        return pts
    half = []
    for seq in (pts, pts[::-1]):
        h = []
        for p in seq:
            while len(h) >= 2 and cross(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        half.append(h[:-1])
    return half[0] + half[1]


def inside(h, x, y):
    return all(cross(h[i], h[(i + 1) % len(h)], (x, y)) >= 0
               for i in range(len(h)))


def pixels(h):
    xs, ys = [p[0] for p in h], [p[1] for p in h]
    return {(y, x) for y in range(min(ys), max(ys) + 1)
            for x in range(min(xs), max(xs) + 1) if inside(h, x, y)}


def separation(h1, h2):
    """Largest gap over the edge normals, as (signed) squared distances:
    the exact (gap, squared length) pairs."""
    best = None
    for h in (h1, h2):
        for i in range(len(h)):
            a, b = h[i], h[(i + 1) % len(h)]
            n = (a[1] - b[1], b[0] - a[0])
            p1 = [n[0] * x + n[1] * y for x, y in h1]
            p2 = [n[0] * x + n[1] * y for x, y in h2]
            gap = max(min(p2) - max(p1), min(p1) - max(p2))
            q = gap / np.sqrt(float(n[0]**2 + n[1]**2))
            best = q if best is None else max(best, q)
    return best


def pxset(sparse):
    return {(int(a), int(b)) for a, b in sparse}


def filled(px, weights, ext):
    minx, maxx, miny, maxy = ext
    out = np.zeros((maxy - miny + 1, maxx - minx + 1))
    for (y, x) in px:
        out[y - miny, x - minx] = weights[(y, x)] if weights else 1.0
    return out


# ------------------------------------------------------------ workloads
def points(rng, span=None, far=1):
    """Distinct integer points that enclose an area."""
    span = span or int(rng.choice([3, 6, 12, 25]))
    c = rng.randint(-30, 31, size=2) * far
    for _ in range(50):
        n = rng.randint(3, 9)
        p = c + rng.randint(-span, span + 1, size=(n, 2))
        if len(hull(p)) >= 3:
            return p
    raise Skip()


def limits(rng, lo=-20, hi=40, mx=14):
    a, w = rng.randint(lo, hi), rng.randint(1, mx)
    return int(a), int(a + w)


def box(rng, **kw):
    from africanus.linalg.geometry import BoundingBox
    xl, xu = limits(rng, **kw)
    yl, yu = limits(rng, **kw)
    return BoundingBox(xl, xu, yl, yu), (xl, xu, yl, yu)


def boxpx(e):
    return {(y, x) for y in range(e[2], e[3] + 1)
            for x in range(e[0], e[1] + 1)}


def extents(region):
    c = region.corners
    return (int(c[:, 0].min()), int(c[:, 0].max()),
            int(c[:, 1].min()), int(c[:, 1].max()))


@group("L02", "hulls", quick=120, thorough=2500, weight=3,
       require=["corners", "contains", "sparse mask", "filled mask", "area",
                "outlines", "replaced mask", "boxes contain hull"])
def hulls(ctx, variant):
    """hulls of random points, of hulls and of boxes; non-trivial: more than
    three pixels"""
    from africanus.linalg.geometry import (
        BoundingBox, BoundingBoxFactory, BoundingConvexHull)
    rng = ctx.rng
    kind = rng.randint(3)
    p = points(rng, far=3000 if kind == 0 and rng.rand() < 0.4 else 1)
    if kind == 0:
        bh = ctx.call(BoundingConvexHull, p, name="a")
        given = p
    elif kind == 1:
        q = points(rng)
        bh = ctx.call(BoundingConvexHull,
                      [ctx.call(BoundingConvexHull, p),
                       ctx.call(BoundingConvexHull, q)], name="a")
        given = np.vstack([hull(p), hull(q)])
    else:
        bb, e = box(rng)
        bh = ctx.call(BoundingConvexHull,
                      [bb] + [tuple(x) for x in p], name="a")
        given = np.vstack([[(e[0], e[2]), (e[0], e[3]), (e[1], e[2]),
                            (e[1], e[3])], p])
    h = hull(given)
    px = pixels(h)
    ctx.sig(kind=kind, corners=len(h), pixels=len(px))
    if len(px) < 4:
        ctx.trivial()
    got = [tuple(int(v) for v in c) for c in bh.corners]
    ctx.equal("corners", sorted(got), sorted(h))
    i = got.index(h[0])
    ctx.equal("corners", got[i:] + got[:i], [h[0]] + h[1:][::-1],
              "clockwise winding")
    ctx.ok("contains", all(c in bh for c in got), "corners not inside")
    ex = extents(bh)
    for _ in range(25):
        x = int(rng.randint(ex[0] - 2, ex[1] + 3))
        y = int(rng.randint(ex[2] - 2, ex[3] + 3))
        ctx.equal("contains", bool((x, y) in bh), inside(h, x, y),
                  "%s" % ((x, y),))
    ctx.equal("sparse mask", len(bh.sparse_mask), len(px))
    ctx.ok("sparse mask", pxset(bh.sparse_mask) == px,
           "not the pixels inside the hull")
    ctx.equal("sparse mask", bh.sprase_mask_weights, np.ones(len(px)))
    ctx.equal("filled mask", bh.mask, filled(px, None, ex))
    # outlines
    E = bh.edges
    ctx.equal("outlines", E[:, 0], np.asarray(got, dtype=float))
    ctx.equal("outlines", E[:, 1], np.roll(np.asarray(got, float), -1, 0))
    ctx.equal("outlines", bh.edge_midpoints, E.mean(axis=1))
    d = E[:, 1] - E[:, 0]
    c = np.mean(np.asarray(h, dtype=float), axis=0)
    for nrm, sign in ((bh.rnormals, 1), (bh.lnormals, -1)):
        ctx.equal("outlines", np.sum(nrm * d, axis=1), np.zeros(len(d)))
        ctx.ok("outlines", np.all(sign * np.sum(
            nrm * (c - E[:, 0]), axis=1) > 0), "normals point the wrong way")
    A = sum(cross((0, 0), h[i], h[(i + 1) % len(h)])
            for i in range(len(h))) / 2.0
    per = sum(np.hypot(*v) + 1 for v in d)
    ctx.close("area", bh.circumference, per, rtol=1e-12)
    ctx.close("area", bh.area, A + per / 2 - 1, rtol=1e-12)
    ctx.equal("area", bh.centre, [int(v) for v in np.mean(given, axis=0)])
    # bounding boxes
    for square in (False, True):
        for odd in (False, True):
            b = ctx.call(BoundingBoxFactory.AxisAlignedBoundingBox, bh,
                         square=square, enforce_odd=odd)
            e = extents(b)
            nx, ny = b.box_npx
            ctx.equal("boxes contain hull", (nx, ny),
                      (e[1] - e[0] + 1, e[3] - e[2] + 1))
            ctx.ok("boxes contain hull", e[0] <= ex[0] and e[1] >= ex[1]
                   and e[2] <= ex[2] and e[3] >= ex[3],
                   "part of the hull is outside", box=e, hull=ex,
                   square=square, odd=odd)
            ctx.ok("boxes contain hull", pxset(b.sparse_mask) == px,
                   "mask lost", box=e, hull=ex, square=square)
            wx, wy = ex[1] - ex[0] + 1, ex[3] - ex[2] + 1
            if square:
                wx = wy = max(wx, wy)
            if odd:
                wx, wy = wx + (wx + 1) % 2, wy + (wy + 1) % 2
            ctx.equal("boxes contain hull", (nx, ny), (wx, wy))
            if not square:
                ctx.equal("boxes contain hull", (e[0], e[2]), (ex[0], ex[2]))
            ctx.equal("boxes contain hull", b.name, bh.name)
            ctx.equal("filled mask", b.mask, filled(px, None, e))
    # the mask can be replaced at any time
    ring = [(y, x) for y in range(ex[2] - 1, ex[3] + 2)
            for x in range(ex[0] - 1, ex[1] + 2)]
    for region, keep in ((bh, px), (BoundingBox(*ex), boxpx(ex))):
        for _ in range(2):
            if rng.rand() < 0.7:
                region.mask
            if rng.rand() < 0.5 and 0 < len(region.sparse_mask) < 250:
                # weights below one must not outlive the mask
                BoundingConvexHull.normalize_masks([region, BoundingBox(*ex)])
                ctx.ok("replaced mask", region.mask.max() == 0.5,
                       "two regions share the pixels")
            k = rng.randint(0, len(ring) + 1)
            new = [ring[i] for i in rng.permutation(len(ring))[:k]]
            if rng.rand() < 0.3:
                # as many pixels as before
                k = len(region.sparse_mask)
                new = sorted(keep)
                new = [new[i] for i in rng.permutation(len(new))[:k]]
            given = list(new)
            region.sparse_mask = given
            given[:] = []                   # the caller's to do with
            want = set(new) & keep
            ctx.ok("replaced mask", pxset(region.sparse_mask) == want,
                   "not the part inside the region")
            ctx.equal("replaced mask", region.sprase_mask_weights,
                      np.ones(len(want)))
            ctx.equal("replaced mask", region.mask, filled(want, None, ex))
        if 0 < len(region.sparse_mask) < 250:
            BoundingConvexHull.normalize_masks([region, BoundingBox(*ex)])
        region.invalidate_cached_masks()
        ctx.equal("replaced mask", region.mask, filled(keep, None, ex))
    ctx.raises("replaced mask", TypeError, setattr, bh, "sparse_mask", (1, 2))
    ctx.raises("replaced mask", TypeError, setattr, bh, "sparse_mask",
               [(1, 2, 3)])


@group("L02", "boxes", quick=200, thorough=4000,
       require=["box", "split partitions", "padded", "rejected"])
def boxes(ctx, variant):
    """boxes with their masks, split and padded; non-trivial: all"""
    from africanus.linalg.geometry import (
        BoundingBox, BoundingBoxFactory as F, BoundingConvexHull)
    rng = ctx.rng
    bb, e = box(rng)
    px = boxpx(e)
    nx, ny = e[1] - e[0] + 1, e[3] - e[2] + 1
    ctx.equal("box", bb.box_npx, (nx, ny))
    ctx.equal("box", extents(bb), e)
    ctx.equal("box", bb.area, nx * ny)
    ctx.equal("box", bb.mask, np.ones((ny, nx)))
    ctx.ok("box", pxset(bb.sparse_mask) == px, "mask is not the box")
    ctx.equal("box", bb.centre, [int((e[0] + e[1]) / 2.0),
                                 int((e[2] + e[3]) / 2.0)])
    for _ in range(20):
        x = int(rng.randint(e[0] - 2, e[1] + 3))
        y = int(rng.randint(e[2] - 2, e[3] + 3))
        ctx.equal("box", bool((x, y) in bb), (y, x) in px)
    masked = rng.rand() < 0.5
    if masked:
        some = [q for q in sorted(px) if rng.rand() < 0.6]
        bb.sparse_mask = list(some)
        px = set(some)
    ctx.sig(nx=nx, ny=ny, masked=masked)
    # splitting
    k = int(rng.randint(1, 6))
    ks = [n for n in (nx, ny) if -(-n // k) * (k - 1) < n - 1]
    if len(ks) == 2 and min(nx, ny) // k >= 2:
        parts = ctx.call(F.SplitBox, bb, nsubboxes=k)
        ctx.equal("split partitions", len(parts), k * k)
        seen = []
        for b in parts:
            pe = extents(b)
            ctx.ok("split partitions", pe[1] - pe[0] + 1 <= -(-nx // k)
                   and pe[3] - pe[2] + 1 <= -(-ny // k), "part too large")
            seen += sorted(boxpx(pe))
            ctx.ok("split partitions",
                   pxset(b.sparse_mask) == boxpx(pe) & px, "mask of a part")
            ctx.equal("split partitions", b.mask,
                      filled(boxpx(pe) & px, None, pe))
        ctx.ok("split partitions", sorted(seen) == sorted(boxpx(e)),
               "parts overlap or leave pixels out", nx=nx, ny=ny, k=k)
        order = [(extents(b)[2], extents(b)[0]) for b in parts]
        ctx.ok("split partitions", order == sorted(order), "order of parts")
    # padding
    dx, dy = nx + int(rng.randint(0, 7)), ny + int(rng.randint(0, 7))
    pad = ctx.call(F.PadBox, bb, dx, dy)
    pe = extents(pad)
    ctx.equal("padded", pad.box_npx, (dx, dy))
    ctx.equal("padded", (pe[1] - pe[0] + 1, pe[3] - pe[2] + 1), (dx, dy))
    ctx.ok("padded", abs((e[0] - pe[0]) - (pe[1] - e[1])) <= 1
           and abs((e[2] - pe[2]) - (pe[3] - e[3])) <= 1
           and pe[0] <= e[0] and pe[1] >= e[1] and pe[2] <= e[2]
           and pe[3] >= e[3], "not around the box", box=e, padded=pe)
    ctx.ok("padded", pxset(pad.sparse_mask) == px, "mask changed")
    ctx.equal("padded", pad.mask, filled(px, None, pe))
    # rejected
    ctx.raises("rejected", ValueError, BoundingBox, 0.5, 3, 1, 5)
    ctx.raises("rejected", ValueError, F.PadBox, bb, nx - 1, dy)
    ctx.raises("rejected", ValueError, F.PadBox, bb, dx, ny - 1)
    ctx.raises("rejected", ValueError, F.SplitBox, bb, nsubboxes=0)
    tri = BoundingConvexHull([(0, 0), (3, 0), (0, 3)])
    ctx.raises("rejected", TypeError, F.SplitBox, tri, nsubboxes=1)
    ctx.raises("rejected", TypeError, F.PadBox, tri, 9, 9)
    ctx.raises("rejected", TypeError, F.AxisAlignedBoundingBox, [1, 2])
    ctx.raises("rejected", TypeError, bb.overlaps_with, [1])


@group("L02", "overlaps", quick=400, thorough=8000,
       require=["overlap", "overlapping", "separate", "close"])
def overlaps(ctx, variant):
    """pairs of hulls and boxes at all distances; non-trivial: neither
    contains the other"""
    from africanus.linalg.geometry import BoundingBox, BoundingConvexHull
    rng = ctx.rng
    out = []
    for _ in range(2):
        if rng.rand() < 0.3:
            c = limits(rng, -12, 12, 8) + limits(rng, -12, 12, 8)
            out.append((BoundingBox(*c, check_mask_outofbounds=False),
                        hull([(c[0], c[2]), (c[1], c[2]), (c[0], c[3]),
                              (c[1], c[3])])))
        else:
            p = rng.randint(-9, 10, size=2) + rng.randint(
                -7, 8, size=(rng.randint(3, 7), 2))
            h = hull(p)
            if len(h) < 3:
                raise Skip()
            out.append((BoundingConvexHull(p, mask=[]), h))
    (a, ha), (b, hb) = out
    sep = separation(ha, hb)
    ctx.sig(ha=ha, hb=hb)
    if sep < -3:
        ctx.trivial()
    ctx.count("overlapping" if sep <= 0 else "separate")
    if 0 < sep < 3:
        ctx.count("close")
    for d in (None, 0.0, 1.0, float(rng.uniform(0, 4))):
        lim = 0.5 if d is None else d
        if abs(sep - lim) < 1e-9 * (1 + abs(sep)):
            continue
        kw = {} if d is None else dict(min_sep_dist=d)
        for u, v in ((a, b), (b, a)):
            ctx.equal("overlap", bool(ctx.call(u.overlaps_with, v, **kw)),
                      bool(sep <= lim), "separation %s limit %s" % (sep, lim))


@group("L02", "extraction", quick=150, thorough=3000,
       require=["extracted", "outside image rejected", "padded extraction",
                "inputs unmodified"])
def extraction(ctx, variant):
    """regions in, across and outside images of two to five dimensions;
    non-trivial: the region crosses an edge of the image"""
    from africanus.linalg.geometry import (
        BoundingBox, BoundingConvexHull)
    rng = ctx.rng
    ndim = int(rng.randint(2, 6))
    axes = tuple(int(v) for v in rng.permutation(ndim)[:2])
    if ndim == 4 and rng.rand() < 0.3:
        axes = (2, 3)
    shape = [int(v) for v in rng.randint(1, 4, size=ndim)]
    ya, xa = sorted(axes)
    shape[ya], shape[xa] = (int(rng.randint(5, 25)), int(rng.randint(5, 25)))
    dt = [np.float64, np.float32][rng.randint(2)]
    data = rng.standard_normal(shape).astype(dt)
    keep = data.copy()
    if rng.rand() < 0.5:
        e = limits(rng, -8, 20) + limits(rng, -8, 20)
        reg = BoundingBox(*e)
        px = boxpx(e)
        full = True
    else:
        p = rng.randint(-6, 26, size=2) + rng.randint(
            -7, 8, size=(rng.randint(3, 7), 2))
        h = hull(p)
        if len(h) < 3:
            raise Skip()
        reg = ctx.call(BoundingConvexHull, p)
        px = pixels(h)
        full = False
    e = extents(reg)
    weights = {q: 1.0 for q in px}
    if rng.rand() < 0.4:
        other = BoundingBox(e[0], e[1], e[2] - 1, (e[2] + e[3]) // 2 + 1)
        BoundingConvexHull.normalize_masks([reg, other])
        weights = {q: 0.5 if (q[1], q[0]) in other else 1.0 for q in px}
        full = False
    oob = [0, np.nan, 3.5][rng.randint(3 if full else 2)]
    ctx.sig(shape=shape, axes=axes, ext=e, full=full, oob=str(oob))
    kw = {} if oob == 0 and rng.rand() < 0.5 else dict(oob_value=oob)
    if axes != (2, 3) or rng.rand() < 0.5:
        kw["axes"] = axes
    ny, nx = shape[ya], shape[xa]
    if e[0] >= nx or e[2] >= ny or e[1] < 0 or e[3] < 0:
        ctx.raises("outside image rejected", ValueError,
                   BoundingConvexHull.regional_data, reg, data, **kw)
        return
    got, ext = ctx.call(BoundingConvexHull.regional_data, reg, data, **kw)
    ctx.equal("extracted", [int(v) for v in ext], list(e))
    oshape = list(shape)
    oshape[ya], oshape[xa] = e[3] - e[2] + 1, e[1] - e[0] + 1
    want = np.full(oshape, oob, dtype=dt)
    crosses = False
    for y in range(e[2], e[3] + 1):
        for x in range(e[0], e[1] + 1):
            dst = [slice(None)] * ndim
            dst[ya], dst[xa] = y - e[2], x - e[0]
            if not (0 <= y < ny and 0 <= x < nx):
                crosses = True
                continue
            src = [slice(None)] * ndim
            src[ya], src[xa] = y, x
            if (y, x) in px:
                want[tuple(dst)] = data[tuple(src)] * weights[(y, x)]
    if crosses:
        ctx.count("padded extraction")
    else:
        ctx.trivial()
    ctx.close("extracted", got, want, rtol=1e-6 if dt == np.float32
              else 1e-15)
    ctx.ok("extracted", got.dtype == dt and not np.shares_memory(got, data),
           "type or aliasing")
    ctx.equal("inputs unmodified", data, keep)
    ctx.raises("outside image rejected", TypeError,
               BoundingConvexHull.regional_data, [1], data)
    ctx.raises("outside image rejected", ValueError,
               BoundingConvexHull.regional_data, reg, data, axes=(1, 2, 3))


@group("L02", "stitching", quick=120, thorough=2500, weight=2,
       require=["weights sum to one", "stitched", "coadded",
                "facets round trip", "inputs unmodified"])
def stitching(ctx, variant):
    """overlapping and disjoint regions, normalised, extracted and put back;
    non-trivial: some pixels are shared"""
    from africanus.linalg.geometry import (
        BoundingBox, BoundingBoxFactory as F, BoundingConvexHull)
    rng = ctx.rng
    regs, pxs = [], []
    hulls_too = rng.rand() < 0.4
    for _ in range(rng.randint(1, 5)):
        if hulls_too and rng.rand() < 0.5:
            p = rng.randint(-5, 12, size=2) + rng.randint(
                -5, 6, size=(rng.randint(3, 6), 2))
            if len(hull(p)) < 3:
                raise Skip()
            regs.append(BoundingConvexHull(p))
            pxs.append(pixels(hull(p)))
        else:
            c = limits(rng, -6, 10, 10) + limits(rng, -6, 10, 10)
            regs.append(BoundingBox(*c))
            pxs.append(boxpx(c))
            if rng.rand() < 0.3:
                m = [q for q in sorted(pxs[-1]) if rng.rand() < 0.7]
                if m:
                    regs[-1].sparse_mask = m
                    pxs[-1] = set(m)
    if rng.rand() < 0.5:
        for r in regs:
            r.mask                          # cached before normalising
    count = {}
    for s in pxs:
        for q in s:
            count[q] = count.get(q, 0) + 1
    ctx.sig(regions=[extents(r) for r in regs], hulls=hulls_too)
    if max(count.values()) < 2:
        ctx.trivial()
    only = bool(rng.rand() < 0.7)
    kw = {} if only and rng.rand() < 0.5 else dict(
        only_overlapped_regions=only)
    ctx.call(BoundingConvexHull.normalize_masks, regs, **kw)
    total = {}
    for r, s in zip(regs, pxs):
        ctx.ok("weights sum to one", pxset(r.sparse_mask) == s,
               "pixels changed")
        w = {q: 1.0 / count[q] for q in s}
        ctx.equal("weights sum to one", r.mask, filled(s, w, extents(r)))
        for q, v in zip(r.sparse_mask, r.sprase_mask_weights):
            q = (int(q[0]), int(q[1]))
            total[q] = total.get(q, 0.0) + v
    ctx.close("weights sum to one", np.array(list(total.values())),
              np.ones(len(total)), rtol=1e-12)
    # put the pieces of an image back
    ext = np.array([extents(r) for r in regs])
    lo = (ext[:, 0].min(), ext[:, 2].min())
    size = (int(rng.randint(1, 3)), ext[:, 3].max() + 6,
            ext[:, 1].max() + 6)
    if min(size[1:]) < 2 or np.any(ext[:, 1] < 0) or np.any(ext[:, 3] < 0):
        raise Skip()
    img = rng.standard_normal(size)
    if rng.rand() < 0.5:
        axes, cube = (1, 2), img
    else:
        axes, cube = (2, 3), img[:, None]
    if not hulls_too:
        nan = rng.rand() < 0.5
        cut = [ctx.call(BoundingConvexHull.regional_data, r, cube, axes=axes,
                        oob_value=np.nan if nan else 0)[0] for r in regs]
        keep = [c.copy() for c in cut]
        dkw = {} if rng.rand() < 0.6 else dict(dtype=np.float32)
        out, reg = ctx.call(BoundingBox.project_regions, cut, regs, axes=axes,
                            **dkw)
        ctx.ok("stitched", out.dtype == dkw.get("dtype", np.float64),
               got=out.dtype)
        for a, b in zip(cut, keep):
            ctx.equal("inputs unmodified", a, b, "regional data")
        e = extents(reg)
        ctx.equal("stitched", e, (lo[0], ext[:, 1].max(), lo[1],
                                  ext[:, 3].max()))
        want = np.zeros((size[0], e[3] - e[2] + 1, e[1] - e[0] + 1))
        for (y, x) in count:
            if 0 <= y < size[1] and 0 <= x < size[2]:
                want[:, y - e[2], x - e[0]] = img[:, y, x]
        lim = 1e-5 if dkw else 1e-12
        ctx.close("coadded", out, want if axes == (1, 2) else want[:, None],
                  rtol=lim, atol=lim)
        ctx.ok("stitched", pxset(reg.sparse_mask) == set(count),
               "mask of the whole")
        if len(cut) > 1:
            ctx.raises("stitched", TypeError, BoundingBox.project_regions,
                       cut[:-1], regs, axes=axes)
        ctx.raises("stitched", ValueError, BoundingBox.project_regions,
                   [cut[0][..., :-1]], regs[:1], axes=axes)
    # facets of a hull
    p = rng.randint(5, 12, size=2) + rng.randint(
        -8, 14, size=(rng.randint(3, 7), 2))
    h = hull(p)
    if len(h) < 3:
        raise Skip()
    bh = ctx.call(BoundingConvexHull, p)
    bb = ctx.call(F.AxisAlignedBoundingBox, bh,
                  square=bool(rng.rand() < 0.5))
    k = int(rng.randint(1, 4))
    if any(-(-n // k) * (k - 1) >= n - 1 or n // k < 2 for n in bb.box_npx):
        raise Skip()
    facets = ctx.call(F.SplitBox, bb, nsubboxes=k)
    if any(min(extents(f)[1], extents(f)[3]) < 0 for f in facets):
        raise Skip()
    pad = int(rng.randint(0, 4))
    big = [ctx.call(F.PadBox, f, f.box_npx[0] + pad, f.box_npx[1] + pad)
           for f in facets]
    cube = rng.standard_normal((1, 2, 40, 42))
    cut = [ctx.call(BoundingConvexHull.regional_data, f, cube)[0]
           for f in big]
    out, reg = ctx.call(BoundingBox.project_regions, cut, big)
    e = extents(reg)
    want = np.zeros((1, 2, e[3] - e[2] + 1, e[1] - e[0] + 1))
    for (y, x) in pixels(h):
        if 0 <= y < 40 and 0 <= x < 42:
            want[0, :, y - e[2], x - e[0]] = cube[0, :, y, x]
    ctx.close("facets round trip", out, want, rtol=1e-12, atol=1e-13)
