"""Dask helpers: schedules under control of the harness."""
import hashlib
import time
import zlib

import numpy as np


INPUTS = []         # (array, checksum) of the inputs of recent cases
EARLIER = []        # [(lazy, results, inputs)] of an earlier computation


def checksum(a):
    return zlib.crc32(np.ascontiguousarray(a).tobytes())


def arr(a, chunks):
    """A dask array of `a` with the given chunk tuple."""
    import dask.array as da
    if a.dtype.kind in "biufc":
        INPUTS.append((a, checksum(a)))
    return da.from_array(a, chunks=chunks)


class Recorder(object):
    """Collects the orders in which the tasks of a graph completed."""

    def __init__(self):
        self.orders = set()
        self.tasks = 0

    def add(self, order):
        self.tasks += len(order)
        self.orders.add(hashlib.sha1(
            repr([_strip(k) for k in order]).encode()).hexdigest())


def _strip(k):
    # token free, so that orders of equal graphs compare equal
    if isinstance(k, tuple):
        return (str(k[0]).rsplit("-", 1)[0],) + k[1:]
    return str(k).rsplit("-", 1)[0]


def random_order_get(rng, rec):
    """A scheduler running the tasks in a random topological order."""
    from dask.core import get_dependencies, _execute_task, flatten
    from dask.utils import ensure_dict

    def get(dsk, keys, **kwargs):
        dsk = dict(ensure_dict(dsk))
        deps = {k: get_dependencies(dsk, k) for k in dsk}
        rdeps = {k: [] for k in dsk}
        for k, ds in deps.items():
            for d in ds:
                rdeps[d].append(k)
        left = {k: len(ds) for k, ds in deps.items()}
        ready = sorted([k for k, n in left.items() if n == 0], key=str)
        cache, order = {}, []
        while ready:
            k = ready.pop(int(rng.randint(len(ready))))
            cache[k] = _execute_task(dsk[k], cache)
            order.append(k)
            for r in sorted(rdeps[k], key=str):
                left[r] -= 1
                if left[r] == 0:
                    ready.append(r)
        rec.add(order)

        def pick(ks):
            if isinstance(ks, list):
                return [pick(k) for k in ks]
            return cache[ks]
        return pick(list(keys) if isinstance(keys, list) else keys)
    return get


def threaded_get(rng, rec, workers=8):
    """dask's threaded scheduler, with random delays injected in the tasks and
    the completion order recorded."""
    import threading
    import dask.threaded
    from dask.core import istask
    from dask.utils import ensure_dict
    delays = rng.exponential(0.0004, size=64)

    def get(dsk, keys, **kwargs):
        dsk = dict(ensure_dict(dsk))
        order, lock = [], threading.Lock()

        def wrap(key, i, f):
            def run(*args):
                time.sleep(delays[i % 64])
                r = f(*args)
                with lock:
                    order.append(key)
                return r
            return run
        new = {}
        for i, (k, v) in enumerate(sorted(dsk.items(), key=lambda x: str(x))):
            new[k] = ((wrap(k, i, v[0]),) + tuple(v[1:])
                      if istask(v) else v)
        res = dask.threaded.get(new, keys, num_workers=workers)
        rec.add(order)
        return res
    return get


def marks(x, depth=0):
    """Fingerprints of the arrays in a task's value."""
    if isinstance(x, np.ndarray) and x.dtype.kind in "biufc":
        return (x.shape, str(x.dtype), checksum(x))
    if isinstance(x, (list, tuple)) and depth < 3:
        return tuple(marks(y, depth + 1) for y in x)
    return None


def watched_get(rng, seen):
    """Runs the tasks in a random order and watches that no task changes a
    value which another task, or the caller, reads as well."""
    from dask.core import get_dependencies, _execute_task, flatten
    from dask.utils import ensure_dict
    from vf.core import Violation

    def get(dsk, keys, **kwargs):
        dsk = dict(ensure_dict(dsk))
        deps = {k: get_dependencies(dsk, k) for k in dsk}
        rdeps = {k: [] for k in dsk}
        for k, ds in deps.items():
            for d in ds:
                rdeps[d].append(k)
        wanted = set(flatten(keys if isinstance(keys, list) else [keys]))
        left = {k: len(ds) for k, ds in deps.items()}
        ready = sorted([k for k, n in left.items() if n == 0], key=str)
        cache = {}
        while ready:
            k = ready.pop(int(rng.randint(len(ready))))
            own = [d for d in deps[k] if len(rdeps[d]) > 1 or d in wanted
                   or not deps[d]]
            before = {d: marks(cache[d]) for d in own}
            cache[k] = _execute_task(dsk[k], cache)
            for d, m in before.items():
                seen[0] += 1
                if marks(cache[d]) != m:
                    raise Violation(
                        "task inputs kept", "the task %s changed the value "
                        "of %s, which is not its own" % (
                            _strip(k), _strip(d)))
            for r in sorted(rdeps[k], key=str):
                left[r] -= 1
                if left[r] == 0:
                    ready.append(r)

        def pick(ks):
            if isinstance(ks, list):
                return [pick(k) for k in ks]
            return cache[ks]
        return pick(list(keys) if isinstance(keys, list) else keys)
    return get


def same_again(want, got):
    """An earlier collection, computed again together with another one."""
    from vf.core import Violation
    if not isinstance(want, np.ndarray) or want.dtype.kind not in "biufc":
        return
    m = "together with another call"
    if np.shape(got) != want.shape or got.dtype != want.dtype:
        raise Violation(m, "shape or type differs: %s %s, alone %s %s" % (
            np.shape(got), got.dtype, want.shape, want.dtype))
    if want.size:
        top = np.nanmax(np.abs(want)) if np.any(want == want) else 0
        if not np.allclose(got, want, rtol=1e-3, equal_nan=True,
                           atol=1e-3 * (top if np.isfinite(top) else 1)):
            raise Violation(m, "a collection has another value when it is "
                            "computed together with that of another call")


def together(ctx, a, want, b):
    """The collection `a` (known value `want`) and `b`, which comes from a
    call with some other argument, in one computation and apart."""
    import dask
    one = dask.compute(b, scheduler="sync")[0]
    x, y = dask.compute(a, b, scheduler=random_order_get(
        ctx.rng, ctx.store.setdefault("recorder", Recorder())))
    ctx.count("computed together with a sibling")
    same_again(np.asarray(want), x)
    same_again(one, y)


def shipped_get(rng, rec):
    """Serialises every task, as sending it to another process would."""
    import cloudpickle
    import dask
    from dask.utils import ensure_dict

    def get(dsk, keys, **kwargs):
        dsk = {k: cloudpickle.loads(cloudpickle.dumps(v))
               for k, v in ensure_dict(dsk).items()}
        return dask.get(dsk, keys)
    return get


def compute(ctx, x, how, rec=None, alone=False):
    """Computes the dask collection(s) `x` under the named schedule."""
    import dask
    rec = rec if rec is not None else ctx.store.setdefault(
        "recorder", Recorder())
    if how == "sync":
        kw = dict(scheduler="sync")
    elif how == "random":
        kw = dict(scheduler=random_order_get(ctx.rng, rec))
    elif how == "threads":
        kw = dict(scheduler=threaded_get(ctx.rng, rec))
    elif how == "shipped":
        kw = dict(scheduler=shipped_get(ctx.rng, rec))
    elif how == "plain":
        kw = dict(scheduler="threads", num_workers=8)
    elif how == "noopt":
        kw = dict(scheduler="threads", num_workers=8, optimize_graph=False)
    else:
        raise ValueError(how)
    n0 = len(rec.orders)
    xs = tuple(x) if isinstance(x, (tuple, list)) else (x,)
    old = ()
    if EARLIER and not alone and ctx.rng.rand() < 0.3:
        lz, want, inputs = EARLIER[0]
        # only if nothing changed the inputs of the earlier call since
        if all(checksum(a) == c for a, c in inputs):
            old = tuple(lz)
    r = dask.compute(*(xs + old), **kw)
    if old:
        ctx.count("computed together with an earlier call")
        for w, g in zip(want, r[len(xs):]):
            same_again(w, g)
    r = r[:len(xs)]
    del EARLIER[:]
    if sum(getattr(g, "nbytes", 0) for g in r) < 1 << 20:
        EARLIER.append((xs, r, list(INPUTS)))
    del INPUTS[:-60]
    if not isinstance(x, (tuple, list)):
        r = r[0]
    ctx.count("schedules", 1)
    ctx.count("distinct task orders", len(rec.orders) - n0)
    return r


SCHEDULES = ["sync", "random", "threads", "plain", "noopt", "shipped"]


def honest(ctx, name, lazy, got, what=""):
    """The metadata of the dask array `lazy` tell the truth about `got`."""
    got = np.asarray(got)
    ctx.count(name)
    from vf.core import Violation
    if lazy.ndim != got.ndim:
        raise Violation(name, "%s declares %d dimensions, result has %d" % (
            what, lazy.ndim, got.ndim))
    if np.dtype(lazy.dtype) != got.dtype:
        raise Violation(name, "%s declares dtype %s, result has %s" % (
            what, lazy.dtype, got.dtype))
    for d, (ch, n) in enumerate(zip(lazy.chunks, got.shape)):
        if any(c != c for c in ch):
            continue
        if sum(ch) != n:
            raise Violation(name, "%s declares chunks %s for an axis of %d" % (
                what, lazy.chunks, n))


def honest_blocks(ctx, name, lazy, what="", limit=12):
    """Every block has the declared shape and dtype."""
    import dask
    from vf.core import Violation
    blocks = lazy.to_delayed(optimize_graph=True)
    idx = list(np.ndindex(*blocks.shape))
    if len(idx) > limit:
        sel = ctx.rng.permutation(len(idx))[:limit]
        idx = [idx[i] for i in sel]
    vals = dask.compute(*[blocks[i] for i in idx], scheduler="sync")
    for i, v in zip(idx, vals):
        ctx.count(name)
        v = np.asarray(v)
        want = tuple(lazy.chunks[d][j] for d, j in enumerate(i))
        if v.ndim != len(want) or any(
                w == w and w != s for w, s in zip(want, v.shape)):
            raise Violation(name, "%s block %s has shape %s, declared %s" % (
                what, i, v.shape, want))
        if v.dtype != np.dtype(lazy.dtype):
            raise Violation(name, "%s block %s has dtype %s, declared %s" % (
                what, i, v.dtype, lazy.dtype))
