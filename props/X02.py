"""Purity and reentrancy.

The workloads of the other properties run with a monitor around every call
of a function of the package: the inputs are fingerprinted before and after,
and the call is repeated with other garbage in fresh memory and from several
threads at once; every repetition has to give the same result."""
import copy
import ctypes
import hashlib
import threading
import types

import numpy as np

from vf import borrow, dk
from vf.core import Skip, Violation, group

ASSUMPTIONS = [
    "a repetition may differ by rounding (the order of a parallel sum is "
    "not fixed), not by more",
    "functions that update an object or call back into the caller are not "
    "repeated",
]

USE = ["A01", "A02", "R01", "R03", "R04", "R05", "M01", "M02", "M03", "M04",
       "C01", "K01", "K02", "G01", "G03", "L01", "U02", "D01", "A03", "R02",
       "K03", "G02", "G04"]
LAZY = {"A03", "R02", "K03", "G02", "G04"}
SKIP = {("G03", "gridding, bounds sanitizer"),
        ("G03", "degridding, bounds sanitizer"),
        ("U02", "splines, bounds sanitizer")}

DIRECT = set()      # (groups of those that use no dask)

M_PERTURB = -6
LIBC = ctypes.CDLL(None)


def fill(byte):
    """Fresh heap memory holds this byte from now on."""
    LIBC.mallopt(M_PERTURB, (byte ^ 0xff) if byte else 0)
    if byte:
        # numpy keeps small blocks for itself
        hold = [np.full(n, byte, np.uint8) for n in range(8, 1024, 8)
                for _ in range(7)]
        del hold


def is_dask(x):
    return type(x).__module__.startswith("dask")


def walk(x, f, depth=0):
    """Applies f to every array reachable through containers."""
    if isinstance(x, np.ndarray):
        if x.dtype == object and depth < 4:
            for y in x.ravel():
                walk(y, f, depth + 1)
        else:
            f(x)
    elif isinstance(x, dict) and depth < 4:
        for k in sorted(x, key=str):
            walk(x[k], f, depth + 1)
    elif isinstance(x, (list, tuple)) and depth < 4:
        for y in x:
            walk(y, f, depth + 1)
    elif isinstance(x, (float, complex, np.generic)):
        f(np.asarray(x))


def fingerprint(x):
    out = []

    def one(a):
        out.append((a.shape, str(a.dtype), hashlib.sha1(
            np.ascontiguousarray(a).tobytes()).hexdigest()))
    walk(x, one)
    return out


def arrays(x):
    out = []
    walk(x, lambda a: out.append(np.array(a)))
    return out


def same(a, b):
    """None, or what differs."""
    if len(a) != len(b):
        return "%d arrays instead of %d" % (len(b), len(a))
    for i, (x, y) in enumerate(zip(a, b)):
        if x.shape != y.shape or x.dtype != y.dtype:
            return "array %d: %s %s instead of %s %s" % (
                i, y.shape, y.dtype, x.shape, x.dtype)
        if x.dtype.kind not in "fc":
            if not np.array_equal(x, y):
                return "array %d differs" % i
            continue
        if x.tobytes() == y.tobytes():
            continue
        eps = 1e-4 if x.dtype in (np.float32, np.complex64) else 1e-9
        fin = np.isfinite(x)
        scale = np.abs(x[fin]).max() if fin.any() else 0.0
        wide = np.complex128 if x.dtype.kind == "c" else np.float64
        with np.errstate(all="ignore"):
            ok = np.abs(x.astype(wide) - y.astype(wide)) <= eps * scale
        ok |= (x == y) | ((x != x) & (y != y))
        if not ok.all():
            j = tuple(np.argwhere(~ok)[0])
            return "array %d differs at %s of %s: %s, then %s" % (
                i, j, x.shape, x[j], y[j])
    return None


def ours(fn):
    m = getattr(fn, "__module__", None) or ""
    return m.startswith("africanus")


def lazy(x):
    if is_dask(x):
        return True
    if isinstance(x, dict):
        return any(lazy(y) for y in x.values())
    if isinstance(x, (list, tuple)):
        return any(lazy(y) for y in x)
    return False


def outcome(fn, args, kwargs):
    try:
        return arrays(fn(*args, **kwargs))
    except Exception as e:
        return type(e).__name__


def in_place(ctx, fn, args, kwargs, name):
    """The caller changes one of its arrays in place: the next call has to
    see that, just as a call with copies of everything does."""
    floats = []
    walk((args, kwargs), lambda a: floats.append(a) if a.dtype.kind in "fc"
         and a.size and a.ndim and a.flags.writeable else None)
    if not floats:
        return
    a = floats[ctx.rng.randint(len(floats))]
    keep = a.copy()
    try:
        a *= 1.25
        one = outcome(fn, args, kwargs)
        two = outcome(fn, *copy.deepcopy((args, kwargs)))
    finally:
        a[...] = keep
    ctx.count("changed in place")
    if isinstance(one, str) or isinstance(two, str):
        if type(one) != type(two):
            raise Violation("changed in place", "%s: %s for changed arrays, "
                            "%s for copies of them" % (
                                name, one if isinstance(one, str) else
                                "a result", two if isinstance(two, str)
                                else "a result"))
        return
    d = same(two, one)
    if d:
        raise Violation("changed in place", "%s does not see that its input "
                        "changed: %s" % (name, d))


def repeat(ctx, fn, args, kwargs, first):
    """The call again: other garbage in memory, then several at once."""
    ref = arrays(first)
    if not ref:
        return
    name = getattr(fn, "__name__", str(fn))
    for byte in (0x5a, 0xff):
        fill(byte)
        try:
            again = arrays(fn(*args, **kwargs))
        except Exception as e:
            raise Violation("repeatable", "%s raised %s: %s when called "
                            "again" % (name, type(e).__name__, e))
        finally:
            fill(0)
        ctx.count("repeatable")
        d = same(ref, again)
        if d:
            raise Violation("repeatable", "%s called again with the same "
                            "input: %s" % (name, d))
    d = same(ref, arrays(first))
    ctx.count("results kept")
    if d:
        raise Violation("results kept", "calling %s again changed an earlier "
                        "result: %s" % (name, d))
    in_place(ctx, fn, args, kwargs, name)
    n = 4
    gate = threading.Barrier(n)
    res = [None] * n

    def run(i):
        try:
            gate.wait(30)
            for _ in range(2):
                res[i] = arrays(fn(*args, **kwargs))
        except BaseException as e:
            res[i] = e
    ts = [threading.Thread(target=run, args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for r in res:
        ctx.count("reentrant")
        if isinstance(r, BaseException):
            raise Violation("reentrant", "%s raised %s: %s when called from "
                            "%d threads" % (name, type(r).__name__, r, n))
        d = same(ref, r)
        if d:
            raise Violation("reentrant", "%s called from %d threads: %s" % (
                name, n, d))


def graph(ctx, x, *args, **kwargs):
    """A computation: the arrays behind the collections stay as they were,
    no task changes what another one reads, and computing the same
    collections again gives the same."""
    import dask
    ins = [(a, dk.checksum(a)) for a, _ in dk.INPUTS]

    def kept(when):
        for a, c in ins:
            ctx.count("chunk inputs kept")
            if dk.checksum(a) != c:
                raise Mine(Violation("chunk inputs kept", "an array of the "
                                     "caller changed %s" % when))
    first = dk.compute(ctx, x, *args, **kwargs)
    kept("while the collection was computed")
    seen = [0]
    xs = tuple(x) if isinstance(x, (tuple, list)) else (x,)
    with dask.config.set({"optimization.fuse.active": False}):
        try:
            again = dask.compute(*xs, scheduler=dk.watched_get(
                ctx.rng, seen), optimize_graph=False)
        except Violation as v:
            raise Mine(v)
    ctx.count("task inputs kept", seen[0])
    kept("when the collection was computed again")
    d = same(arrays(first if isinstance(x, (tuple, list)) else (first,)),
             arrays(again))
    ctx.count("graphs computed again")
    if d:
        raise Mine(Violation("repeatable", "computed again: %s" % d))
    return first


class Mine(Exception):
    def __init__(self, v):
        self.v = v


def wrap(g):
    def run(ctx, variant):
        def call(fn, *args, **kwargs):
            if fn is dk.compute:
                return graph(*args, **kwargs)
            if not ours(fn) or isinstance(fn, (type, types.MethodType)):
                return fn(*args, **kwargs)
            before = fingerprint((args, kwargs))
            first = fn(*args, **kwargs)
            after = fingerprint((args, kwargs))
            ctx.count("inputs kept")
            try:
                if before != after:
                    raise Violation(
                        "inputs kept", "%s changed its input" % getattr(
                            fn, "__name__", fn))
                if not lazy(first) and not lazy((args, kwargs)):
                    repeat(ctx, fn, args, kwargs, first)
            except Violation as v:
                raise Mine(v)
            return first
        ctx.call = call
        try:
            g.fn(ctx, variant)
        except Mine as m:
            raise m.v
        except (Skip, MemoryError):
            raise
        except Exception:
            # what the values should be is another property's business
            ctx.count("workload stopped early")
        finally:
            del ctx.call
            fill(0)
        ctx.count("cases under the monitor")
    return run


for _g in borrow.workloads(USE, SKIP):
    group("X02", "%s %s" % (_g.prop, _g.name),
          quick=max(2, min(10, _g.cases["quick"])),
          thorough=max(10, _g.cases["quick"]),
          variants={"quick": borrow.spread(_g.variants["quick"], 2),
                    "thorough": _g.variants["thorough"]},
          require=(["inputs kept", "chunk inputs kept", "task inputs kept",
                    "graphs computed again"]
                   if _g.prop in LAZY and _g.name not in DIRECT else
                   ["inputs kept", "repeatable", "reentrant"]),
          env=_g.env, weight=_g.weight,
          rule="monitored workload of %s/%s" % (_g.prop, _g.name))(wrap(_g))
