"""Chunk aggregation, shapes, types, shared state and progress."""
import io
import os
import tempfile
import threading
import time

import numpy as np

from vf.core import group

ASSUMPTIONS = [
    "chunk lists are not empty; one list of chunks is passed with an integer "
    "maximum, several with a tuple of maxima",
    "the enumeration of Stokes types is that of casacore's Stokes.h, typed "
    "in here from its documentation",
]

STOKES = ("Undefined I Q U V RR RL LR LL XX XY YX YY RX RY LX LY XR XL YR "
          "YL PP PQ QP QQ RCircular LCircular Linear Ptotal Plinear PFtotal "
          "PFlinear Pangle").split()


@group("U01", "chunks", quick=500, thorough=10000,
       require=["total preserved", "runs of chunks", "bounded", "greedy",
                "mismatch rejected"])
def chunks(ctx, variant):
    """random chunkings of one to four arrays; non-trivial: something is
    merged and something is not"""
    from africanus.util.shapes import aggregate_chunks
    rng = ctx.rng
    k = int(rng.choice([1, 1, 2, 3, 4]))
    n = int(rng.randint(1, 12))
    lists = tuple(tuple(int(v) for v in rng.randint(
        rng.randint(0, 2), rng.choice([2, 8, 30]), size=n)) for _ in range(k))
    maxima = tuple(int(v) for v in rng.randint(0, 40, size=k))
    if k == 1:
        got = (ctx.call(aggregate_chunks, lists[0], maxima[0]),)
    else:
        got = ctx.call(aggregate_chunks, lists, maxima)
    ctx.sig(lists=lists, maxima=maxima)
    ctx.equal("total preserved", len(got), k)
    ctx.ok("total preserved", len({len(g) for g in got}) == 1,
           "different numbers of chunks", got=got)
    for g, c in zip(got, lists):
        ctx.equal("total preserved", sum(g), sum(c))
    m = len(got[0])
    if m == 1 or m == n:
        ctx.trivial()
    # the runs: the greedy partition, with a chunk that alone exceeds the
    # maximum kept whole
    runs, acc = [], None
    for i in range(n):
        if acc is None:
            acc = [i]
        elif any(sum(c[j] for j in acc) + c[i] > mx
                 for c, mx in zip(lists, maxima)):
            runs.append(acc)
            acc = [i]
        else:
            acc.append(i)
    runs.append(acc)
    want = tuple(tuple(sum(c[j] for j in r) for r in runs) for c in lists)
    for g, c, mx in zip(got, lists, maxima):
        for v in g:
            ctx.ok("bounded", v <= mx or v in c, "chunk beyond the maximum",
                   chunk=v, maximum=mx)
        ctx.ok("bounded", isinstance(g, tuple) and
               all(isinstance(v, int) for v in g), "type")
    ctx.ok("runs of chunks", all(
        set(np.cumsum(g)) <= set(np.cumsum(c)) for g, c in zip(got, lists)),
        "chunk boundaries moved")
    ctx.ok("greedy", got == want, "not the greedy aggregation", got=got,
           want=want)
    if k > 1:
        ctx.raises("mismatch rejected", ValueError, aggregate_chunks,
                   lists[:-1] + (lists[-1] + (1,),), maxima)
        ctx.raises("mismatch rejected", ValueError, aggregate_chunks, lists,
                   maxima + (3,))


@group("U01", "types and shapes", quick=200, thorough=3000,
       require=["correlation shape", "complex type", "stokes", "hash",
                "cycles", "gpu grid", "documentation", "numbered lines"])
def types_(ctx, variant):
    """correlation shapes, type inference and small helpers; non-trivial:
    all"""
    import hashlib

    import dask.array as da
    import numba
    from africanus.util import casa_types, code, cuda, docs, files, jinja2
    from africanus.util.shapes import corr_shape
    from africanus.util.type_inference import infer_complex_dtype
    rng = ctx.rng
    n = int(rng.randint(1, 7))
    ctx.equal("correlation shape", corr_shape(n, "flat"), (n,))
    if n in (1, 2, 4):
        ctx.equal("correlation shape", corr_shape(n, "matrix"),
                  {1: (1,), 2: (2,), 4: (2, 2)}[n])
    else:
        ctx.raises("correlation shape", ValueError, corr_shape, n, "matrix")
    ctx.raises("correlation shape", ValueError, corr_shape, n, "other")
    kinds = "f4 f8 c8 c16 i2 i4 i8 b1 u1".split()
    pick = [kinds[i] for i in rng.randint(len(kinds), size=rng.randint(1, 5))]
    ctx.sig(n=n, kinds=pick)
    args = []
    for k in pick:
        a = np.zeros((3,) * rng.randint(0, 4), dtype=k)
        j = rng.randint(3)
        args.append([a, da.from_array(a, chunks=2), numba.typeof(a)][j])
    want = np.dtype("c8")
    for k in pick:
        if k in ("f8", "c16", "i4", "i8"):
            want = np.dtype("c16")
    ctx.ok("complex type", ctx.call(infer_complex_dtype, *args) == want,
           "wrong type", kinds=pick)
    ctx.raises("complex type", ValueError, infer_complex_dtype, args[0], 3)
    for i, s in enumerate(STOKES):
        ctx.ok("stokes", casa_types.STOKES_TYPES[i] == s
               and casa_types.STOKES_TYPE_MAP[s] == i
               and casa_types.STOKES_ID_MAP[i] == s, s)
    ctx.equal("stokes", len(casa_types.STOKES_TYPES), len(STOKES))
    ctx.equal("stokes", len(casa_types.STOKES_ID_MAP), len(STOKES))
    size = int(rng.choice([0, 1, 1000, 2**20 - 1, 2**20, 2**20 + 1,
                           2 * 2**20 + 7]))
    blob = rng.bytes(size)
    fd, path = tempfile.mkstemp(prefix="vf-u01-")
    try:
        with os.fdopen(fd, "wb") as f:
            f.write(blob)
        ctx.equal("hash", ctx.call(files.sha_hash_file, path),
                  hashlib.sha1(blob).hexdigest())
    finally:
        os.unlink(path)
    # in-place rotations of registers
    N = int(rng.randint(1, 20))
    case = int(rng.randint(0, N + 1))
    cyc = ctx.call(jinja2.register_assign_cycles, N, case)
    moves = [p for c in cyc for p in c]
    want = {d: (N - case + d) % N for d in range(N)}
    want = {d: s for d, s in want.items() if d != s}
    ctx.ok("cycles", len(moves) == len(want) and dict(moves) == want,
           "not the rotation", N=N, case=case)
    for c in cyc:
        for (d, s), (d2, s2) in zip(c, c[1:] + c[:1]):
            ctx.equal("cycles", s, d2, "a cycle is broken")
    dims = tuple(int(v) for v in rng.randint(1, 5000, size=3))
    blk = tuple(int(v) for v in rng.randint(1, 300, size=3))
    g = ctx.call(cuda.grids, dims, blk)
    for d, b, q in zip(dims, blk, g):
        ctx.ok("gpu grid", (q - 1) * b < d <= q * b, "grid does not cover")
    ctx.raises("gpu grid", ValueError, cuda.grids, dims[:2], blk)
    ctx.raises("gpu grid", ValueError, cuda.grids, dims, blk + (1,))
    for dt, name in (("f4", "float"), ("f8", "double"), ("i4", "int"),
                     ("u4", "unsigned int"), ("i2", "short"),
                     ("c8", "float2"), ("c16", "double2"), ("i1", "char"),
                     ("u1", "unsigned char"), ("u2", "unsigned short")):
        for form in (np.dtype(dt), np.zeros(2, dt), np.dtype(dt).type):
            ctx.equal("gpu grid", cuda.cuda_type(form), name)
    ctx.equal("gpu grid", cuda.cuda_function("sqrt", np.dtype("f4")), "sqrtf")
    ctx.equal("gpu grid", cuda.cuda_function("sqrt", np.dtype("f8")), "sqrt")
    ctx.raises("gpu grid", ValueError, cuda.cuda_function, "nope",
               np.dtype("f4"))
    ctx.raises("gpu grid", ValueError, cuda.cuda_type, np.dtype("U3"))
    # documentation templates
    import collections
    T = collections.namedtuple("T", "a b c")
    parts = ["alpha x ", "beta xy ", "gamma"]
    rep = [("x", "Q"), ("beta", "B")]
    out = "".join(parts)
    for form in (T(*parts), collections.OrderedDict(zip("abc", parts))):
        ctx.equal("documentation", docs.doc_tuple_to_str(form), out)
        ctx.equal("documentation", docs.doc_tuple_to_str(form, rep),
                  "alphQ Q B Qy gamma".replace("alphQ", "alpha"))
    ctx.equal("documentation", docs.DocstringTemplate(
        "a $(b) $c ${d} $$").safe_substitute(b=1, c=2), "a 1 2 ${d} $")
    text = "\n".join("l%d" % i + ["", "", "\x0cq", "\r"][rng.randint(4)]
                     for i in range(rng.randint(1, 12)))
    text += "\n" * rng.randint(3)
    lines = ctx.call(code.format_code, text).split("\n")
    ctx.equal("numbered lines", lines[0], "")
    for i, (l, t) in enumerate(zip(lines[1:], text.split("\n")), 1):
        ctx.equal("numbered lines", l.split(), [str(i)] + t.split())
        ctx.ok("numbered lines", l.endswith(t), "line changed", line=l)
    ctx.equal("numbered lines", len(lines) - 1, len(text.split("\n")))


@group("U01", "shared state", quick=40, thorough=400,
       require=["one instance", "computed once per key", "cached value",
                "threads collided"])
def shared(ctx, variant):
    """many threads asking for the same singleton or memoised value, with
    delays while it is being made; non-trivial: all"""
    from africanus.util.code import SingletonMixin, memoize_on_key
    rng = ctx.rng
    nthr = int(rng.randint(2, 9))
    delay = float(rng.choice([0.0, 1e-3, 3e-3]))
    made = []

    class S(SingletonMixin):
        def __init__(self):
            time.sleep(delay)
            made.append(self)
    inside, most = [0], [0]
    lock = threading.Lock()
    calls = []

    @memoize_on_key(lambda a, b=0: (-(a % 3), b))
    def fn(a, b=0):
        calls.append((a % 3, b))
        time.sleep(delay)
        return object()

    empty = [None, 0, False, (), ""][rng.randint(5)]
    tries = []

    @memoize_on_key(lambda a: a)
    def falsy(a):
        tries.append(a)
        if len(tries) == 1:
            raise KeyError("planned")
        return empty
    # what failed is not remembered, what gave nothing is
    ctx.raises("cached value", KeyError, falsy, 3)
    for _ in range(3):
        ctx.ok("cached value", falsy(3) is empty, "another value")
    ctx.equal("computed once per key", tries, [3, 3])

    class Empty(SingletonMixin):
        def __len__(self):
            return 0
    ctx.ok("one instance", Empty.instance() is Empty.instance(),
           "a singleton was made again")

    class Base(SingletonMixin):
        pass

    class Derived(Base):
        pass
    order = [Base, Derived] if rng.rand() < 0.5 else [Derived, Base]
    for c in order + order:
        ctx.ok("one instance", type(c.instance()) is c and
               c.instance() is c.instance(), "another class' instance")
    keys = [(int(rng.randint(6)), int(rng.randint(2)))
            for _ in range(rng.randint(3, 12))]
    got, inst, errs = [], [], []
    bar = threading.Barrier(nthr)

    def work(order):
        try:
            bar.wait()
            with lock:
                inside[0] += 1
                most[0] = max(most[0], inside[0])
            inst.append(S.instance())
            for i in order:
                a, b = keys[i]
                got.append(((a % 3, b), fn(a, b=b)))
            with lock:
                inside[0] -= 1
        except BaseException as e:
            errs.append(e)
    thr = [threading.Thread(target=work, args=(
        [int(i) for i in rng.permutation(len(keys))],)) for _ in range(nthr)]
    for t in thr:
        t.start()
    for t in thr:
        t.join()
    ctx.sig(threads=nthr, delay=delay, keys=len(set(keys)))
    ctx.ok("one instance", not errs, str(errs[:1]))
    ctx.count("threads collided", most[0] > 1)
    ctx.equal("one instance", len(made), 1)
    ctx.ok("one instance", all(i is made[0] for i in inst), "others seen")
    ctx.equal("computed once per key", len(calls), len(set(calls)))
    ctx.equal("computed once per key", sorted(set(calls)),
              sorted({(a % 3, b) for a, b in keys}))
    seen = {}
    for k, v in got:
        ctx.ok("cached value", seen.setdefault(k, v) is v,
               "different values for one key")
    ctx.equal("cached value", len({id(v) for v in seen.values()}), len(seen))


@group("U01", "progress", quick=25, thorough=250, weight=2,
       require=["result unchanged", "all tasks counted", "thread ends",
                "estimate", "bar drawn"])
def progress(ctx, variant):
    """threaded computations, failing ones too, under a progress bar that
    redraws all the time; non-trivial: several tasks"""
    import dask.array as da
    from dask.core import has_tasks
    from africanus.util import dask_util as du
    rng = ctx.rng
    n, c = int(rng.randint(1, 40)), int(rng.randint(1, 8))
    x = np.arange(float(n))
    delay = float(rng.choice([0.0, 1e-4, 1e-3]))
    fail = rng.rand() < 0.2
    ctx.sig(n=n, c=c, delay=delay, fail=bool(fail))

    def slow(b):
        time.sleep(delay)
        if fail and b.size and b[0] == 0:
            raise ZeroDivisionError("planned")
        return b + 1
    A = da.from_array(x, chunks=c).map_blocks(slow, dtype=x.dtype)
    thread_errors = []
    old = threading.excepthook
    threading.excepthook = lambda a: thread_errors.append(a.exc_value)
    seen = {}

    class Bar(du.EstimatingProgressBar):
        def _finish(self, dsk, state, errored):
            with self._lock:
                seen.update({k: (v.completed, v.total, sum(
                    bool(has_tasks(dsk, t)) for q, t in dsk.items()
                    if du.key_bin(q) == k))
                    for k, v in self.task_data.items()})
                seen["dsk"] = len(dsk)
            return du.EstimatingProgressBar._finish(self, dsk, state, errored)
    out = io.StringIO()
    reps = int(rng.randint(1, 4))
    bar = Bar(minimum=0, width=int(rng.randint(5, 60)), dt=2e-4, out=out)
    try:
        before = set(threading.enumerate())
        timers = []
        for _ in range(reps):
            with bar:
                try:
                    r = A.compute(scheduler="threads", num_workers=int(
                        rng.randint(1, 6)), optimize_graph=False)
                except ZeroDivisionError:
                    r = None
                    ctx.ok("result unchanged", fail, "failed")
                else:
                    ctx.ok("result unchanged", not fail, "error swallowed")
            timers.append(bar.thread)
            if r is not None:
                ctx.equal("result unchanged", r, x + 1)
                tot = 0
                for k, v in seen.items():
                    if k == "dsk":
                        continue
                    ctx.equal("all tasks counted", v[0], v[2], k)
                    tot += v[1]
                ctx.equal("all tasks counted", tot, seen["dsk"])
            seen.clear()
        for t in timers:
            t.join(20)
            ctx.ok("thread ends", not t.is_alive(), "timer still running")
        ctx.ok("thread ends", not thread_errors, "timer thread failed: %s"
               % [repr(e) for e in thread_errors[:2]])
        del before
    finally:
        threading.excepthook = old
    drawn = out.getvalue()
    ctx.count("bar drawn", drawn.count("\r"))
    for part in drawn.split("\r")[1:]:
        ctx.ok("bar drawn", part.startswith("[") and "% Complete" in part
               and part.index("]") == bar._width + 1, part)

    # the estimate, for given counts
    class PB(object):
        pass
    pb = PB()
    pb._lock = threading.Lock()
    pb._width = 40
    pb._file = io.StringIO()
    pb.task_data = {}
    est = guess = 0.0
    done = 0
    for k in range(rng.randint(1, 5)):
        total = int(rng.randint(1, 30))
        comp = int(rng.randint(0, total + 1))
        t = float(rng.uniform(0.1, 9)) * comp
        pb.task_data[str(k)] = du.TaskData(comp, total, t)
        done += comp
        if comp:
            est += t / comp * total
            guess += t
    el = float(rng.uniform(0, 200))
    prev = float(rng.uniform(0, 300))
    want = est * el / guess if done else prev
    got = ctx.call(du.update_bar, el, 0, prev, pb)
    ctx.equal("estimate", got[0], done)
    ctx.close("estimate", got[1], want, rtol=1e-12)
    got = ctx.call(du.update_bar, el, done, prev, pb)
    ctx.equal("estimate", got, (done, prev))
    got = ctx.call(du.update_bar, el, done, 0.0, pb)
    ctx.equal("estimate", got, (done, 0.0), "no estimate yet")
    a, b = du.TaskData(1, 2, 3.5), du.TaskData(4, 9, 1.5)
    s = a + b
    a += b
    for t in (s, a):
        ctx.equal("estimate", (t.completed, t.total, t.time_sum), (5, 11, 5.))
    sec = int(rng.randint(0, 60 * 60 * 24 * 7 * 12))
    txt = ctx.call(du.format_time, sec)
    units = dict(w=604800, d=86400, h=3600, m=60, s=1)
    val, num = 0, ""
    last = None
    for ch in txt:
        if ch in units:
            val += int(num) * units[ch]
            num, last = "", ch
        else:
            num += ch
    ctx.ok("estimate", 0 <= sec - val < units[last], "%d shown as %r"
           % (sec, txt))


@group("U01", "optional packages", quick=30, thorough=100,
       require=["present", "missing", "import error"])
def optional(ctx, variant):
    """functions that need packages which are, or are not, there;
    non-trivial: all"""
    from africanus.util.requirements import (
        MissingPackageException, requires_optional)
    from africanus.util.testing import in_pytest, mark_in_pytest
    rng = ctx.rng
    have = ["os", "json", "numpy"]
    none = ["vf_no_such_package", "numpy.vf_nope"]
    ask = [have[i] for i in rng.randint(3, size=rng.randint(0, 3))]
    lack = [none[i] for i in rng.randint(2, size=rng.randint(0, 3))]
    err = [None, ImportError("user %d" % ctx.case)][rng.randint(2)]
    args = ask + lack + [err]
    args = [args[i] for i in rng.permutation(len(args))]
    ctx.sig(args=[str(a) for a in args])
    called = []

    def fn(a, b=2):
        """doc of fn"""
        called.append((a, b))
        return a + b
    ctx.ok("present", not in_pytest(), "believes to run in pytest")
    if not lack and err is not None:
        ctx.raises("import error", ImportError, requires_optional, *args)
        return
    g = ctx.call(requires_optional(*args), fn)
    ctx.equal("present", g.__name__, "fn")
    ctx.equal("present", g.__doc__, "doc of fn")
    if lack:
        ctx.raises("missing", MissingPackageException, g, 1)
        try:
            g(1, b=3)
        except MissingPackageException as e:
            for p in lack:
                ctx.ok("missing", p in str(e), "package not named")
        ctx.equal("missing", called, [])
    else:
        ctx.equal("present", ctx.call(g, 4, b=5), 9)
        ctx.equal("present", called, [(4, 5)])
    ctx.raises("present", TypeError, requires_optional, 3.5)
    ctx.raises("present", TypeError, mark_in_pytest, 1)
