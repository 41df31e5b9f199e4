"""Worker process: runs items handed to it on stdin, reports on stdout."""
import importlib
import json
import os
import sys
import time
import traceback
import warnings


def from_repo(e):
    """The exception was raised below a frame of the code under test that the
    harness called (and is not about a name the harness expects)."""
    if isinstance(e, (ImportError, MemoryError, KeyboardInterrupt)):
        return False
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    where = None
    for f in traceback.extract_tb(e.__traceback__):
        if f.filename.startswith(here + os.sep):
            where = "harness"
        elif (os.sep + "africanus" + os.sep) in f.filename:
            where = "repo"
    return where == "repo"


def share_cache():
    """numba's cache on disk is not made for processes that write to it at
    the same time: one may be given the code of another signature."""
    import fcntl
    from numba.core import caching
    cls = caching.IndexDataCacheFile

    def alone(method):
        def run(self, *args):
            with open(self._index_path + ".lock", "a") as f:
                fcntl.flock(f, fcntl.LOCK_EX)
                return method(self, *args)
        return run
    cls.save, cls.load = alone(cls.save), alone(cls.load)


def main():
    prop, tier, seed, curfile = sys.argv[1:5]
    seed = int(seed)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)       # anything the code under test prints goes to stderr
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")

    def send(msg):
        out.write(json.dumps(msg) + "\n")
        out.flush()

    share_cache()
    from vf import core
    try:
        importlib.import_module("props." + prop)
    except BaseException:
        send({"type": "harness", "error": traceback.format_exc()[-4000:]})
        return
    fd = os.open(curfile, os.O_RDWR | os.O_CREAT, 0o600)

    def current(text):
        os.pwrite(fd, (text + " " * 300)[:300].encode(), 0)

    send({"type": "ready"})
    for line in sys.stdin:
        item = json.loads(line)
        g = core.GROUPS[prop][item["group"]]
        ctx = core.Ctx(prop, g.name, tier, seed)
        vi = item["variant"]
        variant = g.variants[tier][vi]
        t0 = time.time()
        msg = {"type": "done", "item": item}
        cases = (item["cases"] if item.get("cases") is not None
                 else range(g.cases[tier]))
        try:
            for case in cases:
                if time.time() - t0 > item["budget"]:
                    msg["cut"] = True
                    break
                current(json.dumps([g.name, vi, case, time.time()]))
                ctx.begin(vi, variant, case)
                try:
                    g.fn(ctx, variant)
                except core.Skip:
                    ctx.skipped += 1
                    continue
                ctx.end()
        except core.Violation as v:
            msg["violation"] = dict(
                group=g.name, variant=vi, variant_text=str(variant),
                case=ctx.case, monitor=v.monitor, key=v.key,
                message=v.message[:6000], params=core._jsonable(ctx._sig))
        except BaseException as e:
            text = traceback.format_exc()[-6000:]
            if from_repo(e):
                msg["violation"] = dict(
                    group=g.name, variant=vi, variant_text=str(variant),
                    case=ctx.case, monitor="no-exception",
                    key="no-exception", message=text,
                    params=core._jsonable(ctx._sig))
            else:
                msg["harness"] = text
                msg["case"] = getattr(ctx, "case", None)
        current("")
        msg.update(counters=ctx.counters, evaluations=ctx.evaluations,
                   skipped=ctx.skipped, signatures=sorted(ctx.signatures),
                   nontrivial=sorted(ctx.nontrivial), samples=ctx.samples,
                   wall=time.time() - t0)
        send(msg)


if __name__ == "__main__":
    main()
