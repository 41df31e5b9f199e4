"""Monitor runtime: contexts, oracles' comparison primitives, groups.

A *group* is a workload plus the monitors that watch it.  A group has
*variants* (usually: one per combination of types, since every combination is
compiled separately by numba) and runs a number of *cases* per variant.  Every
case gets its own random generator, derived from (seed, property, group,
variant, case), so that a single case can be replayed.
"""
import hashlib
import json
import traceback

import numpy as np

from vf import gen


class Violation(Exception):
    """The code under test did something the property forbids."""

    def __init__(self, monitor, message, key=None):
        Exception.__init__(self, "%s: %s" % (monitor, message))
        self.monitor = monitor
        self.message = message
        self.key = key or monitor


class Skip(Exception):
    """The generated case is outside the property's domain."""


GROUPS = {}
# the cheap checks run more cases
MORE = dict(M03=3, M04=3, C01=2, D01=3, L01=4, U01=2, U02=2, U03=3, U04=2,
            G01=2, G02=2, G04=2, R01=1.5, R03=1.5, R04=2, R05=2)


class Group(object):
    def __init__(self, prop, name, fn, quick, thorough, variants, require,
                 env, weight, rule):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.cases = {"quick": quick, "thorough": thorough}
        self.variants = variants
        self.require = require
        self.env = env
        self.weight = weight
        self.rule = rule


def group(prop, name, quick=20, thorough=200, variants=(None,),
          thorough_variants=None, require=(), env=None, weight=1, rule=None):
    """Registers a group.  `variants` is a sequence (or dict tier ->
    sequence); `require` names the monitor counters that must be non-zero for
    the run to be conclusive."""
    if name != "bulk":
        quick = int(quick * MORE.get(prop, 1))

    def deco(fn):
        if isinstance(variants, dict):
            v = {k: list(x) for k, x in variants.items()}
        else:
            v = {"quick": list(variants),
                 "thorough": list(thorough_variants or variants)}
        GROUPS.setdefault(prop, {})[name] = Group(
            prop, name, fn, quick, thorough, v, tuple(require), env or {},
            weight, rule or " ".join((fn.__doc__ or "").split()))
        return fn
    return deco


def _jsonable(x, depth=0):
    if isinstance(x, (str, int, float, bool, type(None))):
        return x
    if isinstance(x, np.generic):
        return str(x)
    if isinstance(x, np.ndarray):
        if x.size <= 12:
            return {"array": repr(x.tolist()), "dtype": str(x.dtype)}
        return {"shape": list(x.shape), "dtype": str(x.dtype)}
    if isinstance(x, dict) and depth < 5:
        return {str(k): _jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)) and depth < 5:
        return [_jsonable(v, depth + 1) for v in x]
    return str(x)


class Ctx(object):
    def __init__(self, prop, grp, tier, seed):
        self.prop = prop
        self.group = grp
        self.tier = tier
        self.seed = seed
        self.counters = {}
        self.evaluations = 0
        self.skipped = 0
        self.signatures = set()
        self.nontrivial = set()
        self.samples = []
        self.known_hits = []
        self._sig = None
        self._nontrivial = True
        self.store = {}

    # ---- case bookkeeping
    def begin(self, variant_index, variant, case):
        h = hashlib.sha256(("%s/%s/%s/%s/%s" % (
            self.seed, self.prop, self.group, variant_index, case)).encode())
        self.rng = gen.Rng(
            np.frombuffer(h.digest()[:16], dtype=np.uint32))
        self.variant = variant
        self.case = case
        self._sig = {}
        self._nontrivial = True

    def end(self):
        self.evaluations += 1
        s = hashlib.sha1(json.dumps(
            [self.group, str(self.variant), _jsonable(self._sig)],
            sort_keys=True).encode()).hexdigest()
        self.signatures.add(s)
        if self._nontrivial and self._sig:
            self.nontrivial.add(s)
        if len(self.samples) < 2 and self._sig:
            self.samples.append(dict(group=self.group,
                                     variant=str(self.variant),
                                     case=self.case,
                                     params=_jsonable(self._sig)))

    def sig(self, **kw):
        self._sig.update(kw)

    def trivial(self):
        self._nontrivial = False

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    # ---- monitors
    def call(self, fn, *args, **kwargs):
        """Runs the code under test on a legal input: it must not raise."""
        try:
            return fn(*args, **kwargs)
        except (Violation, Skip, MemoryError, KeyboardInterrupt):
            raise
        except BaseException as e:
            tb = traceback.format_exc()
            raise Violation("no-exception", "%s raised %s: %s\n%s" % (
                getattr(fn, "__name__", fn), type(e).__name__, e,
                tb[-3000:]))

    def raises(self, name, exc, fn, *args, **kwargs):
        """Runs the code under test on an illegal input: it must raise."""
        self.count(name)
        try:
            r = fn(*args, **kwargs)
        except exc:
            return
        except BaseException as e:
            raise Violation(name, "expected %s, got %s: %s" % (
                exc, type(e).__name__, e))
        raise Violation(name, "expected %s, but the call returned %s" % (
            exc, _jsonable(r)))

    def ok(self, name, cond, message="", **detail):
        self.count(name)
        if not bool(cond):
            raise Violation(name, "%s %s" % (message, _jsonable(detail)))

    def equal(self, name, got, want, what=""):
        """Exact equality (arrays, NaN == NaN), shapes included."""
        self.count(name)
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise Violation(name, "%s shape %s, expected %s" % (
                what, g.shape, w.shape))
        if g.dtype.kind in "fc" or w.dtype.kind in "fc":
            same = (g == w) | ((g != g) & (w != w))
        else:
            same = (g == w)
        if not np.all(same):
            i = tuple(np.argwhere(~np.asarray(same))[0])
            raise Violation(name, "%s differs at %s of %s: got %s expected %s"
                            % (what, i, g.shape, g[i], w[i]))

    def close(self, name, got, want, rtol=1e-9, atol=0.0, scale=None,
              what=""):
        """|got - want| <= atol + rtol * max(|want|, scale), NaN == NaN."""
        self.count(name)
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise Violation(name, "%s shape %s, expected %s" % (
                what, g.shape, w.shape))
        if g.size == 0:
            return
        if g.dtype == object or w.dtype == object:
            raise Violation(name, "%s has dtype object" % what)
        with np.errstate(all="ignore"):
            if scale is None:
                s = np.abs(w)
            elif scale == "max":
                a = np.abs(w)
                a = a[np.isfinite(a)]
                s = a.max() if a.size else 0.0
            else:
                s = np.maximum(np.abs(w), scale)
            wide = np.result_type(g, w, np.float64)
            err = np.abs(g.astype(wide) - w.astype(wide))
            good = err <= atol + rtol * s
            good |= (g == w)
            good |= (g != g) & (w != w)
        if not np.all(good):
            bad = np.argwhere(~good)
            i = tuple(bad[0])
            raise Violation(
                name, "%s differs at %d of %d places, first %s of shape %s: "
                "got %s expected %s (rtol=%s atol=%s)" % (
                    what, len(bad), g.size, i, g.shape, g[i], w[i],
                    np.max(rtol), np.max(atol)))
