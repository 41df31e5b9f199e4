#!/usr/bin/env python3
"""run_check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--jobs N]

Runs the monitors of one property against /repo's working tree.
exit 0: the property held on everything observed (known findings excepted)
exit 1: a violation (a line "VIOLATION property=<id> replay=<path>")
exit 2: no verdict (harness error, or the monitors did not observe enough)
"""
import argparse
import json
import os
import queue
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
CASE_LIMIT = 240.0      # s: a single case that takes longer does not terminate


def known_findings(prop):
    res = []
    try:
        with open(os.path.join(HERE, "known-findings.txt")) as f:
            for line in f:
                line = line.strip()
                tag = "finding: property=%s " % prop
                if line.startswith(tag):
                    key, _, text = line[len(tag):].partition(" ")
                    res.append((key, text))
    except IOError:
        pass
    return res


class Worker(object):
    def __init__(self, n, prop, tier, seed, env, scratch, events):
        self.n = n
        self.cur = os.path.join(scratch, "cur-%d-%d" % (n, time.time_ns()))
        self.log = os.path.join(scratch, "log-%d-%d" % (n, time.time_ns()))
        self.logf = open(self.log, "wb")
        self.p = subprocess.Popen(
            [PY, "-m", "vf.worker", prop, tier, str(seed), self.cur],
            cwd=scratch, env=env, stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=self.logf,
            start_new_session=True)
        self.item = None
        self.ready = False
        self.closed = False
        self.t = threading.Thread(target=self.pump, args=(events,))
        self.t.daemon = True
        self.t.start()

    def pump(self, events):
        for line in self.p.stdout:
            try:
                events.put((self, json.loads(line.decode())))
            except ValueError:
                pass
        self.p.wait()
        events.put((self, None))

    def give(self, item):
        self.item = item
        try:
            self.p.stdin.write((json.dumps(item) + "\n").encode())
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass

    def current(self):
        try:
            with open(self.cur) as f:
                s = f.read().strip()
            return json.loads(s) if s else None
        except (IOError, ValueError):
            return None

    def tail(self):
        try:
            with open(self.log, "rb") as f:
                return f.read()[-3000:].decode(errors="replace")
        except IOError:
            return ""

    def stop(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--group")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop, tier = a.property, a.tier
    t0 = time.time()

    replay = None
    if a.replay:
        with open(a.replay) as f:
            replay = json.load(f)
        seed, tier = replay["seed"], replay["tier"]

    sys.path.insert(0, HERE)
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    env = dict(os.environ)
    env.update(
        PYTHONPATH=HERE + os.pathsep + REPO, PYTHONDONTWRITEBYTECODE="1",
        NUMBA_CACHE_DIR=os.path.join(scratch, "numba"),
        XDG_CACHE_HOME=os.path.join(scratch, "xdg"),
        MPLCONFIGDIR=os.path.join(scratch, "mpl"), MPLBACKEND="agg",
        TMPDIR=scratch, HOME=scratch, VF_SCRATCH=scratch,
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        NUMBA_NUM_THREADS="4", PYTHONHASHSEED="0",
        PYTHONFAULTHANDLER="1", VERIF_TIER=tier,
        # fresh heap memory is filled with 0x5a, freed memory with 0xa5:
        # results that depend on either differ from the oracles
        MALLOC_PERTURB_="165",
        # (a thread's own cache of freed blocks is not perturbed)
        GLIBC_TUNABLES="glibc.malloc.tcache_count=0")
    env.pop("NUMBA_DISABLE_JIT", None)
    # the group table, without importing the code under test here
    meta = json.loads(subprocess.check_output(
        [PY, os.path.join(HERE, "vf", "meta.py"), prop, tier], env=env,
        cwd=scratch).decode())
    if "error" in meta:
        print(meta["error"])
        shutil.rmtree(scratch, ignore_errors=True)
        print("INCONCLUSIVE property=%s: the monitors do not load" % prop)
        return 2

    items = []
    budget = {"quick": 300.0, "thorough": 2400.0}[tier]
    for g in meta["groups"]:
        if a.group and g["name"] != a.group:
            continue
        for vi in range(g["variants"]):
            items.append(dict(group=g["name"], variant=vi, budget=budget,
                              env=g["env"], weight=g["weight"]))
    if replay:
        items = [dict(group=replay["group"], variant=replay["variant"],
                      cases=[replay["case"]], budget=budget,
                      env=[g for g in meta["groups"]
                           if g["name"] == replay["group"]][0]["env"],
                      weight=1)]
    items.sort(key=lambda i: -i["weight"])

    jobs = a.jobs or min(8, os.cpu_count() or 1, max(1, len(items)))
    events = queue.Queue()
    pending = list(items)
    workers = []
    results, violations, harness, cuts = [], [], [], 0
    known = dict(known_findings(prop))
    known_seen = {}

    def next_item(wenv):
        for i, it in enumerate(pending):
            if it["env"] == wenv:
                return pending.pop(i)
        return None

    def spawn(n):
        if not pending:
            return
        wenv = pending[0]["env"]
        e = dict(env)
        e.update(wenv)
        if wenv:        # code compiled in one way is not used in the other
            e["NUMBA_CACHE_DIR"] += "-" + "-".join(
                "%s%s" % kv for kv in sorted(wenv.items()))
        w = Worker(n, prop, tier, seed, e, scratch, events)
        w.env = wenv
        workers.append(w)

    # envs get their share of workers
    for n in range(jobs):
        envs = []
        for it in pending:
            if it["env"] not in envs:
                envs.append(it["env"])
        have = [w.env for w in workers]
        envs.sort(key=lambda x: (
            have.count(x) / float(sum(i["weight"] for i in pending
                                      if i["env"] == x))))
        x = envs[0]
        pending.sort(key=lambda i: (i["env"] != x, -i["weight"]))
        spawn(n)
    pending.sort(key=lambda i: -i["weight"])

    stop = False
    total_limit = {"quick": 840.0, "thorough": 7000.0}[tier]

    def record(v, item):
        if v["key"] in known:
            known_seen[v["key"]] = known[v["key"]]
        else:
            violations.append(v)

    last_seen = {}
    while any(not w.closed for w in workers):
        try:
            w, msg = events.get(timeout=2.0)
        except queue.Empty:
            if time.time() - t0 > total_limit:
                harness.append("time limit of %ds reached" % total_limit)
                stop = True
            for w in workers:
                if w.closed or not w.item:
                    continue
                c = w.current()
                # the clock runs per case, since this process saw it start
                k = (w.n, tuple(c) if c else None)
                if c and k not in last_seen:
                    last_seen[k] = time.time()
                if c and time.time() - last_seen[k] > CASE_LIMIT:
                    record(dict(group=c[0], variant=c[1], case=c[2],
                                monitor="terminates", key="terminates",
                                message="the case did not finish within %ds\n"
                                % CASE_LIMIT + w.tail(), params={}), w.item)
                    stop = True
            if stop:
                break
            continue
        if msg is None:
            w.closed = True
            if w.item is not None:
                rc = w.p.returncode
                c = w.current()
                if c:
                    if rc in (-9, -15):
                        harness.append("worker killed (%s) in %s" % (rc, c))
                    else:
                        record(dict(
                            group=c[0], variant=c[1], case=c[2],
                            monitor="no-crash", key="no-crash",
                            message="the process died (status %s) in this "
                            "case\n%s" % (rc, w.tail()), params={}), w.item)
                else:
                    harness.append("worker died (%s): %s" % (rc, w.tail()))
                w.item = None
                stop = True
        elif msg["type"] == "harness":
            harness.append(msg["error"])
            stop = True
        else:
            if msg["type"] == "done":
                w.item = None
                results.append(msg)
                if msg.get("cut"):
                    cuts += 1
                if msg.get("harness"):
                    harness.append("%s case %s:\n%s" % (
                        msg["item"], msg.get("case"), msg["harness"]))
                    stop = True
                if msg.get("violation"):
                    record(msg["violation"], msg["item"])
                    if violations:
                        stop = True
                if a.verbose:
                    print("%6.1f w%d %s/%s %d cases %.1fs %s" % (
                        time.time() - t0, w.n, msg["item"]["group"],
                        msg["item"]["variant"], msg["evaluations"],
                        msg["wall"], msg.get("violation", "")))
            if stop:
                break
            it = next_item(w.env)
            if it is None:
                w.p.stdin.close()
                w.closed = True
                if pending:
                    spawn(w.n)
            else:
                w.give(it)
        if stop:
            break
    for w in workers:
        w.stop()

    # ---- verdict
    counters, sigs, nontriv, samples = {}, set(), set(), []
    evals = skipped = 0
    per_group = {}
    for r in results:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        sigs.update(r["signatures"])
        nontriv.update(r["nontrivial"])
        evals += r["evaluations"]
        skipped += r["skipped"]
        g = r["item"]["group"]
        pg = per_group.setdefault(g, dict(cases=0, variants=0, cpu_s=0.0))
        pg["cases"] += r["evaluations"]
        pg["variants"] += 1
        pg["cpu_s"] = round(pg["cpu_s"] + r["wall"], 1)
        if len([s for s in samples if s["group"] == g]) < 1:
            samples += r["samples"][:1]
    missing = []
    if not replay and not a.group and not violations:
        if pending or len(results) < len(items):
            if not harness:
                harness.append("%d of %d items ran" % (len(results),
                                                       len(items)))
        for g in meta["groups"]:
            for r in g["require"]:
                if not counters.get(r):
                    missing.append("%s/%s" % (g["name"], r))
    wall = time.time() - t0
    if not replay and not a.group:
        ev = dict(
            property=prop, tier=tier, seed=seed, level="exploration",
            coverage=dict(
                evaluations=evals, distinct_nontrivial=len(nontriv),
                rule="; ".join("%s: %s" % (g["name"], g["rule"])
                               for g in meta["groups"]),
                samples=samples[:8] or [dict(note="no case completed")],
                monitor_events=counters, groups=per_group,
                distinct_signatures=len(sigs), skipped_cases=skipped,
                items_cut_by_time=cuts, missing_events=missing,
                known_findings_seen=sorted(known_seen)),
            assumptions=meta["assumptions"],
            violations=len(violations), wall_s=round(wall, 2))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
    shutil.rmtree(scratch, ignore_errors=True)
    for k in sorted(known_seen):
        print("KNOWN-FINDING: property=%s %s" % (prop, known_seen[k]))
    if violations:
        for v in violations[:3]:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", "%s-%s-%s-%s.json" % (
                prop, v["group"].replace(" ", "_"), v["variant"], v["case"]))
            v.update(property=prop, tier=tier, seed=seed,
                     how="python3 /verif/run_check.py %s --replay %s" % (
                         prop, path))
            with open(path, "w") as f:
                json.dump(v, f, indent=1, sort_keys=True)
            print("  monitor %s, group %s, variant %s, case %s: %s" % (
                v["monitor"], v["group"], v.get("variant_text", v["variant"]),
                v["case"], v["message"][:2500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if harness:
        for h in harness[:3]:
            print(h)
        print("INCONCLUSIVE property=%s" % prop)
        return 2
    if missing:
        print("INCONCLUSIVE property=%s: not observed: %s" % (
            prop, ", ".join(missing)))
        return 2
    print("HELD property=%s tier=%s seed=%d: %d cases (%d distinct "
          "non-trivial), %d monitor events, %.1fs" % (
              prop, tier, seed, evals, len(nontriv), sum(counters.values()),
              wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
