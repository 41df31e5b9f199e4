#!/usr/bin/env python3
"""Mutation testing of the checks (by hand; no check uses this).

mutate.py OUT.jsonl --n 6 [--files substring] [--seed S] [--list]

For a random sample of small changes of every source file, runs the checks
responsible for that file against a changed scratch copy of /repo, and notes
whether one of them raised an alarm."""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
    ("averaging/dask.py", "A03"),
    ("averaging/splines.py", "U02"),
    ("averaging/time_and_channel_mapping.py", "A01 A02"),
    ("averaging/", "A02 A01"),
    ("calibration/phase_only/dask.py", "K03"),
    ("calibration/phase_only/", "K02 K03"),
    ("calibration/utils/dask.py", "K03"),
    ("calibration/utils/utils.py", "K01 K03"),
    ("calibration/utils/", "K01"),
    ("constants/", "R03 D01"),
    ("coordinates/", "C01"),
    ("deconv/", "D01"),
    ("dft/", "R03"),
    ("gps/", "L01"),
    ("gridding/nifty/", "G04"),
    ("gridding/perleypolyhedron/", "G03"),
    ("gridding/util.py", "D01"),
    ("gridding/wgridder/dask.py", "G02"),
    ("gridding/wgridder/", "G01 G02"),
    ("linalg/geometry.py", "L02"),
    ("linalg/kronecker_tools.py", "L01"),
    ("model/coherency/", "M04"),
    ("model/shape/", "M01"),
    ("model/spectral/", "M01"),
    ("model/spi/", "M03"),
    ("model/wsclean/file_model.py", "M02"),
    ("model/wsclean/", "M01"),
    ("rime/dask.py", "R03 R04 R05 R02 M02"),
    ("rime/dask_predict.py", "R02"),
    ("rime/fast_beam_cubes.py", "R04"),
    ("rime/feeds.py", "R05"), ("rime/parangles", "R05"),
    ("rime/transform.py", "R05"), ("rime/zernike.py", "R05"),
    ("rime/phase.py", "R03"), ("rime/jax/", "R03"),
    ("rime/wsclean_predict.py", "M02"),
    ("rime/predict.py", "R01"),
    ("testing/beam_factory.py", "U03"),
    ("util/beams.py", "U03"), ("util/cmdline.py", "U04"),
    ("util/numba.py", "X02"),
    ("util/", "U01"),
]
SKIP = ("tests", "/test/", "examples", "cuda", "nvcc", "cub.py", "trove",
        "jinja2", "conftest", "jax_init", "appdirs", "__init__",
        "test_shuffle")


def props_for(f):
    for pre, p in MAP:
        if f.startswith(pre):
            return p.split()
    return []


CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.BitAnd: ast.BitOr,
       ast.BitOr: ast.BitAnd, ast.Mod: ast.Mult, ast.Pow: ast.Mult}


def mutants(tree):
    """(node, replacement, what) for every mutation."""
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.Assert)):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if (n.body and isinstance(n.body[0], ast.Expr)
                    and isinstance(n.body[0].value, ast.Constant)):
                skip.add(id(n.body[0])), skip.add(id(n.body[0].value))
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                skip.update(id(x) for x in ast.walk(d))
        if isinstance(n, ast.JoinedStr):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and n.func.attr in (
                    "format", "Template", "DocstringTemplate", "warn"):
            skip.update(id(x) for x in ast.walk(n))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue

        def new(**kw):
            m = copy.copy(n)
            for k, v in kw.items():
                setattr(m, k, v)
            return m
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append((n, new(ops=[CMP[type(n.ops[0])]()] + n.ops[1:]),
                        "compare"))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if not (isinstance(n.op, ast.Mod) and isinstance(
                    n.left, ast.Constant)):
                out.append((n, new(op=BIN[type(n.op)]()), "operator"))
            if not isinstance(n.op, (ast.Mod,)):
                out.append((n, n.left, "left only"))
                out.append((n, n.right, "right only"))
        elif isinstance(n, ast.BoolOp):
            op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            out.append((n, new(op=op), "boolean"))
        elif isinstance(n, ast.UnaryOp) and isinstance(
                n.op, (ast.Not, ast.USub, ast.Invert)):
            out.append((n, n.operand, "unary"))
        elif isinstance(n, ast.Constant) and isinstance(
                n.value, (int, float)) and not isinstance(n.value, bool):
            if isinstance(n.value, int):
                out.append((n, ast.Constant(n.value + 1), "constant"))
                if n.value > 0:
                    out.append((n, ast.Constant(n.value - 1), "constant"))
            else:
                out.append((n, ast.Constant(n.value * 1.5 + 0.25),
                            "constant"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((n, ast.Constant(not n.value), "bool"))
        elif isinstance(n, ast.Call):
            name = (n.func.attr if isinstance(n.func, ast.Attribute)
                    else getattr(n.func, "id", ""))
            if name in ("conj", "conjugate", "abs", "sqrt", "real", "ceil",
                        "floor", "sorted", "unique", "round", "rint") and \
                    len(n.args) == 1:
                out.append((n, n.args[0], "drop " + name))
            pair = {"min": "max", "max": "min", "sin": "cos", "cos": "sin",
                    "floor": "ceil", "ceil": "floor", "zeros": "ones",
                    "zeros_like": "empty_like", "minimum": "maximum",
                    "maximum": "minimum", "any": "all", "all": "any"}
            if name in pair and isinstance(n.func, ast.Attribute):
                f = copy.copy(n.func)
                f.attr = pair[name]
                out.append((n, new(func=f), name + " -> " + pair[name]))
            elif name in pair and isinstance(n.func, ast.Name):
                out.append((n, new(func=ast.Name(pair[name])),
                            name + " -> " + pair[name]))
            if len(n.args) >= 2 and name not in ("range", "isinstance"):
                i = random.randrange(len(n.args) - 1)
                a = list(n.args)
                a[i], a[i + 1] = a[i + 1], a[i]
                out.append((n, new(args=a), "swap arguments"))
            for k in n.keywords:
                if k.arg:
                    out.append((n, new(keywords=[
                        x for x in n.keywords if x is not k]),
                        "drop keyword " + k.arg))
        elif isinstance(n, ast.AugAssign):
            out.append((n, ast.Assign([n.target], n.value, lineno=0),
                        "+= to ="))
            out.append((n, ast.Pass(), "delete"))
            if type(n.op) in BIN:
                out.append((n, new(op=BIN[type(n.op)]()), "aug operator"))
        elif isinstance(n, ast.Assign) and isinstance(
                n.targets[0], ast.Subscript):
            out.append((n, ast.Pass(), "delete"))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((n, ast.Pass(), "delete"))
        elif isinstance(n, ast.If):
            out.append((n.test, ast.Constant(True), "if True"))
            out.append((n.test, ast.Constant(False), "if False"))
        elif isinstance(n, ast.IfExp):
            out.append((n, n.body, "first"))
            out.append((n, n.orelse, "second"))
        elif isinstance(n, (ast.Break, ast.Continue)):
            out.append((n, ast.Pass(), "delete"))
        elif isinstance(n, ast.Subscript) and isinstance(
                n.slice, ast.Tuple) and len(n.slice.elts) >= 2:
            i = random.randrange(len(n.slice.elts) - 1)
            e = list(n.slice.elts)
            e[i], e[i + 1] = e[i + 1], e[i]
            if ast.dump(e[i]) != ast.dump(e[i + 1]):
                out.append((n, new(slice=ast.Tuple(e, n.slice.ctx)),
                            "swap indices"))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            twin = {"a1": "a2", "a2": "a1", "p": "q", "q": "p",
                    "ant1": "ant2", "ant2": "ant1", "antenna1": "antenna2",
                    "antenna2": "antenna1", "l": "m", "m": "l", "u": "v",
                    "v": "u", "x": "y", "y": "x"}.get(n.id)
            if twin:
                out.append((n, ast.Name(twin, n.ctx), "other name"))
    return out


def apply(src, node, new):
    lines = src.splitlines(keepends=True)

    def off(line, col):
        return (sum(len(x.encode()) for x in lines[:line - 1])) + col
    b = src.encode()
    s, e = off(node.lineno, node.col_offset), off(node.end_lineno,
                                                  node.end_col_offset)
    text = ast.unparse(ast.fix_missing_locations(new))
    if isinstance(new, (ast.BinOp, ast.Compare, ast.BoolOp, ast.IfExp,
                        ast.UnaryOp)):
        text = "(" + text + ")"
    return (b[:s] + text.encode() + b[e:]).decode(), text


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=6, help="per 100 lines")
    ap.add_argument("--files", default="")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--extra", default="")
    a = ap.parse_args()
    random.seed(a.seed)
    files = subprocess.check_output(
        ["git", "-C", "/repo", "ls-files", "africanus/*.py"]
    ).decode().split()
    todo = []
    for f in files:
        if any(s in "/" + f for s in SKIP) or a.files not in f:
            continue
        ps = props_for(f[len("africanus/"):])
        if not ps:
            continue
        src = open(os.path.join("/repo", f)).read()
        ms = mutants(ast.parse(src))
        n = max(2, len(src.splitlines()) * a.n // 100)
        random.shuffle(ms)
        seen = set()
        k = 0
        for node, new, what in ms:
            try:
                text, repl = apply(src, node, new)
                compile(text, f, "exec")
            except Exception:
                continue
            if text in seen or text == src:
                continue
            seen.add(text)
            old = ast.get_source_segment(src, node)
            todo.append((f, node.lineno, what, old, repl, text,
                         ps + a.extra.split()))
            k += 1
            if k >= n:
                break
    random.shuffle(todo)
    print(len(todo), "mutants", file=sys.stderr)
    if a.list:
        for t in todo:
            print(t[0], t[1], t[2], "|", t[3], "->", t[4])
        return
    done = set()
    if os.path.exists(a.out):
        for x in open(a.out):
            d = json.loads(x)
            done.add((d["file"], d["line"], d["old"], d["new"]))
    from concurrent.futures import ThreadPoolExecutor

    def one(t):
        f, line, what, old, repl, text, ps = t
        if (f, line, old, repl) in done:
            return
        sc = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
        try:
            shutil.copytree("/repo/africanus", sc + "/repo/africanus",
                            ignore=shutil.ignore_patterns("__pycache__"))
            shutil.copytree(HERE, sc + "/verif",
                            ignore=shutil.ignore_patterns(
                                ".git", "seeded", "replays", "evidence"))
            with open(os.path.join(sc, "repo", f), "w") as h:
                h.write(text)
            res = {}
            killed = None
            t0 = time.time()
            for p in ps:
                r = subprocess.run(
                    ["python3", sc + "/verif/run_check.py", p, "--jobs",
                     str(max(1, 8 // a.jobs))], capture_output=True,
                    text=True, env=dict(os.environ, VERIF_REPO=sc + "/repo",
                                        VERIF_TIER="quick"))
                res[p] = r.returncode
                if r.returncode == 1:
                    killed = p
                    break
                if r.returncode not in (0, 1):
                    res[p + "-out"] = r.stdout[-600:]
            with open(a.out, "a") as h:
                h.write(json.dumps(dict(
                    file=f, line=line, what=what, old=old, new=repl,
                    results=res, killed=killed,
                    wall=round(time.time() - t0, 1))) + "\n")
        finally:
            shutil.rmtree(sc, ignore_errors=True)
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, todo))


if __name__ == "__main__":
    main()
