"""Assignment strings."""
import sys

import numpy as np

from vf.core import group

ASSUMPTIONS = [
    "values are Python literals or calls of slice on such values; strings "
    "are not unpacked",
    "the reference is the Python interpreter itself (exec with no builtins "
    "but slice)",
]

NAMES = ["a", "b", "c_1", "beta", "_x", "slice_", "l", "s"]


def literal(rng, depth=0):
    k = rng.randint(9 if depth < 2 else 5)
    if k == 0:
        return str(int(rng.randint(-50, 50)))
    if k == 1:
        return repr(float(rng.standard_normal() * 10.0**rng.randint(-8, 8)))
    if k == 2:
        text = "".join("ab;=, '\"#\\()"[i] for i in rng.randint(
            12, size=rng.randint(0, 6)))
        if rng.rand() < 0.2:
            # characters that stand for themselves in the source
            return "%s'%s'" % (["", "b", "r", "u"][rng.randint(4)], "".join(
                "\tx  y\t;#="[i] for i in rng.randint(
                    9, size=rng.randint(0, 7))))
        return repr(text)
    if k == 3:
        opts = ["None", "True", "False", "0x1f", "1e3", "b'x;y'", "3+4j",
                "-2.5", "'''t;\"u'''", "-3-4j", "+7", "1_000", "0b101",
                "'a' 'b;'", "2.5j", "-0.0", "'\u00e9\u2211'", "((3))",
                "1e400", "10**0"[:2], "0o17", "''", "..."]
        return opts[rng.randint(len(opts))]
    if k == 4:
        return repr(complex(0, int(rng.randint(5))))
    n = rng.randint(0, 4)
    parts = [literal(rng, depth + 1) for _ in range(n)]
    if k == 5:
        return "[" + ", ".join(parts) + "]"
    if k == 6:
        return "(" + ", ".join(parts) + ("," if n == 1 else "") + ")"
    if k == 7:
        return "{" + ", ".join("%s: %s" % (repr("k%d" % i), p)
                               for i, p in enumerate(parts)) + "}"
    return "{%s}" % ", ".join(str(int(v)) for v in rng.randint(
        9, size=max(n, 1)))


def call(rng):
    n = rng.randint(1, 4)
    return "slice(%s)" % ", ".join(
        call(rng) if rng.rand() < 0.1 else
        ["None", str(int(rng.randint(-9, 9))), "'u'"][rng.randint(3)]
        for _ in range(n))


def value(rng):
    return call(rng) if rng.rand() < 0.2 else literal(rng)


def statement(rng):
    """A statement and whether it is plain."""
    k = rng.randint(7)
    names = [NAMES[i] for i in rng.permutation(len(NAMES))]
    sp = [" ", "", "  "][rng.randint(3)]
    if k < 3:
        return "%s%s=%s%s" % (names[0], sp, sp, value(rng))
    if k == 3:
        return " = ".join(names[:rng.randint(2, 4)]) + " = " + value(rng)
    n = rng.randint(1, 5)
    vals = [literal(rng) for _ in range(n)]
    if k == 6:
        # several targets, some of which unpack
        rhs = ["[%s]", "(%s,)"][rng.randint(2)] % ", ".join(vals)
        lhs = []
        for _ in range(rng.randint(2, 5)):
            sub = [NAMES[i] for i in rng.permutation(len(NAMES))[:n]]
            j = rng.randint(4)
            lhs.append(sub[0] if j == 0 else
                       "[%s]" % ", ".join(sub) if j == 1 else
                       "%s," % ", ".join(sub) if j == 2 else
                       "(%s,)" % ", ".join(sub))
        return " = ".join(lhs) + " = " + rhs
    lhs = ", ".join(names[:n]) + ("," if n == 1 else "")
    br = [("(", ")"), ("[", "]"), ("", "")][rng.randint(3)]
    vb = [("(", ")"), ("[", "]"), ("", "")][rng.randint(3)]
    if vb[0] == "[":
        rhs = "[" + ", ".join(vals) + "]"
    else:
        rhs = vb[0] + ", ".join(vals) + ("," if n == 1 else "") + vb[1]
    return br[0] + lhs + br[1] + " = " + rhs


ILLEGAL = ["x = open('/dev/null')", "x = __import__('os')", "x = eval('1')",
           "x = [slice(1), 2]", "x = y", "x = 1 + y", "x", "x += 1",
           "del x", "import os", "x.y = 1", "x[0] = 1", "a, b = 1, 2, 3",
           "a, b = 1", "(a, b.c) = 1, 2", "x = os.getcwd()",
           "x = vf_hit(1)", "x = slice(vf_hit(1))", "x = (lambda: vf_hit)()",
           "x = slice(1).__class__", "x = [vf_hit(1)]", "x = f'{vf_hit(1)}'",
           "*a, b = 1, 2", "x = slice(*vf_hit(1))", "x = slice(exit)",
           "x = {vf_hit(1): 2}", "x = list((1,2))", "x: int = 3",
           "x = vf_mod.hit(2)", "x = (y := vf_hit(2))", "x = exit()",
           "x = print(vf_hit(1))", "x = getattr(vf_mod, 'hit')(1)",
           "x = not vf_hit", "x = [v for v in vf_hit(1)]",
           "x = slice()", "x = slice(1, 2, 3, 4)", "x = slice(1, step=2)",
           "x = slice(start=1)", "x = vf_mod.slice(1)", "x = 's'.upper()",
           "x = slice", "x = [slice]", "x = (slice(1))(2)",
           "a, b = slice(1, 2)", "(a, b) = 1", "[a, b] = [1]",
           "a, (b, c) = 1, (2, 3)", "x = 1; vf_hit(1)", "x = {**{1: 2}}",
           "x = [*(1, 2)]", "x = slice(*(1, 2))", "x = slice(**{})",
           "if 1: x = 2", "for x in (1, 2): pass", "x = y = z",
           "vf_mod.x = 1", "def x(): pass", "pass", "global x",
           "x = await_", "x = int('3')", "x = dict(a=1)", "x = range(3)",
           "x = tuple([1])", "x = complex(1, 2)", "x = float('nan')",
           "x = 1 if 2 else 3", "x = 1 < 2", "x = 1 and 2", "x = -'a'",
           "x = ~1", "x = not 1", "x = 3 * 4", "x = 2 ** 3", "x = 'a' + 'b'",
           "x = 'a' * 3", "x = [1] + [2]", "x = [1, 2][0]", "x = (1).real",
           "x = {'a': 1}['a']", "x = 'abc'[1:]", "x = '%d' % 3",
           "x = f'{1}'", "x = (1, y)", "x = {'k': [vf_hit(2)]}"]


def hostile(rng, names):
    """An expression that is no literal and no slice, somewhere in one."""
    name = names[rng.randint(len(names))]
    lit = literal(rng, 1)
    bad = [name, "vf_hit(%s)" % lit, "vf_mod.hit(%s)" % lit,
           "vf_mod.slice(%s)" % lit, "(lambda: vf_hit(1))()",
           "[vf_hit(v) for v in (1, 2)]", "f'{vf_hit(1)}'",
           "(%s if 1 else vf_hit(1))" % lit, "(vf_hit(1) or 2)",
           "(w := %s)" % lit, "2 ** 3", "3 * 4", "'a' + 'b'", "1 < 2",
           "(1, 2)[0]", "'a'.upper()", "int(%s)" % lit, "%s.x" % name,
           "%s[0]" % name, "abs(-1)", "~1", "not 1", "exit()",
           "max(1, 2)", "__import__('vf_none')", "len('abc')",
           "range(3)", "list()", "dict()", "frozenset()",
           "slice.__class__", "type(1)", "repr(1)", "print(1)",
           "%s + 1" % name, "-%s" % name, "[*%s]" % name,
           "{**%s}" % name][rng.randint(38)]
    j = rng.randint(8)
    if j < 3:
        return bad
    if j == 3:
        return "[%s, %s]" % (lit, bad)
    if j == 4:
        return "(%s, %s)" % (bad, lit)
    if j == 5:
        return "{'k': %s}" % bad
    if j == 6:
        return "slice(%s, 3)" % bad
    return "slice(1, slice(2, %s))" % bad


@group("U04", "assignments", quick=1500, thorough=40000,
       require=["same as the interpreter", "illegal rejected",
                "later statement illegal", "nothing executed"])
def assignments(ctx, variant):
    """random assignment programs, legal and hostile; non-trivial: several
    statements"""
    import builtins
    from africanus.util.cmdline import parse_python_assigns as parse
    rng = ctx.rng
    stmts = [statement(rng) for _ in range(rng.randint(1, 6))]
    text = [";", "; ", " ; "][rng.randint(3)].join(stmts)
    if rng.rand() < 0.2:
        text += ";"
    if rng.rand() < 0.2:
        text += [" ", "\n", "  # x; y = 3", " #"][rng.randint(4)]
    ctx.sig(text=text)
    if len(stmts) < 2:
        ctx.trivial()
    env = {"__builtins__": {"slice": slice}}
    exec(text, env)
    env.pop("__builtins__")
    got = ctx.call(parse, text)
    ctx.equal("same as the interpreter", sorted(got), sorted(env), text)
    for k in env:
        ctx.ok("same as the interpreter", same(got[k], env[k]),
               "%s: %s is %r, not %r" % (text, k, got[k], env[k]))
    for k in env:
        for j in env:
            if isinstance(env[k], (list, dict, set)):
                ctx.ok("same as the interpreter", (got[k] is got[j]) ==
                       (env[k] is env[j]), "%s: %s and %s are %sone object" % (
                           text, k, j, "not " * (env[k] is env[j])))
    ctx.ok("same as the interpreter", parse("") == {} and parse(None) == {},
           "empty")
    # hostile programs: rejected, and nothing runs
    hits = []

    class Mod(object):
        hit = staticmethod(hits.append)
        slice = staticmethod(lambda *a: hits.append(a))
    builtins.vf_hit, builtins.vf_mod = hits.append, Mod
    keep = (sys.stdout, dict(vars(builtins)))
    try:
        for bad in (ILLEGAL[rng.randint(len(ILLEGAL))],
                    "x = " + hostile(rng, sorted(env)),
                    "x = y = " + hostile(rng, sorted(env)),
                    "x, y = 1, " + hostile(rng, sorted(env))):
            where = rng.randint(4)
            if ":" in bad and not bad.startswith("x = "):
                where = 0
            prog = [bad, "a = 1; " + bad, bad + "; a = 1",
                    ";".join(stmts) + ";" + bad][where]
            if where in (1, 3):
                ctx.count("later statement illegal")
            ctx.raises("illegal rejected", Exception, parse, prog)
            ctx.ok("nothing executed", not hits, prog)
    finally:
        del builtins.vf_hit, builtins.vf_mod
    del keep


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, slice):
        return same((a.start, a.stop, a.step), (b.start, b.stop, b.step))
    if isinstance(a, float) and np.isnan(a):
        return bool(np.isnan(b))
    return a == b
