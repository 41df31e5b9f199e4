"""A stand-in for cupy: arrays are numpy arrays, RawKernel compiles the CUDA
source for the emulated device of cuda_emu.h and runs it there.

Arrays handed to a kernel live between guard pages, so that an access beyond
them through a raw pointer ends the process."""
import ctypes
import hashlib
import mmap
import os
import subprocess
import sys
import types

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
PAGE = mmap.PAGESIZE
LIBC = ctypes.CDLL(None, use_errno=True)


class EmulatorError(Exception):
    """The device found that the kernel does something undefined."""


class CompileException(Exception):
    pass


class Unsupported(Exception):
    """The source uses something the emulator does not offer."""


STATS = dict(launches=0, blocks=0, threads=0, syncs=0, warp_ops=0,
             compiled=0)
SEED = [1]


class Guarded(object):
    """Device memory: the array ends (or starts) at a forbidden page."""

    def __init__(self, a, at_end):
        a = np.asarray(a)
        self.a = a
        n = a.nbytes
        pages = max(1, (n + 15 + PAGE - 1) // PAGE)
        self.m = mmap.mmap(-1, (pages + 2) * PAGE)
        base = ctypes.addressof(ctypes.c_char.from_buffer(self.m))
        for p in (base, base + (pages + 1) * PAGE):
            if LIBC.mprotect(ctypes.c_void_p(p), PAGE, 0):
                raise OSError("mprotect")
        self.off = (PAGE + pages * PAGE - (n + 15) // 16 * 16 if at_end
                    else PAGE)
        self.base, self.pages, self.n = base, pages, n
        self.addr = base + self.off
        ctypes.memset(base + PAGE, 0x5a, pages * PAGE)
        c = np.ascontiguousarray(a)
        ctypes.memmove(self.addr, c.ctypes.data, n)

    def back(self):
        size = self.pages * PAGE
        raw = np.frombuffer((ctypes.c_char * size).from_address(
            self.base + PAGE), dtype=np.uint8)
        s = self.off - PAGE
        if (raw[:s] != 0x5a).any() or (raw[s + self.n:] != 0x5a).any():
            raise EmulatorError("a kernel wrote outside an array")
        return raw[s:s + self.n].copy().view(self.a.dtype).reshape(
            self.a.shape)


class RawKernel(object):
    def __init__(self, code, name, options=(), **kw):
        self.code = code.decode() if isinstance(code, bytes) else code
        self.name = name
        self.lib = None

    def compile(self):
        src = self.code.replace("#include <cupy/carray.cuh>", "")
        text = '#include "cuda_emu.h"\n#line 1 "%s.cu"\n%s\nEMU_LAUNCHER(%s)\n' % (
            self.name, src, self.name)
        d = os.path.join(os.environ.get("VF_SCRATCH") or "/tmp", "cuda")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(text.encode()).hexdigest()[:20]
        so = os.path.join(d, h + ".so")
        if not os.path.exists(so):
            cpp = os.path.join(d, "%s-%d.cpp" % (h, os.getpid()))
            with open(cpp, "w") as f:
                f.write(text)
            tmp = so + ".%d" % os.getpid()
            r = subprocess.run(
                ["g++", "-std=c++17", "-O1", "-g", "-w", "-shared", "-fPIC",
                 "-ffp-contract=off", "-ftrivial-auto-var-init=pattern",
                 "-fsanitize=undefined", "-fno-sanitize=vptr",
                 "-fno-sanitize-recover=all", "-I", HERE, cpp, "-o", tmp],
                capture_output=True, text=True)
            if r.returncode:
                raise CompileException(r.stderr[:3000])
            os.rename(tmp, so)
        self.lib = ctypes.CDLL(so)
        STATS["compiled"] += 1

    def __call__(self, grid, block, args):
        if self.lib is None:
            self.compile()
        keep, ptrs, nd, it, mems = [], [], [], [], []
        for i, a in enumerate(args):
            if isinstance(a, np.ndarray):
                g = Guarded(a, (SEED[0] + i) % 4 != 0)
                mems.append(g)
                strides = np.empty(a.shape, a.dtype).strides
                s = np.array([g.addr, a.size] + list(a.shape)
                             + list(strides), dtype=np.int64)
                nd.append(a.ndim)
                it.append(a.dtype.itemsize)
            elif isinstance(a, (int, np.integer)):
                s = np.array([int(a)], dtype=np.int64)
                nd.append(0)
                it.append(8)
            elif isinstance(a, (float, np.floating)):
                s = np.array([float(a)], dtype=np.float64)
                nd.append(0)
                it.append(8)
            else:
                raise TypeError("kernel argument of type %s" % type(a))
            keep.append(s)
            ptrs.append(s.ctypes.data)
        msg = ctypes.create_string_buffer(2000)
        stats = (ctypes.c_long * 4)()
        n = len(ptrs)
        rc = self.lib.emu_launch(
            (ctypes.c_void_p * n)(*ptrs), n, (ctypes.c_int * n)(*nd),
            (ctypes.c_int * n)(*it), (ctypes.c_uint * 3)(*grid),
            (ctypes.c_uint * 3)(*block), ctypes.c_uint64(SEED[0]), msg, 2000,
            stats)
        STATS["launches"] += 1
        for k, v in zip(("blocks", "threads", "syncs", "warp_ops"), stats):
            STATS[k] += v
        if rc:
            raise EmulatorError("%s: %s" % (self.name, msg.value.decode()))
        for g in mems:
            out = g.back()
            if g.a.flags.writeable:
                g.a[...] = out
            elif out.tobytes() != np.ascontiguousarray(g.a).tobytes():
                raise EmulatorError("%s changed its input" % self.name)


def empty(shape, dtype=float, **kw):
    a = np.empty(shape, dtype=dtype)
    a.view(np.uint8 if a.ndim else a.dtype)[...] = 0x5a
    return a


def get_typename(dtype):
    return {"bool": "bool", "int8": "signed char", "uint8": "unsigned char",
            "int16": "short", "uint16": "unsigned short", "int32": "int",
            "uint32": "unsigned int", "int64": "long long",
            "uint64": "unsigned long long", "float32": "float",
            "float64": "double", "complex64": "complex<float>",
            "complex128": "complex<double>"}[np.dtype(dtype).name]


def install():
    cp = types.ModuleType("cupy")
    cp.__path__ = []
    cp.ndarray = np.ndarray
    cp.empty = empty
    cp.empty_like = lambda a, **k: empty(a.shape, a.dtype)
    cp.RawKernel = RawKernel
    cp.asnumpy = np.asarray
    for n in ("asarray", "zeros", "ones", "arange", "result_type", "unique",
              "float32", "float64", "complex64", "complex128", "int32",
              "ascontiguousarray", "zeros_like"):
        setattr(cp, n, getattr(np, n))
    mods = {"cupy": cp}
    for n in ("core", "core._scalar", "cuda", "cuda.compiler"):
        m = types.ModuleType("cupy." + n)
        m.__path__ = []
        mods["cupy." + n] = m
    mods["cupy.core._scalar"].get_typename = get_typename
    mods["cupy.cuda.compiler"].CompileException = CompileException
    cp.core, cp.cuda = mods["cupy.core"], mods["cupy.cuda"]
    cp.core._scalar = mods["cupy.core._scalar"]
    cp.cuda.compiler = mods["cupy.cuda.compiler"]
    sys.modules.update(mods)
