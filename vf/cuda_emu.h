// A CUDA device emulated on the CPU: every device thread is a fiber; threads
// of a block run in a random order between the points where CUDA orders them
// (__syncthreads, warp operations); shared memory starts out as garbage.
#pragma once
#include <cmath>
#include <math.h>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <ucontext.h>

#define __global__
#define __device__
#define __host__
#define __forceinline__ inline
#define __noinline__ __attribute__((noinline))
#define __restrict__
#define __align__(n) __attribute__((aligned(n)))
#define __shared__ static __attribute__((section("cudashared")))
#define __constant__ static
#define __launch_bounds__(...)

#define VEC(T, N2) \
    struct __attribute__((aligned(2 * sizeof(T)))) N2##2 { T x, y; }; \
    struct N2##3 { T x, y, z; }; \
    struct __attribute__((aligned(4 * sizeof(T) > 16 ? 16 : 4 * sizeof(T)))) \
    N2##4 { T x, y, z, w; }; \
    inline N2##2 make_##N2##2(T x, T y) { return {x, y}; } \
    inline N2##3 make_##N2##3(T x, T y, T z) { return {x, y, z}; } \
    inline N2##4 make_##N2##4(T x, T y, T z, T w) { return {x, y, z, w}; }
VEC(float, float) VEC(double, double) VEC(int, int)
VEC(unsigned int, uint) VEC(short, short) VEC(char, char)
#undef VEC
struct uint3_ { unsigned x, y, z; };
typedef uint3_ dim3;

namespace emu {
struct Op { int kind; unsigned mask; uint64_t val; int src; int width;
            uint64_t res; int pred; };
enum { READY, WARP, SYNC, DONE };
struct Fiber {
    ucontext_t ctx; std::vector<char> stack; int state; uint3_ tid; int lane;
    int warp; Op op;
};
inline std::vector<Fiber> fibers;
inline ucontext_t main_ctx;
inline int cur = -1;
inline std::string error;
inline uint64_t rng = 88172645463325252ull;
inline long n_sync = 0, n_warp = 0, n_threads = 0, n_blocks = 0;
inline uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
                        return rng; }
inline void fail(const std::string & s) { if(error.empty()) error = s; }
inline void yield(int state) {
    Fiber & f = fibers[cur];
    f.state = state;
    swapcontext(&f.ctx, &main_ctx);
}
inline Op & op() { return fibers[cur].op; }
}

inline uint3_ threadIdx_() { return emu::fibers[emu::cur].tid; }
inline uint3_ blockIdx, gridDim, blockDim;
#define threadIdx (threadIdx_())
#define warpSize 32

inline void __syncthreads() { emu::yield(emu::SYNC); }
inline void __syncwarp(unsigned mask = 0xffffffffu) {
    emu::op() = emu::Op{3, mask, 0, 0, 32, 0, 0}; emu::yield(emu::WARP); }
inline void __threadfence() {}
inline void __threadfence_block() {}

template <typename T> inline T emu_shfl(unsigned mask, T v, int src,
                                        int width) {
    static_assert(sizeof(T) <= 8, "shuffle of a wide type");
    uint64_t b = 0; memcpy(&b, &v, sizeof(T));
    emu::op() = emu::Op{0, mask, b, src, width, 0, 0};
    emu::yield(emu::WARP);
    b = emu::op().res; memcpy(&v, &b, sizeof(T)); return v;
}
template <typename T> inline T __shfl_sync(unsigned mask, T v, int src,
                                           int width = 32)
    { return emu_shfl(mask, v, src & (width - 1), width); }
template <typename T> inline T __shfl_xor_sync(unsigned mask, T v, int x,
                                               int width = 32) {
    int lane = emu::fibers[emu::cur].lane & (width - 1);
    return emu_shfl(mask, v, lane ^ x, width); }
template <typename T> inline T __shfl_up_sync(unsigned mask, T v, unsigned d,
                                              int width = 32) {
    int lane = emu::fibers[emu::cur].lane & (width - 1);
    return emu_shfl(mask, v, lane < (int) d ? lane : lane - (int) d, width); }
template <typename T> inline T __shfl_down_sync(unsigned mask, T v,
                                                unsigned d, int width = 32) {
    int lane = emu::fibers[emu::cur].lane & (width - 1);
    return emu_shfl(mask, v, lane + (int) d >= width ? lane : lane + (int) d,
                    width); }
inline unsigned __ballot_sync(unsigned mask, int pred) {
    emu::op() = emu::Op{1, mask, 0, 0, 32, 0, pred};
    emu::yield(emu::WARP); return (unsigned) emu::op().res; }
inline int __any_sync(unsigned mask, int pred)
    { return __ballot_sync(mask, pred) != 0; }
inline int __all_sync(unsigned mask, int pred)
    { return __ballot_sync(mask, !pred) == 0; }
inline unsigned __activemask() {
    emu::op() = emu::Op{2, 0xffffffffu, 0, 0, 32, 0, 1};
    emu::yield(emu::WARP); return (unsigned) emu::op().res; }
template <typename T> inline T __ldg(const T * p) { return *p; }
template <typename T> inline T atomicAdd(T * p, T v)
    { T o = *p; *p = o + v; return o; }
inline float rsqrtf(float x) { return 1.0f / sqrtf(x); }
inline double rsqrt(double x) { return 1.0 / sqrt(x); }
inline void sincospi(double x, double * s, double * c)
    { *s = sin(M_PI * x); *c = cos(M_PI * x); }
inline void sincospif(float x, float * s, float * c)
    { *s = sin(M_PI * x); *c = cos(M_PI * x); }
template <typename A, typename B> inline typename std::common_type<A, B>::type
    min(A a, B b) { return a < b ? a : b; }
template <typename A, typename B> inline typename std::common_type<A, B>::type
    max(A a, B b) { return a > b ? a : b; }

// cupy's array argument
template <typename T, int N> struct CArray {
    T * data_; ptrdiff_t size_; ptrdiff_t shape_[N]; ptrdiff_t strides_[N];
    static const int ndim = N;
    typedef T value_type;
    ptrdiff_t size() const { return size_; }
    const ptrdiff_t * shape() const { return shape_; }
    const ptrdiff_t * strides() const { return strides_; }
    T & at(ptrdiff_t i) const {
        if(i < 0 || i >= size_) {
            emu::fail("array element " + std::to_string(i) + " of " +
                      std::to_string(size_));
            static T dummy; memset(&dummy, 0x5a, sizeof(T)); return dummy;
        }
        char * p = reinterpret_cast<char *>(data_);
        for(int d = N - 1; d > 0; --d)
            { p += strides_[d] * (i % shape_[d]); i /= shape_[d]; }
        p += strides_[0] * i;
        return *reinterpret_cast<T *>(p);
    }
    T & at(const ptrdiff_t * idx) const {
        char * p = reinterpret_cast<char *>(data_);
        for(int d = 0; d < N; ++d) {
            if(idx[d] < 0 || idx[d] >= shape_[d]) {
                emu::fail("index " + std::to_string(idx[d]) + " of axis " +
                          std::to_string(d) + " of size " +
                          std::to_string(shape_[d]));
                static T dummy; return dummy;
            }
            p += strides_[d] * idx[d];
        }
        return *reinterpret_cast<T *>(p);
    }
    template <typename I, typename = typename std::enable_if<
              std::is_integral<I>::value>::type>
    const T & operator[](I i) const { return at((ptrdiff_t) i); }
    template <typename I, typename = typename std::enable_if<
              std::is_integral<I>::value>::type>
    T & operator[](I i) { return at((ptrdiff_t) i); }
    const T & operator[](const ptrdiff_t * i) const { return at(i); }
    T & operator[](const ptrdiff_t * i) { return at(i); }
};

// ---------------------------------------------------------------- launching
extern "C" { extern char __start_cudashared[] __attribute__((weak));
             extern char __stop_cudashared[] __attribute__((weak)); }

namespace emu {
typedef void (*Body)(void **);
inline Body body; inline void ** body_args;
inline void entry() { body(body_args); fibers[cur].state = DONE;
                      swapcontext(&fibers[cur].ctx, &main_ctx); }

template <typename A> struct Arg { static bool ok(int, int, int) {
    return true; } };
template <typename T, int N> struct Arg<CArray<T, N>> {
    static bool ok(int ndim, int item, int i) {
        if(ndim != N || item != (int) sizeof(T)) {
            fail("argument " + std::to_string(i) + " is an array of " +
                 std::to_string(ndim) + " axes of " + std::to_string(item) +
                 " byte elements, the kernel takes " + std::to_string(N) +
                 " axes of " + std::to_string(sizeof(T)));
            return false;
        }
        return true;
    }
};

template <typename... A, size_t... I>
inline void invoke(void (*f)(A...), void ** a, std::index_sequence<I...>)
    { f(*reinterpret_cast<std::remove_cv_t<A> *>(a[I])...); }
template <typename... A> inline void invoke(void (*f)(A...), void ** a)
    { invoke(f, a, std::index_sequence_for<A...>()); }
template <typename... A, size_t... I>
inline bool check(void (*)(A...), int n, const int * nd, const int * it,
                  std::index_sequence<I...>) {
    if(n != (int) sizeof...(A)) {
        fail("the kernel takes " + std::to_string(sizeof...(A)) +
             " arguments, " + std::to_string(n) + " given"); return false; }
    bool ok = true;
    ((ok = Arg<std::remove_cv_t<A>>::ok(nd[I], it[I], I) && ok), ...);
    return ok;
}
template <typename... A> inline bool check(void (*f)(A...), int n,
                                           const int * nd, const int * it)
    { return check(f, n, nd, it, std::index_sequence_for<A...>()); }

inline void warp_op(std::vector<int> & live) {
    // every live thread of the warp has arrived
    ++n_warp;
    int kind = fibers[live[0]].op.kind;
    unsigned here = 0; int at[32];
    for(int l = 0; l < 32; ++l) at[l] = -1;
    for(int i : live) { here |= 1u << fibers[i].lane;
                        at[fibers[i].lane] = i; }
    for(int i : live) {
        Fiber & f = fibers[i];
        if(f.op.kind != kind) { fail("threads of a warp wait for different "
                                     "operations"); }
        if(!(f.op.mask >> f.lane & 1))
            fail("lane " + std::to_string(f.lane) + " takes part in a warp "
                 "operation whose mask does not name it");
    }
    for(int i : live) {
        Fiber & f = fibers[i];
        if(kind == 0) {
            int t = (f.lane & ~(f.op.width - 1)) | (f.op.src
                                                    & (f.op.width - 1));
            if(at[t] < 0) {
                fail("lane " + std::to_string(f.lane) + " reads from lane " +
                     std::to_string(t) + ", which has exited");
                f.op.res = 0x5a5a5a5a5a5a5a5aull;
            } else f.op.res = fibers[at[t]].op.val;
        } else if(kind == 1) {
            unsigned r = 0;
            for(int j : live) if(fibers[j].op.pred)
                r |= 1u << fibers[j].lane;
            f.op.res = r & f.op.mask;
        } else if(kind == 2) f.op.res = here;
    }
    for(int i : live) fibers[i].state = READY;
}

inline void run_block() {
    int n = fibers.size(), nw = (n + 31) / 32;
    if(__start_cudashared)
        memset(__start_cudashared, 0x5a + (int)(rnd() & 15),
               __stop_cudashared - __start_cudashared);
    for(int i = 0; i < n; ++i) {
        Fiber & f = fibers[i];
        f.tid.x = i % blockDim.x; f.tid.y = (i / blockDim.x) % blockDim.y;
        f.tid.z = i / (blockDim.x * blockDim.y);
        f.lane = i % 32; f.warp = i / 32; f.state = READY;
        getcontext(&f.ctx);
        f.ctx.uc_stack.ss_sp = f.stack.data();
        f.ctx.uc_stack.ss_size = f.stack.size();
        f.ctx.uc_link = &main_ctx;
        makecontext(&f.ctx, entry, 0);
    }
    for(;;) {
        bool progress = false;
        int w0 = rnd() % nw;
        for(int wi = 0; wi < nw; ++wi) {
            int w = (w0 + wi) % nw;
            for(;;) {
                bool ran = false;
                int lo = w * 32, hi = min(n, lo + 32);
                int r = rnd() % 32, step = (rnd() & 1) ? 1 : 31;
                for(int k = 0; k < 32; ++k) {
                    int i = lo + (r + k * step) % 32;
                    if(i >= hi || fibers[i].state != READY) continue;
                    cur = i; swapcontext(&main_ctx, &fibers[i].ctx);
                    cur = -1; ran = progress = true;
                }
                std::vector<int> live; int nwarp = 0;
                for(int i = lo; i < hi; ++i)
                    if(fibers[i].state != DONE)
                        { live.push_back(i);
                          nwarp += fibers[i].state == WARP; }
                if(nwarp && nwarp == (int) live.size())
                    { warp_op(live); continue; }
                if(nwarp && !ran) {
                    fail("threads of a warp diverge at a warp operation");
                    for(int i : live) if(fibers[i].state == WARP)
                        fibers[i].state = READY;
                    continue;
                }
                if(!ran) break;
            }
        }
        int live = 0, sync = 0;
        for(auto & f : fibers) { live += f.state != DONE;
                                 sync += f.state == SYNC; }
        if(!live) break;
        if(sync == live) { ++n_sync;
            for(auto & f : fibers) if(f.state == SYNC) f.state = READY; }
        else if(!progress) { fail("the block does not make progress");
                             break; }
    }
}

template <typename F> inline int launch(F f, Body b, void ** args, int nargs,
                                        const int * nd, const int * it,
                                        const unsigned * grid,
                                        const unsigned * block, uint64_t seed,
                                        char * msg, int nmsg, long * stats) {
    error.clear(); rng = seed * 2654435769ull + 88172645463325252ull;
    n_sync = n_warp = n_threads = n_blocks = 0;
    if(check(f, nargs, nd, it)) {
        gridDim = {grid[0], grid[1], grid[2]};
        blockDim = {block[0], block[1], block[2]};
        size_t n = (size_t) block[0] * block[1] * block[2];
        if(n == 0 || n > 1024 || block[2] > 64)
            fail("a block of " + std::to_string(n) + " threads");
        else if(!grid[0] || !grid[1] || !grid[2] || grid[1] > 65535 ||
                grid[2] > 65535)
            fail("a grid of " + std::to_string(grid[0]) + " x " +
                 std::to_string(grid[1]) + " x " + std::to_string(grid[2]));
        else {
            fibers.resize(n);
            for(auto & x : fibers) if(x.stack.empty()) x.stack.resize(32768);
            body = b; body_args = args;
            size_t total = (size_t) grid[0] * grid[1] * grid[2];
            size_t first = rnd() % total;
            for(size_t k = 0; k < total && error.empty(); ++k) {
                size_t q = (first + k) % total;
                blockIdx = {(unsigned)(q % grid[0]),
                            (unsigned)(q / grid[0] % grid[1]),
                            (unsigned)(q / ((size_t) grid[0] * grid[1]))};
                run_block(); ++n_blocks; n_threads += n;
            }
        }
    }
    stats[0] = n_blocks; stats[1] = n_threads; stats[2] = n_sync;
    stats[3] = n_warp;
    snprintf(msg, nmsg, "%s", error.c_str());
    return error.empty() ? 0 : 1;
}
}

#define EMU_LAUNCHER(K) \
    static void emu_body(void ** a) { emu::invoke(&K, a); } \
    extern "C" int emu_launch(void ** a, int n, const int * nd, \
            const int * it, const unsigned * g, const unsigned * b, \
            uint64_t seed, char * msg, int nmsg, long * stats) \
    { return emu::launch(&K, emu_body, a, n, nd, it, g, b, seed, msg, nmsg, \
                         stats); }
