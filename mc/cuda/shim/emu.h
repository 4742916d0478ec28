// The device side of the emulated GPU: what the CUDA headers would declare.
// Kernels of /repo are compiled as they are against this header; every memory
// access of theirs calls one of the __tsan_* hooks, which emu.cpp defines.
#pragma once
#include <math.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <algorithm>
#include <cmath>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>

#define __global__
#define __device__
#define __host__
#define __constant__
#define __managed__
#define __forceinline__ inline
#define __noinline__ __attribute__((noinline))
#define __launch_bounds__(...)
#define EMU_RAW __attribute__((disable_sanitizer_instrumentation, noinline))

struct uint3 { unsigned int x, y, z; };
struct dim3 {
  unsigned int x, y, z;
  dim3(unsigned int x = 1, unsigned int y = 1, unsigned int z = 1)
      : x(x), y(y), z(z) {}
};
#define EMU_VECTOR(T, N)                                                  \
  struct N##2 { T x, y; };                                                \
  struct N##3 { T x, y, z; };                                             \
  struct N##4 { T x, y, z, w; };                                          \
  static inline N##2 make_##N##2(T x, T y) { N##2 r = {x, y}; return r; } \
  static inline N##3 make_##N##3(T x, T y, T z) {                         \
    N##3 r = {x, y, z}; return r; }                                       \
  static inline N##4 make_##N##4(T x, T y, T z, T w) {                    \
    N##4 r = {x, y, z, w}; return r; }
EMU_VECTOR(int, int)
EMU_VECTOR(float, float)
EMU_VECTOR(double, double)
EMU_VECTOR(long long, longlong)
#define uint3 emu_uint3_vector
EMU_VECTOR(unsigned int, uint)
#undef uint3

// CUDA declares min and max for mixed types, on host and device.
template <class A, class B, class = typename std::enable_if<
    std::is_arithmetic<A>::value && std::is_arithmetic<B>::value>::type>
static inline typename std::common_type<A, B>::type min(A a, B b) {
  typedef typename std::common_type<A, B>::type T;
  return (T)a < (T)b ? (T)a : (T)b;
}
template <class A, class B, class = typename std::enable_if<
    std::is_arithmetic<A>::value && std::is_arithmetic<B>::value>::type>
static inline typename std::common_type<A, B>::type max(A a, B b) {
  typedef typename std::common_type<A, B>::type T;
  return (T)a < (T)b ? (T)b : (T)a;
}

static inline int __float_as_int(float v) { int r; memcpy(&r, &v, 4); return r; }
static inline float __int_as_float(int v) { float r; memcpy(&r, &v, 4); return r; }
static inline unsigned __float_as_uint(float v) { unsigned r; memcpy(&r, &v, 4); return r; }
static inline float __uint_as_float(unsigned v) { float r; memcpy(&r, &v, 4); return r; }
template <class T> static inline T __ldg(const T* p) { return *p; }
static inline float emu_math___expf(float v) { return ::expf(v); }
static inline float emu_math___fsqrt_rn(float v) { return ::sqrtf(v); }
static inline float emu_math___fdividef(float a, float b) { return a / b; }
static inline float emu_math_rsqrtf(float v) { return 1.0f / ::sqrtf(v); }
#define __expf emu_math___expf
#define __fsqrt_rn emu_math___fsqrt_rn
#define __fdividef emu_math___fdividef
#define rsqrtf emu_math_rsqrtf
static inline float __fmul_rn(float a, float b) { return a * b; }
static inline float __fadd_rn(float a, float b) { return a + b; }
static inline int __mul24(int a, int b) { return a * b; }

typedef enum cudaError {
  cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorInvalidConfiguration = 9,
} cudaError_t;
typedef struct EmuStream* cudaStream_t;
typedef struct EmuEvent* cudaEvent_t;
enum cudaMemcpyKind {
  cudaMemcpyHostToHost = 0, cudaMemcpyHostToDevice = 1,
  cudaMemcpyDeviceToHost = 2, cudaMemcpyDeviceToDevice = 3,
  cudaMemcpyDefault = 4,
};
struct cudaDeviceProp {
  char name[256];
  int warpSize, multiProcessorCount, maxThreadsPerBlock,
      maxThreadsPerMultiProcessor, regsPerBlock, regsPerMultiprocessor;
  size_t sharedMemPerBlock, sharedMemPerMultiprocessor, totalGlobalMem;
  int major, minor;
  int maxThreadsDim[3], maxGridSize[3];
};
cudaError_t cudaGetDevice(int* device);
cudaError_t cudaGetDeviceProperties(cudaDeviceProp* prop, int device);
cudaError_t emu_occupancy(int* blocks, size_t threads, size_t shared);
template <class F>
cudaError_t cudaOccupancyMaxActiveBlocksPerMultiprocessor(
    int* blocks, F, int threads, size_t shared) {
  return emu_occupancy(blocks, threads, shared);
}
cudaError_t cudaMemsetAsync(void* p, int v, size_t n, cudaStream_t s = 0);
cudaError_t cudaMemset(void* p, int v, size_t n);
cudaError_t cudaMemcpyAsync(void* d, const void* s, size_t n,
                            cudaMemcpyKind k, cudaStream_t t = 0);
cudaError_t cudaMemcpy(void* d, const void* s, size_t n, cudaMemcpyKind k);
template <class T>
cudaError_t cudaMemcpyToSymbolAsync(T d, const void* s, size_t n, size_t offset,
                                    cudaMemcpyKind k, cudaStream_t t = 0) {
  memcpy((char*)d + offset, s, n);
  return cudaSuccess;
}
cudaError_t cudaEventCreate(cudaEvent_t* e);
cudaError_t cudaEventCreateWithFlags(cudaEvent_t* e, unsigned flags);
#define cudaEventDisableTiming 2
cudaError_t cudaEventDestroy(cudaEvent_t e);
cudaError_t cudaEventRecord(cudaEvent_t e, cudaStream_t s = 0);
cudaError_t cudaEventSynchronize(cudaEvent_t e);
cudaError_t cudaEventElapsedTime(float* ms, cudaEvent_t a, cudaEvent_t b);
cudaError_t cudaStreamSynchronize(cudaStream_t s);
cudaError_t cudaDeviceSynchronize();
cudaError_t cudaPeekAtLastError();
cudaError_t cudaGetLastError();
const char* cudaGetErrorString(cudaError_t e);

namespace emu {

enum Kind { READ = 0, ADD, SUB, MIN, MAX, AND, OR, XOR, EXCH, CAS, INC, DEC };

// Called before an atomic operation: the scheduler decides when it returns.
// The result names the event, to tell whether its result was looked at.
long atomic_enter(const void* address, size_t size, Kind kind);
void atomic_observed(long event);
void barrier(const char* file, int line);
uint3 thread_index();
uint3 block_index();
dim3 block_dim();
dim3 grid_dim();
void* dynamic_shared();
void* static_shared(const char* file, int line, const char* name, size_t size);
void unsupported(const char* what);

template <class T>
struct Result {
  T value;
  long event;
  EMU_RAW operator T() const {
    atomic_observed(event);
    return value;
  }
};

struct Config {
  dim3 grid, block;
  size_t shared;
  Config(dim3 grid, dim3 block, size_t shared = 0, cudaStream_t = 0)
      : grid(grid), block(block), shared(shared) {}
};

struct Body {
  size_t size;
  virtual ~Body() {}
  virtual void run() = 0;
};

template <class F, class... A>
struct BodyOf : Body {
  F f;
  std::tuple<A...> args;
  BodyOf(F f, A... a) : f(f), args(a...) { size = sizeof(*this); }
  void run() override { std::apply(f, args); }
};

void enqueue(const Config& config, const char* name, Body* body);

template <class F>
struct Launcher {
  Config config;
  const char* name;
  F f;
  template <class... A>
  void operator()(A... a) { enqueue(config, name, new BodyOf<F, A...>(f, a...)); }
};

template <class F>
Launcher<F> launch(Config config, const char* name, F f) {
  return Launcher<F>{config, name, f};
}

}  // namespace emu

#define threadIdx (emu::thread_index())
#define blockIdx (emu::block_index())
#define blockDim (emu::block_dim())
#define gridDim (emu::grid_dim())
#define warpSize_emu 32
#define __syncthreads() emu::barrier(__FILE__, __LINE__)
static inline void __threadfence() {}
static inline void __threadfence_block() {}

#define EMU_ATOMIC(NAME, KIND, EXPRESSION)                                  \
  template <class T, class V>                                               \
  EMU_RAW emu::Result<T> NAME(T* address, V operand) {                      \
    T value = (T)operand;                                                   \
    long event = emu::atomic_enter(address, sizeof(T), emu::KIND);          \
    T old = *address;                                                       \
    *address = EXPRESSION;                                                  \
    return emu::Result<T>{old, event};                                      \
  }
EMU_ATOMIC(atomicAdd, ADD, old + value)
EMU_ATOMIC(atomicSub, SUB, old - value)
EMU_ATOMIC(atomicMin, MIN, value < old ? value : old)
EMU_ATOMIC(atomicMax, MAX, old < value ? value : old)
EMU_ATOMIC(atomicAnd, AND, old & value)
EMU_ATOMIC(atomicOr, OR, old | value)
EMU_ATOMIC(atomicXor, XOR, old ^ value)
EMU_ATOMIC(atomicExch, EXCH, value)
EMU_ATOMIC(atomicInc, INC, old >= value ? (T)0 : (T)(old + 1))
EMU_ATOMIC(atomicDec, DEC, (old == 0 || old > value) ? value : (T)(old - 1))
template <class T, class U, class V>
EMU_RAW emu::Result<T> atomicCAS(T* address, U compare, V operand) {
  T c = (T)compare, v = (T)operand;
  long event = emu::atomic_enter(address, sizeof(T), emu::CAS);
  T old = *address;
  if (old == c) *address = v;
  return emu::Result<T>{old, event};
}
