// Runs CUDA kernels on the host: every GPU thread is a coroutine, blocks and
// threads run in a chosen order, and every memory access (the kernels are
// compiled with -fsanitize=thread) is noted with the thread that made it.
// Nothing here judges: the notes are judged by spec/T_Parallel.tla.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstring>
#include <tuple>
#include <type_traits>
#include <utility>
#define __global__
#define __device__
#define __host__
#define __forceinline__ inline
#define __shared__ static __attribute__((section("cushared")))
#define __constant__ static
struct Dim3 { unsigned x, y, z; };
extern "C" {
void cu_sync();
void cu_atomic(void *p, size_t n);      // note an atomic access
extern Dim3 cu_threadIdx, cu_blockIdx, cu_blockDim, cu_gridDim;
}
#define threadIdx cu_threadIdx
#define blockIdx cu_blockIdx
#define blockDim cu_blockDim
#define gridDim cu_gridDim
#define __syncthreads() cu_sync()
#define CU_PLAIN __attribute__((no_sanitize("thread"), noinline))
template <typename T> CU_PLAIN inline T atomicAdd(T *p, typename std::common_type<T>::type v) {
    cu_atomic(p, sizeof(T)); T o = *p; *p = o + v; return o; }
template <typename T> CU_PLAIN inline T atomicSub(T *p, typename std::common_type<T>::type v) { return atomicAdd(p, (T)-v); }
template <typename T> CU_PLAIN inline T atomicMax(T *p, typename std::common_type<T>::type v) {
    cu_atomic(p, sizeof(T)); T o = *p; if (v > o) *p = v; return o; }
template <typename T> CU_PLAIN inline T atomicMin(T *p, typename std::common_type<T>::type v) {
    cu_atomic(p, sizeof(T)); T o = *p; if (v < o) *p = v; return o; }
template <typename T> CU_PLAIN inline T atomicExch(T *p, typename std::common_type<T>::type v) {
    cu_atomic(p, sizeof(T)); T o = *p; *p = v; return o; }
#define __launch_bounds__(...)
#define __ldg(p) (*(p))
typedef Dim3 dim3;
inline double __dadd_rn(double a, double b) { return a + b; }
inline double __dmul_rn(double a, double b) { return a * b; }
inline float __fadd_rn(float a, float b) { return a + b; }
inline float __fmul_rn(float a, float b) { return a * b; }
inline float __sinf(float a) { return std::sin(a); }
inline float __cosf(float a) { return std::cos(a); }
inline void __threadfence() {}
inline void __threadfence_block() {}
using std::fma; using std::floor; using std::ceil; using std::fmin; using std::fmax; using std::abs; using std::pow;
using std::sin; using std::cos; using std::sqrt; using std::fabs;
template <typename A, typename B> inline typename std::common_type<A, B>::type max(A a, B b) { return a < b ? b : a; }
template <typename A, typename B> inline typename std::common_type<A, B>::type min(A a, B b) { return b < a ? b : a; }
// Parameters are read the way the driver does: their declared size, from the
// memory the caller's value lies in.
template <typename T> struct CuParam { static T get(void *p) { typename std::remove_cv<T>::type v; std::memcpy(&v, p, sizeof v); return v; } };
template <typename... A, size_t... I> inline void cu_call(void (*f)(A...), void **a, std::index_sequence<I...>) {
    f(CuParam<typename std::remove_reference<A>::type>::get(a[I])...); }
template <typename... A> inline void cu_enter(void (*f)(A...), void **a) { cu_call(f, a, std::index_sequence_for<A...>()); }
template <typename... A> inline int cu_arity(void (*)(A...)) { return sizeof...(A); }
