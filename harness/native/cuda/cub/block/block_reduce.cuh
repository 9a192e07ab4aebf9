// The part of CUB's BlockReduce that a block of one dimension needs.
#pragma once
namespace cub {
template <typename T, int N, int ALG = 0> class BlockReduce {
public:
    struct TempStorage { T v[N]; };
    explicit BlockReduce(TempStorage &t) : s(t) {}
    CU_PLAIN T Sum(T x) { return run(x); }
    template <int K> CU_PLAIN T Sum(T (&x)[K]) { T a = x[0]; for (int k = 1; k < K; k++) a += x[k]; return run(a); }
private:
    TempStorage &s;
    // the result is only defined in thread 0
    CU_PLAIN T run(T x) {
        s.v[threadIdx.x] = x; cu_sync();
        T a = T();
        if (threadIdx.x == 0) { a = s.v[0]; for (int k = 1; k < N; k++) a += s.v[k]; }
        cu_sync();
        return threadIdx.x == 0 ? a : T(NAN);
    }
};
}
