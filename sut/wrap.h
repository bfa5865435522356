#pragma once
// between sut_wrap.cpp and drv_misc.cpp
constexpr int W_SLOTS = 3, W_MUT = 3;
enum { W_DEF, W_MTX, W_DEFER, W_TRY, W_ADOPT, W_UNTIL, W_FOR, W_DTOR, W_LOCK, W_TRYLOCK, W_TFOR, W_TUNTIL, W_UNLOCK, W_MCTOR, W_MASSIGN, W_SWAP, W_STDSWAP, W_RELEASE, W_NEST, W_N };
extern "C" {
void h_trace(long);
int h_script();
int h_fw(int obj, int op);      // forwarding lockable: 0 lock, 1 try_lock, 2 unlock; 99: throw
void h_body(int n);             // inside the scope of a scoped_lock
typedef void (*wrap_shared_t)(int which, int ret, const int* prog, int n);
typedef int (*wrap_scoped_t)(int n, int hetero, const int* objs, int adopt);
}
