// Interface between the instrumented adapters (compiled against /repo/include) and
// the uninstrumented drivers.
#pragma once
#include <cstdint>
#include <cstddef>

enum Kind : uint8_t { K_EXCL, K_RW, K_SEM, K_LATCH, K_BARRIER };
enum Trait : uint32_t {
  T_REC = 1, T_TIMED = 2, T_CHECKED = 4, T_FIFO = 8, T_CAS = 16,      // T_CAS: a failed weak CAS may show
  T_SYS = 32,            // relative timeouts are measured on the system clock (POSIX wrappers)
  T_STD = 64,            // std:: type, control of the harness
  P_READER = 256, P_WRITER = 512, P_TASK = 1024, P_PHASE = 2048, P_ANY = 4096,   // rw policies
  T_SPIN = 8192, T_POSIX = 16384,
  T_NOABSTEADY = 32768,  // try_*_until takes system_clock only
  T_CALLBACK = 65536,    // barrier with a completion function
  T_NATIVE = 131072,     // aux set: go through native_handle()
  T_WIN = 262144, T_GCD = 524288, T_APPLE = 1048576, T_DEFAULT = 2097152,   // wrappers over the modelled platform calls
};
enum OpK : uint8_t {
  O_LOCK, O_TRY, O_FOR, O_UNTIL, O_UNLOCK, O_SLOCK, O_STRY, O_SFOR, O_SUNTIL, O_SUNLOCK, O_DTOR,
  O_ACQ, O_TRYACQ, O_ACQFOR, O_ACQUNTIL, O_REL,
  O_CD, O_WAIT, O_TRYWAIT, O_AW,
  O_ARRIVE, O_BWAIT, O_BAW, O_BDROP, O_CTOR, O_N
};
enum Res : int { R_OK = 0, R_TRUE = 1, R_FALSE = 2, R_EDEADLK = 3, R_EPERM = 4, R_EXC = 5, R_NONE = -1 };
enum Clk : uint8_t { C_STEADY, C_SYSTEM, C_USER, C_N };     // user clock: steady + 12345 s, coarse resolution 1 ns
enum Dur : uint8_t { D_NS, D_MS, D_DBL, D_FLT, D_PICO, D_N };              // duration type of the argument
constexpr int64_t USER_CLK_OFF = 12345ll * 1000000000;

struct OpArg {
  uint8_t op; uint8_t clk, dur;
  long n;          // amount
  int64_t ns;      // relative or absolute time
  void* aux;       // barrier token storage
};
struct Adapter {
  const char* name; Kind kind; uint32_t traits; size_t size; long max;
  void (*ctor)(void*, long arg, void* ctl);
  int (*dtor)(void*);
  int (*op)(void*, const OpArg&);
  void* (*native)(void*);     // native handle or null
};
extern "C" {
void sut_register(const Adapter* a);
void h_completion(void* ctl);          // barrier completion callback
void h_backoff(int which);             // user-defined backoff policy was asked to wait
long long h_steady_ns();
}
