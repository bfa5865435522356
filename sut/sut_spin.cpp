#include "adapt.h"
#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
namespace {
// user-defined policy: a state without default member initialisers that matter
struct Custom { struct state { int n = 7; }; static void wait(state& s) { h_backoff(s.n); if (--s.n == 0) s.n = 7; } };
using namespace yamc;
constexpr uint32_t T = T_CAS | T_SPIN;
MReg<spin::mutex, T> a0("spin");
MReg<spin::basic_mutex<backoff::exponential<2>>, T> a1("spin<exp2>");
MReg<spin::basic_mutex<backoff::yield>, T> a2("spin<yield>");
MReg<spin::basic_mutex<Custom>, T> a3("spin<custom>");
MReg<spin_weak::mutex, T> b0("spin_weak");
MReg<spin_weak::basic_mutex<backoff::busy>, T> b1("spin_weak<busy>");
MReg<spin_weak::basic_mutex<backoff::exponential<0>>, T> b2("spin_weak<exp0>");
MReg<spin_ttas::mutex, T> c0("spin_ttas");
MReg<spin_ttas::basic_mutex<backoff::exponential<1>>, T> c1("spin_ttas<exp1>");
MReg<spin_ttas::basic_mutex<backoff::busy>, T> c2("spin_ttas<busy>");
MReg<spin_ttas::basic_mutex<Custom>, T> c3("spin_ttas<custom>");
}
