#include "adapt.h"
#include <mutex>
#include <shared_mutex>
namespace {
constexpr uint32_t T = T_STD;
MReg<std::mutex, T> a0("std::mutex");
MReg<std::recursive_mutex, T | T_REC> a1("std::recursive_mutex");
MReg<std::timed_mutex, T | T_TIMED> a2("std::timed_mutex");
MReg<std::recursive_timed_mutex, T | T_TIMED | T_REC> a3("std::recursive_timed_mutex");
MReg<std::shared_mutex, T | P_ANY> b0("std::shared_mutex");
MReg<std::shared_timed_mutex, T | P_ANY | T_TIMED> b1("std::shared_timed_mutex");
}
