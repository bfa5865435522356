// The types whose policy is chosen by the documented default macros.
#include "adapt.h"
#include "checked_shared_mutex.hpp"
#include "alternate_shared_mutex.hpp"
#include "fair_shared_mutex.hpp"
namespace {
#ifdef CFG_WRITER
constexpr uint32_t RW = P_WRITER | T_DEFAULT;
#else
constexpr uint32_t RW = P_READER | T_DEFAULT;
#endif
#ifdef CFG_TASK
constexpr uint32_t FR = P_TASK | T_DEFAULT;
#else
constexpr uint32_t FR = P_PHASE | T_DEFAULT;
#endif
using namespace yamc;
MReg<alternate::shared_mutex, RW> a0("alternate::shared_mutex");
MReg<alternate::shared_timed_mutex, RW | T_TIMED> a1("alternate::shared_timed_mutex");
MReg<checked::shared_mutex, RW | T_CHECKED> a2("checked::shared_mutex");
MReg<checked::shared_timed_mutex, RW | T_CHECKED | T_TIMED> a3("checked::shared_timed_mutex");
MReg<fair::shared_mutex, FR> a4("fair::shared_mutex");
MReg<fair::shared_timed_mutex, FR | T_TIMED> a5("fair::shared_timed_mutex");
}
