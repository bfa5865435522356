#include <cassert>
#include "adapt.h"
#include "fair_shared_mutex.hpp"
namespace {
using namespace yamc::fair; namespace rw = yamc::rwlock;
MReg<basic_shared_mutex<rw::TaskFairness>, P_TASK> a0("fair::shared<Task>");
MReg<basic_shared_mutex<rw::PhaseFairness>, P_PHASE> a1("fair::shared<Phase>");
MReg<basic_shared_timed_mutex<rw::TaskFairness>, P_TASK | T_TIMED> a2("fair::shared_timed<Task>");
MReg<basic_shared_timed_mutex<rw::PhaseFairness>, P_PHASE | T_TIMED> a3("fair::shared_timed<Phase>");
}
