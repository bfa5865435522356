#include "adapt.h"
#include "fair_mutex.hpp"
namespace {
using namespace yamc::fair;
MReg<mutex, T_FIFO> a0("fair::mutex");
MReg<recursive_mutex, T_FIFO | T_REC> a1("fair::recursive_mutex");
MReg<timed_mutex, T_FIFO | T_TIMED> a2("fair::timed_mutex");
MReg<recursive_timed_mutex, T_FIFO | T_REC | T_TIMED> a3("fair::recursive_timed_mutex");
}
