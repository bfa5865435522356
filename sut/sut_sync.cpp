#include <utility>
#include "adapt.h"
#include "yamc_semaphore.hpp"
#include "yamc_latch.hpp"
#include "yamc_barrier.hpp"
namespace {
SReg<yamc::counting_semaphore<>, 0> a0("counting_semaphore<>");
SReg<yamc::counting_semaphore<5>, 0> a1("counting_semaphore<5>");
SReg<yamc::binary_semaphore, 0> a2("binary_semaphore");
LReg<yamc::latch, 0> b0("latch");
BReg<yamc::barrier<>, 0, false> c0("barrier<>");
BReg<yamc::barrier<Completion>, 0, true> c1("barrier<F>");
}
