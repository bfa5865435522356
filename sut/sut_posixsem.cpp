#include "adapt.h"
#include "posix_semaphore.hpp"
namespace {
SReg<yamc::posix::counting_semaphore<>, T_POSIX | T_SYS, true> a0("posix::counting_semaphore<>");
SReg<yamc::posix::counting_semaphore<5>, T_POSIX | T_SYS, true> a1("posix::counting_semaphore<5>");
SReg<yamc::posix::binary_semaphore, T_POSIX | T_SYS, true> a2("posix::binary_semaphore");
}
