#include <type_traits>
#include "adapt.h"
#include "posix_native_mutex.hpp"
namespace {
using namespace yamc::posix;
constexpr uint32_t T = T_POSIX | T_SYS | T_NOABSTEADY;
MReg<native_mutex, T | T_TIMED> a0("posix::native_mutex", native_of<native_mutex>);
MReg<native_recursive_mutex, T | T_TIMED | T_REC> a1("posix::native_recursive_mutex", native_of<native_recursive_mutex>);
MReg<rwlock, T | T_TIMED | P_ANY> a2("posix::rwlock", native_of<rwlock>);
MReg<spinlock, T> a3("posix::spinlock", native_of<spinlock>);
}
