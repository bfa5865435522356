#include "adapt.h"
#include "checked_mutex.hpp"
#include "checked_shared_mutex.hpp"
namespace {
using namespace yamc::checked; namespace rw = yamc::rwlock;
constexpr uint32_t T = T_CHECKED;
MReg<mutex, T> a0("checked::mutex");
MReg<timed_mutex, T | T_TIMED> a1("checked::timed_mutex");
MReg<recursive_mutex, T | T_REC> a2("checked::recursive_mutex");
MReg<recursive_timed_mutex, T | T_REC | T_TIMED> a3("checked::recursive_timed_mutex");
MReg<basic_shared_mutex<rw::ReaderPrefer>, T | P_READER> b0("checked::shared<R>");
MReg<basic_shared_mutex<rw::WriterPrefer>, T | P_WRITER> b1("checked::shared<W>");
MReg<basic_shared_timed_mutex<rw::ReaderPrefer>, T | P_READER | T_TIMED> b2("checked::shared_timed<R>");
MReg<basic_shared_timed_mutex<rw::WriterPrefer>, T | P_WRITER | T_TIMED> b3("checked::shared_timed<W>");
}
