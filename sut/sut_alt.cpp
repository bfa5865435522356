#include "adapt.h"
#include "alternate_mutex.hpp"
#include "alternate_shared_mutex.hpp"
namespace {
using namespace yamc::alternate; namespace rw = yamc::rwlock;
MReg<mutex, 0> a0("alt::mutex");
MReg<recursive_mutex, T_REC> a1("alt::recursive_mutex");
MReg<timed_mutex, T_TIMED> a2("alt::timed_mutex");
MReg<recursive_timed_mutex, T_REC | T_TIMED> a3("alt::recursive_timed_mutex");
MReg<basic_shared_mutex<rw::ReaderPrefer>, P_READER> b0("alt::shared<R>");
MReg<basic_shared_mutex<rw::WriterPrefer>, P_WRITER> b1("alt::shared<W>");
MReg<basic_shared_timed_mutex<rw::ReaderPrefer>, P_READER | T_TIMED> b2("alt::shared_timed<R>");
MReg<basic_shared_timed_mutex<rw::WriterPrefer>, P_WRITER | T_TIMED> b3("alt::shared_timed<W>");
}
