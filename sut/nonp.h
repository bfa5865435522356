// a POSIX platform without a static initializer for recursive mutexes (e.g. musl)
#include <pthread.h>
#undef PTHREAD_RECURSIVE_MUTEX_INITIALIZER
#undef PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP
