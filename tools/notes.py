"""Technique and assurance note per property, for MANIFEST.json."""
_M = 'property-based testing: generated concurrent programs, schedules and faults in a deterministic runtime, judged against a reference model'
_A = 'Searches generated programs and schedules; every failure is shrunk and replayed three times. Trusts the runtime\'s model of pthread, semaphores, clocks and atomics and sequentially consistent interleaving; it does not establish absence.'
NOTES = {p: (_M, _A) for p in 'C01 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C25 C26'.split()}
NOTES['C02'] = ('property-based testing: generated concurrent programs under a vector-clock happens-before oracle', _A + ' The oracle uses the declared memory orders, so it sees missing acquire/release although execution is sequentially consistent.')
NOTES['C17'] = ('property-based testing: differential, random operation sequences on yamc::shared_lock and std::shared_lock over scripted mutexes', 'Random sequences compared call by call with libstdc++ 13 std::shared_lock; does not establish absence.')
NOTES['C18'] = (_M, _A)
NOTES['C20'] = (_M + '; the object is destroyed and poisoned by its last user', _A)
NOTES['C22'] = (_M + '; signals injected into every interruptible call, operations through native handles mixed in', _A)
NOTES['C19'] = ('property-based testing: generated initial counts, failure sequences, user-defined policies and schedules; the yields of each lock() are compared with the documented sequence, recomputed independently', 'Counts the real yield and policy calls of the real classes in programs compiled with g++ and clang++ in C++11 to C++20. Samples of N, not all N; does not establish absence.')
NOTES['C21'] = (_M + '; objects aged by hundreds of thousands of uses and rebuilt in place before the judged history, and native programs with 2^32 phases', _A + ' The 2^32-phase program uses the real primitives in one or two threads.')
NOTES['C23'] = ('property-based testing: generated programs over types, operations, clocks, duration types, header orders and language modes; compiled, run, and compared with the std counterpart (differential)', 'Samples the program space; programs the standard allows must compile with g++ 13 and clang 18 and give libstdc++ results. The oracle is not given deadlines before the epoch of a clock (libstdc++ 13 rejects them).')
NOTES['C24'] = (_M + '; Win32, libdispatch and os_unfair_lock calls are emulated as documented by their vendors', _A + ' The emulation of the platform calls is written from their documentation; behaviour of real Windows or macOS beyond it is not seen.')
NOTES['C27'] = ('property-based testing: one process per generated plan of objects, storage durations and uses from static initialisation to the end of the process, under AddressSanitizer, compared with the expected results', 'Runs the real classes and threads in programs compiled with clang++ and g++. Samples plans; does not establish absence.')
NOTES['C28'] = ('property-based testing: generated numbers of threads, owners, waiters, objects and wait-for graphs, run with real threads (2 to 300) and simulated ones (up to 70000) against the expected order, number and outcome of the calls', 'Runs the real classes; what the calls must do is determined by the construction of the case and does not depend on the schedule, which is that of the operating system. Samples sizes; does not establish absence.')
NOTES['C29'] = (_M + '; every native object is followed from creation to destruction', _A + ' Types of other platforms run over emulated calls.')
NOT_APPLICABLE = {}
