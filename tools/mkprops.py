#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=list(observe), hook_needed=hook))
    P.append(d)
I = "include/"
SPIN = [I+"naive_spin_mutex.hpp", I+"ttas_spin_mutex.hpp", I+"yamc_backoff_spin.hpp"]
ALT = [I+"alternate_mutex.hpp"]; ALTS = [I+"alternate_shared_mutex.hpp", I+"yamc_rwlock_sched.hpp"]
FAIR = [I+"fair_mutex.hpp"]; FAIRS = [I+"fair_shared_mutex.hpp"]
CHK = [I+"checked_mutex.hpp"]; CHKS = [I+"checked_shared_mutex.hpp"]; VAL = [I+"yamc_lock_validator.hpp"]
PX = [I+"posix_native_mutex.hpp"]
ALLM = SPIN+ALT+ALTS+FAIR+FAIRS+CHK+CHKS+PX

p("C01", "Mutual exclusion on every mutex type under every schedule",
  "At any moment at most one thread holds exclusive ownership of a mutex, and while a thread holds exclusive ownership no other thread holds shared ownership; several threads may hold shared ownership together. "
  "This holds for every mutex type of the library (spin, spin_weak, spin_ttas, alternate, fair, checked, posix), for every way of acquiring it (lock, try_lock, timed, shared forms) and for every interleaving of the calls, including spurious wake-ups and timeouts.",
  ["schedules", "histories", "configurations"],
  "all interleavings of any number of threads running any legal sequence of acquire/release calls, over all mutex types and policy parameters",
  "The tests run a handful of fixed scripts on whatever interleavings the OS happens to produce, and never inject spurious wake-ups or a timeout that races with a release.",
  ALLM, [("owner/count/ticket/queue state guarded by an internal mutex, or one CAS", "all *_mutex.hpp")],
  ["return of lock/try_lock/lock_shared ...", "call of unlock/unlock_shared"])
p("C02", "Releasing a lock publishes the critical section; the library has no data race",
  "Everything done before a release (unlock, unlock_shared, semaphore release, latch count_down, barrier arrive) is visible to the thread whose acquisition that release enables: the program has a happens-before edge from release to acquire, for every type and every way of acquiring. "
  "Calls that are allowed to run concurrently on one object never race on the object's own memory.",
  ["schedules", "programs"],
  "all interleavings and all weak-memory executions permitted by the C++ memory model for programs that protect plain data with a library primitive",
  "Tests run on x86, whose hardware ordering hides missing acquire/release, and no test checks happens-before.",
  ALLM+[I+"yamc_semaphore.hpp", I+"posix_semaphore.hpp", I+"yamc_latch.hpp", I+"yamc_barrier.hpp"],
  [("acquire/release memory orders on state", "ttas_spin_mutex.hpp, naive_spin_mutex.hpp"), ("internal std::mutex around every state access", "all other types")],
  ["plain data written under the primitive and read after acquiring it"])
p("C03", "No lost wake-ups: a waiter is never left blocked on an available mutex",
  "Whenever all running threads have finished or are blocked, no thread is still blocked in lock, lock_shared or a timed form on a mutex which its specification says it could acquire. "
  "In particular every thread that waits is served once every holder has released, also when other waiters timed out, were refused or gave up in between.",
  ["schedules", "histories"],
  "all histories of acquisitions, releases, timeouts and failed tries, in all interleavings, that end with no thread able to run",
  "A lost wake-up needs a specific order of park, notify and timeout; tests show only that their own scripts finish.",
  ALLM, [("notify_one/notify_all after each release; queue hand-over; re-check after timeout", "alternate, fair, checked, shared variants")],
  ["set of blocked calls when nothing can run"])
p("C04", "Non-blocking tries never block, never lie and leave no trace when they fail",
  "try_lock, try_lock_shared and recursive try_lock return without waiting for another thread to release; they return true exactly when they acquired the lock, and may return false only if the lock was unavailable to the caller at some moment during the call (a CAS spinlock may also fail spuriously). "
  "A failed try changes nothing: later calls by any thread behave as if it had not been made.",
  ["schedules", "histories"],
  "all interleavings of tries with acquisitions and releases by other threads",
  "Tests try on a lock that is either certainly free or certainly held, never while ownership changes.",
  ALLM, [("try_* members", "all *_mutex.hpp")], ["return value of try_*", "later acquisitions"])
p("C05", "Timed acquisitions honour their deadline, and take what is available at it",
  "A timed acquisition returns false only after its deadline has passed on the clock it was given (steady clock for relative timeouts of the portable types, so wall-clock steps do not disturb them), only if the resource was unavailable at or after the deadline, and it does not stay blocked beyond the deadline. "
  "A timed-out call leaves the object as if it had never been made, and past, zero and negative timeouts behave like a try.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "all timeouts (negative, zero, tiny, large; any clock and duration type), all interleavings of expiry with release and notification, and steps of the system clock while waiting",
  "Tests use one 300 ms timeout that certainly expires or one of 3 minutes that certainly does not; they cannot step the clock or make expiry and release coincide.",
  ALT+ALTS+FAIR+FAIRS+CHK+CHKS+[I+"yamc_semaphore.hpp", I+"posix_semaphore.hpp", I+"yamc_timeout.hpp"]+PX,
  [("conversion of timeouts and deadlines", "yamc_timeout.hpp"), ("deadline from steady_clock, wait_until, re-check of the predicate on timeout", "do_try_lockwait / impl_try_lockwait / do_try_acquirewait")],
  ["return value and virtual time of try_*_for / try_*_until"])
p("C06", "Recursive mutexes are released exactly when unlocks match acquisitions",
  "The owner of a recursive mutex can re-acquire it by any of its acquisition calls at any depth, immediately and without queueing, and the mutex becomes available to other threads exactly when the number of unlocks equals the number of successful acquisitions. "
  "Another thread can never acquire it in between, whatever mix of lock, try_lock and timed forms was used.",
  ["histories", "schedules"],
  "all nestings and mixes of acquisition calls by the owner interleaved with attempts by other threads",
  "Tests nest two levels with one kind of call.",
  ALT+FAIR+CHK+PX, [("owner id and nesting count", "*recursive*_mutex classes")], ["acquisitions by other threads relative to the owner's depth"])
p("C07", "Fair mutexes grant in FIFO order; nobody barges past a waiter",
  "On every yamc::fair exclusive mutex, a thread that is already waiting acquires before any thread that starts to wait or to try later; try_lock fails while somebody is waiting, and a waiter that times out leaves the order of the others unchanged. "
  "Recursive re-acquisition by the owner is the only exception.",
  ["schedules", "histories"],
  "all arrival orders, with any mixture of lock, timed waits that expire or not, tries and spurious wake-ups",
  "Tests check a few arrival orders separated by 200 ms sleeps.",
  FAIR, [("ticket counters; intrusive FIFO queue of stack nodes", "fair_mutex.hpp")], ["order of successful acquisitions against order of waiting"])
p("C08", "Fair shared mutexes follow task-fair / phase-fair order and batch readers",
  "With TaskFairness requests are granted in request order, adjacent shared requests being granted together; with PhaseFairness an exclusive release followed by a waiting reader at the head grants all readers waiting at that moment together, ahead of waiting writers, and writers keep their order. "
  "A reader that arrives while a writer waits queues behind it, a grant is made as soon as the policy allows it (also when it is a timeout that unblocks it), and a timed-out request leaves the others' order unchanged.",
  ["schedules", "histories", "configurations"],
  "all arrival orders of readers and writers with expiring timed requests, for both policies and both class templates",
  "Tests fix one arrival order per policy and never combine timeouts of several waiters.",
  FAIRS, [("queue with lockable marks, phase reordering on unlock, grant on timeout", "fair_shared_mutex.hpp shared_mutex_base")], ["order and concurrency of acquisitions"])
p("C09", "Reader-preference and writer-preference policies admit exactly whom they say",
  "With ReaderPrefer a shared request is admitted whenever no writer holds the lock, even if writers wait; with WriterPrefer no new shared request is admitted while a writer holds or waits, and readers are admitted again as soon as no writer holds or waits, including when the waiting writer timed out or was refused. "
  "Writers are admitted whenever nobody holds the lock; this is the same for alternate and checked shared mutexes.",
  ["schedules", "histories", "configurations"],
  "all interleavings of readers, writers, tries and timed requests over both policies and both families",
  "Tests run one arrival order per policy and never let a waiting writer give up.",
  ALTS+CHKS, [("RwLockPolicy state machine", "yamc_rwlock_sched.hpp"), ("before_wait/after_wait bookkeeping and notification", "alternate_shared_mutex.hpp, checked_shared_mutex.hpp")],
  ["admission and refusal of shared requests"])
p("C10", "Checked mutexes report every misuse, only misuse, and survive it",
  "On yamc::checked types, unlocking a lock the caller does not own throws system_error(operation_not_permitted), re-acquiring a non-recursive lock by its owner and destroying an owned mutex throw system_error(resource_deadlock_would_occur), for every variant of the call. "
  "No correct call ever throws, and a reported misuse leaves ownership and all waiters unaffected.",
  ["histories", "schedules"],
  "all histories mixing correct and incorrect calls by several threads on all checked types",
  "Tests make each misuse once, on a fresh object, and do not look at the state afterwards.",
  CHK+CHKS, [("owner bookkeeping and precondition checks", "checked_mutex.hpp, checked_shared_mutex.hpp")], ["exception codes", "behaviour after the exception"])
p("C11", "Checked-mutex configuration macros change the reporting, not the locking",
  "With YAMC_CHECKED_CALL_ABORT=1 the program aborts at exactly the calls that throw in the default configuration and nowhere else; with YAMC_CHECKED_DETECT_DEADLOCK=0 misuse is still reported and deadlocks are not. The diagnostic macros YAMC_CHECK_VERBOSE and YAMC_DEBUG_TRACING only print. "
  "Correct programs behave identically in all four configurations.",
  ["configurations", "histories", "schedules"],
  "all four macro settings times all histories of C10/C12 programs",
  "Two of the four settings are tested, with one misuse per test.",
  CHK+CHKS+VAL, [("#if YAMC_CHECKED_CALL_ABORT / YAMC_CHECKED_DETECT_DEADLOCK", "checked_mutex.hpp, checked_shared_mutex.hpp")], ["abort or exception at each call"])
p("C12", "Every deadlock among checked mutexes is reported",
  "When lock() or lock_shared() calls on checked mutexes of any mixture of types close a cycle of threads each waiting for a lock held by the next, one of the calls on that cycle reports it (throws resource_deadlock_would_occur or aborts); the program never reaches a state in which such a cycle waits silently. "
  "This holds whatever the length of the cycle, the mode of each lock, the way the held locks were acquired and earlier timeouts, misuses and reported deadlocks.",
  ["schedules", "histories"],
  "all lock-order graphs over several mutexes and threads, in all interleavings",
  "Tests build four fixed cycle shapes with sleeps deciding who closes the cycle.",
  CHK+CHKS+VAL, [("global table of owners and waiters, path search on enqueue", "yamc_lock_validator.hpp")], ["blocked cycles when nothing can run"])
p("C13", "Deadlock detection raises no false alarm and leaves no residue",
  "lock() or lock_shared() on a checked mutex reports a deadlock only if the caller's wait would close a cycle of threads that are waiting, each for a lock held by the next, at that moment. "
  "A reported deadlock withdraws the refused request completely: later calls by any thread, on this or other mutexes, behave as if it had not been made.",
  ["schedules", "histories"],
  "all interleavings of lock, unlock, timed and shared calls over several mutexes, including continuing after a report",
  "Tests end right after the first report and never lock in patterns that are nearly cyclic.",
  CHK+CHKS+VAL, [("waiter registration and removal", "yamc_lock_validator.hpp enqueue/dequeue/unlocked")], ["deadlock reports", "behaviour after a report"])
p("C14", "Semaphores conserve permits and wake exactly whom they can serve",
  "For counting_semaphore (portable and POSIX, any least_max_value) the number of successful acquisitions never exceeds the initial count plus released permits, a permit is never lost or duplicated, and no thread stays blocked while a permit is available. "
  "try_acquire and timed acquisitions fail only when no permit was available during the call.",
  ["schedules", "histories", "inputs"],
  "all initial counts and release amounts, all interleavings of acquire, try_acquire, timed acquire and release",
  "Tests release to one or two sleeping waiters and use the semaphore as a mutex.",
  [I+"yamc_semaphore.hpp", I+"posix_semaphore.hpp"], [("counter under mutex and condition variable", "yamc_semaphore.hpp"), ("sem_t wrapper", "posix_semaphore.hpp")],
  ["return of acquire forms", "blocked acquirers when nothing can run"])
p("C15", "A latch opens exactly when its count reaches zero, for everyone, for good",
  "wait and arrive_and_wait return if and only if the sum of all count_down and arrive_and_wait amounts has reached the initial count, try_wait tells exactly that, and once open a latch never blocks anyone again. "
  "Zero and multi-unit updates and any number of waiters in any interleaving are covered.",
  ["schedules", "histories", "inputs"],
  "all initial counts, all ways of splitting the count over threads, all interleavings with waiters",
  "Tests use three threads and unit steps with sleeps.",
  [I+"yamc_latch.hpp"], [("counter under mutex and condition variable", "yamc_latch.hpp")], ["return of wait/try_wait/arrive_and_wait"])
p("C16", "A barrier phase completes once, after all arrivals, with the right count",
  "In each phase the completion function runs exactly once, after the expected number of arrivals and before any thread waiting on that phase is released, and then every such thread is released; a token of a finished phase never blocks. "
  "arrive(n) counts n arrivals, and each arrive_and_drop counts as an arrival in the current phase and lowers the expected count of all later phases by one, whoever arrives last, without waiting for the phase.",
  ["schedules", "histories", "inputs"],
  "all expected counts, all splits into arrive(n), arrive_and_wait, arrive+wait and arrive_and_drop over several phases, in all interleavings",
  "Tests use two or three threads in fixed order; drops always come last in their phase.",
  [I+"yamc_barrier.hpp"], [("counter, initial count, phase number", "yamc_barrier.hpp phase_completion_step")], ["completion calls", "return of wait forms"])
p("C17", "yamc::shared_lock behaves like std::shared_lock on every operation sequence",
  "For every sequence of construction, lock, try, timed try, unlock, move, swap and release on any number of yamc::shared_lock objects over any mutexes, the calls made on the mutexes, the ownership reported, the values returned and the exceptions thrown are those of std::shared_lock. "
  "This includes calls in invalid states and mutex operations that fail or throw.",
  ["histories", "inputs", "fault_sequences"],
  "all operation sequences on several lock objects and mutexes, with injected failures and exceptions of the mutex",
  "Tests exercise each member once, on one lock, with a mutex that never throws.",
  [I+"yamc_shared_lock.hpp"], [("owns flag and mutex pointer", "yamc_shared_lock.hpp")], ["call trace on the mutex", "owns_lock(), mutex(), exceptions"])
p("C18", "yamc::scoped_lock takes all its mutexes or none, and never deadlocks",
  "Constructing scoped_lock over any number of mutexes ends with all of them held exactly once by the caller, or, when a lock operation throws, with none held; destruction releases each exactly once, and adopting takes over without locking. "
  "Threads that lock overlapping sets of mutexes in any order through scoped_lock always make progress.",
  ["schedules", "inputs", "fault_sequences"],
  "all argument orders and overlaps over 0 to 5 mutexes of mixed types, all interleavings, and injected exceptions or failed tries at any lock operation",
  "One test locks two mutexes in opposite order; none makes an operation throw.",
  [I+"yamc_scoped_lock.hpp"], [("std::lock and tuple of references", "yamc_scoped_lock.hpp")], ["held set after construction/destruction", "progress"])
p("C19", "Backoff policies yield as documented and never affect locking",
  "exponential<N> yields the processor first after N waits and then at intervals that halve down to one, for every N; yield yields at every wait and busy never does, and each lock() starts a fresh backoff. "
  "A spinlock with any backoff policy, also a user-defined one, acquires whenever the lock becomes free.",
  ["inputs", "schedules", "configurations"],
  "all initial counts N and numbers of waits; all policies on all three spinlock types",
  "Tests check two values of N for a few waits.",
  SPIN, [("counter and halving interval", "yamc_backoff_spin.hpp")], ["processor yields during a contended lock()"])
p("C20", "An object may be destroyed as soon as its last permitted user has returned",
  "After a thread has acquired a mutex for the last time and released it, or returned from the last wait/acquire on a semaphore, latch or barrier, it may destroy the object even if the call of the other thread that enabled it is still returning: that call does not touch the object any more. "
  "This is the reference-counting and stack-latch idiom.",
  ["schedules"],
  "all interleavings of the tail of a releasing call with acquisition and destruction by another thread",
  "The window is a few instructions wide and use after destruction is silent without instrumentation.",
  ALLM+[I+"yamc_semaphore.hpp", I+"yamc_latch.hpp", I+"yamc_barrier.hpp", I+"posix_semaphore.hpp"],
  [("notification while the internal mutex is held", "unlock/release/count_down members")], ["accesses to the object after its destruction"])
p("C21", "Objects keep working over arbitrarily long histories",
  "The behaviour of an object does not depend on how often it was used before: after any number of phases, acquisitions or releases, including numbers that exceed any internal counter's range that is reachable in practice (2^32 barrier phases), it behaves like a fresh one. "
  "Semaphores, latches and barriers work at the limits of their advertised max().",
  ["histories", "inputs"],
  "usage counts up to and beyond 2^32; counts up to max()",
  "Tests use an object at most 100000 times.",
  [I+"yamc_barrier.hpp", I+"fair_mutex.hpp", I+"yamc_semaphore.hpp", I+"yamc_latch.hpp", I+"yamc_backoff_spin.hpp"],
  [("phase, ticket and permit counters", "yamc_barrier.hpp, fair_mutex.hpp, yamc_semaphore.hpp")], ["behaviour after very many operations"])
p("C22", "POSIX wrappers are faithful: signals, odd deadlines and native handles",
  "A POSIX semaphore operation interrupted by a signal handler neither fails nor throws nor loses a permit, and a deadline before the epoch or at the end of time is an expired or an infinite one, not an error. "
  "A POSIX mutex, rwlock or spinlock and its native handle are one lock: operations through either exclude and admit each other.",
  ["fault_sequences", "inputs", "schedules"],
  "all points at which a signal can interrupt a wait, all deadlines representable in the clock, and all mixtures of native and wrapper calls",
  "No test delivers a signal, uses an extreme deadline or mixes native calls.",
  PX+[I+"posix_semaphore.hpp"], [("errno handling and time conversion", "posix_semaphore.hpp do_try_acquirewait, to_system_timepoint")],
  ["exceptions and return values", "native calls on native_handle()"])
p("C23", "The types work in every program the standard interfaces allow",
  "Every mutex type fits the standard's requirements for its kind: programs using it through std::unique_lock, lock_guard, std::lock, scoped_lock, shared_lock and condition_variable_any, with any clock (absolute times on the POSIX mutexes: the system clock, as documented) and any duration type (integral or floating, coarse or fine), compile in C++11 to C++20, alone or with other headers in any order, and give the results of the std counterpart. "
  "The documented default-selection macros select the documented default.",
  ["programs", "configurations", "inputs"],
  "all combinations of type, operation, clock, duration type, wrapper, header order, language mode and default macro",
  "compile_test covers integral durations and three clocks, under C++11, with all headers included.",
  ALLM+[I+"yamc_semaphore.hpp", I+"posix_semaphore.hpp", I+"yamc_latch.hpp", I+"yamc_barrier.hpp", I+"yamc_shared_lock.hpp", I+"yamc_scoped_lock.hpp"],
  [("templated timed members", "all timed types")], ["compilation and result of generated programs"])
p("C24", "Windows, GCD and Apple wrappers map the platform calls correctly",
  "On a platform whose native calls behave as documented, yamc::win, yamc::gcd and yamc::apple primitives give the semantics of their standard counterparts: exclusion, permit conservation, timeouts that are never early and never turn a past or far deadline into an endless or a zero wait, and errors reported as system_error. ",
  ["inputs", "schedules", "configurations"],
  "all timeouts and clocks, all interleavings, over an emulation of the documented native calls",
  "The headers are not even compiled by the tests on this platform.",
  [I+"win_native_mutex.hpp", I+"win_semaphore.hpp", I+"gcd_semaphore.hpp", I+"apple_native_mutex.hpp"],
  [("timeout conversion and result mapping", "do_try_lockwait, do_try_acquirewait, from_unix_epoch")], ["native calls made, return values, blocking"])
p("C25", "Spurious wake-ups and spurious CAS failures never surface",
  "If the underlying condition variable wakes spuriously, at any moment and any number of times, or a weak compare-exchange fails spuriously, no blocking call of any primitive returns early, none reports a timeout early or a deadlock, waiting order is kept, and no wake-up is lost. ",
  ["fault_sequences", "schedules"],
  "all placements and numbers of spurious wake-ups and spurious CAS failures in any history",
  "They practically never happen in tests.",
  ALLM+[I+"yamc_semaphore.hpp", I+"yamc_latch.hpp", I+"yamc_barrier.hpp"],
  [("predicate loops around every wait", "all blocking members")], ["returns of blocking calls"])
p("C26", "A call that fails for want of resources throws and changes nothing",
  "If memory for a checked mutex's bookkeeping cannot be allocated, or a native lock call reports failure (such as a POSIX recursive mutex at its maximum depth or an rwlock at its maximum number of readers), the call ends with an exception (a POSIX try or timed form may return false instead) and never as an acquisition that did not take place. "
  "Such a call has no effect: ownership, waiting requests and the records of the deadlock detection are as if it had not been made, readers it kept out are admitted, and unlocking an owned lock never fails.",
  ["fault_sequences", "histories", "schedules"],
  "all placements of failing allocations and failing native calls in any history of calls by any number of threads",
  "No test makes an allocation or a native call fail.",
  CHK+CHKS+VAL+PX, [("order of bookkeeping and state changes in the acquiring members; wlock_request", "checked_mutex.hpp, checked_shared_mutex.hpp"), ("throw_on_error", "posix_native_mutex.hpp")],
  ["exceptions and results of acquiring calls, later behaviour of the object"])
p("C27", "Objects work wherever they live, from before main until after it",
  "From the end of its constructor to the start of its destructor every call on an object works, whether the object is static, function-local, thread-local, automatic, on the heap or never destroyed, in whichever translation unit, and whatever its memory contained before: during static initialisation, in exit handlers, in destructors of static and thread-local objects, and in threads that are still running then. "
  "Objects are independent: using one never changes what another does, and call-backs that a primitive makes (completion functions, backoff policies) may use other objects of the library.",
  ["programs", "histories", "inputs"],
  "all storage durations, orders of construction and destruction, phases of the program and contents of memory",
  "The tests use automatic objects inside main only.",
  ALLM+[I+"yamc_semaphore.hpp", I+"posix_semaphore.hpp", I+"yamc_latch.hpp", I+"yamc_barrier.hpp", I+"yamc_lock_validator.hpp"],
  [("process-wide table of the deadlock detection", "yamc_lock_validator.hpp global_table"), ("member initialisers", "all classes")], ["results of calls before and after main", "memory errors"])
p("C28", "Guarantees do not depend on how many threads, owners or objects take part",
  "Mutual exclusion, admission of readers, FIFO and batch order, wake-up of every waiter, permits, phases and deadlock reports are the same with hundreds of threads as with two, with tens of thousands of simultaneous shared owners, and with thousands of objects in use: a writer is kept out until the last of any number of readers has left, all readers waiting for one writer are admitted together, queues of any length are served in order, a cycle of any length is reported exactly once and an open chain or layered wait-for graph of any size never. "
  "Deciding it takes no time or memory that explodes with that number, and objects and threads that are gone leave no memory behind.",
  ["configurations", "histories", "schedules"],
  "all numbers of threads, simultaneous owners, waiters and objects, and all shapes of wait-for graphs",
  "The tests use two to four threads and one to three objects.",
  ALLM+[I+"yamc_semaphore.hpp", I+"posix_semaphore.hpp", I+"yamc_latch.hpp", I+"yamc_barrier.hpp", I+"yamc_lock_validator.hpp", I+"yamc_scoped_lock.hpp"],
  [("counts of readers, waiters and phases; queues", "all classes"), ("search of the wait-for graph", "yamc_lock_validator.hpp find_closepath")], ["order and number of acquisitions", "reports of deadlock", "memory in use"])
p("C29", "Native objects are made once and destroyed exactly once",
  "Every native object a wrapper stands for (POSIX mutex, rwlock, spinlock and semaphore, attribute objects, Win32 handles and critical sections, dispatch semaphores) is made by its constructor, is the wrapper's own, and is destroyed exactly once when the wrapper is destroyed, whatever was done with it before and also when the constructor fails; none is used before it is made or after it is destroyed, or made anew while in use. "
  "If the platform cannot make it, a mutex constructor (unless noexcept) throws and leaves nothing behind, and a Win32 or dispatch semaphore reports it by exceptions from its later calls and is destroyed without a native call on the missing object.",
  ["histories", "fault_sequences", "configurations"],
  "all histories of construction, use and destruction, with creation of native objects failing anywhere, on every platform's types",
  "On Linux a forgotten destroy call has no visible effect, creation never fails in tests, and the Win32 and Apple types are not compiled.",
  PX+[I+"posix_semaphore.hpp", I+"win_native_mutex.hpp", I+"win_semaphore.hpp", I+"gcd_semaphore.hpp", I+"apple_native_mutex.hpp"],
  [("constructors and destructors", "all native wrappers")], ["native calls made by constructors and destructors", "exceptions from constructors"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
