"""C23: generated programs over the public interface, compared with the std counterparts."""
import os, random
from . import common
P = os.path.join(common.V, 'mods')

EX, RE, TI, RT, SH, ST = ('std::mutex', '0'), ('std::recursive_mutex', 'REC'), ('std::timed_mutex', 'TIMED'), ('std::recursive_timed_mutex', 'REC | TIMED'), ('StdShared', 'RW'), ('StdSharedTimed', 'RW | TIMED')
R, W = 'yamc::rwlock::ReaderPrefer', 'yamc::rwlock::WriterPrefer'
TF, PF = 'yamc::rwlock::TaskFairness', 'yamc::rwlock::PhaseFairness'
TYPES = [
    ('naive_spin_mutex.hpp', 'yamc::spin::mutex', EX), ('naive_spin_mutex.hpp', 'yamc::spin_weak::mutex', EX),
    ('naive_spin_mutex.hpp', 'yamc::spin::basic_mutex<yamc::backoff::yield>', EX), ('naive_spin_mutex.hpp', 'yamc::spin_weak::basic_mutex<yamc::backoff::busy>', EX),
    ('ttas_spin_mutex.hpp', 'yamc::spin_ttas::mutex', EX), ('ttas_spin_mutex.hpp', 'yamc::spin_ttas::basic_mutex<yamc::backoff::exponential<10>>', EX),
    ('alternate_mutex.hpp', 'yamc::alternate::mutex', EX), ('alternate_mutex.hpp', 'yamc::alternate::recursive_mutex', RE),
    ('alternate_mutex.hpp', 'yamc::alternate::timed_mutex', TI), ('alternate_mutex.hpp', 'yamc::alternate::recursive_timed_mutex', RT),
    ('checked_mutex.hpp', 'yamc::checked::mutex', EX), ('checked_mutex.hpp', 'yamc::checked::recursive_mutex', RE),
    ('checked_mutex.hpp', 'yamc::checked::timed_mutex', TI), ('checked_mutex.hpp', 'yamc::checked::recursive_timed_mutex', RT),
    ('fair_mutex.hpp', 'yamc::fair::mutex', EX), ('fair_mutex.hpp', 'yamc::fair::recursive_mutex', RE),
    ('fair_mutex.hpp', 'yamc::fair::timed_mutex', TI), ('fair_mutex.hpp', 'yamc::fair::recursive_timed_mutex', RT),
    ('alternate_shared_mutex.hpp', 'yamc::alternate::shared_mutex', SH), ('alternate_shared_mutex.hpp', 'yamc::alternate::shared_timed_mutex', ST),
    ('alternate_shared_mutex.hpp', 'yamc::alternate::basic_shared_mutex<%s>' % W, SH), ('alternate_shared_mutex.hpp', 'yamc::alternate::basic_shared_timed_mutex<%s>' % W, ST),
    ('checked_shared_mutex.hpp', 'yamc::checked::shared_mutex', SH), ('checked_shared_mutex.hpp', 'yamc::checked::shared_timed_mutex', ST),
    ('checked_shared_mutex.hpp', 'yamc::checked::basic_shared_mutex<%s>' % W, SH), ('checked_shared_mutex.hpp', 'yamc::checked::basic_shared_timed_mutex<%s>' % W, ST),
    ('fair_shared_mutex.hpp', 'yamc::fair::shared_mutex', SH), ('fair_shared_mutex.hpp', 'yamc::fair::shared_timed_mutex', ST),
    ('fair_shared_mutex.hpp', 'yamc::fair::basic_shared_mutex<%s>' % TF, SH), ('fair_shared_mutex.hpp', 'yamc::fair::basic_shared_timed_mutex<%s>' % TF, ST),
    ('posix_native_mutex.hpp', 'yamc::posix::native_mutex', ('std::timed_mutex', 'TIMED | SYS')), ('posix_native_mutex.hpp', 'yamc::posix::native_recursive_mutex', ('std::recursive_timed_mutex', 'REC | TIMED | SYS')),
    ('posix_native_mutex.hpp', 'yamc::posix::rwlock', ('StdSharedTimed', 'RW | TIMED | SYS')), ('posix_native_mutex.hpp', 'yamc::posix::spinlock', EX),
    ('yamc_semaphore.hpp', 'SEM', '9223372036854775807', 'yamc::counting_semaphore<>'), ('yamc_semaphore.hpp', 'SEM', '1', 'yamc::binary_semaphore'), ('yamc_semaphore.hpp', 'SEM', '5', 'yamc::counting_semaphore<5>'),
    ('posix_semaphore.hpp', 'SEM', '2147483647', 'yamc::posix::counting_semaphore<>'), ('posix_semaphore.hpp', 'SEM', '1', 'yamc::posix::binary_semaphore'), ('posix_semaphore.hpp', 'SEM', '3', 'yamc::posix::counting_semaphore<3>'),
    ('yamc_latch.hpp', 'LAT'), ('yamc_barrier.hpp', 'BAR'),
]
HEADERS = sorted(set(t[0] for t in TYPES)) + ['yamc_shared_lock.hpp', 'yamc_scoped_lock.hpp', 'yamc_rwlock_sched.hpp', 'yamc_lock_validator.hpp', 'yamc_backoff_spin.hpp']
STDH = ['mutex', 'thread', 'chrono', 'atomic', 'cassert', 'condition_variable', 'system_error', 'utility', 'type_traits', 'memory', 'vector', 'tuple', 'cstddef', 'limits', 'ctime', 'semaphore.h', 'pthread.h', 'time.h', 'errno.h', 'map', 'list']
STDS = ['c++11', 'c++14', 'c++17', 'c++20']
ALONE = '''template class %s;
'''


def traits_text(h, lm):
    """What the standard's interfaces promise at compile time."""
    A = lambda x: '  static_assert(%s, "interface");\n' % x
    D = lambda t: 'std::declval<%s>()' % t
    out = ''
    for e in TYPES:
        if e[0] != h:
            continue
        if e[1] == 'SEM':
            t = e[3]
            out += A('noexcept(%s.try_acquire())' % D(t + '&')) + A('noexcept((%s::max)())' % t) + ('' if lm and t == 'yamc::counting_semaphore<>' else A('(%s::max)() >= %s' % (t, e[2]))) + A('!std::is_copy_constructible<%s>::value && !std::is_copy_assignable<%s>::value' % (t, t))
            out += A('std::is_constructible<%s, std::ptrdiff_t>::value && !std::is_convertible<std::ptrdiff_t, %s>::value' % (t, t))
            out += A('std::is_same<decltype(%s.release(1)), void>::value && std::is_same<decltype(%s.try_acquire_for(std::chrono::seconds(0))), bool>::value' % (D(t + '&'), D(t + '&')))
            if 'binary' in t:
                out += A('std::is_same<%s, %s>::value' % (t, t.replace('binary_semaphore', 'counting_semaphore<1>')))
        elif e[1] == 'LAT':
            out += A('noexcept(%s.try_wait())' % D('const yamc::latch&')) + A('noexcept((yamc::latch::max)())') + A('std::is_same<decltype(%s.wait()), void>::value' % D('const yamc::latch&')) + A('!std::is_copy_constructible<yamc::latch>::value && !std::is_copy_assignable<yamc::latch>::value')
        elif e[1] == 'BAR':
            out += A('noexcept((yamc::barrier<>::max)())') + A('std::is_same<decltype(%s.arrive()), yamc::barrier<>::arrival_token>::value' % D('yamc::barrier<>&')) + A('std::is_same<decltype(%s.wait(%s)), void>::value' % (D('const yamc::barrier<>&'), D('yamc::barrier<>::arrival_token&&')))
        else:
            t = e[1]
            out += '  { typedef %s M;' % t + A('std::is_default_constructible<M>::value && !std::is_copy_constructible<M>::value && !std::is_copy_assignable<M>::value && !std::is_move_constructible<M>::value && !std::is_move_assignable<M>::value')
            out += A('std::is_same<decltype(%s.lock()), void>::value && std::is_same<decltype(%s.unlock()), void>::value && std::is_same<decltype(%s.try_lock()), bool>::value' % ((D('M&'),) * 3))
            f = e[2][1]
            for n in [''] + (['_shared'] if 'RW' in f else []):
                if n:
                    out += A('std::is_same<decltype(%s.lock_shared()), void>::value && std::is_same<decltype(%s.unlock_shared()), void>::value && std::is_same<decltype(%s.try_lock_shared()), bool>::value' % ((D('M&'),) * 3))
                if 'TIMED' in f:
                    out += A('std::is_same<decltype(%s.try_lock%s_for(std::chrono::seconds(0))), bool>::value && std::is_same<decltype(%s.try_lock%s_until(std::chrono::system_clock::now())), bool>::value' % (D('M&'), n, D('M&'), n))
            if 'posix' in t:
                out += A('std::is_same<decltype(%s.native_handle()), M::native_handle_type>::value' % D('M&'))
            out += '  }\n'
    if h == 'yamc_shared_lock.hpp':
        out += '  { typedef yamc::shared_lock<RwT> L;' + A('std::is_same<L::mutex_type, RwT>::value') + A('std::is_nothrow_default_constructible<L>::value && std::is_nothrow_move_constructible<L>::value && std::is_nothrow_move_assignable<L>::value && !std::is_copy_constructible<L>::value && !std::is_copy_assignable<L>::value')
        out += A('!std::is_convertible<L, bool>::value && !std::is_convertible<RwT&, L>::value && std::is_constructible<bool, L>::value') + A('noexcept(%s.owns_lock()) && noexcept(%s.mutex()) && noexcept(%s.release()) && noexcept(%s.swap(%s))' % (D('const L&'), D('const L&'), D('L&'), D('L&'), D('L&')))
        out += A('std::is_same<decltype(%s.release()), RwT*>::value && std::is_same<decltype(%s.try_lock()), bool>::value' % (D('L&'), D('L&'))) + '  }\n'
    if h == 'yamc_scoped_lock.hpp':
        out += '  { typedef yamc::scoped_lock<Mx> L; typedef yamc::scoped_lock<Mx, Mx> L2;' + A('std::is_same<L::mutex_type, Mx>::value') + A('!std::is_copy_constructible<L>::value && !std::is_copy_constructible<L2>::value && !std::is_copy_assignable<L>::value && !std::is_copy_assignable<L2>::value && !std::is_move_constructible<L2>::value')
        out += A('!std::is_convertible<Mx&, L>::value && std::is_constructible<L2, std::adopt_lock_t, Mx&, Mx&>::value') + '  }\n'
    return out


def alone_text(h, rnd, order, lm=0):
    """One header (after `order`), everything in it instantiated."""
    t = ''.join('#include <%s>\n' % x for x in order) + '#include "%s"\n' % h
    body = ''
    for e in TYPES:
        if e[0] != h:
            continue
        if e[1] == 'SEM':
            body += '  { %s s(1); s.acquire(); s.release(); s.release(0); (void)s.try_acquire(); (void)s.try_acquire_for(std::chrono::milliseconds(0)); (void)s.try_acquire_until(std::chrono::steady_clock::now()); (void)s.try_acquire_until(std::chrono::system_clock::now()); (void)(s.max)(); }\n' % e[3]
        elif e[1] == 'LAT':
            body += '  { yamc::latch l(1); l.count_down(); l.count_down(0); (void)l.try_wait(); l.wait(); l.arrive_and_wait(0); (void)(l.max)(); }\n'
        elif e[1] == 'BAR':
            body += '  { yamc::barrier<> b(1); b.arrive_and_wait(); b.wait(b.arrive()); b.arrive_and_drop(); yamc::barrier<Fn> c(1, Fn()); (void)c.arrive(1); (void)(c.max)(); }\n'
        else:
            body += '  { %s m; m.lock(); m.unlock(); if (m.try_lock()) m.unlock();' % e[1]
            f = e[2][1]
            if 'RW' in f:
                body += ' m.lock_shared(); m.unlock_shared(); if (m.try_lock_shared()) m.unlock_shared();'
            if 'TIMED' in f:
                clk = ['system'] if 'SYS' in f else ['steady', 'system']
                for n in ([''] + (['_shared'] if 'RW' in f else [])):
                    body += ' if (m.try_lock%s_for(std::chrono::milliseconds(1))) m.unlock%s();' % (n, n) + ' if (m.try_lock%s_for(std::chrono::duration<double>(.001))) m.unlock%s();' % (n, n)
                    for k in clk:
                        body += ' if (m.try_lock%s_until(std::chrono::%s_clock::now())) m.unlock%s();' % (n, k, n)
            if 'posix' in e[1]:
                body += ' (void)m.native_handle();'
            body += ' }\n'
    if h == 'yamc_shared_lock.hpp':
        body += '  { RwT m; yamc::shared_lock<RwT> a(m), b, c(m, std::defer_lock), d(m, std::try_to_lock); b = std::move(a); b.unlock(); (void)b.try_lock(); std::swap(b, c); (void)c.owns_lock(); (void)c.release(); yamc::shared_lock<RwT> e(m, std::chrono::milliseconds(0)); yamc::shared_lock<RwT> f(m, std::chrono::steady_clock::now()); (void)f.mutex(); if (f) f.swap(e); }\n'
    if h == 'yamc_scoped_lock.hpp':
        body += '  { Mx a, b, c; { yamc::scoped_lock<> l; } { yamc::scoped_lock<Mx> l(a); } { yamc::scoped_lock<Mx, Mx> l(a, b); } { yamc::scoped_lock<Mx, Mx, Mx> l(c, b, a); } a.lock(); { yamc::scoped_lock<Mx> l(std::adopt_lock, a); } }\n'
    body += traits_text(h, lm)
    need = '#include <chrono>\n#include <mutex>\n#include <type_traits>\n'       # what a caller needs to name the arguments
    pre = 'struct Fn { void operator()() noexcept {} };\nstruct Mx { bool h = false; void lock() { h = true; } bool try_lock() { return h = true; } void unlock() { h = false; } };\n'
    pre += 'struct RwT : Mx { void lock_shared() {} bool try_lock_shared() { return true; } void unlock_shared() {} template <class D> bool try_lock_shared_for(D) { return true; } template <class T> bool try_lock_shared_until(T) { return true; } };\n'
    glob = '#if __cplusplus >= 202002L\nconstinit yamc::posix::native_mutex ci;\n#endif\n' if h == 'posix_native_mutex.hpp' else ''
    return t + need + pre + glob + 'void use() {\n' + body + '}\n'


def run(c, step, tier, seed, inc):
    big = tier == 'thorough'
    rnd = random.Random(seed * 104729 + 23)
    jobs, progs = [], []
    runnable = {}
    # 1. every header alone
    count = 0
    for h in HEADERS:
        for k in range(8 if big else 3):
            order = [] if k == 0 else rnd.sample(STDH, rnd.randrange(0, 4))
            cc, std = rnd.choice(['g++', 'clang++']), (STDS[0] if k == 0 else rnd.choice(STDS))
            flags = rnd.choice([[], ['-DNDEBUG'], ['-O2'], ['-fno-rtti']]) if k else []
            if 'checked' in h and k:
                flags = flags + rnd.choice([[], ['-DYAMC_CHECKED_CALL_ABORT=1'], ['-DYAMC_CHECKED_DETECT_DEADLOCK=0'], ['-DYAMC_CHECKED_CALL_ABORT=1', '-DYAMC_CHECKED_DETECT_DEADLOCK=0']])
            lm = 0
            if h == 'yamc_semaphore.hpp' and k == 1:
                lm = rnd.choice([1, 9, 70000, 2147483648]); flags = flags + ['-DYAMC_SEMAPHORE_LEAST_MAX_VALUE=%d' % lm]
            src = os.path.join(c.tmp, 'alone_%s_%d.cpp' % (h[:-4], k))
            open(src, 'w').write(alone_text(h, rnd, order, lm) + ('static_assert(std::is_same<yamc::counting_semaphore<>, yamc::counting_semaphore<%d>>::value, "default of least_max_value");\n' % lm if lm else ''))
            jobs.append((src, [cc, '-std=' + std, '-I', inc, '-c', src, '-o', '/dev/null'] + flags))
            count += 1
    # 2. programs over a few types
    nprog = 96 if big else 32
    pool = []
    while len(pool) < nprog * 4:
        x = list(range(len(TYPES))); rnd.shuffle(x); pool += x
    for k in range(nprog):
        d = os.path.join(c.tmp, 'p%d' % k); os.makedirs(d)
        ts = [TYPES[i] for i in pool[4 * k:4 * k + 4]]
        hs = sorted(set(t[0] for t in ts)); rnd.shuffle(hs)
        extra = rnd.sample(HEADERS, rnd.randrange(0, 6))
        std = STDS[k % 4]; cc = ['g++', 'clang++'][k // 4 % 2]
        if any(t[1] == 'BAR' for t in ts) or rnd.random() < 0.3:
            extra.append('yamc_barrier.hpp')
        else:
            extra.append('yamc_barrier.hpp')
        incs = hs + extra + ['yamc_latch.hpp']
        lead = hs[0]                    # a header of the types under test comes first of all
        rest = incs[1:] + ['<%s>' % x for x in rnd.sample(STDH, rnd.randrange(0, 6))]
        rnd.shuffle(rest)
        with open(d + '/c23_inc.inc', 'w') as f:
            for i in [lead] + rest:
                f.write('#include %s\n' % (i if i[0] == '<' else '"%s"' % i))
        with open(d + '/c23_types.inc', 'w') as f:
            for i, t in enumerate(ts):
                if t[1] == 'SEM': f.write('SEM(%d, %s, %s)\n' % (i, t[2], t[3]))
                elif t[1] in ('LAT', 'BAR'): f.write('%s(%d)\n' % (t[1], i))
                else: f.write('X(%d, %s, %s, %s)\n' % (i, t[2][0], t[2][1], t[1]))
        other = list(HEADERS); rnd.shuffle(other)
        with open(d + '/odr.cpp', 'w') as f:
            f.write(''.join('#include "%s"\n' % h for h in other) + '#include "c23_inc.inc"\nint odr() { return 7; }\n')
        flags = rnd.choice([['-O0'], ['-O1'], ['-O1', '-DNDEBUG']])
        base = [cc, '-std=' + std, '-pthread', '-I', inc, '-I', d, '-I', P] + flags
        exe = d + '/prog'
        cmd = ' '.join(base + [P + '/c23.cpp', d + '/odr.cpp', '-DNTYPES=4', '-o', exe])
        jobs.append((exe, base + [P + '/c23.cpp', d + '/odr.cpp', '-DNTYPES=4', '-o', exe]))
        progs.append(('p%d' % k, exe, 1500 if big else 150, cmd + '   # ' + ', '.join(t[3] if t[1] == 'SEM' else t[1] for t in ts)))
    r = common.compile_all(jobs, 8)
    for name, (ok, out, cmd) in r.items():
        if not ok:
            src = open(name).read() if name.endswith('.cpp') else ''
            c.violation('a program using the public interface does not compile', cmd + '\n' + out[:6000] + '\n' + src)
            if len(c.violations) > 3:
                break
    c.evals += count; c.nontrivial += count; c.distinct_extra += count
    c.parts.append(dict(program='each header alone, all templates instantiated', cases=count, nontrivial=count, distinct=count))
    common.run_pbt(c, [p for p in progs if r[p[1]][0]], seed, c.tmp, 3000 if big else 500)
