#!/usr/bin/env python3
"""mutate.py HEADER... : small changes to the headers, one at a time, each put to the drivers (development aid, no check uses it).

Prints one line per mutant: killed (by which driver), no-compile, or SURVIVED. Works in /tmp/w/mut."""
import sys, os, re, subprocess, json, random, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + '/tools')
import check
T = '/tmp/w/mut'
CASES = int(os.environ.get('CASES', '24000'))
JOBS = int(os.environ.get('JOBS', '8'))
M = 'C01 C04 C03 C05 C02 C25 C20 C21m'.split()
S = 'C14 C02s C25s C05s C20 C21s'.split()
USE = {
    'naive_spin_mutex.hpp': [('sut_spin', M)], 'ttas_spin_mutex.hpp': [('sut_spin', M)], 'yamc_backoff_spin.hpp': [('sut_spin', M)],
    'alternate_mutex.hpp': [('sut_alt', ['C06'] + M)], 'alternate_shared_mutex.hpp': [('sut_alt', ['C09'] + M)],
    'yamc_rwlock_sched.hpp': [('sut_alt', ['C09'] + M), ('sut_checked', ['C09', 'C10'])],
    'fair_mutex.hpp': [('sut_fair', ['C07', 'C06'] + M)], 'fair_shared_mutex.hpp': [('sut_fairrw', ['C08'] + M)],
    'checked_mutex.hpp': [('sut_checked', ['C10', 'C12', 'C13', 'C06'] + M)], 'checked_shared_mutex.hpp': [('sut_checked', ['C10', 'C12', 'C13', 'C09'] + M)],
    'yamc_lock_validator.hpp': [('sut_checked', ['C12', 'C13', 'C10'] + M)],
    'posix_native_mutex.hpp': [('sut_posix', ['C06'] + M), ('sut_native', ['C22n'])],
    'posix_semaphore.hpp': [('sut_posixsem', ['C22s'] + S)],
    'yamc_semaphore.hpp': [('sut_sync', S)], 'yamc_latch.hpp': [('sut_sync', ['C15'] + S)], 'yamc_barrier.hpp': [('sut_sync', ['C16'] + S)],
    'yamc_shared_lock.hpp': [('sut_wrap', ['C17'])], 'yamc_scoped_lock.hpp': [('sut_wrap+sut_alt', ['C18'])],
    'win_native_mutex.hpp': [('sut_win', ['C24m'])], 'win_semaphore.hpp': [('sut_win', ['C24s'])],
    'gcd_semaphore.hpp': [('sut_gcd', ['C24s'])], 'apple_native_mutex.hpp': [('sut_gcd', ['C24m'])],
    'yamc_timeout.hpp': [('sut_alt', ['C05']), ('sut_posixsem', ['C05s', 'C22s']), ('sut_win', ['C24m', 'C24s']), ('sut_gcd', ['C24s'])],
}
OPS = [(r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r'&&', '||'), (r'\|\|', '&&'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'\+\+(?=\w)', '--'), (r'--(?=\w)', '++'), (r'(?<=\w)\+\+', '--'), (r'(?<=\w)--', '++'), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' \+ ', ' - '), (r' - ', ' + '),
       (r'notify_all', 'notify_one'), (r'memory_order_acquire', 'memory_order_relaxed'), (r'memory_order_release', 'memory_order_relaxed'), (r'memory_order_acq_rel', 'memory_order_relaxed'),
       (r'\bwhile \(', 'if ('), (r'\bif \(!', 'if ('), (r'\bif \((?!!)(?=[^;]*\) *\{?$)', 'if (true || '), (r'\bif \((?=[^;]*\) *\{?$)', 'if (false && '), (r'\b0\b(?!\w)', '1'), (r'\b1\b', '2'), (r'\b1\b', '0'), (r'\b2\b', '0'), (r'\b3\b', '2'), (r'\b3\b', '1'),
       (r'\bbreak;', ';'), (r'compare_exchange_strong', 'compare_exchange_weak'), (r'\|= ', '= '), (r'&= ', '= '), (r'\.prev\b', '.next'), (r'\.next\b', '.prev'), (r'->prev\b', '->next'), (r'->next\b', '->prev'),
       (r'resource_deadlock_would_occur', 'operation_not_permitted'), (r'operation_not_permitted', 'resource_deadlock_would_occur'), (r'steady_clock', 'system_clock'),
       (r'std::unique_lock<decltype\(mtx_\)> lk\(mtx_\);', 'std::unique_lock<decltype(mtx_)> lk(mtx_); lk.unlock(); lk.lock();')]


def mutants(h):
    txt = open(check.INC + '/' + h).read()
    lines = txt.split('\n')
    start = next(i for i, l in enumerate(lines) if 'namespace yamc' in l)
    skip = False
    out = []
    for i in range(start, len(lines)):
        l = lines[i]
        s = l.strip()
        if s.startswith('#if YAMC_CHECK_VERBOSE') or s.startswith('#if YAMC_DEBUG') or 'dump_mutexmap' in s or 'YAMC_DEBUG' in s:
            if s.startswith('#if'):
                skip = True
            continue
        if s.startswith('#e'):
            skip = False
        if skip or s.startswith(('//', '*', '/*', '#', 'template', 'using', 'assert', 'static_assert', 'typedef', 'class', 'struct')) or 'std::cout' in s or 'os <<' in s or '= delete' in s or '= default' in s:
            continue
        code = l.split('//')[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                out.append((i, code[:m.start()] + re.sub(a, b, m.group(0)) + code[m.end():]))
        if re.match(r'^\s+[^{}]*;\s*$', code) and not re.match(r'^\s*(return\b|const |auto |std::(unique|lock|size|thread|vector|mutex|cond|ptrdiff)|typename|unsigned|int |node |mutable|bool |throw)', code):
            out.append((i, '  ;'))
    seen, r = set(), []
    for i, n in out:
        if n != lines[i] and (i, n) not in seen:
            seen.add((i, n)); r.append((i, lines[i], n))
    return r


def one(h, mu):
    i, old, new = mu
    d = '%s/%s' % (T, hashlib.md5((h + str(i) + new).encode()).hexdigest()[:10])
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(check.INC, d + '/inc')
    p = d + '/inc/' + h
    L = open(p).read().split('\n'); L[i] = new; open(p, 'w').write('\n'.join(L))
    res = 'SURVIVED'
    try:
        for tu, drvs in USE[h]:
            objs = []
            for t in tu.split('+'):
                o = d + '/' + t + '.o'
                r = check.sh(check.SUT + ['-w', '-I', d + '/inc', '-I', V + '/sut', V + '/sut/' + t + '.cpp', '-o', o])
                if r.returncode:
                    return h, i, old, new, 'no-compile'
                objs.append(o)
            so = d + '/libsut_' + tu + '.so'
            check.sh(['clang++', '-shared', '-o', so] + objs + ['-Wl,-z,now'])
            for dr in drvs:
                o = d + '/o'
                try:
                    r = check.sh([WORKER, 'run', '--prop', dr, '--seed', '5', '--from', '0', '--step', '1', '--cases', str(CASES), '--lib', so, '--out', o, '--maxsec', '60'], timeout=100)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = -9
                if rc == 1:
                    try:
                        m = json.load(open(o))['violation']
                        return h, i, old, new, 'killed %s case %d %s' % (dr, m['case'], m['msg'][:80])
                    except Exception as e:
                        return h, i, old, new, 'killed? %s %s' % (dr, e)
                if rc not in (0, 3):
                    return h, i, old, new, 'crash %s %s' % (dr, rc)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return h, i, old, new, res


if __name__ == '__main__':
    os.makedirs(T, exist_ok=True)
    WORKER, _, _ = check.build_all([])
    hs = sys.argv[1:] or sorted(USE)
    todo = [(h, m) for h in hs for m in mutants(h)]
    print(len(todo), 'mutants', flush=True)
    n = {}
    with ThreadPoolExecutor(JOBS) as ex:
        for h, i, old, new, res in ex.map(lambda a: one(*a), todo):
            n[res.split()[0]] = n.get(res.split()[0], 0) + 1
            print('%s:%d %s\n    - %s\n    + %s' % (h, i + 1, res, old.strip(), new.strip()), flush=True)
    print(n)
