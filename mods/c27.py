"""C27: objects of every storage duration, used from before main until after it; one process per generated plan."""
import os, random, subprocess, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import common
P = os.path.join(common.V, 'mods')
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=23:check_initialization_order=0:detect_stack_use_after_return=0')


def one(exe, plan, limit=30):
    """'' if the case holds, else what happens; and the output"""
    try:
        r = subprocess.run([exe], env=dict(ENV, C27=' '.join(map(str, plan))), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
        out = r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 'does not come to an end', ''
    if r.returncode == 0 and 'DONE uses=' in out:
        return '', out
    for l in out.split('\n'):
        if l.startswith('FAIL '):
            return l[5:].split(' [')[0], out
        if 'ERROR: AddressSanitizer' in l:
            return 'memory error: ' + l.split('AddressSanitizer: ')[-1].split(' on ')[0], out
    return 'the process ends with status %d' % r.returncode, out


def shrink(exe, plan, limit):
    best, budget = list(plan), 400
    def bad(p):
        nonlocal budget
        budget -= 1
        return budget > 0 and one(exe, p, limit)[0] != ''
    n = len(best) // 2
    while n:
        i = 0
        while i + n <= len(best):
            c = best[:i] + best[i + n:]
            if bad(c): best = c
            else: i += n
        n //= 2
    for i in range(len(best)):
        if best[i] and bad(best[:i] + [0] + best[i + 1:]):
            best[i] = 0
    while best and best[-1] == 0 and bad(best[:-1]):
        best.pop()
    return best


def run(c, step, tier, seed, inc):
    big = tier == 'thorough'
    jobs = []
    for v, cc in (('asan', ['clang++', '-std=c++17', '-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']), ('plain', ['g++', '-std=c++11', '-O2'])):
        exe = os.path.join(c.tmp, 'c27_' + v)
        src = ' '.join(cc + ['-w', '-pthread', '-I', inc, '-I', P])
        cmd = ['sh', '-ec', '\n'.join('%s -DTU=%d -c %s/c27.cpp -o %s.%d.o &' % (src, t, P, exe, t) for t in range(3)) + '\nwait\n' + '%s %s -o %s' % (src, ' '.join('%s.%d.o' % (exe, t) for t in range(3)), exe)]
        jobs.append((exe, cmd))
    r = common.compile_all(jobs)
    for name, (ok, out, cmd) in r.items():
        if not ok:
            c.violation('a program using the types does not compile', cmd + '\n' + out[:6000])
            return
    total = 40000 if big else 6000
    stat = dict(ran=0, nt=0, uses=0, exit=0); sigs = set(); samples = []; bad = []
    def case(k):
        rnd = random.Random('%d/%d' % (seed, k))
        plan = [rnd.randrange(0, 5040) for _ in range(rnd.randrange(20, 400))]
        exe = jobs[0 if k % 4 else 1][0]
        m, out = one(exe, plan)
        return k, exe, plan, m, out
    with ThreadPoolExecutor(16) as ex:
        for lo in range(0, total, 400):
            for k, exe, plan, m, out in ex.map(case, range(lo, min(total, lo + 400))):
                stat['ran'] += 1
                if m:
                    bad.append((k, exe, plan, m, out)); continue
                d = out[out.index('DONE uses='):].split('\n')
                u, e = [int(x.split('=')[1]) for x in d[0].split()[1:]]
                stat['uses'] += u; stat['exit'] += e
                if e and u > e:
                    stat['nt'] += 1
                    sigs.add(hashlib.md5(d[1].encode()).hexdigest())
                if len(samples) < 3 and e:
                    samples.append(dict(program='c27', case=d[1][:1500]))
            if bad:
                break
    done = 0
    for k, exe, plan, m, out in bad[:4]:
        lim = 8 if m.startswith('does not') else 30
        if not all(one(exe, plan, lim)[0] for _ in range(3)):
            c.notes.append('case %d failed once and did not reproduce: %s' % (k, m)); continue
        best = shrink(exe, plan, lim)
        m2, out2 = one(exe, best, lim)
        c.violation('case %d: %s' % (k, m2 or m), 'build: %s\nreplay: C27="%s" %s\n%s' % (r[exe][2], ' '.join(map(str, best)), exe, (out2 or out)[:6000]))
        break
    c.evals += stat['ran']; c.nontrivial += stat['nt']; c.distinct_extra += len(sigs)
    c.samples += samples
    c.classes['uses of objects'] = stat['uses']; c.classes['uses after main'] = stat['exit']
    rule = 'one process per plan: objects of 28 types in static, function-local static, thread-local, leaked and heap storage (memory filled with a drawn pattern first), used in static initialisers of three translation units, main, threads, exit handlers, destructors of thread-local and static objects, also by a thread that is never joined; non-trivial: an object was used before and after the end of main; distinct by history'
    if rule not in c.rules:
        c.rules.append(rule)
    c.parts.append(dict(program='c27', cases=stat['ran'], nontrivial=stat['nt'], distinct=len(sigs)))
