"""C19: builds c19.cpp in several configurations with generated initial counts."""
import os, random
from . import common


def run(c, step, tier, seed, inc):
    big = tier == 'thorough'
    rnd = random.Random(seed * 7919 + 19)
    tmp = c.tmp
    jobs, progs = [], []
    nsets = 24 if big else 6
    cfgs = [([], 4000), (['-DCFG_TTAS_FIRST'], 4000), (['-DCFG_HOOK'], 4000)]
    for k in range(nsets):
        d = os.path.join(tmp, 'n%d' % k)
        os.makedirs(d, exist_ok=True)
        ns = set([0, 1, 2, 3, 65535, 65536]) if k == 0 else set()
        if k == 1:
            ns |= {4000, 65537, 131072, 1 << 20}
        while len(ns) < (14 if not big else 18):
            w = rnd.randrange(6)
            ns.add(rnd.randrange(64) if w < 2 else rnd.randrange(5000) if w < 4 else rnd.randrange(1 << 16) if w == 4 else rnd.randrange(1 << (21 if big else 18)))
        with open(os.path.join(d, 'c19_n.inc'), 'w') as f:
            f.write(''.join('X(%d)\n' % n for n in sorted(ns)))
        flags, init = cfgs[k % len(cfgs)]
        flags = list(flags)
        if k >= 3 and '-DCFG_HOOK' not in flags:
            init = rnd.choice([1, 2, 7, rnd.randrange(3, 3000), rnd.randrange(3000, 200000), 2000000000])
            if k == 3:
                init = 2000000000
            flags += ['-DCFG_INIT=%d' % init, '-DYAMC_BACKOFF_EXPONENTIAL_INITCOUNT=%d' % init]
        cc = ['g++', 'clang++'][k % 2]
        exe = os.path.join(tmp, 'c19_%d' % k)
        std = ['-std=c++11', '-std=c++14', '-std=c++17', '-std=c++20'][k % 4]
        cmd = [cc, std, '-O2', '-pthread', '-I', inc, '-I', d, '-I', os.path.join(common.V, 'mods'), os.path.join(common.V, 'mods/c19.cpp'), '-o', exe] + flags + (['-DCFG_HUGE=1'] if big else [])
        jobs.append(('c19_%d' % k, cmd))
        progs.append(('c19_%d' % k, exe, 6000 if big else 1500, ' '.join(cmd) + '   # initial counts ' + ' '.join(map(str, sorted(ns)))))
    r = common.compile_all(jobs)
    for name, (ok, out, cmd) in r.items():
        if not ok:
            c.violation('%s: a program using the spinlocks and backoff policies does not compile' % name, cmd + '\n' + out[:6000])
    common.run_pbt(c, [p for p in progs if r[p[0]][0]], seed, tmp, 2000 if big else 500)
