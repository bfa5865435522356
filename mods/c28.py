"""C28: many threads, owners, waiters and objects at a time."""
import os
from . import common
BUILDS = {'plain': ['g++', '-std=c++11', '-O2', '-DNDEBUG'], 'debug': ['g++', '-std=c++17', '-O1', '-g']}


def run(c, step, tier, seed, inc):
    jobs, progs = [], []
    n = 40000 if tier == 'thorough' else 5000
    for v, cc in BUILDS.items():
        exe = os.path.join(c.tmp, 'c28_' + v)
        cmd = cc + ['-w', '-pthread', '-I', inc, '-I', os.path.join(common.V, 'mods'), os.path.join(common.V, 'mods/c28.cpp'), '-o', exe]
        jobs.append((v, cmd))
        for k in range(4):
            progs.append(('c28_%s_%d' % (v, k), exe, n, ' '.join(cmd), seed * 8 + k * 2 + (v == 'debug')))
    r = common.compile_all(jobs)
    for name, (ok, out, cmd) in r.items():
        if not ok:
            c.violation('%s: a program using the types does not compile' % name, cmd + '\n' + out[:6000])
            return
    common.run_pbt(c, progs, seed, c.tmp, 7000 if tier == 'thorough' else 800)
