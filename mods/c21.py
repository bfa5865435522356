"""C21: very long histories (2^31 and 2^32 uses) of single objects."""
import os
from . import common
# type: log2 of the uses (quick, thorough)
TYPES = {0: (32, 32), 1: (32, 32), 2: (32, 32), 3: (16, 32), 4: (16, 32), 5: (16, 32), 6: (16, 32), 7: (16, 32), 8: (16, 32), 9: (16, 32),
         10: (16, 31), 11: (16, 31), 12: (16, 32), 13: (16, 32), 14: (16, 32), 15: (16, 32), 16: (16, 32), 17: (16, 32), 18: (16, 32), 19: (16, 32)}


def run(c, step, tier, seed, inc):
    jobs, progs = [], []
    for t, (q, th) in TYPES.items():
        n = th if tier == 'thorough' else q
        exe = os.path.join(c.tmp, 'c21_%d' % t)
        cmd = ['g++', '-std=c++17', '-O2', '-pthread', '-DNDEBUG', '-DTYPE=%d' % t, '-DCYCLES=%d' % n, '-I', inc, '-I', os.path.join(common.V, 'mods'), os.path.join(common.V, 'mods/c21.cpp'), '-o', exe]
        jobs.append(('c21_%d' % t, cmd))
        progs.append(('c21_%d' % t, exe, 1 if n > 20 else 4, ' '.join(cmd)))
    r = common.compile_all(jobs)
    for name, (ok, out, cmd) in r.items():
        if not ok:
            c.violation('%s: a program using the types does not compile' % name, cmd + '\n' + out[:6000])
    common.run_pbt(c, [p for p in progs if r[p[0]][0]], seed, c.tmp, 7000 if tier == 'thorough' else 800)
