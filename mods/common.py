"""Helpers for stand-alone property programs (mods/*.cpp, harness pbt.h)."""
import os, json, subprocess, hashlib, random, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, timeout=None):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        class R: pass
        r = R(); r.returncode = -99; r.stdout = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
        return r


def compile_all(jobs, n=8):
    """jobs: (name, cmd). Returns {name: (ok, output)}"""
    def one(j):
        r = sh(j[1], 600)
        return j[0], (r.returncode == 0, r.stdout, ' '.join(j[1]))
    with ThreadPoolExecutor(n) as ex:
        return dict(ex.map(one, jobs))


def run_pbt(c, progs, seed, tmp, timeout=600):
    """progs: (name, exe, cases, how to rebuild[, seed]). Runs all in parallel, merges results, reports violations."""
    def one(p):
        o = os.path.join(tmp, p[0] + '.json')
        r = sh([p[1], '--seed', str(p[4] if len(p) > 4 else seed), '--cases', str(p[2]), '--out', o], timeout)
        return p, r, o
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, progs))
    for p, r, o in res:
        if r.returncode not in (0, 1) or not os.path.exists(o):
            note = 'program %s ended with %s: %s' % (p[0], r.returncode, r.stdout[-500:])
            c.notes.append(note); print('note:', note)
            c.violation('%s: the program does not come to an end properly (%s)' % (p[0], r.returncode), p[3] + '\n' + r.stdout[-3000:])
            continue
        d = json.load(open(o))
        c.evals += d['ran']; c.nontrivial += d['nontrivial']; c.distinct_extra += d['distinct']
        for k, n in d['classes'].items():
            c.classes[k] = c.classes.get(k, 0) + n
        if d['rule'] not in c.rules:
            c.rules.append(d['rule'])
        c.samples += [dict(program=p[0], case=s) for s in d['samples'][:1]]
        c.parts.append(dict(program=p[0], cases=d['ran'], nontrivial=d['nontrivial'], distinct=d['distinct']))
        if 'violation' in d:
            v = d['violation']
            c.violation('%s: %s' % (p[0], v['msg']), 'program %s, case %d\nbuild: %s\nreplay: %s --replay "%s"\n' % (p[0], v['case'], p[3], p[1], v['choices']))
