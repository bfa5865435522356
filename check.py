#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Builds the drivers and the library under test from /repo's working tree, generates cases,
judges them, shrinks and replays failures, writes evidence/<property>.json.
Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed."""
import sys, os, json, time, subprocess, hashlib, glob, shutil, struct, re, signal, zlib
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
INC = os.path.join(REPO, 'include')
BUILD = os.path.join(V, 'build')
OUT = os.path.join(V, 'out')
NW = 8
sys.path.insert(0, os.path.join(V, 'tools'))
from plan import PLAN, LIBS

CXX = ['g++', '-std=c++17', '-O2', '-g1', '-fno-strict-aliasing', '-c']
SUT = ['clang++', '-std=c++17', '-O1', '-g1', '-fPIC', '-fsanitize=thread', '-femulated-tls', '-fno-c++-static-destructors', '-I', V + '/sut/fake', '-c']


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]


def headers():
    return [f for f in glob.glob(INC + '/**', recursive=True) if os.path.isfile(f)]


class BuildError(Exception):
    pass


def build_all(libs):
    """Compiles what is missing; returns (worker, {lib: path}, {lib: {tu: error}})."""
    os.makedirs(BUILD, exist_ok=True)
    drv = sorted(glob.glob(V + '/rt/*.cpp') + glob.glob(V + '/drv/*.cpp'))
    hdr = glob.glob(V + '/rt/*.h') + glob.glob(V + '/drv/*.h') + glob.glob(V + '/sut/sut.h')
    dkey = digest(hdr, ' '.join(CXX))
    rkey = digest(headers() + glob.glob(V + '/sut/*.h') + glob.glob(V + '/sut/fake/**/*', recursive=True) if False else
                  headers() + [f for f in glob.glob(V + '/sut/**', recursive=True) if os.path.isfile(f) and not f.endswith('.cpp')], ' '.join(SUT))
    jobs = []
    dobjs = []
    for s in drv:
        o = os.path.join(BUILD, os.path.basename(s)[:-4] + '.' + digest([s], dkey) + '.o')
        dobjs.append(o)
        if not os.path.exists(o):
            jobs.append((None, s, CXX + [s, '-o', o + '.tmp'], o))
    libobjs = {}
    for lib in libs:
        flags, tus = LIBS[lib]
        libobjs[lib] = []
        for t in tus:
            s = os.path.join(V, 'sut', t + '.cpp')
            o = os.path.join(BUILD, t + '.' + digest([s], rkey + ' '.join(flags) + REPO) + '.o')
            libobjs[lib].append((t, o))
            if not os.path.exists(o) and not any(j[3] == o for j in jobs):
                jobs.append((lib, s, SUT + flags + ['-I', INC, '-I', V + '/sut', s, '-o', o + '.tmp'], o))
    errors = {}

    def run(j):
        r = sh(j[2])
        if r.returncode == 0:
            os.replace(j[3] + '.tmp', j[3])
        return j, r
    with ThreadPoolExecutor(NW) as ex:
        for j, r in ex.map(run, jobs):
            if r.returncode:
                if j[0] is None:
                    raise BuildError('cannot build the harness: %s\n%s' % (j[1], r.stdout))
                errors.setdefault(j[3], (j[1], ' '.join(j[2]), r.stdout))
    worker = os.path.join(BUILD, 'worker.' + digest([], ' '.join(dobjs)))
    if not os.path.exists(worker):
        r = sh(['g++', '-rdynamic', '-o', worker + '.tmp'] + dobjs + ['-ldl'])
        if r.returncode:
            raise BuildError('cannot link the harness\n' + r.stdout)
        os.replace(worker + '.tmp', worker)
    paths, lerr = {}, {}
    for lib in libs:
        objs = [o for t, o in libobjs[lib] if o not in errors]
        lerr[lib] = {t: errors[o] for t, o in libobjs[lib] if o in errors}
        if not objs:
            continue
        p = os.path.join(BUILD, 'libsut_%s.%s.so' % (lib, digest([], ' '.join(objs))))
        if not os.path.exists(p):
            r = sh(['clang++', '-shared', '-o', p + '.tmp'] + objs + ['-Wl,-z,now'])
            if r.returncode:
                raise BuildError('cannot link ' + lib + '\n' + r.stdout)
            os.replace(p + '.tmp', p)
        paths[lib] = p
    return worker, paths, lerr


def load_known(prop):
    """known.json: entries {property, status: known|fixed, match, ...}."""
    p = os.path.join(V, 'known.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k['property'] == prop and k['status'] == 'known']


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.evals = 0; self.undecided = 0; self.nontrivial = 0
        self.sigs = set(); self.distinct_extra = 0
        self.classes = {}; self.samples = []; self.rules = []; self.parts = []
        self.violations = []   # (msg, replay)
        self.known_hits = []
        self.notes = []
        self.scale = 1.0
        self.tmp = os.path.join(OUT, prop + '.' + tier + '.' + str(os.getpid()))
        os.makedirs(self.tmp, exist_ok=True)

    def known(self, msg):
        for k in load_known(self.prop):
            if re.search(k['match'], msg):
                self.known_hits.append(k)
                return True
        return False

    # ---- driver runs in the deterministic runtime
    def run_driver(self, worker, lib, libpath, driver, cases, maxsec):
        tag = '%s.%s' % (driver, lib)
        seed = str(self.seed * 65536 + zlib.crc32(lib.encode()) % 65536)     # configurations get different cases
        pend = [(k, NW) for k in range(NW)]
        procs = []
        for k in range(NW):
            o = os.path.join(self.tmp, '%s.%d.json' % (tag, k))
            procs.append((k, k, o, subprocess.Popen([worker, 'run', '--prop', driver, '--seed', seed, '--from', str(k), '--step', str(NW),
                          '--cases', str(cases), '--lib', libpath, '--out', o, '--cfg', lib, '--maxsec', str(maxsec)],
                          stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        found = []
        ran = 0; und = 0; nt = 0; timeup = False; steps = 0; before = len(self.sigs)
        while procs:
            nxt = []
            for k, start, o, p in procs:
                try:
                    _, err = p.communicate(timeout=maxsec + 240)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    p.kill(); p.communicate(); rc, err = -9, 'time'
                if rc not in (0, 1) or not os.path.exists(o):
                    self.crashed(worker, lib, libpath, driver, seed, o, rc, err or '')
                    continue
                d = json.load(open(o))
                ran += d['ran']; und += d['undecided']; nt += d['nontrivial']; timeup |= bool(d['timeup']); steps += d['steps']
                for c, n in d['classes'].items():
                    self.classes[c] = self.classes.get(c, 0) + n
                if d['rule'] not in self.rules:
                    self.rules.append(d['rule'])
                self.samples += [dict(driver=driver, config=lib, history=s.split('\n')) for s in d['samples'][:1]]
                sg = open(o + '.sig', 'rb').read()
                self.sigs.update((driver, x) if False else x for (x,) in struct.iter_unpack('<Q', sg))
                if 'violation' in d:
                    v = d['violation']
                    found.append((v['case'], v, o + '.replay'))
            procs = nxt
        found.sort(key=lambda f: f[0])
        self.evals += ran; self.undecided += und; self.nontrivial += nt
        self.parts.append(dict(driver=driver, config=lib, cases=ran, nontrivial=nt, distinct_new=len(self.sigs) - before, undecided=und, scheduling_steps=steps, stopped_by_time_limit=timeup))
        for case, v, rp in found[:3]:
            self.confirm(worker, lib, libpath, driver, case, v, rp)
            if self.violations:
                break

    def crashed(self, worker, lib, libpath, driver, seed, o, rc, err):
        """The process itself died or hung: is one case responsible, every time?"""
        try:
            case = struct.unpack('<q', open(o + '.cur', 'rb').read(8))[0]
        except Exception:
            case = -1
        note = 'worker for %s (%s) ended with %s in case %d: %s' % (driver, lib, rc, case, err[-300:])
        print('note:', note, file=sys.stderr)
        self.notes.append(note)
        if 'dlopen:' in err:
            if 'undefined symbol' in err and 'yamc' in err and not self.violations:
                self.violation('a program using the public interface does not link (configuration %s)' % lib, err)
            return
        if case < 0 or self.violations:
            return
        cmd = [worker, 'run', '--prop', driver, '--seed', seed, '--from', str(case), '--step', '1', '--cases', str(case + 1), '--lib', libpath, '--out', o + '.re']
        for _ in range(3):
            try:
                if sh(cmd, timeout=100).returncode in (0, 1):
                    return
            except subprocess.TimeoutExpired:
                pass
        self.violation('crash: the process running the case dies (%s)' % rc, 'config %s\ncommand %s\n%s' % (lib, ' '.join(cmd), err[-2000:]))

    def confirm(self, worker, lib, libpath, driver, case, v, rp):
        dst = os.path.join(OUT, '%s-%s-%s-%d.replay' % (self.prop, driver, lib, case))
        try:
            r = sh([worker, 'shrink', '--lib', libpath, '--file', rp, '--out', dst, '--cfg', lib, '--budget', '2500' if self.tier == 'quick' else '8000'], timeout=240)
            res = json.loads(r.stdout.strip().split('\n')[-1])
        except Exception as e:
            res = dict(reproduced=0, err=str(e))
        if res.get('reproduced', 0) < 3:
            # fall back to the unshrunk case
            shutil.copy(rp, dst)
            ok = 0
            for _ in range(3):
                try:
                    ok += sh([worker, 'replay', '--lib', libpath, '--file', dst], timeout=120).returncode == 1
                except Exception:
                    ok += 0
            if ok < 3:
                self.notes.append('case %d of %s did not reproduce: %s' % (case, driver, v['msg']))
                print('note: not reproduced:', v['msg'], file=sys.stderr)
                return
            res['msg'] = v['msg']; res['kind'] = v['kind']
        msg = '%s: %s' % (res.get('kind'), res.get('msg'))
        if self.known(msg):
            return
        with open(dst, 'a') as f:
            f.write('# %s\n# replay: %s replay --lib %s --file %s -v   (or: python3 /verif/check.py --replay %s)\n' % (msg, worker, libpath, dst, dst))
        self.violations.append((msg, dst))

    def violation(self, msg, content):
        if self.known(msg):
            return
        n = len(self.violations)
        dst = os.path.join(OUT, '%s-%d.replay' % (self.prop, n))
        open(dst, 'w').write('property %s\n%s\n%s\n' % (self.prop, msg, content))
        self.violations.append((msg, dst))

    def finish(self):
        ks = {}
        for k in self.known_hits:
            ks[k['id']] = k
        for k in ks.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.sigs) + self.distinct_extra, rule=' || '.join(self.rules)[:6000],
                   samples=self.samples[:6], nontrivial=self.nontrivial, undecided=self.undecided, classes=self.classes, parts=self.parts)
        if self.notes:
            cov['notes'] = self.notes
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='exploration', coverage=cov,
                  assumptions=assumptions(self.prop), wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(V + '/evidence', exist_ok=True)
        json.dump(ev, open(V + '/evidence/%s.json' % self.prop, 'w'), indent=1)
        if not self.violations:
            shutil.rmtree(self.tmp, ignore_errors=True)
        for msg, rp in self.violations[:5]:
            print('  ' + msg)
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
        print('%s %s: %d cases, %d distinct non-trivial, %d undecided, %.1f s' % (self.prop, self.tier, self.evals, cov['distinct_nontrivial'], self.undecided, ev['wall_s']))
        return 1 if self.violations else 0


ASSUME = [
    'Sequential consistency of the interleavings explored; weaker executions are covered by the happens-before (race) oracle of C02.',
    'The modelled pthread, semaphore, clock and atomic primitives behave as POSIX and C++ specify; the compiler is trusted.',
    'Bounds: at most 8 threads, 4 objects, about 12 calls per thread and case (C21: 110).',
]
MODULE_ASSUME = {
    'mods.c19': ['Native programs: the yields counted are calls of the library through its policy and through a replaced std::this_thread::yield; contention is scripted.'],
    'mods.c21': ['Native programs with real threads: the ages named by the classes were really reached by using the object; schedules are the operating system\'s.'],
    'mods.c23': ['g++ 13 and clang++ 18 with libstdc++, C++11 to C++20, are the compilers a program is accepted by; the counterpart types of libstdc++ are the reference.'],
    'mods.c27': ['Native processes on Linux: the phases are static initialisation, main and exit of one executable; AddressSanitizer judges memory.'],
    'mods.c28': ['Native programs: up to 300 real threads, scheduled by the operating system, and up to 70000 thread identities of one thread (pthread_self replaced). Order of a queue is judged from the state of the threads in /proc.'],
}


def assumptions(prop):
    mods = [s['module'] for s in PLAN[prop] if s['type'] != 'driver']
    out = list(ASSUME) if any(s['type'] == 'driver' for s in PLAN[prop]) else []
    for m in mods:
        out += MODULE_ASSUME.get(m, ['The compiler and the C++ runtime are trusted.'])
    return out


def main():
    if sys.argv[1] == '--replay':
        txt = open(sys.argv[2]).read()
        lib = re.search(r'^config (\S+)', txt, re.M).group(1)
        w, paths, _ = build_all([lib])
        r = sh([w, 'replay', '--lib', paths[lib], '--file', sys.argv[2], '-v'])
        print(r.stdout); return r.returncode
    if sys.argv[1] == '--setup':
        build_all(['default', 'ndebug'])
        print('setup done')
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.makedirs(OUT, exist_ok=True)
    c = Check(prop, tier, seed)
    plan = PLAN[prop]
    libs = []
    for step in plan:
        if step['type'] == 'driver' and step['lib'] not in libs:
            libs.append(step['lib'])
    try:
        worker, paths, lerr = build_all(libs) if libs else (None, {}, {})
    except BuildError as e:
        print(e, file=sys.stderr)
        print('internal error: harness does not build', file=sys.stderr)
        return 2
    for lib in libs:
        need = set()
        for step in plan:
            if step['type'] == 'driver' and step['lib'] == lib:
                need |= set(step.get('tus') or LIBS[lib][1])
        for t, (src, cmd, err) in lerr[lib].items():
            if t in need and lib.startswith('plat') and re.search(r"in the global namespace|undeclared identifier|unknown type name", err):
                c.notes.append('%s uses a platform interface that the emulation does not have: %s' % (t, err[:600]))   # undecided, not wrong
                print('note: not checked:', t, file=sys.stderr)
                continue
            if t in need:
                c.violation('%s (configuration %s): a program using the public interface does not compile' % (t, lib), cmd + '\n' + err[:8000])
    nd = sum(1 for s in plan if s['type'] == 'driver')
    for step in plan:
        if c.violations and step['type'] != 'driver':
            continue
        if step['type'] == 'driver':
            if c.violations or step['lib'] not in paths:
                continue
            cases = step['thorough'] if tier == 'thorough' else step['quick']
            c.run_driver(worker, step['lib'], paths[step['lib']], step['driver'], cases, (3000 if tier == 'thorough' else 400) / max(1, nd))
        else:
            import importlib
            m = importlib.import_module(step['module'])
            m.run(c, step, tier, seed, INC)
    return c.finish()


if __name__ == '__main__':
    sys.exit(main())
