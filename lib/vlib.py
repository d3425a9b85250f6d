"""Shared machinery of the checks: scratch space, builds of /repo's working tree, TLC, verdicts and evidence."""
import atexit, concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HOGL_REPO', '/repo')
TLADIR = '/opt/veriftools/tla'
CP = f'{TLADIR}/tla2tools.jar:{TLADIR}/CommunityModules-deps.jar'
NCPU = 8

class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.budget = 600 if tier == 'thorough' else 60
        self.scratch = tempfile.mkdtemp(prefix='vck.', dir=os.environ.get('TMPDIR', '/tmp'))
        atexit.register(self.cleanup)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *a: sys.exit(1))
        self.violations = []           # (reason, replay path)
        self.known = []
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'evaluations': 0, 'samples': []}
        self.notes = {}
        self.assume = []
        self.built = {}

    def cleanup(self):
        if os.path.isdir(self.scratch): shutil.rmtree(self.scratch, ignore_errors=True)

    @property
    def thorough(self): return self.tier == 'thorough'

    def elapsed(self): return time.time() - self.t0

    def path(self, *a):
        p = os.path.join(self.scratch, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def replay(self, name, text):
        """Keep a replay file of a violation; returns its path"""
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f'{self.pid}-{name}')
        open(p, 'w').write(text)
        return p

    def violation(self, why, path):
        self.violations.append((why, path))

    def sample(self, x):
        if len(self.cov['samples']) < 6: self.cov['samples'].append(x)

    # ------------------------------------------------------------------ builds
    def sh(self, cmd, timeout=600, **kw):
        return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout, **kw)

    def compile(self, jobs):
        """jobs: list of (command, label); run in parallel, all must succeed"""
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for r, (c, l) in zip(ex.map(lambda j: self.sh(j[0]), jobs), jobs):
                if r.returncode:
                    sys.stderr.write(f'build of {l} failed:\n{r.stderr[-3000:]}\n')
                    raise BuildError(l)

    WRAPS = 'malloc calloc realloc free posix_memalign strdup memcpy memmove memset'.split()

    def sched_objs(self, extra_flags=''):
        """The library, instrumented for the cooperative runtime, and the runtime itself"""
        if 'sched' in self.built: return self.built['sched']
        d = self.path('sched', 'x'); d = os.path.dirname(d)
        f = f'-std=c++11 -O1 -g -w -D__STDC_LIMIT_MACROS -I{REPO}/include -I{REPO} -fsanitize=thread --param=tsan-distinguish-volatile=1 {extra_flags}'
        srcs = sorted(x for x in os.listdir(f'{REPO}/src') if x.endswith('.cc'))
        jobs = [(f'g++ {f} -c {REPO}/src/{s} -o {d}/{s[:-3]}.o', s) for s in srcs]
        red = ' '.join(f'--redefine-sym {x}=__real_{x}' for x in ('memcpy', 'memset', 'memmove'))
        jobs.append((f'g++ -std=c++11 -O2 -g -c {VERIF}/rt/rt.cc -o {d}/rt.o && objcopy {red} {d}/rt.o', 'rt'))
        self.compile(jobs)
        self.built['sched'] = (d, f, [f'{d}/{s[:-3]}.o' for s in srcs] + [f'{d}/rt.o'])
        return self.built['sched']

    def sched_driver(self, name, extra_wraps=(), flags=''):
        """Build harness/<name>.cc against the instrumented library"""
        if name in self.built: return self.built[name]
        d, f, objs = self.sched_objs()
        w = ' '.join(f'-Wl,--wrap={x}' for x in list(self.WRAPS) + list(extra_wraps))
        exe = f'{d}/{name}'
        self.compile([(f'g++ {f} {flags} -c {VERIF}/harness/{name}.cc -o {d}/{name}.h.o && g++ -o {exe} {d}/{name}.h.o {" ".join(objs)} {w} -lpthread -ldl -lrt', name)])
        self.built[name] = exe
        return exe

    def plain_objs(self, san='address,undefined'):
        """The library built with sanitizers, for the sequential drivers"""
        k = 'plain:' + san
        if k in self.built: return self.built[k]
        d = os.path.dirname(self.path('plain' + san.replace(',', '_'), 'x'))
        s = f'-fsanitize={san} -fno-sanitize=nonnull-attribute -fno-sanitize-recover=undefined' if san else ''   # memcpy(0, x, 0) of an unbuffered stream
        f = f'-std=c++11 -O1 -g -w -D__STDC_LIMIT_MACROS -I{REPO}/include -I{REPO} {s}'
        srcs = sorted(x for x in os.listdir(f'{REPO}/src') if x.endswith('.cc'))
        self.compile([(f'g++ {f} -fPIC -c {REPO}/src/{x} -o {d}/{x[:-3]}.o', x) for x in srcs])
        self.built[k] = (d, f, [f'{d}/{x[:-3]}.o' for x in srcs])
        return self.built[k]

    def plain_driver(self, name, san='address,undefined', flags='', libs='', link='-rdynamic'):
        k = name + ':' + san
        if k in self.built: return self.built[k]
        d, f, objs = self.plain_objs(san)
        exe = f'{d}/{name}'
        main, cobj, jobs = f'{VERIF}/harness/{name}', [f'{d}/{name}.h.o'], []
        jobs.append((f'g++ {f} {flags} -c {main}.cc -o {cobj[0]}', name))
        if os.path.exists(f'{main}_c.c'):   # part of the driver that has to be C
            cobj.append(f'{d}/{name}_c.h.o')
            jobs.append((f'gcc {f.replace("-std=c++11", "")} {flags} -c {main}_c.c -o {cobj[-1]}', name))
        if os.path.exists(f'{main}_x.cc'):  # compiled in parts
            for i in range(8):
                cobj.append(f'{d}/{name}_x{i}.h.o')
                jobs.append((f'g++ {f} {flags} -DPART={i} -c {main}_x.cc -o {cobj[-1]}', name))
        self.compile(jobs)
        self.compile([(f'g++ {f} {link} -o {exe} {" ".join(cobj)} {" ".join(objs)} {libs} -lpthread -ldl -lrt', name)])
        self.built[k] = exe
        return exe

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, mem='3g', extra=''):
        """Run TLC on spec/<module>.tla with the configuration text; returns (rc, output)"""
        d = tempfile.mkdtemp(prefix='tlc.', dir=self.scratch)
        for f in os.listdir(f'{VERIF}/spec'):
            if f.endswith('.tla'): os.symlink(f'{VERIF}/spec/{f}', f'{d}/{f}')
        open(f'{d}/m.cfg', 'w').write(cfg)
        e = dict(os.environ); e.update(env or {})
        gc = '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC'
        cmd = f'exec java -Djava.io.tmpdir={d} -Xmx{mem} -Xss16m {gc} -XX:TieredStopAtLevel={4 if workers > 1 or timeout > 100 else 4} -cp {CP} tlc2.TLC -workers {workers} -metadir {d}/meta -noGenerateSpecTE {extra} -config m.cfg {module}.tla'
        try:
            r = subprocess.run(cmd, shell=True, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
            rc, out = r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired as x:
            rc, out = 124, (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, (bytes, type(None))) else x.stdout
        shutil.rmtree(d, ignore_errors=True)
        return rc, out

    @staticmethod
    def states(out):
        """(generated, distinct) of a TLC run"""
        m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct', out)
        return tuple(int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)

    def trace_check(self, module, cfg, tracefile, timeout=600):
        """Validate a file of recorded executions; returns list of {sd, n, bad} or None if TLC failed"""
        rc, out = self.tlc(module, cfg, env={'TRACES': tracefile}, timeout=timeout)
        res = []
        for l in out.splitlines():
            m = re.match(r'^"?TRACE (.*?)"?$', l)
            if m: res.append(json.loads(m.group(1).replace('\\"', '"')))
        g, n = self.states(out)
        if rc != 0: return None, out, g, n
        return res, out, g, n

    # ------------------------------------------------------------------ verdict
    def finish(self, level, assumptions=()):
        known = load_known()
        viol = []
        seen = set()
        for why, path in self.violations:
            if why in seen: continue
            seen.add(why)
            k = [x for x in known if x[0] == self.pid and x[1] in why]
            if k: print(f'KNOWN-FINDING: property={self.pid} {k[0][2]}')
            else: viol.append((why, path))
        self.cov.update(self.notes)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': self.cov,
              'assumptions': list(assumptions) + self.assume, 'wall_s': round(self.elapsed(), 1), 'violations': len(viol)}
        os.makedirs(f'{VERIF}/evidence', exist_ok=True)
        json.dump(ev, open(f'{VERIF}/evidence/{self.pid}.json', 'w'), indent=1)
        for why, path in viol:
            print(f'  {why}')
            print(f'VIOLATION property={self.pid} replay={path}')
        if not viol: print(f'{self.pid}: held on everything explored ({self.tier}, {self.elapsed():.0f} s)')
        sys.stdout.flush()
        sys.exit(1 if viol else 0)

class BuildError(Exception): pass

def load_known():
    """known_findings.txt: lines 'known: property=<id> match="<text>" <what fails>'; 'fixed:' lines suppress nothing"""
    r = []
    p = f'{VERIF}/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) match="([^"]*)" (.*)', l)
            if m: r.append(m.groups())
    return r
