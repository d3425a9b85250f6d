"""Generic conformance part of a check: executions of a driver in the real code, each one line of JSON, are validated by a
TLA+ trace specification, which prints for every execution the set of rules it breaks as <<property, why, position>>."""
import concurrent.futures, json, os, subprocess
from vlib import *

CFG = 'SPECIFICATION Spec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n'

class Part:
    """name: suite of the driver; drv: harness/<drv>.cc; sched: under the cooperative runtime (else sanitizers);
    module: trace specification; quick/thorough: executions; step: executions per TLC run; wraps: extra link-time wraps"""
    def __init__(self, name, drv, module, quick, thorough, sched=False, step=None, wraps=(), cfg=CFG, args=(), flags='', libs='', san='address,undefined', link='-rdynamic', timeout=900):
        self.__dict__.update(locals())

    def build(self, c):
        self.exe = c.sched_driver(self.drv, self.wraps, self.flags) if self.sched else c.plain_driver(self.drv, self.san, self.flags, self.libs, self.link)

    def execute(self, c, a, b):
        """Run executions a..b-1; returns the lines"""
        d = os.path.dirname(c.path(f'tr-{self.name}-{a}-{b}', 'x'))
        f = f'{d}/out'
        if os.path.exists(f): os.unlink(f)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:log_path=stderr', UBSAN_OPTIONS='print_stacktrace=0:exitcode=98')
        r = subprocess.run([self.exe, f, self.name, str(a), str(b), *self.args], capture_output=True, timeout=self.timeout, cwd=d, env=env)
        lines = open(f, errors='replace').read().splitlines() if os.path.exists(f) else []
        shutil.rmtree(d, ignore_errors=True)
        return lines, r.stderr.decode(errors='replace')

    def validate(self, c, lines):
        """[(seed, n, bad)] of the executions, or None if TLC could not evaluate them"""
        res, good = {}, []
        for l in lines:
            try: d = json.loads(l)
            except ValueError: continue
            if 'died' in d: res[d['sd']] = (0, [['*', 'the process crashed: ' + str(d.get('why', d['died'])), 0]])
            else: good.append(l); 
        if good:
            f = c.path('val', f'{self.name}.{os.getpid()}.{id(lines)}')
            open(f, 'w').write('\n'.join(good) + '\n')
            out_res, out, g, n = c.trace_check(self.module, self.cfg, f)
            os.unlink(f)
            c.cov['states'] += n; c.cov['transitions'] += g
            if out_res is None: return None, out
            for r in out_res:   # a nondeterministic specification: the best explanation counts
                k = r['sd']
                if k not in res or len(r['bad']) < len(res[k][1]): res[k] = (r['n'], r['bad'])
            missing = [json.loads(l)['sd'] for l in good]
            for k in missing:
                if k not in res: res[k] = (0, [['*', 'no behaviour of the specification explains this execution', 0]])
        return [(k, *v) for k, v in sorted(res.items())], ''

    def one(self, c, a, b):
        lines, err = self.execute(c, a, b)
        res, out = self.validate(c, lines)
        return a, b, lines, res, out or err

def mine(c, bad, spec_errors=True):
    return [y for y in bad if y[0] in (c.pid, '*')]

def run_part(c, p):
    p.build(c)
    n = p.thorough if c.thorough else p.quick
    base = c.seed * 1000003 if c.seed != 1 else 0
    step = p.step or max(10, min(250, n // 16))
    jobs = [(base + a, base + min(a + step, n)) for a in range(0, n, step)]
    bad, ntr, nev = [], 0, 0
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for a, b, lines, res, out in ex.map(lambda j: p.one(c, *j), jobs):
            if res is None:
                c.notes['batches_evaluated_one_by_one'] = c.notes.get('batches_evaluated_one_by_one', 0) + 1
                if c.notes['batches_evaluated_one_by_one'] <= 2: sys.stderr.write(out[-1500:] + '\n')
                res = []
                for l in lines:
                    if len(bad) > 3: break   # what is known already decides
                    r, o = p.validate(c, [l])
                    if r is None: bad.append((json.loads(l)['sd'], 'the specification cannot evaluate this execution')); continue
                    res += r
            ntr += len(res)
            for sd, m, x in res:
                nev += m
                if any(y[0] == 'SPEC' for y in x): c.notes['spec_mismatch'] = c.notes.get('spec_mismatch', 0) + 1
                w = mine(c, x)
                if w: bad.append((sd, w[0][1]))
            if a == base and lines: 
                l = lines[0]; c.sample({'suite': p.name, 'execution': l if len(l) < 700 else l[:700] + '...'})
    c.cov['traces_validated_against_impl'] += ntr
    c.cov['evaluations'] += ntr
    c.notes.setdefault('executions_per_suite', {})[p.name] = ntr
    c.notes['trace_events'] = c.notes.get('trace_events', 0) + nev
    if ntr < n * 9 // 10: c.notes['short_of'] = n - ntr
    unrep, seen = 0, set()
    for sd, why in bad:
        if len(seen) >= 4 or unrep > 6: break
        if why in seen: continue
        lines, err = p.execute(c, sd, sd + 1)
        res, out = p.validate(c, lines)
        w = mine(c, res[0][2]) if res else []
        if res is None: w = [[c.pid, 'the specification cannot evaluate this execution', 0]]
        if not w: unrep += 1; continue
        seen.add(why)
        f = c.replay(f'{p.name}-{sd}.json', '\n'.join(lines) + '\n' + (('# ' + err[-3000:].replace('\n', '\n# ')) if 'crash' in w[0][1] else ''))
        c.violation(f'{w[0][1]} (suite {p.name}, execution {sd}, position {w[0][2]})', f)
    if unrep: c.notes['unreproduced'] = c.notes.get('unreproduced', 0) + unrep

def run_designs(c, module, cfg, quick, thorough, defects, deadlock=True):
    """Exhaustive model checking of a design specification: scenarios that must hold, and (thorough) defects that must be rejected.
    cfg(scenario, defect) gives the text of the configuration"""
    done = c.notes.setdefault('design_scenarios', {})
    for s in quick + (thorough if c.thorough else []):
        rc, out = c.tlc(module, cfg(s, None), workers=8, timeout=400 if c.thorough else 60, mem='10g')
        g, n = c.states(out)
        c.cov['states'] += n; c.cov['transitions'] += g
        done[s] = {'distinct_states': n, 'exhaustive': rc == 0}
        if rc in (11, 12, 13): c.violation(f'design specification violates the property in scenario {s}', c.replay(f'design-{s}.txt', out))
        elif rc not in (0, 124): sys.stderr.write(out[-2000:] + '\n'); raise BuildError(f'design specification {module} {s}')
    if c.thorough:
        for s, d in defects:
            rc, out = c.tlc(module, cfg(s, d), workers=8, timeout=300, mem='10g')
            c.notes.setdefault('defects_rejected', {})[f'{s}/{d}'] = rc in (11, 12, 13)
