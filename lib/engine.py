"""Properties of the logging core: traces of the real code against HoglMon, and the design specification."""
import concurrent.futures, json, os, subprocess
import design
from vlib import *

SUITES = {   # property -> [(suite, quick executions, thorough executions)]
 'C01': [('core', 700, 6000), ('order', 400, 4000), ('life', 300, 3000), ('block', 300, 2000), ('tls', 200, 2000)],
 'C02': [('core', 800, 8000), ('restart', 500, 4000), ('flush', 500, 4000), ('life', 200, 2000)],
 'C03': [('block', 1600, 16000)],
 'C04': [('order', 1200, 10000), ('core', 400, 4000)],
 'C05': [('core', 600, 6000), ('order', 600, 6000), ('life', 400, 4000), ('block', 300, 2000)],
 'C06': [('flush', 1600, 12000), ('core', 300, 3000)],
 'C07': [('stop', 1600, 12000), ('restart', 800, 8000), ('core', 200, 4000), ('block', 200, 2000)],
 'C08': [('life', 1500, 12000), ('tls', 300, 4000), ('stop', 300, 3000)],
 'C09': [('life', 1500, 12000), ('tls', 500, 4000)],
 'C10': [('tls', 1600, 14000)],
 'C12': [('core', 300, 3000)],
 'C14': [('ts', 1600, 14000), ('core', 300, 3000)],
}
DESIGN = {   # property -> scenarios of the design specification (quick), more in thorough; defects that must be rejected
 'C01': (['blockS'], ['coreS', 'coreS1', 'coreS0', 'core'], [('coreS', 'nolock')]),
 'C02': (['restart'], ['coreS', 'coreS1', 'core', 'corebig'], [('coreS', 'overwrite'), ('coreS', 'nomark'), ('flush', 'seqtimeout')]),
 'C03': (['block'], ['block1', 'blocknot', 'block3'], [('block', 'unblock')]),
 'C04': (['orderS'], ['order', 'order2'], [('order', 'nosort'), ('coreS1', 'nofullmark')]),
 'C05': (['orderS'], ['order', 'coreS'], [('order', 'noleft')]),
 'C06': (['flushS'], ['flush'], [('flush', 'ackearly')]),
 'C07': (['restart'], ['restart2', 'coreS'], [('restart', 'expreset')]),
 'C08': (['lifeT'], ['lifeS', 'life2', 'life'], [('lifeS', 'killcheck'), ('lifeS', 'leakref')]),
 'C09': (['lifeT'], ['lifeS', 'life2', 'life'], [('lifeS', 'reuse')]),
 'C14': (['tsT'], ['tsS', 'ts'], [('tsS', 'tsrace'), ('tsS', 'tspartial')]),
}
CFG = 'SPECIFICATION Spec\nCONSTANT NT = 8\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n'

def job(c, exe, suite, a, b):
    f = c.path('tr', f'{suite}.{a}')
    if os.path.exists(f): os.unlink(f)
    subprocess.run([exe, f, suite, str(a), str(b)], capture_output=True, timeout=900)
    res, out, g, n = c.trace_check('MonTrace', CFG, f)
    return suite, a, b, f, res, out, g, n

def rerun(c, exe, suite, seed):
    """One execution again, on its own"""
    _, _, _, f, res, out, _, _ = job(c, exe, suite, seed, seed + 1)
    line = open(f).read()
    if res is None and 'occurred when TLC was evaluating' in (out or '') and 'tlc2.overrides.Json' not in out and line: res = [{'bad': [[c.pid, 'the specification cannot evaluate this execution', 0]]}]
    return (res[0]['bad'] if res else None), line

def traces(c):
    exe = c.sched_driver('eng')
    base = c.seed * 1000003 if c.seed != 1 else 0
    jobs = []
    for suite, q, t in SUITES[c.pid]:
        n = t if c.thorough else q
        step = 100 if n < 4000 else 250
        jobs += [(suite, base + a, base + min(a + step, n)) for a in range(0, n, step)]
    bad, ntr, nev, steps, inconclusive = [], 0, 0, 0, 0
    per = {}
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for suite, a, b, f, res, out, g, n in ex.map(lambda j: job(c, exe, *j), jobs):
            if res is None:
                # not one of the executions, but the batch could not be evaluated: try one by one
                inconclusive += 1
                res = []
                for s in range(a, b):
                    if bad or inconclusive > 8: break   # what is known already decides
                    x, line = rerun(c, exe, suite, s)
                    if x is not None: res.append({'sd': s, 'n': len(json.loads(line)['ev']), 'bad': x})
                    elif not inconclusive > 3: sys.stderr.write(out[-2000:])
                    if any(y[0] == c.pid for y in x or []): bad.append((suite, s)); res.pop()
            ntr += len(res); c.cov['states'] += n; c.cov['transitions'] += g
            per[suite] = per.get(suite, 0) + len(res)
            for r in res:
                nev += r['n']
                if any(x[0] == c.pid for x in r['bad']): bad.append((suite, r['sd']))
            if a == base and os.path.exists(f):
                l = open(f).readline()
                try:
                    d = json.loads(l)
                    c.sample({'suite': suite, 'seed': d['sd'], 'events': len(d['ev']), 'steps': d.get('steps'), 'switches': d.get('sw'), 'first_events': d['ev'][:6]})
                except ValueError: pass
            if os.path.exists(f): os.unlink(f)
    c.cov['traces_validated_against_impl'] += ntr
    c.cov['evaluations'] += ntr
    c.notes['trace_events'] = nev
    c.notes['executions_per_suite'] = per
    unrep = 0
    for suite, seed in bad[:4]:
        x, line = rerun(c, exe, suite, seed)
        mine = sorted((y for y in (x or []) if y[0] == c.pid), key=lambda y: y[2])
        if not mine: unrep += 1; continue
        p = c.replay(f'{suite}-{seed}.json', line)
        c.violation(f'{mine[0][1]} (suite {suite}, schedule {seed}, event {mine[0][2]})', p)
    if unrep: c.notes['unreproduced'] = unrep
    if inconclusive: c.notes['batches_evaluated_one_by_one'] = inconclusive

def design_run(c, name, defect=None, workers=8, timeout=600, mem='10g'):
    rc, out = c.tlc('MCEngine', design.cfg(name, defect), workers=workers, timeout=timeout, mem=mem)
    g, n = c.states(out)
    return rc, out, g, n

def designs(c):
    if c.pid not in DESIGN: return
    q, t, defects = DESIGN[c.pid]
    done = c.notes.setdefault('design_scenarios', {})
    for s in q + (t if c.thorough else []):
        rc, out, g, n = design_run(c, s, timeout=60 if not c.thorough else 400)
        c.cov['states'] += n; c.cov['transitions'] += g
        done[s] = {'distinct_states': n, 'exhaustive': rc == 0}
        if rc in (12, 13):
            p = c.replay(f'design-{s}.txt', out)
            c.violation(f'design specification violates the property in scenario {s}', p)
    if c.thorough:
        for s, d in defects:
            rc, out, g, n = design_run(c, s, d, timeout=300)
            c.notes.setdefault('defects_rejected', {})[f'{s}/{d}'] = rc in (12, 13)

def run(c):
    traces(c)
    designs(c)
    c.finish('model_checking', [
        'x86 TSO: barriers are compiler barriers and stores of one thread become visible in order; the runtime switches threads between memory accesses and explores sequentially consistent interleavings',
        'schedules are sampled from a seeded generator, scenarios of the design specification are explored exhaustively',
        'the runtime (rt.cc), which stands in for threads, mutexes, sleeping and clocks, is trusted'])
