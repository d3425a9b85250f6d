"""CPU affinity strings (C23): what validation says and the sets the threads pass to the system, against CpuSet."""
import traces
from traces import Part

W = '-Wl,--wrap=pthread_setaffinity_np,--wrap=pthread_setschedparam,--wrap=sched_setaffinity'
CFG = 'SPECIFICATION Spec\nCONSTANT Cpus = 256\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n'
SCN = {'five': (5, '{48, 49, 51, 44, 45}'), 'six': (6, '{48, 49, 51, 44, 45}'), 'more': (5, '{48, 49, 50, 51, 44, 45, 120}')}
DEFECTS = 'trunc order open last dash'.split()
def cfg(s, d):
    return f"""SPECIFICATION Spec
CONSTANTS
Cpus = 12
Max = {SCN[s][0]}
Chars = {SCN[s][1]}
Defect = "{d or 'none'}"
INVARIANT Good
CHECK_DEADLOCK FALSE
"""

def run(c):
    for n, q, t in (('aff', 2000, 60000), ('small', 1000, 20000)):
        traces.run_part(c, Part(n, 'cpu', 'CpuTrace', q, t, cfg=CFG, libs=W, step=250 if not c.thorough else 4000))
    traces.run_designs(c, 'CpuDesign', cfg, ['five'], ['six', 'more'], [('five', d) for d in DEFECTS])
    c.finish('model_checking', [
        'the system calls that set affinity and scheduling policy are stand-ins that record the set and simulate a machine of 1 to 1024 CPUs',
        'strings with leading white space or a sign before a mask, a mask that names no CPU, a comma at the end of a list and CPU numbers of 256 and more may be accepted or rejected; if accepted (other than the first two) they must name exactly their CPUs'])
