"""Recovery (C21): images of the memory, made up and of a running engine, and what hogl-recover shows of them."""
import traces
from traces import Part

SCN = {'two': (2, 4, 3, 3), 'one': (1, 4, 7, 4), 'three': (3, 2, 2, 2), 'big': (2, 4, 5, 5)}
DEFECTS = 'early offbyone set before popfirst resetfirst'.split()
def cfg(s, d):
    r, n, p, t = SCN[s]
    return f"""SPECIFICATION Spec
CONSTANTS
Rings = {r}
Slots = {n}
Posts = {p}
Times = {t}
Defect = "{d or 'none'}"
INVARIANT Good
"""

def run(c):
    tool = c.plain_driver('recover', 'address', libs='-lbfd')
    traces.run_part(c, Part('img', 'core', 'RecoverTrace', 800, 30000, step=100 if not c.thorough else 1000, san='', link='-no-pie', args=(tool,)))
    traces.run_part(c, Part('crash', 'crash', 'RecoverTrace', 1280, 60000, step=160 if not c.thorough else 1500, sched=True, args=(tool,)))
    traces.run_designs(c, 'RecoverDesign', cfg, ['one', 'three'], ['two', 'big'], [('two', d) for d in DEFECTS])
    c.finish('model_checking', [
        'images are ELF core files written by the process itself: its writable memory, with and without its read-only data, in one or several pieces',
        'images of a running engine are taken at a preemption point of the cooperative runtime, chosen by a seed; the memory is sequentially consistent',
        'strings outside the image, addresses of raw data, and records larger than 1 MB are left out'])
