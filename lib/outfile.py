"""The rotating file output: traces of the real code against OutFile, and the design specification OutFileDesign."""
import traces
from traces import Part

WRAPS = 'open open64 creat openat write writev pwrite close symlink symlinkat link rename renameat remove unlink unlinkat readlink fsync fdatasync ftruncate truncate'.split()
SUITES = {'C15': [('of', 1600, 24000), ('ofname', 400, 6000)], 'C16': [('of', 1200, 20000), ('ofname', 800, 10000)],
          'C17': [('of', 2400, 30000), ('ofname', 200, 4000)], 'C18': [('ofname', 2000, 24000), ('of', 400, 8000)]}
SCN = {  # names, count, max, cap, W, S, faults, left
 'rotate':  ('NamesA', 2, 30, 1, 'W4', 'S0', 0, 'NoLeft'),
 'every':   ('NamesA', 2, 1, 0, 'WIdle', 'SA', 1, 'LeftA1'),
 'switch':  ('NamesAB', 2, 30, 1, 'W4', 'SBA', 2, 'LeftA1'),
 'same':    ('NamesAB', 2, 30, 1, 'W4', 'SA', 1, 'NoLeft'),
 'three':   ('NamesAB', 3, 30, 2, 'W4', 'SABA', 2, 'LeftX'),
 'threebig':('NamesAB', 3, 20, 1, 'W4', 'SABA', 3, 'LeftA1'),
 'idle':    ('NamesAB', 3, 30, 1, 'WIdle', 'SBA', 2, 'LeftX'),
 'buffer':  ('NamesAB', 2, 40, 2, 'W4', 'SBB', 3, 'NoLeft'),
}
DEFECTS = [('same', d) for d in ('linkfirst', 'lostsig', 'killunlocked', 'nolock', 'skip', 'skipfail', 'linkearly', 'footearly', 'unlink')]
def cfg(s, d):
    n, cnt, mx, cap, w, sw, fl, left = SCN[s]
    return f"""SPECIFICATION Spec
CONSTANTS
Names <- {n}
Count = {cnt}
Max = {mx}
Cap = {cap}
ProgW <- {w}
ProgS <- {sw}
Faults = {fl}
Left <- {left}
Defect = {{{'"' + d + '"' if d else ''}}}
INVARIANT Good
VIEW View
CHECK_DEADLOCK TRUE
"""

def run(c):
    for n, q, t in SUITES[c.pid]: traces.run_part(c, Part(n, 'of', 'OutFileTrace', q, t, sched=True, step=100 if not c.thorough else 250, wraps=WRAPS))
    traces.run_designs(c, 'MCOutFile', cfg, ['same', 'switch', 'every'], ['rotate', 'three', 'threebig', 'idle', 'buffer'], DEFECTS)
    c.finish('model_checking', [
        'system calls and the directory are observed at every system call that may change it; a crash is a state of the directory between two of them',
        'names have at most one index marker and at least two chunks are configured (with one chunk every rotation truncates the file being written, by design)',
        'schedules are sampled from a seeded generator; the scenarios of the design specification are explored exhaustively'])
