"""Output buffers and simple outputs: traces of the real code against OutBuf, and the design specification OutBufDesign."""
import traces
from traces import Part

LIBS = '-Wl,--wrap=write,--wrap=writev'
FLAGS = '-fno-sanitize=nonnull-attribute'   # memcpy(0, x, 0) of an unbuffered stream
SCN = { # cap, ops, maxlen, interruptions, errors
 'zero': (0, 4, 3, 1, 1), 'one': (1, 4, 3, 1, 1), 'three': (3, 4, 4, 1, 1), 'long': (2, 6, 3, 1, 1), 'wide': (4, 5, 5, 1, 2)}
DEFECTS = [('three', d) for d in ('order', 'drop', 'short', 'restart', 'eintr', 'silent', 'noreset', 'nolatch')]
def cfg(s, d):
    cap, ops, ml, i, e = SCN[s]
    return f"""SPECIFICATION Spec
CONSTANTS
Cap = {cap}
Ops = {ops}
MaxLen = {ml}
Intr = {i}
Errors = {e}
Defect = {{{'"' + d + '"' if d else ''}}}
INVARIANT Good
VIEW View
CHECK_DEADLOCK TRUE
"""

def run(c):
    for n, q, t in [('ob', 6000, 160000), ('obout', 3000, 60000)]:
        traces.run_part(c, Part(n, 'ob', 'OutBufTrace', q, t, step=1000 if not c.thorough else 4000, libs=LIBS, flags=FLAGS))
    traces.run_designs(c, 'OutBufDesign', cfg, ['zero', 'one', 'three'], ['long', 'wide'], DEFECTS)
    c.finish('model_checking', [
        'an interrupted call is retried on descriptors only: a stdio stream latches its own error',
        'faults of the system are injected at write and writev; they are generated from seeds, as are the operations'])
