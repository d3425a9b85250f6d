"""Raw logs (C20): what is written, read back and shown by hogl-cook, whole and damaged; traces against RawCodec."""
import traces
from traces import Part

SCN = {'two': (2, '{0, 65, 255}', 300, '{0, 1, 4}'), 'max': (2, '{0, 255}', 165, '{0}'), 'three': (3, '{0, 1, 2, 7, 65, 255}', 300, '{0, 1, 2, 4}')}
DEFECTS = {'cut': 'Name <- BadNameCut', 'name': 'Name <- BadName', 'size': 'EncArg <- BadEncArg', 'types': 'EncTypes <- BadTypes'}
def cfg(s, d):
    n, vals, mx, mins = SCN[s]
    return f"""SPECIFICATION Spec
CONSTANTS
N = {n}
Values = {vals}
Max = {mx}
Mins = {mins}
{DEFECTS.get(d, '')}
INVARIANT Good
CHECK_DEADLOCK FALSE
"""

def run(c):
    for n, q, t in (('raw', 2000, 60000), ('rawdmg', 2000, 60000)):
        traces.run_part(c, Part(n, 'raw', 'RawTrace', q, t, step=400 if not c.thorough else 4000))
    traces.run_designs(c, 'RawDesign', cfg, ['two'], ['max', 'three'], [('two', d) for d in DEFECTS])
    c.finish('model_checking', [
        'records, damage and reader options are generated from seeds; names have 2 to 128 printable characters and strings are shorter than 64 KB, as the reader demands',
        'behind damage the records the specification of the reader reaches have to be shown; a reader is free to show what it makes of the damaged bytes themselves',
        'addresses of raw data are not compared; damage is given to the reader in files only (a reader of standard input cannot go back)'])
