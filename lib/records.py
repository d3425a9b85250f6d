"""Records: storage of arguments (C22), headers and their time (C24); traces of the real code against RecArgs and Text."""
import traces
from traces import Part

SUITES = {'C22': [('rec', 6000, 200000)], 'C24': [('hdr', 6000, 200000), ('rec', 1000, 20000)]}
SCN = {'small': (14, 3, '{0, 1, 3, 4, 5, 9}'), 'exact': (12, 2, '0..12'), 'long': (24, 3, '{0, 1, 2, 5, 7, 8, 9, 12, 20}'), 'four': (18, 4, '{0, 1, 4, 9}')}
def cfg(s, d):
    tail, n, lens = SCN[s]
    return f"""SPECIFICATION Spec
CONSTANTS
Tail0 = {tail}
Guard = 3
Word = 2
Args = {n}
Lens <- L
Defect = {{{'"' + d + '"' if d else ''}}}
INVARIANT Good
CHECK_DEADLOCK TRUE
"""
def tcfg(s, d):
    k = {'few': 2, 'more': 5}[s]
    return f"""SPECIFICATION Spec
CONSTANTS
Secs = {{{', '.join(str(i) for i in range(k))}}}
His = {{{', '.join(str(i) for i in range(k))}}}
Los = {{{', '.join(str(i) for i in range(k))}}}
Defect = {{{'"' + d + '"' if d else ''}}}
INVARIANT Good
CHECK_DEADLOCK TRUE
"""

def run(c):
    for n, q, t in SUITES[c.pid]: traces.run_part(c, Part(n, 'rec', 'RecTrace', q, t, step=700 if not c.thorough else 5000))
    if c.pid == 'C22': traces.run_designs(c, 'RecDesign', lambda s, d: cfg(s, d).replace('Lens <- L', f'Lens = {lens(s)}'), ['small', 'exact'], ['long', 'four'], [('small', d) for d in ('room', 'noterm', 'longmark', 'nocount')])
    else: traces.run_designs(c, 'TimeCache', tcfg, ['few'], ['more'], [('few', d) for d in ('nested', 'stale', 'forget', 'blank')])
    c.finish('model_checking', [
        'records, times and arguments are generated from seeds; the specification computes what must be stored and shown',
        'text is compared where the specification defines it: the usual integer, string, pointer and fixed-point conversions with width, - and 0 flags, doubles that are multiples of 1/64, data dumps of integers and bytes; elsewhere formatting has to end without an error of the sanitizers',
        'time zones have a fixed offset'])

def lens(s):
    l = SCN[s][2]
    if '..' in l: a, b = l.split('..'); l = '{' + ', '.join(str(i) for i in range(int(a), int(b) + 1)) + '}'
    return l
