"""The C interface (C25): programs over the public operations through C, C++ or both, against the specification CApi."""
import traces
from traces import Part

W = '-Wl,--wrap=writev'

def run(c):
    for n, q, t in (('mix', 480, 16000), ('twin', 96, 3000)):
        traces.run_part(c, Part(n, 'capi', 'CApiTrace', q, t, libs=W, step=(60 if n == 'mix' else 12) if not c.thorough else 500))
    c.finish('model_checking', [
        'programs are generated from seeds: up to three engine lives, three threads that take turns, all outputs, argument lists of 1 to 16 arguments whose static types are fixed in harness/lists.h and whose values vary',
        'argument lists do not contain arrays, enumerations, pointers to constants and long double, which the two languages treat differently or not at all',
        'the internal area of the engine is disabled so that the log holds the records of the program only'])
