"""Masks, areas and their registration."""
import engine, traces
from traces import Part

def cfg(s, d): return f'SPECIFICATION Spec\nCONSTANTS\nProgs <- {s}\nDefect = "{d or "none"}"\nINVARIANT Good\nCHECK_DEADLOCK TRUE\n'

DEFECTS = [('Kinds', d) for d in ('prefix', 'insertlate', 'latemask', 'nostore', 'clear')] + [('Cross', 'unlocked'), ('Masking', 'first')]

def run(c):
    if c.pid == 'C11':
        traces.run_part(c, Part('mask', 'maskd', 'MaskTrace', 3500, 60000, step=450 if not c.thorough else 1000))
        traces.run_part(c, Part('mtext', 'maskd', 'MaskTrace', 1000, 20000, step=125 if not c.thorough else 500))
    else:
        traces.run_designs(c, 'RegDesign', cfg, ['Two', 'Kinds', 'Masking'], ['Cross', 'Big'], DEFECTS)
        traces.run_part(c, Part('reg', 'reg', 'Registry', 1600, 16000, sched=True, step=100))
        if c.pid == 'C12': engine.traces(c)
    c.finish('model_checking', [
        'masks and names are drawn from a generator of patterns whose meaning the specification states (literal text, any character, repetition, alternatives, lists of characters)',
        'schedules are sampled from a seeded generator; memory is sequentially consistent between instrumented accesses'])
