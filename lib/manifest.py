"""Writes MANIFEST.json from the list of checks"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_ENG = 'TLA+ specification HoglMon (TLC): validation of traces recorded from the instrumented real code under a deterministic scheduler, and exhaustive model checking of the design specification Engine against the same properties'
N_ENG = 'Every recorded execution (thousands of seeded schedules of generated programs) is a behaviour the TLA+ specification accepts; TLC explores every interleaving of the design specification for small programs. Assumes sequentially consistent memory between instrumented accesses, and trusts the cooperative runtime.'
CHECKS = {p: (T_ENG, N_ENG, 'model_checking') for p in 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C14'.split()}
T_REG = 'TLA+ specifications Mask and Registry (TLC): every result of applying masks and every concurrent history of area and mask operations of the real code must be explained by the specification (linearization points chosen by TLC)'
N_REG = 'Executions are generated from seeds (rules, names, schedules), the specification computes the only allowed results. Patterns are restricted to a sub-language of extended regular expressions whose meaning the specification defines.'
CHECKS.update({p: (T_REG, N_REG, 'model_checking') for p in 'C11 C12 C13'.split()})
T_OF = 'TLA+ specification OutFile (TLC): validation of traces recorded from the real output_file under a deterministic scheduler with injected faults of the system, and exhaustive model checking of the design specification OutFileDesign against the same properties'
N_OF = 'Every recorded execution (system calls, state of the directory at each of them, schedules, faults) is a behaviour the specification accepts; TLC explores every interleaving of writer, switcher and helper and every crash point of the design for small scenarios.'
CHECKS.update({p: (T_OF, N_OF, 'model_checking') for p in 'C15 C16 C17 C18'.split()})
CHECKS['C19'] = ('TLA+ specification OutBuf (TLC): validation of traces of the real buffers and outputs under injected partial writes, interruptions and errors, and exhaustive model checking of the design OutBufDesign',
 'Operations and faults are generated from seeds; the specification decides which bytes may and must have arrived after each operation.', 'model_checking')
CHECKS['C22'] = ('TLA+ specifications RecArgs and Text (TLC): every record stored by the real code and its text must be what the specification computes from the posted arguments; exhaustive model checking of the storage design RecDesign',
 'Argument lists are generated from seeds and posted through every posting path; the specification computes the stored arguments and the text. Built with address and undefined behaviour sanitizers.', 'model_checking')
CHECKS['C24'] = ('TLA+ specification Text (TLC): the header of every record rendered by the real code must be what the specification computes from the record and the one before; exhaustive model checking of the time cache design TimeCache',
 'Sequences of timestamps, field selections and time zones are generated from seeds; the specification computes date, time, delta and header.', 'model_checking')
CHECKS['C20'] = ('TLA+ specification RawCodec (TLC): bytes written, records read back and output of hogl-cook for whole, cut-off and damaged raw logs of the real code must be what the specification computes; exhaustive model checking of RawDesign (every cut, single-byte change and missing beginning of small files)',
 'Records, damage and options are generated from seeds; the specification computes the encoding and which records a reader reaches. Built with address and undefined behaviour sanitizers.', 'model_checking')
CHECKS['C21'] = ('TLA+ specification Recover (TLC): what the recovery tool shows of images of the real memory, made up and of a running engine stopped at arbitrary preemption points, must be what the specification says was pending; exhaustive model checking of RecoverDesign (every state of posting threads, engine and buffer is an image)',
 'Images are generated from seeds; a record accepted before the image must be behind the output, in its buffer, or shown exactly once in order. The recovery tool is built with the address sanitizer.', 'model_checking')
CHECKS['C23'] = ('TLA+ specification CpuSet (TLC): validation results and CPU sets passed to the system by threads of the real code for generated and enumerated strings must be what the grammar of the specification says; exhaustive model checking of the parser design CpuDesign against that grammar',
 'Strings are generated from seeds and enumerated over small alphabets, given to threads directly, to the engine, to the helper of an output file, and through the C interface. Built with address and undefined behaviour sanitizers.', 'model_checking')
CHECKS['C25'] = ('TLA+ specification CApi (TLC): every recorded execution of a generated program over the public operations, made through the C interface, the C++ interface or both in turns, must be one the specification allows; twin executions of one program through the two interfaces must give the same outputs',
 'Records, areas, sections, masks, rings, engine lives, formats, time sources and outputs created through one interface are used through the other. Argument lists of 1 to 16 arguments of all C types through the macros of both. Built with address and undefined behaviour sanitizers.', 'model_checking')
NA = {}
def main():
    props = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
    m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': [],
         'notes': 'All checks build /repo\'s working tree in a scratch directory with the machinery in rt/, harness/ and lib/; no hooks in /repo are needed.'}
    for p in props:
        if p in CHECKS:
            t, n, l = CHECKS[p]
            m['checks'].append({'property': p, 'quick_cmd': f'python3 check.py {p} quick', 'thorough_cmd': f'python3 check.py {p} thorough',
                                'technique': t, 'level': l, 'level_note': n})
        else:
            m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'specification and conformance check not built yet')})
    json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
main()
