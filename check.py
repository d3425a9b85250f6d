#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of hogl's current working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vlib

PARTS = {**{p: 'engine' for p in 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C14'.split()},
         **{p: 'registry' for p in 'C11 C12 C13'.split()},
         'C19': 'outbuf', 'C22': 'records', 'C24': 'records', 'C20': 'rawlog', 'C21': 'recover', 'C23': 'cpuset', 'C25': 'capi',
         **{p: 'outfile' for p in 'C15 C16 C17 C18'.split()}}

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    c = vlib.Check(pid, tier)
    mod = __import__(PARTS[pid])
    try:
        mod.run(c)
    except vlib.BuildError as e:
        print(f'{pid}: cannot build {e}'); sys.exit(2)

main()
