#!/usr/bin/env python3
"""run.py ID - run the check of one property (tier and seed from VERIF_TIER
and VERIF_SEED).  Exit 0 held, 1 violation, 2 error of the check."""

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'lib')]
sys.dont_write_bytecode = True

import vlib  # noqa: E402


def table():
    import parsing
    t = {}
    for mod in ('parsing', 'outputs', 'graphs', 'dicts', 'program'):
        try:
            m = __import__(mod)
        except ModuleNotFoundError as e:
            if e.name != mod:
                raise
            continue
        for n in dir(m):
            if len(n) == 3 and n[0] == 'c' and n[1:].isdigit():
                t[n.upper()] = getattr(m, n)
    return t


if __name__ == '__main__':
    t = table()
    if len(sys.argv) != 2 or sys.argv[1] not in t:
        print('usage: run.py ID; IDs: ' + ' '.join(sorted(t)), file=sys.stderr)
        sys.exit(2)
    pid = sys.argv[1]
    level = 'fault_enumeration' if pid in ('C11', 'C27', 'C33', 'C35') else 'exploration'
    vlib.main(pid, t[pid], level)
