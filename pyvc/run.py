"""Command line: verify contracts by name (development)."""
import os, sys, time
import importlib
from pyvc.contract import Contract, verify
from pyvc import engine as E


if os.environ.get('PYTHONHASHSEED') != '0':      # the same order of everything in every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + ['-m', 'pyvc.run'] + sys.argv[1:])


def load(mods):
    cs = []
    for m in mods:
        cs += importlib.import_module('contracts.' + m).CONTRACTS
    table = {}
    for c in cs:
        try:
            table[c.load()] = c
        except Exception as e:
            print('cannot load', c.path, e)
    return cs, table


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('mods')
    ap.add_argument('pat', nargs='?', default='')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    cs, table = load(a.mods.split(','))
    for c in cs:
        if a.pat in c.path:
            r = verify(c, table, None)
            print('%-60s %-11s %3d/%3d paths=%d %.1fs (solver %.1fs) %s' % (
                c.path, r.status, r.discharged, r.total, r.paths, r.time, r.solver_time, r.reason), flush=True)
            if a.v:
                for f in r.failed:
                    print('    FAILED', f[0], f[1], 'line', f[2], f[3])
                    print('       ', f[4].replace('\n', '\n        ')[:1500])
                print('   ', r.clauses, r.backends, r.inlined)
