#!/usr/bin/env python3
"""run.py <property id>    runs the check (VERIF_SEED, VERIF_TIER)
run.py replay <file>     runs a recorded violation again
run.py setup             builds what the checks need"""
import importlib, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'py'))
import vlib

GENERIC = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C19', 'C20', 'C21', 'C23'}


def module(prop):
    return importlib.import_module('generic' if prop in GENERIC else prop.lower())


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    try:
        if a[0] == 'setup':
            import setup_all
            return setup_all.main()
        if a[0] == 'replay':
            r = json.load(open(a[1]))
            return module(r['property']).replay(r)
        return module(a[0]).check(a[0])
    except vlib.Inconclusive as e:
        print(f'INCONCLUSIVE property={a[0]} {e}', flush=True)
        return 3


if __name__ == '__main__':
    sys.exit(main())
