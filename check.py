#!/usr/bin/env python3
"""usage: check.py <property>; exit 0 held, 1 VIOLATION, 2 the analysis could not be carried out"""
import os, sys, traceback
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(H, 'lib'), os.path.join(H, 'checks')]
sys.dont_write_bytecode = True
import vlib

MODULES = {'C16': 'tables', 'C17': 'settings', 'C18': 'settings', 'C10': 'nuclear', 'C30': 'charge', 'C31': 'radial', 'C11': 'compose', 'C12': 'compose', 'C26': 'compose', 'C27': 'exact', 'C28': 'exact', 'C29': 'exact', 'C08': 'interfaces', 'C19': 'interfaces', 'C09': 'fortran', 'C03': 'gate', 'C05': 'memory', 'C06': 'memory', 'C07': 'memory', 'C21': 'memory', 'C22': 'memory', 'C01': 'effects', 'C02': 'effects', 'C04': 'effects', 'C13': 'graded', 'C14': 'graded', 'C15': 'graded', 'C20': 'graded', 'C25': 'graded'}


def main():
    p = sys.argv[1]
    try:
        mod = __import__(MODULES[p])
        return mod.run(p).finish()
    except vlib.Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (p, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
