"""C30: electrostatics of the nuclear charge models (harness/charge.c)."""
import os
from vlib import *

NOWIDEN = ['--delay=100000', '--counted-delay=100000', '--max-steps=600000000']
FN = ['point charge', 'charged ball', 'Gaussian model', 'Fermi model', 'Fermi bubble model', 'estimates of nuclear parameters']
CATS = {'SAME', 'CHECK', 'CLOSE', 'OOB', 'UNINIT', 'NULLDEREF', 'UAF', 'UNKNOWNPTR', 'ASSERT', 'EXIT'}


def run(prop):
    res = Result(prop)
    th = os.environ.get('VERIF_TIER') == 'thorough'
    jobs = []
    pars = [(0.9, 0.25, 0.3), (1.4, 0.8, -0.6), (2.1, 0.4, 0.02), (1.7, 0.6, 0.0)] + ([(6.2, 0.52, 0.001), (0.0001, 0.00001, -0.35), (0.5, 2.0, 1.7)] if th else [])
    for c, a, k in pars:
        for f in (0.2, 0.9, 1.0, 1.15, 1.4, 4.0) + ((0.5, 0.999, 1.001, 1.29, 1.3, 2.0, 30.0) if th else ()):
            d = dict(RR=repr(c * f), CC=repr(c), AA=repr(a), KK=repr(k), QQ='%.1f' % (7 if c < 1 else 83))
            for fn in range(5):
                for sym in (0, 1) if fn >= 2 else (0,):
                    for st in ((0, 1, 2) if th else (0, 1)) if fn >= 3 else (0,):
                        if f == 1.0 and sym:
                            continue
                        jobs.append(('charge.c', dict(d, FN=fn, SYM=sym, SET=st), NOWIDEN, 300))
    for r in (0.5, 1.1, 2.0, 4.3, 5.9) + ((0.9, 1.5, 1.9, 1.98, 3.0, 8.0) if th else ()):
        for q in (1, 16, 119, 208, 292) if th else (int(r * 40),):
            jobs.append(('charge.c', dict(FN=5, CC=repr(r), QQ='%d.0' % q), NOWIDEN, 300))
    with Work() as w:
        rs = w.absint_many(jobs)
    obl, fns, dec, und = 0, set(), 0, []
    for r in rs:
        c = r['defs']
        name = '%s at r = %s, c or R = %s, a = %s, k = %s, %s' % (FN[c['FN']], c.get('RR'), c['CC'], c.get('AA'), c.get('KK'), 'symbolic special functions' if c.get('SYM') else 'symbolic charge')
        if r['status'] != 'ok':
            raise Broken('%s could not be analysed: %s' % (name, r['err'][-300:]))
        obl += r['stats']['checks']
        dec += 1 if r['reached'].get('end') else 0
        fns |= set(r['functions'])
        bad = [x for x in r['reports'] if x['cat'] in CATS]
        if c['FN'] in (2, 3, 4) and not r['reached'].get('erf' if c['FN'] == 2 else 'sk'):
            und.append(name)
            continue
        for x in bad:
            res.violation('%s:%s:%s' % (x['cat'], FN[c['FN']], x['msg'][:60]), '%s: %s at %s: %s; call path %s' % (name, x['cat'], x['where'], x['msg'], x['path']))
        if not r['reached'].get('end') and not bad:
            raise Broken('%s does not return in the analysis' % name)
    res.cov.update(explanation='densities, potentials, rms radii and parameter estimates of every nuclear model, with the charge or the special functions S_k((r-c)/a), erf as symbols and arbitrary numbers for S_k(-c/a); potentials must equal, as linear forms, the electrostatic potential obtained here by integrating the normalised density, radii its second moment',
                   runs=len(rs), runs_completed=dec, obligations=obl, undecided=und, functions_analysed=len(fns), function_names=sorted(fns))
    res.assume += ['distances and model parameters are enumerated; all charges and all values of the special functions']
    return res
