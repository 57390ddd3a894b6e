"""C10: abstract interpretation of the nuclear attraction routines with symbolic model parameters (harness/nuclear.c)."""
import os
from vlib import *

NOWIDEN = ['--delay=100000', '--counted-delay=100000', '--max-steps=600000000']
MODELS = ['point charge', 'charged ball', 'Gaussian', 'Fermi', 'Fermi bubble', 'point charge (numerical)']
CATS = {'SAME', 'CHECK', 'OOB', 'UNINIT', 'NULLDEREF', 'UAF', 'UNKNOWNPTR', 'ASSERT', 'EXIT'}


def run(prop):
    res = Result(prop)
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    jobs = []
    for model in range(6):
        for conv in ((0, 1) if model < 5 else (0,)):
            for la, lb, na, nb, q in ((1, 2, 2, 3, 83), (0, 0, 1, 1, 1)) + (((2, 3, 3, 2, 120), (3, 0, 1, 3, 9), (0, 3, 3, 3, 114), (1, 1, 1, 1, 200)) if thorough else ()):
                jobs.append(('nuclear.c', dict(MODEL=model, CONV=conv, LA=la, LB=lb, NA=na, NB=nb, Q=q), NOWIDEN, 600))
    with Work() as w:
        rs = w.absint_many(jobs)
    obl, fns, dec, und = 0, set(), 0, []
    for r in rs:
        c = r['defs']
        name = '%s routine, %s model, charge %d' % ('convenience' if c['CONV'] else 'generic', MODELS[c['MODEL']], c['Q'])
        direct = r.get('reached', {}).get('numerical') or r.get('reached', {}).get('analytic')
        if r['status'] != 'ok':
            raise Broken('%s could not be analysed: %s' % (name, r['err'][-300:]))
        obl += r['stats']['checks']
        dec += 1 if r['reached'].get('end') else 0
        fns |= set(r['functions'])
        bad = [x for x in r['reports'] if x['cat'] in CATS]
        skip = [x for x in bad if x['cat'] == 'SAME' and 'derived unknown' in x['msg'] and 'matrix element' in x['msg'] and not direct]
        if skip:
            und.append(name)
        for x in bad:
            if x not in skip:
                res.violation('%s:%s:%s' % (x['cat'], 'conv' if c['CONV'] else 'generic', MODELS[c['MODEL']]), '%s: %s at %s: %s; call path %s' % (name, x['cat'], x['where'], x['msg'], x['path']))
        if not r['reached'].get('end') and not bad:
            raise Broken('%s does not return in the analysis' % name)
    res.cov.update(explanation='every nuclear model through the generic and the convenience routine, with symbolic model parameters held in arrays of exactly the documented length; the electrostatic potentials and the primitive integrators are replaced by specifications which compare charge, parameters, model and centres; the matrix must be the contraction of the primitive integrals times minus the charge',
                   runs=len(rs), runs_completed=dec, obligations=obl, undecided=und, functions_analysed=len(fns), function_names=sorted(fns))
    res.assume += ['parameter values are arbitrary within wide ranges; charges and shell sizes enumerated', 'the electrostatic potentials themselves are attractive (negative), see libgrpp_coulomb_potential_*']
    return res
