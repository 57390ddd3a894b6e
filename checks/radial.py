"""C31: radial quadratures integrate their integrands (harness/radial.c)."""
import os
from vlib import *

NOWIDEN = ['--delay=100000', '--counted-delay=100000', '--max-steps=1500000000']
CATS = {'SAME', 'CHECK', 'CLOSE', 'OOB', 'UNINIT', 'NULLDEREF', 'UAF', 'UNKNOWNPTR', 'DOUBLEFREE', 'BADFREE', 'ASSERT', 'EXIT'}
NAMES = {1: 'radial integrals of extended nuclei (lambda, N)', 2: 'radial integrals of semi-local potentials (lambda1, lambda2, N)'}


def configs(th):
    out = []
    fine = dict(TOL='-1.0')
    for k in (2, 1):
        for i, (ca, cb) in enumerate([(0.7, 1.1), (0, 0.8), (1.3, 0), (0, 0), (0.5, 0.5), (2.4, 0.1)]):
            for j, (l1, l2, nm) in enumerate([(2, 1, 2), (0, 0, 0), (0, 3, 1), (4, 2, 5)] + ([(3, 3, 3), (1, 7, 4), (9, 0, 6)] if th else [])):
                if k == 1 and ca == cb == 0:
                    continue
                n = i + j
                out.append(dict(fine, KIND=k, CA=ca, CB=cb, L1=l1, L2=l2, NM=nm, SYM=n % 3 if k == 2 else 0, NA=1 + n % 2, NB=1 + (n // 2) % 2, NU=1 + (n + 2) % 3, PN=n % 3, SCR=n % 2))
        for i, s in enumerate((0.1, 30.0, 1e3) + ((0.3, 1e4, 1e5) if th else ())):
            f = s ** -0.5
            out.append(dict(fine, KIND=k, CA=0.7 * f, CB=1.1 * f, SCALE=s, L1=2, L2=2, NM=2, SYM=i % 3 if k == 2 else 0, PN=i % 3))
    for sym in range(3):
        out.append(dict(fine, KIND=2, L1=1, L2=1, NM=1, SYM=sym, NA=(24, 3, 2)[sym], NB=(2, 25, 3)[sym], NU=(3, 2, 26)[sym]))
        out.append(dict(fine, KIND=2, CA=0, CB=0, L1=1, L2=1, NM=1, SYM=sym, NA=(24, 3, 2)[sym], NB=(2, 25, 3)[sym], NU=(3, 2, 26)[sym]))
    for i in range(3):
        out.append(dict(fine, KIND=2, CA=0, CB=0, L1=10, L2=12, NM=20, SYM=i, NA=2, NB=1, NU=3, PN=i))
    for i, s in enumerate((1e-3, 1e-2, 30.0, 1e3, 1e5, 1e7)):      # analytic: no grid limits the exponents
        for pn in range(3):
            out.append(dict(fine, KIND=2, CA=0, CB=0, L1=1, L2=2, NM=6, SCALE=s, SYM=(i + pn) % 3, NA=2, NB=2, NU=1 + pn, PN=pn))
    for l1, l2, nm in [(7, 2, 4), (2, 9, 3)] + ([(20, 20, 20), (20, 5, 3)] if th else []):
        out.append(dict(fine, KIND=2, L1=l1, L2=l2, NM=nm, NA=1, NB=1, NU=2, CA=0.3, CB=0.4))
    return out


def run(prop):
    res = Result(prop)
    th = os.environ.get('VERIF_TIER') == 'thorough'
    with Work() as w:
        rs = w.absint_many([('radial.c', c, NOWIDEN, 800) for c in configs(th)])
    obl, fns, und = 0, set(), []
    for r in rs:
        c = r['defs']
        if r['status'] != 'ok':
            raise Broken('%s could not be analysed (%s): %s' % (NAMES[c['KIND']], c, r['err'][-300:]))
        obl += r['stats']['checks']
        fns |= set(r['functions'])
        bad = [x for x in r['reports'] if x['cat'] in CATS]
        # other special functions than the one substituted, or convergence which cannot be decided
        if not r['reached'].get('AUX') and (c.get('CA') or c.get('CB')):
            und.append(str(c))
            bad = [x for x in bad if x['cat'] not in ('SAME', 'CLOSE')]
        elif r['stats']['undecided_branches']:
            lost = [x for x in bad if x['cat'] == 'SAME' and 'derived unknown' in x['msg']]
            if lost:
                und.append(str(c))
            bad = [x for x in bad if x not in lost]
        for x in bad:
            res.violation('%s:%s' % (x['cat'], NAMES[c['KIND']]), '%s (%s): %s at %s: %s; call path %s' % (NAMES[c['KIND']], c, x['cat'], x['where'], x['msg'], x['path']))
        if not r['reached'].get('end') and not bad:
            raise Broken('%s: the analysis does not return (%s)' % (NAMES[c['KIND']], c))
    res.cov.update(explanation='every entry of the tables of radial integrals, as a linear form in the coefficients of the potential or of a shell, must equal the analytic integral of its integrand for a substituted family of Bessel functions x^l exp(-x), whatever grid is used; grids refined to the end; one-centre special case',
                   runs=len(rs), obligations=obl, undecided=und, functions_analysed=len(fns), function_names=sorted(fns))
    res.assume += ['exponents and distances are enumerated; all coefficients', 'screening is replaced (see N04)', 'the quadrature is linear in the values of the Bessel function']
    return res
