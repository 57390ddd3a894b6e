"""C27, C28, C29: closed-form content of the one-component integral routines (harness/exact.c)."""
import os
from vlib import *

NOWIDEN = ['--delay=100000', '--counted-delay=100000', '--max-steps=1500000000']
NAMES = ['libgrpp_overlap_integrals', 'libgrpp_kinetic_energy_integrals', 'libgrpp_momentum_integrals', 'libgrpp_type1_integrals', 'libgrpp_nuclear_attraction_integrals_point_charge',
         'libgrpp_nuclear_attraction_integrals_<extended model>', 'libgrpp_type2_integrals', 'libgrpp_spin_orbit_integrals']
KINDS = {'C29': (0, 1, 2), 'C28': (3, 4, 5), 'C27': (6, 7)}
CATS = {'SAME', 'CHECK', 'OOB', 'UNINIT', 'NULLDEREF', 'UAF', 'UNKNOWNPTR', 'DOUBLEFREE', 'BADFREE', 'ASSERT', 'EXIT'}
EX = {
 'C29': 'the contraction coefficients of the first shell are symbols; every element must equal, as a linear form, the sum over primitives of norm times the closed-form one-dimensional integrals of its pair of components (binomial expansion about the product centre; derivatives taken analytically)',
 'C28': 'auxiliary functions and radial integrals are symbols which the stubs hand out after checking their arguments; every element must equal, as a linear form, an independently derived Hermite expansion (local potentials of powers 0, 1, 2 and point nucleus) or spherical-harmonic expansion (extended nuclei)',
 'C27': 'two-parameter radial integrals are symbols; every element must equal, as a linear form, 16 pi^2 times the angular expansion derived independently from zonal harmonics, solid harmonics and angular-momentum matrices',
}


def configs(prop, thorough):
    out = []
    g = lambda i: (0, 5, 8, 2, 3, 1, 7, 9, 12, 11, 6, 13, 4, 15, 10, 14)[i % 16]
    if prop in ('C28', 'C29'):
        kinds = (0, 1, 2) if prop == 'C29' else (3, 4)
        top = 11
        for k in kinds:
            n = 0
            for la in range(top):
                for lb in range(top):
                    if k in (1, 2) and (la > 10 or lb > 10):
                        continue
                    full = thorough or la <= 3 and lb <= 3 or (la, lb) in [(0, 6), (7, 0), (4, 4), (5, 3), (2, 8)] or (prop == 'C29' and (lb == 10 or la == 10 or la == lb)) or (la, lb) in [(9, 1), (0, 9), (5, 5)]
                    if full:
                        many = la + lb < 6
                        out.append(dict(KIND=k, LA=la, LB=lb, NA=1 + (n % 3 if many else n % 2), NB=1 + ((n + 1) % 2 if many else 0), GEO=g(n) if n % 2 else 0, EXPO=(n // 2) % 6, ORDER=n % 3, NPOT=1 + n % 4 if many else 1, PN=n % 3))
                        n += 1
            for geo in range(16):
                for e in range(6):
                    if thorough or (geo + e) % 3 == 0:
                        out.append(dict(KIND=k, LA=2, LB=1 + e % 2, NA=2, NB=2, GEO=geo, EXPO=e, ORDER=(geo + e) % 3, NPOT=3, PN=e % 3))
            # repeated exponents within a shell
            for n, (la, lb) in enumerate([(0, 0), (1, 0), (1, 2), (3, 1)]):
                out.append(dict(KIND=k, LA=la, LB=lb, NA=3, NB=2 + n % 2, GEO=(0, 2, 5, 1)[n], EXPO=6, ORDER=n % 3, NPOT=2, PN=n % 3))
    if prop == 'C28':
        # repeated and widely spread exponents of the potential, powers in turn or all alike
        for zs in (0, 1, 2, 3):
            for pn in range(6):
                for n, (la, lb) in enumerate([(0, 0), (2, 1)] + ([(3, 4), (5, 5)] if thorough else [])):
                    out.append(dict(KIND=3, LA=la, LB=lb, NA=1 + n, NB=1, GEO=(0, 9, 3, 8)[(zs + pn) % 4], EXPO=(pn + n) % 6, ORDER=(pn + n) % 3, NPOT=4, PN=pn, ZSET=zs))
        shp = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2), (3, 1)] + ([(2, 2), (4, 0), (0, 5), (1, 3), (3, 2), (6, 0)] if thorough else [])
        for i, (la, lb) in enumerate(shp):
            out.append(dict(KIND=5, LA=la, LB=lb, NA=2 if la + lb < 4 else 1, NB=2 if la + lb < 3 else 1, GEO=0, EXPO=i % 6, ORDER=i % 3, PN=i % 3))
        for geo in range(16):
            out.append(dict(KIND=5, LA=1 + geo % 2, LB=1, NA=1, NB=2, GEO=geo, EXPO=geo % 6, ORDER=geo % 3, PN=geo % 3))
    if prop == 'C27':
        for k in (6, 7):
            big = [(0, 0, 10), (0, 0, 9), (1, 0, 7), (0, 1, 8), (5, 0, 1), (0, 5, 1), (2, 2, 1), (3, 1, 1), (1, 3, 1), (1, 1, 5)]
            shp = big + [(0, 0, 0), (0, 0, 1), (0, 0, 2), (0, 0, 5), (1, 0, 1), (0, 1, 1), (1, 1, 0), (1, 1, 2), (2, 0, 1), (0, 2, 2), (2, 1, 1), (1, 2, 1), (3, 0, 1), (0, 3, 0), (1, 0, 4), (0, 1, 3)]
            if thorough:
                shp += [(2, 2, 1), (2, 2, 2), (3, 1, 1), (1, 3, 2), (4, 0, 2), (0, 5, 1), (2, 0, 5), (1, 1, 4), (0, 0, 8), (5, 1, 0), (1, 1, 6), (2, 0, 7), (0, 2, 8), (1, 1, 10), (6, 0, 1), (0, 7, 0)]
            for i, (la, lb, l) in enumerate(shp):
                out.append(dict(KIND=k, LA=la, LB=lb, PL=l, NA=1 + i % 2, NB=1 + (i + 1) % 2, GEO=0, EXPO=i % 6, ORDER=i % 3, NPOT=1 + i % 2))
            for geo in range(16):
                out.append(dict(KIND=k, LA=1, LB=1, PL=geo % 3 or (0 if k == 6 else 1), NA=1, NB=1, GEO=geo, EXPO=geo % 6, ORDER=geo % 3, NPOT=2))
            # centres on an axis: large projectors at little cost
            for la, lb, l, geo in ([(2, 1, 10, 7), (0, 2, 10, 5)] if k == 6 else [(1, 0, 10, 5), (0, 1, 10, 6)]) + ([(1, 2, 10, 5), (3, 0, 9, 6), (4, 2, 7, 7)] if thorough else []):
                out.append(dict(KIND=k, LA=la, LB=lb, PL=l, NA=1, NB=1, GEO=geo, EXPO=0, ORDER=l % 3, NPOT=1))
            # a centre of a shell on the potential: large angular momenta at little cost
            for la, lb, l, geo in [(4, 0, 2, 2), (0, 4, 1, 3), (3, 3, 2, 4), (5, 0, 4, 4)] + ([(2, 9, 2, 2), (9, 2, 2, 3), (6, 6, 4, 4), (8, 8, 1, 4), (3, 5, 3, 4), (3, 5, 3, 2)] if thorough else []):
                out.append(dict(KIND=k, LA=la, LB=lb, PL=l, NA=1, NB=1, GEO=geo, EXPO=0, ORDER=l % 3, NPOT=1))
    # long contractions and long potentials
    for k in KINDS[prop]:
        for n, (na, nb, npot) in enumerate([(40, 1, 1), (1, 40, 1), (1, 1, 40 if k in (3, 6, 7) else 1), (12, 9, 2)] + ([(64, 2, 3), (3, 50, 2), (25, 25, 1)] if thorough and k < 5 else [])):
            if k == 5 and (npot > 2 or na * nb > 60):
                continue
            out.append(dict(KIND=k, LA=n % 2, LB=(n + 1) % 2, PL=1, NA=na, NB=nb, GEO=(0, 9, 15, 13)[n] if n < 4 else 0, EXPO=0, ORDER=n % 3, NPOT=npot, PN=n % 3))
    return out


def cost(c):
    return (c['NA'] * c['NB'] if c['KIND'] == 5 else 1) * c['KIND'] * 10 + (c['LA'] + 1) ** 2 * (c['LB'] + 1) ** 2 * (1 + c.get('PL', 0)) ** 2


def run(prop):
    res = Result(prop)
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    with Work() as w:
        rs = w.absint_many([('exact.c', c, NOWIDEN, 850) for c in sorted(configs(prop, thorough), key=cost, reverse=True)])
    obl, fns, und = 0, set(), set()
    for r in rs:
        c = r['defs']
        name = NAMES[c['KIND']]
        if r['status'] != 'ok':
            raise Broken('%s could not be analysed (%s): %s' % (name, c, r['err'][-300:]))
        obl += r['stats']['checks']
        fns |= set(r['functions'])
        bad = [x for x in r['reports'] if x['cat'] in CATS]
        # a routine which obtains the symbolic ingredients elsewhere cannot be decided by substitution
        aux = c['KIND'] >= 4 or c['KIND'] == 3 and any((c['PN'] + k) % 3 < 2 for k in range(c['NPOT']))
        skip = [x for x in bad if x['cat'] == 'SAME' and aux and not r['reached'].get('AUX')]
        if skip:
            und.add('%s: the substituted ingredient is not used' % name)
        for x in bad:
            if x not in skip:
                res.violation('%s:%s:%s' % (x['cat'], name, x['where'].split(':')[0]), '%s (shells L=%d,%d; %s): %s at %s: %s; call path %s' % (
                    name, c['LA'], c['LB'], c, x['cat'], x['where'], x['msg'], x['path']))
        if not r['reached'].get('end') and not bad:
            raise Broken('%s does not return in the analysis' % name)
    res.cov.update(explanation=EX[prop], routines=sorted({NAMES[r['defs']['KIND']] for r in rs}), runs=len(rs), obligations=obl, undecided=sorted(und),
                   shapes=sorted({(r['defs']['KIND'], r['defs']['LA'], r['defs']['LB'], r['defs'].get('PL', 0)) for r in rs}), functions_analysed=len(fns), function_names=sorted(fns))
    res.assume += ['exponents and centres are the enumerated representatives (6 sets of exponents from 1e-3 to 1e6, 16 placements including all coincidence patterns, aligned, nearly coincident and distant centres); symbols are arbitrary reals between 1/2 and 2, above every screening threshold',
                   'tolerance 1e-9 of the largest coefficient of the matrix']
    return res
