"""C11, C12: exact linear forms of composite integrals and gradients in symbolic primitive integrals (harness/compose.c)."""
import os
from vlib import *

NOWIDEN = ['--delay=100000', '--counted-delay=100000', '--max-steps=600000000']
KINDS = ['libgrpp_full_grpp_integrals', 'libgrpp_outercore_potential_integrals', 'libgrpp_type1_integrals_gradient', 'libgrpp_type2_integrals_gradient',
         'libgrpp_spin_orbit_integrals_gradient', 'libgrpp_outercore_potential_integrals_gradient', 'libgrpp_full_grpp_integrals_gradient', 'libgrpp_overlap_integrals_gradient']
STUBS = [{'T1', 'T2', 'SO', 'OC'}, {'OC'}, {'T1'}, {'T2'}, {'SO'}, {'OC'}, {'T1', 'T2', 'SO', 'OC'}, {'OVL'}]
CATS = {'SAME', 'CHECK', 'OOB', 'UNINIT', 'NULLDEREF', 'UAF', 'UNKNOWNPTR', 'DOUBLEFREE', 'BADFREE', 'ASSERT', 'EXIT'}


def d(kind, la, lb, na, nb, narep=2, nso=2, noc=2, uloc=1, order=0, ax=3):
    return dict(KIND=kind, LA=la, LB=lb, NA=na, NB=nb, NAREP=narep, NSO=nso, NOC=noc, ULOC=uloc, ORDER=order, AX=ax)


def configs(prop, thorough):
    out = []
    if prop == 'C11':
        counts = [(0, 0, 0, 0), (0, 0, 0, 1), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (1, 1, 1, 1), (3, 2, 2, 1), (7, 7, 4, 1), (2, 3, 3, 0), (8, 1, 2, 1), (100, 100, 20, 1)]
        if thorough:
            counts += [(a, s, o, u) for a in (0, 1, 2, 5) for s in (0, 1, 2, 6) for o in (0, 1, 3, 4) for u in (0, 1)]
        for i, (a, s, o, u) in enumerate(counts):
            la, lb, na, nb = ((1, 1, 1, 2), (0, 2, 2, 1), (2, 1, 1, 1), (0, 0, 3, 2))[i % 4] if a < 100 else (0, 0, 1, 1)
            out.append(d(0, la, lb, na, nb, a, s, o, u, order=i % 3))
            if o:
                out.append(d(1, la, lb, na, nb, a, s, o, u, order=i % 3))
        return out
    shp = [(0, 0, 2, 1), (1, 0, 1, 2), (0, 2, 1, 1), (2, 1, 2, 2)] + ([(1, 3, 3, 1), (3, 2, 1, 3), (4, 4, 1, 1), (0, 5, 1, 1), (5, 1, 1, 2)] if thorough else [])
    for kind in range(2, 8):
        for i, (la, lb, na, nb) in enumerate(shp):
            for order in (0, 1, 2) if thorough else ((2, i % 2) if (la, lb) == (2, 1) else (0,)):
                big = kind in (5, 6) and la + lb >= 3
                out.append(d(kind, la, lb, 1 if big else na, 1 if big else nb, 2 if kind == 6 else 1, 2 if kind == 6 else 1, 2, 1, order, 3))
        for ax in (0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12):
            if ax > 5 and not thorough and kind in (5, 6):
                out.append(d(kind, 0, 1, 1, 1, 1, 1, 1, 1, 0, ax))
                continue
            out.append(d(kind, 1, 1, 1, 1, 1, 1, 1, 1, 0, ax))
    for kind in range(2, 8):  # every angular momentum a differentiated shell can have
        for i, (la, lb) in enumerate([(9, 0), (0, 9), (5, 3)] if kind in (2, 7) else [(4, 0), (0, 4)] if not thorough else [(9, 0), (0, 9), (3, 5)]):
            out.append(d(kind, la, lb, 1, 1, 1, 1, 1, 1, i, 3))
    if thorough:
        for kind in (2, 7):
            for la in range(10):
                for lb in range(10 - la):
                    out.append(d(kind, la, lb, 1, 1, 1, 1, 1, 1, (la + lb) % 3, 3))
        for kind in range(2, 8):
            for ax in range(13):
                out.append(d(kind, 2, 2, 1, 1, 1, 1, 1, 1, 2, ax))
    return out


def uncoupled(thorough):
    """shells with different L or J: every pair of angular momenta up to LM, the documented maximum on its own and with its neighbour"""
    lm = 10 if thorough else 4
    prs = [(a, b) for a in range(lm + 1) for b in range(lm + 1)] + [(10, 10), (10, 9), (6, 5), (7, 7), (0, 8)]
    return [dict(PART=0, L1=a, L2=b, LA=(a + b) % 2, LB=(a + 1) % 2, NPOT=1 + (a + b) % 3, NC=1 + a % 2, ORDER=b % 3) for a, b in prs if (a, b) != (0, 0)]


def outercore(thorough):
    out = []
    for L in range(11):
        out.append(dict(PART=1, L1=L, LA=L % 3, LB=1, NPOT=1 + L % 3, ORDER=L % 3))
        out.append(dict(PART=2, L1=L, LA=(L + 1) % 2, LB=L % 2, NPOT=3 - L % 3, NC=1 + L % 2, ORDER=(L + 1) % 3))
    for la, lb in [(0, 0), (2, 0), (0, 3), (2, 2), (4, 1), (10, 0), (0, 10)] + ([(a, b) for a in range(6) for b in range(6)] + [(8, 3), (3, 8), (10, 2), (2, 10)] if thorough else []):
        for L in (1, 2) if not thorough else (0, 1, 2, 3, 4):
            out.append(dict(PART=3 if la + lb < 4 else 2, L1=L, LA=la, LB=lb, NPOT=2, ORDER=(la + lb) % 3))
    return out


def operator():
    """C26"""
    res = Result('C26')
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    with Work() as w:
        rs = w.absint_many([('oc.c', c, NOWIDEN, 600) for c in outercore(thorough)])
    name, obl, fns, und = KINDS[1], 0, set(), []
    for r in rs:
        c = r['defs']
        if r['status'] != 'ok':
            raise Broken('%s could not be analysed (%s): %s' % (name, c, r['err'][-300:]))
        obl += r['stats']['checks']
        fns |= set(r['functions'])
        bad = [x for x in r['reports'] if x['cat'] in CATS]
        # an operator which is not expressed through the public component routines cannot be decided by substitution
        skip = [x for x in bad if x['cat'] == 'SAME' and 'derived unknown' in x['msg'] and not (r['reached'].get('OVL') and (r['reached'].get('T1') or r['reached'].get('T2')))]
        if skip:
            und.append('overlap or local-potential routine not called')
        for x in bad:
            if x not in skip:
                res.violation('%s:%s:%s' % (x['cat'], name, x['where'].split(':')[0]), '%s (outercore shells of L=%d, basis shells L=%d,%d; %s): %s at %s: %s; call path %s' % (
                    name, c['L1'], c['LA'], c['LB'], c, x['cat'], x['where'], x['msg'], x['path']))
        if not r['reached'].get('end') and not bad:
            raise Broken('%s does not return in the analysis' % name)
    res.cov.update(explanation='overlap and local-potential routines are replaced by arbitrary constants and symbolic primitive integrals, potential coefficients are symbols; every element of the scalar and spin-orbit outercore matrices must equal, as a linear form, the documented operator expression built from independent solid harmonics, angular-momentum matrices, weights and analytic one-centre integrals',
                   routines=[name], runs=len(rs), obligations=obl, undecided=sorted(set(und)), functions_analysed=len(fns), function_names=sorted(fns))
    res.assume += ['overlap and local-potential routines are correct themselves',
                   'angular momenta, contraction lengths, powers and numbers of outercore shells enumerated (see runs); exponents are representative constants',
                   'relative tolerance 1e-9 on the coefficients of the linear forms']
    return res


def run(prop):
    if prop == 'C26':
        return operator()
    res = Result(prop)
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    with Work() as w:
        jobs = [('compose.c', c, NOWIDEN, 600) for c in configs(prop, thorough)]
        if prop == 'C11':
            jobs += [('oc.c', c, NOWIDEN, 600) for c in uncoupled(thorough)]
        rs = w.absint_many(jobs)
    obl, fns, dec, und = 0, set(), 0, []
    for r in rs:
        c = r['defs']
        name = KINDS[c.get('KIND', 1)]
        if r['status'] != 'ok':
            raise Broken('%s could not be analysed (%s): %s' % (name, c, r['err'][-300:]))
        obl += r['stats']['checks']
        dec += 1 if r['reached'].get('end') else 0
        fns |= set(r['functions'])
        bad = [x for x in r['reports'] if x['cat'] in CATS]
        if 'KIND' not in c:
            for x in bad:
                if not ('derived unknown' in x['msg'] and not r['reached'].get('T1')):
                    res.violation('%s:%s:%s' % (x['cat'], name, x['where'].split(':')[0]), '%s (outercore shells of L=%d,%d; %s): %s at %s: %s; call path %s' % (
                        name, c['L1'], c['L2'], c, x['cat'], x['where'], x['msg'], x['path']))
            if not r['reached'].get('end') and not bad:
                raise Broken('%s does not return in the analysis' % name)
            continue
        called = {s for s in STUBS[c['KIND']] if r['reached'].get(s)}
        need = {s for s, n in (('T1', c['ULOC']), ('T2', c['NAREP']), ('SO', c['NSO']), ('OC', c['NOC']), ('OVL', 1)) if n and s in STUBS[c['KIND']]}
        # a composite which does not use the public component routines at all cannot be decided by substitution
        skip = [x for x in bad if x['cat'] == 'SAME' and 'derived unknown' in x['msg'] and not need <= called]
        if skip:
            und.append('%s: component routine(s) %s not called' % (name, sorted(need - called)))
        for x in bad:
            if x not in skip:
                res.violation('%s:%s:%s' % (x['cat'], name, x['where'].split(':')[0]), '%s (shells L=%d,%d; %s): %s at %s: %s; call path %s' % (
                    name, c['LA'], c['LB'], c, x['cat'], x['where'], x['msg'], x['path']))
        if not r['reached'].get('end') and not bad:
            raise Broken('%s does not return in the analysis' % name)
    if prop == 'C11':
        ex = 'component routines are replaced by symbolic primitive integrals; the full and the outercore matrices must equal, as linear forms, the documented sums for every combination of numbers of components; components carry distinct radial parts which are compared field by field'
    else:
        ex = 'component routines are replaced by symbolic primitive integrals; every gradient element must equal, as a linear form, the combination of raised and lowered integrals for all 15 coincidence patterns of the four points, for points differing along one axis only or along all axes, for close (1e-5) and distant (>40) points and for three Cartesian orders'
    res.cov.update(explanation=ex, routines=sorted({KINDS[r['defs'].get('KIND', 1)] for r in rs}), runs=len(rs), runs_completed=dec, obligations=obl, undecided=sorted(set(und)),
                   functions_analysed=len(fns), function_names=sorted(fns))
    res.assume += ['component routines are correct themselves and linear in the contraction coefficients (C20)',
                   'angular momenta and contraction lengths enumerated (see runs); coefficients and exponents are representative constants, primitive integrals are arbitrary reals',
                   'relative tolerance 1e-9 on the coefficients of the linear forms']
    return res
