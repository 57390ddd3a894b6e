"""C03: flow-sensitive abstract interpretation of the initialisation gate: the ready flag (whatever the query routine
reads) and the tables (whatever initialisation stores to) are discovered, then every access to them is judged."""
from vlib import *

NAMES = ['type1_integrals', 'type2_integrals', 'spin_orbit_integrals', 'outercore_potential_integrals', 'full_grpp_integrals',
         'type1_integrals_gradient', 'type2_integrals_gradient', 'spin_orbit_integrals_gradient', 'outercore_potential_integrals_gradient',
         'full_grpp_integrals_gradient'] + ['nuclear_attraction_integrals (model %d)' % i for i in range(6)] + \
        ['nuclear_attraction_integrals_' + m for m in ('point_charge', 'charged_ball', 'gaussian_model', 'fermi_model', 'fermi_bubble_model')] + \
        ['outercore_potential_integrals_part_1_', 'outercore_potential_integrals_part_2_']
UNGATED = 22      # works without the tables: only has to keep away from them


def run(prop):
    res = Result(prop)
    with Work() as w:
        d = dict(PHASE=2)
        if TIER == 'thorough':
            d.update(FULLINIT=1, CYCLES=1)
        init = w.absint('gate.c', d, [], 800)
        if init['status'] != 'ok':
            raise Broken('initialisation could not be analysed: ' + init['err'][-300:])
        if not init['reached'].get('end') and not any(r['cat'] in ('UNLOCKED', 'LATE', 'AGAIN', 'CHECK', 'ASSERT') for r in init['reports']):
            raise Broken('initialisation does not return in the analysis')
        if not init['flag']:
            raise Broken('libgrpp_is_initialized reads no state')
        if not init['tables']:
            raise Broken('initialisation stores to no table')
        for r in init['reports']:
            if r['cat'] in ('UNLOCKED', 'LATE', 'AGAIN', 'CHECK', 'ASSERT'):
                res.violation('%s:%s' % (r['cat'], r['msg'] if r['cat'] == 'CHECK' else r['where'].split('(')[-1].rstrip(')')), 'initialisation: %s at %s: %s; call path %s' % (r['cat'], r['where'], r['msg'], r['path']))
        if len(init['locks']) > 1:
            res.violation('LOCKS', 'initialisation and finalisation use different locks: ' + ' '.join(init['locks']))
        flags = ['--watch=' + ','.join(init['tables']), '--stop-at=TABLE']
        jobs = [('gate.c', dict(PHASE=p, ROUT=i), flags, 300) for p in ((0, 1) if not res.viol else ()) for i in range(len(NAMES))]
        rs = w.absint_many(jobs)
    obl = 0
    fns = set(init['functions'])
    for r in rs:
        i, ph = r['defs']['ROUT'], ('before initialisation', 'after finalisation')[r['defs']['PHASE']]
        if r['status'] != 'ok' or not r['reached'].get('end'):
            raise Broken('%s %s could not be analysed: %s' % (NAMES[i], ph, r['err'][-300:]))
        obl += 2
        fns |= set(r['functions'])
        for x in r['reports']:
            if x['cat'] == 'TABLE' or (x['cat'] == 'CHECK'):
                res.violation('%s:%s' % (x['cat'], x['where'].split('(')[-1].rstrip(')')), '%s called %s: %s at %s; call path %s' % (NAMES[i], ph, x['msg'], x['where'], x['path']))
        if i != UNGATED and r['reached'].get('routine returned'):
            res.violation('RETURNS:' + NAMES[i], '%s called %s returns instead of aborting' % (NAMES[i], ph))
        elif i != UNGATED and not any(x['cat'] in ('ASSERT', 'EXIT') for x in r['reports']) and not res.viol:
            raise Broken('%s %s neither returns nor aborts' % (NAMES[i], ph))
        for x in r['reports']:
            if x['cat'] == 'EXIT' and 'abort' not in x['msg']:
                res.violation('EXIT:' + NAMES[i], '%s called %s leaves the process by %s at %s instead of aborting' % (NAMES[i], ph, x['msg'], x['where']))
    res.cov.update(explanation='abstract interpretation of init/finalize (lock set, order of stores, idempotence) and of every table-using routine in both uninitialised states (no access to a table, no normal return)',
                   ready_flag=init['flag'], tables=init['tables'], locks=init['locks'], routines=NAMES, obligations=obl + init['stats']['checks'], functions_analysed=len(fns), function_names=sorted(fns))
    res.assume += ['mutual exclusion primitives recognised: OpenMP critical sections and locks, pthread/C11 mutexes', 'clang 18 -O0 -fopenmp + mem2reg IR represents the program']
    return res
