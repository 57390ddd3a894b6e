"""C17 (accuracy settings) and C18 (Cartesian component lists): abstract interpretation of harness/settings.c."""
import os
from vlib import *
import compose

CATS = {'SAME', 'CHECK', 'COPY', 'OOB', 'UNINIT', 'NULLDEREF', 'UAF', 'UNKNOWNPTR', 'ASSERT', 'EXIT'}
ROUT = {1: 'libgrpp_nuclear_attraction_integrals (finite nucleus)', 2: 'libgrpp_type2_integrals', 3: 'libgrpp_spin_orbit_integrals', 4: 'libgrpp_type2_integrals'}


def run(prop):
    res = Result(prop)
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    if prop == 'C17':
        jobs = [(dict(PART=0), 'setters and defaults'), (dict(PART=1), 'radial'), (dict(PART=2), 'radial'), (dict(PART=3), 'radial'),
                (dict(PART=2, SCREEN=1), 'radial'), (dict(PART=3, SCREEN=1), 'radial'), (dict(PART=4), 'angular_screening'), (dict(PART=4, BESSEL=1), 'modified_bessel'),
                (dict(PART=1, NEVER=1), 'terminate'), (dict(PART=2, NEVER=1), 'terminate')]
    else:
        jobs = [(dict(PART=5, LMAX=16 if thorough else 12), 'lists')]
    with Work() as w:
        rs = w.absint_many([('settings.c', d, ['--delay=100000', '--counted-delay=100000', '--max-steps=600000000'] if prop == 'C18' else ['--max-steps=60000000'], 300) for d, _ in jobs])
        extra = w.absint_many([('compose.c', compose.d(7, la, lb, 1, 1, 1, 1, 1, 1, o, 3), compose.NOWIDEN, 300)
                               for o in (0, 1, 2) for la, lb in ([(l, l % 3) for l in range(10)] if thorough else [(0, 2), (2, 1), (3, 3), (6, 0)])]) if prop == 'C18' else []
    obl, fns, dec, sites = 0, set(), 0, {}
    for (d, what), r in sorted(zip(jobs, rs), key=lambda t: t[0][1] != 'terminate'):
        name = '%s %s' % (what, ROUT.get(d['PART'], ''))
        if r['status'] != 'ok':
            if what == 'terminate' and ('budget' in r['err'] or 'bad_alloc' in r['err'] or r['status'] == 'timeout'):
                res.violation('TERMINATE:%d' % d['PART'], '%s: radial quadrature does not stop at its maximum grid when the tolerance is never met (%s)' % (ROUT[d['PART']], r['err'][-150:]))
                continue
            if res.viol:
                continue
            raise Broken('%s could not be analysed: %s' % (name, r['err'][-300:]))
        obl += r['stats']['checks']
        dec += 1 if r['reached'].get('end') else 0
        fns |= set(r['functions'])
        bad = [x for x in r['reports'] if x['cat'] in CATS]
        if what == 'terminate':
            bad = []
        for x in bad:
            res.violation('%s:%s:%s' % (x['cat'], what, x['where'].split(':')[0]), '%s: %s at %s: %s; call path %s' % (name, x['cat'], x['where'], x['msg'], x['path']))
        if what in ('radial', 'angular_screening', 'modified_bessel'):
            sites.setdefault(what + '_tolerance', set()).update(r.get('copies', []))
            if not r.get('copies') and not bad:
                res.violation('UNREAD:%s_tolerance' % what, '%s: the setting %s_tolerance takes part in no comparison' % (ROUT[d['PART']], what))
        if not r['reached'].get('end') and not bad:
            if what == 'terminate':
                res.violation('TERMINATE:%d' % d['PART'], '%s: radial quadrature never returns when the tolerance is never met' % ROUT[d['PART']])
                continue
            raise Broken('%s does not return in the analysis' % name)
    for r in extra:
        c = r['defs']
        if r['status'] != 'ok':
            raise Broken('gradient lookup could not be analysed: %s' % r['err'][-300:])
        obl += r['stats']['checks']
        fns |= set(r['functions'])
        dec += 1
        called = r['reached'].get('OVL')
        for x in r['reports']:
            if x['cat'] in CATS and not ('derived unknown' in x['msg'] and not called):
                res.violation('LOOKUP:%s' % x['where'].split(':')[0], 'position of a component in the list of the shell (order %d, L=%d,%d): %s at %s: %s' % (c['ORDER'], c['LA'], c['LB'], x['cat'], x['where'], x['msg']))
    if prop == 'C17':
        res.cov.update(explanation='settings are symbolic data set through the public setters; the routines are interpreted over all values of the integrand samples; a comparison must involve the setting itself, the number of samples must depend on it, never-met tolerances must still terminate; setters store the value unchanged and the defaults are restored',
                       comparisons={k: sorted(v) for k, v in sites.items()}, runs=len(rs), runs_completed=dec, obligations=obl, functions_analysed=len(fns), function_names=sorted(fns))
        res.assume += ['routines probed on s shells away from the operator centre; tolerances between 1e-18 and 1e-2', 'integrand samples of the potential are arbitrary in [-10,10]']
    else:
        res.cov.update(explanation='lists of generator, shell and copied shell compared entry by entry for the default, both built-in conventions and a user-supplied generator; position lookup is decided through the overlap gradient, whose elements must combine the integrals at the positions of the raised and lowered components',
                       runs=len(rs) + len(extra), runs_completed=dec, obligations=obl, functions_analysed=len(fns), function_names=sorted(fns))
        res.assume += ['angular momenta enumerated from 0 to %d (documented maximum 10 plus derivative shells)' % (16 if thorough else 12), 'the convention is not changed between creating a shell and using it']
    return res
