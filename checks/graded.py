"""C13, C14, C15, C20, C25: abstract interpretation of every integral/gradient routine over a graded value domain
(units of length, mirror parity, coefficient degree, translation weight, data provenance)."""
import configs
from vlib import *

DESC = {
    'C13': ('GRADE', 1, {'DIM', 'DIMCMP'}, 'every value carries its exponent of length; additions/comparisons/joins of unequal exponents and non-scalar arguments of transcendental functions make it inconsistent; each output element must have exactly the exponent of its operator'),
    'C14': ('GRADE', 2, {'PAR', 'PARCMP'}, 'every value carries its sign under reflection of each axis; each output element (i,j) must have the parity given by the i-th component of shell A, the j-th of shell B and the operator component'),
    'C20': ('GRADE', 3, {'DIM', 'DIMCMP'}, 'every value carries its degree in the coefficients of bra, ket and potential; each output element must be of degree one in each'),
    'C25': ('TRANS', 1, {'SHIFT', 'SHIFTCMP'}, 'every value carries its weight under a simultaneous shift of all centres (distinct weights per axis); each output element must have weight zero'),
    'C15': ('TAINT', 1, {'NODEP', 'DEP'}, 'every value carries the set of input data it is computed from; each output element must be computed from all defining data and from none of the irrelevant ones'),
}


def taint_masks(d):
    def bits(l):
        m = 0
        for x in l:
            m |= 1 << x
        return m
    api = d['API']
    na, nb, nu = d.get('NPA', 1), d.get('NPB', 1), d.get('NPU', 1)
    ia = [d['ONLYA']] if 'ONLYA' in d else range(na)
    ib = [d['ONLYB']] if 'ONLYB' in d else range(nb)
    yes = [0, 1, 2, 3, 4, 5] + [9 + i for i in ia] + [13 + i for i in ia] + [17 + i for i in ib] + [21 + i for i in ib]
    no = [37, 50, 51, 52]
    if api not in ('OVL', 'KIN', 'MOM'):
        yes += [6, 7, 8]
    if api in ('T1', 'T2', 'SO'):
        yes += [25 + i for i in range(nu)] + [29 + i for i in range(nu)]
        if api != 'T1':
            yes += [33 + i for i in range(nu)]
    if api == 'OC':
        if d.get('LOC', 0) == 0:
            return None
        noc = d.get('NOC', 1)
        no = [50, 51, 52]
        yes += [b + i for b in (25, 29, 42, 46) for i in range(min(noc, 2))]
    if api == 'NUC':
        k = {0: 0, 5: 0, 1: 1, 2: 1, 3: 2, 4: 3}[d.get('MODEL', 0)]
        yes += [38] + [39 + i for i in range(k)]
        no += [39 + i for i in range(k, 3)]
    return '%dL' % bits(yes), '%dL' % bits(no)


def jobs_for(prop):
    th = TIER == 'thorough'
    macro, val, cats, rule = DESC[prop]
    if prop in ('C13', 'C14', 'C20'):
        js = configs.basic(th) + configs.geometries(th) + configs.gradients(th) + configs.full(th) + configs.high(th)
        return configs.with_(js, **{macro: val})
    if prop == 'C25':
        js = configs.basic(th) + configs.gradients(th) + configs.full(th) + configs.high(th)
        return configs.with_(js, TRANS=1, CX=1)
    out = []
    for h, d, f, t in configs.basic(th) + configs.high(th) + configs.pairs(th):
        if max(d.get('NPA', 1), d.get('NPB', 1), d.get('NPU', 1), d.get('NOC', 1)) > 4:
            continue
        if d.get('COEF', 0) not in (0, 3, 6, 7):
            continue
        if d['API'] == 'OVLG':
            continue
        m = taint_masks(d)
        if m:
            out.append((h, dict(d, TAINT=1, WANTMASK=m[0], NOTMASK=m[1]), f, t))
    return out


LABELS = {0: 'A.x', 1: 'A.y', 2: 'A.z', 3: 'B.x', 4: 'B.y', 5: 'B.z', 6: 'C.x', 7: 'C.y', 8: 'C.z', 37: 'potential.J', 38: 'charge'}


def skipped(prop, d):
    """configurations left to the thorough tier (the angular expansions are also compared term by term in C27)"""
    s = (d.get('LA', 0), d.get('LB', 0), d.get('LU', 0))
    if prop == 'C14' or d['API'] not in ('T2', 'SO'):
        return False
    return s in ((2, 0, 2), (1, 1, 2), (0, 3, 1)) or s == (0, 2, 2) and d['API'] == 'SO' or s in ((2, 1, 1), (1, 2, 1)) and 'CONC' not in d and d['API'] == 'SO'


def run(prop):
    res = Result(prop)
    macro, val, cats, rule = DESC[prop]
    jobs = [j for j in jobs_for(prop) if TIER == 'thorough' or not skipped(prop, j[1])]
    jobs.sort(key=configs.weight, reverse=True)
    with Work() as w:
        rs = w.absint_many([(h, d, f + ['--features=cmp'], t) for h, d, f, t in jobs])
    summarise(res, rs, cats, rule)
    return res


def shape(d):
    return ' '.join('%s=%s' % (k, v) for k, v in d.items() if k not in ('GRADE', 'TRANS', 'TAINT', 'MEM', 'WANTMASK', 'NOTMASK', 'CX'))


def summarise(res, rs, cats, rule, keyf=None, minfrac=0.5):
    ok = [r for r in rs if r['status'] == 'ok']
    und = [r for r in rs if r['status'] != 'ok']
    noend = [r for r in ok if not r.get('reached', {}).get('end')]
    # a run whose end was never reached because the analysed code aborts on every path decided nothing by itself
    ok2 = [r for r in ok if r.get('reached', {}).get('end')]
    fns, checks, steps, calls = set(), 0, 0, 0
    for r in ok:
        fns |= set(r['functions'])
        checks += r['stats']['checks']
        steps += r['stats']['abstract_steps']
        calls += r['stats']['calls']
        for x in r['reports']:
            if x['cat'] in cats:
                key = keyf(r, x) if keyf else '%s:%s:%s' % (x['cat'], r['defs']['API'], x['where'].split(':')[0] + ':' + (x['where'].split('(')[-1].split(')')[0]))
                res.violation(key, '%s at %s: %s; call path %s; shape %s' % (x['cat'], x['where'], x['msg'], x['path'], shape(r['defs'])))
    if not res.viol:
        if len(ok2) < minfrac * len(rs):
            raise Broken('only %d of %d configurations could be analysed; first: %s %s' %
                         (len(ok2), len(rs), (und or noend)[0]['defs'], (und or noend)[0].get('err', '')[-300:]))
        if 'DEP' not in cats and checks == 0 and 'OOB' not in cats:
            raise Broken('no obligation was evaluated')
    res.cov.update(explanation=rule, configurations=len(rs), configurations_decided=len(ok2),
                   undecided=[shape(r['defs']) + ' rc=%s' % r['rc'] for r in und][:20] + [shape(r['defs']) + ' (no normal end)' for r in noend][:20],
                   functions_analysed=len(fns), function_names=sorted(fns), obligations=checks, abstract_steps=steps, calls_interpreted=calls,
                   samples=[shape(r['defs']) for r in ok2[:3]])
    res.assume += ['clang 18 -O0 + mem2reg IR represents the program', 'Bessel table contents abstracted to [-1,1]; real-spherical-harmonic tables built by the library code up to l=10',
                   'shapes (angular momenta, contraction lengths, geometries) are enumerated; all real inputs within a shape are covered by the abstraction',
                   'summaries of libm functions in engine/absint.cpp']
