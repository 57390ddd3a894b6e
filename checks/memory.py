"""C05, C06, C07, C21, C22: whole-program memory and value abstract interpretation of every public routine on standard,
adversarial and extreme shapes, of the special functions at boundary arguments and of the life cycle of every object.
Only definite reports (present for every concretisation reaching the point with the given shape) count."""
import configs
from vlib import *
from graded import summarise

CATS = {
    'C05': ({'LEAK', 'DOUBLEFREE', 'BADFREE', 'UAF'}, 'every heap block is a tracked region: at the return of every routine no region allocated by it is alive, none is released twice or released while owned by the caller, none is used after release'),
    'C06': ({'UNINIT', 'UNINITOUT'}, 'every memory cell carries an initialised flag; each output element must be assigned by the call, without reading an unassigned cell'),
    'C07': ({'OOB'}, 'every load, store and block operation is checked against the extent of the region it points into'),
    'C21': ({'DIVZERO', 'DOMAIN!'}, 'every floating-point division and library-function argument is checked against the interval of its operand; a divisor that is exactly zero or an argument wholly outside the domain is a violation'),
    'C22': ({'ASSERT', 'EXIT', 'NULLDEREF', 'INTDIVZERO', 'BADALLOC', 'CHECK'}, 'every assertion, exit/abort call, null dereference and integer division is evaluated on the abstract state'),
}
NOWIDEN = ['--delay=100000', '--counted-delay=100000', '--max-steps=600000000']
DIV = ['--features=fpdiv,fpdom']


def jobs_for(prop):
    th = TIER == 'thorough'
    js = configs.basic(th) + configs.geometries(th) + configs.gradients(th) + configs.full(th) + configs.adversarial(th)
    if prop in ('C07', 'C22'):
        js += configs.extreme(th)
    elif th:
        js += configs.extreme(th)
    if prop == 'C21':
        js = configs.geometries(th) + configs.adversarial(th) + configs.gradients(th) + configs.full(th) + [j for j in configs.basic(th) if j[1]['API'] not in ('T2', 'SO')]
    if not th:
        js = [j for j in js if not skipped(prop, j[1])]
    # radial quadrature followed point by point up to its largest grid, no widening
    un = [configs.J('T2', LA=0, LB=0, LU=0), configs.J('T2', LA=0, LB=0, LU=0, NPA=2, NPU=2), configs.J('NUC', LA=0, LB=0, MODEL=1), configs.J('NUC', LA=0, LB=0, MODEL=4),
          configs.J('T2', LA=0, LB=0, LU=0, CONC=1, PA=0, PB=1, PC=0)]
    js += [(h, d, NOWIDEN, 600) for h, d, f, t in un]
    out = [(h, dict(d, MEM=1), list(f) + DIV, t) for h, d, f, t in js]
    if prop in ('C07', 'C22'):
        # largest angular momenta with symbolic radial integrals (harness/exact.c): arrays of harmonics
        big = [(k, la, lb, 10) for k in (6, 7) for la, lb in ((10, 0), (0, 10))] + ([(6, 10, 10, 10), (7, 10, 10, 10), (6, 10, 10, 9), (7, 9, 10, 10)] if th else [])
        out += [('exact.c', dict(API='expansion', KIND=k, LA=la, LB=lb, PL=l, GEO=4, EXPO=0, ORDER=0, NA=1, NB=1, NPOT=1, TRUNC=1), NOWIDEN + DIV, 400) for k, la, lb, l in big]
    out += [('special.c', dict(API='special', PART=i), NOWIDEN + DIV, 300) for i in range(1, 8)]
    return out


def skipped(prop, d):
    """configurations left to the thorough tier"""
    if d.get('CONC') and 'ORIG' in d and d['API'] not in ('OVL', 'KIN', 'MOM'):
        keep = {'C21': ((0, 0), (2, 1), (0, 1), (2, 0)), 'C22': ((0, 0), (2, 1)), 'C07': ((0, 0),), 'C05': ((2, 0),), 'C06': ((0, 1),)}[prop]
        if (d.get('SHARED', 0), d['ORIG']) not in keep:
            return True
    if prop != 'C21' and d['API'] in ('T2', 'SO') and 'TRUNC' not in d:
        s = (d.get('LA', 0), d.get('LB', 0), d.get('LU', 0))
        if s in ((2, 0, 2), (1, 2, 1), (0, 3, 1), (1, 1, 2), (0, 2, 2)) or (s == (2, 1, 1) and prop != 'C07'):
            return True
        if s == (1, 1, 1) and (d.get('ORDER') or d.get('SHARED')) and prop != 'C06':
            return True
    return False


def run(prop):
    res = Result(prop)
    cats, rule = CATS[prop]
    jobs = jobs_for(prop)
    seen, uniq = set(), []
    for j in jobs:
        k = (j[0], tuple(sorted(j[1].items())), tuple(j[2]))
        if k not in seen:
            seen.add(k)
            uniq.append(j)
    uniq.sort(key=configs.weight, reverse=True)
    with Work() as w:
        rs = w.absint_many([(h, dict(d) if h == 'ints.c' else {k: v for k, v in d.items() if k != 'API'}, f, t) for h, d, f, t in uniq])
    for r in rs:
        r['defs'].setdefault('API', 'expansion' if 'KIND' in r['defs'] else 'special')
        # a routine that aborts on every path has already been reported; anything else without a normal end is undecided
    summarise(res, rs, cats, rule, keyf=lambda r, x: '%s:%s' % (x['cat'], fn(x['where'])))
    return res


def fn(where):
    return where.split('(')[-1].split(')')[0] if '(' in where else where.split(':')[0]
