"""Shape/geometry configurations for the generic harness, shared by the graded-domain checks."""
RADIAL = ['--widen-after=12', '--widen-files=radial_type']
APIS = {1: 'OVL', 2: 'KIN', 3: 'MOM'}


def J(api, timeout=400, **k):
    d = dict(API=api)
    d.update(k)
    return ('ints.c', d, RADIAL, timeout)


def basic(thorough):
    """every routine x angular momenta x contraction x potential power x nuclear model, generic geometry"""
    out = []
    lm = 4 if thorough else 3
    for api in ('OVL', 'KIN', 'MOM'):
        for la in range(lm + 1):
            for lb in range(lm + 1):
                if thorough or la + lb <= 3 or la == lb or (la, lb) in ((3, 2), (2, 3)):
                    out.append(J(api, LA=la, LB=lb))
        out.append(J(api, LA=2, LB=1, NPA=3, NPB=2, ORDER=1))
        out.append(J(api, LA=3, LB=2, ORDER=2))
        out.append(J(api, LA=1, LB=2, COEF=3, NPA=2))
        out.append(J(api, LA=5 if not thorough else 7, LB=4 if not thorough else 6))
    for pw in (0, 1, 2):
        for la, lb in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (3, 2), (2, 3)) + (((4, 4), (5, 3), (0, 6)) if thorough else ()):
            out.append(J('T1', LA=la, LB=lb, PW=pw))
        out.append(J('T1', LA=2, LB=1, PW=pw, NPA=2, NPB=3, NPU=2, ORDER=1))
        out.append(J('T1', LA=1, LB=2, PW=pw, NPU=2, ORDER=2, COEF=3))
    out.append(J('T1', LA=1, LB=1, MIXPW=1, NPU=3))
    t2 = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1), (2, 1, 1), (1, 2, 1), (0, 2, 2), (2, 0, 2), (1, 1, 2), (3, 0, 0), (0, 3, 1)]
    if thorough:
        t2 += [(2, 2, 0), (2, 2, 1), (2, 2, 2), (3, 1, 0), (1, 3, 1), (3, 1, 2), (0, 4, 0), (4, 0, 1), (0, 2, 4), (1, 0, 3), (0, 1, 3)]
    for la, lb, lu in t2:
        out.append(J('T2', timeout=850, LA=la, LB=lb, LU=lu))
    for pw in (0, 1):
        out.append(J('T2', LA=1, LB=0, LU=1, PW=pw))
    out.append(J('T2', LA=0, LB=1, LU=1, NPA=2, NPB=2, NPU=2))
    out.append(J('T2', LA=1, LB=1, LU=0, ORDER=1))
    out.append(J('T2', LA=2, LB=0, LU=1, ORDER=2, COEF=3))
    so = [(0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 1), (2, 1, 1), (1, 1, 2), (0, 2, 2)]
    if thorough:
        so += [(2, 2, 1), (1, 2, 2), (2, 1, 2), (3, 0, 1), (0, 1, 3)]
    for la, lb, lu in so:
        out.append(J('SO', timeout=850, LA=la, LB=lb, LU=lu))
    out.append(J('SO', LA=1, LB=1, LU=1, ORDER=1, NPU=2))
    out.append(J('SO', LA=2, LB=0, LU=1, ORDER=2, NPA=2))
    for la, lb, loc, noc in ((0, 0, 0, 1), (1, 1, 1, 2), (2, 1, 1, 2), (1, 2, 2, 2), (2, 2, 1, 4), (0, 3, 3, 2), (3, 2, 2, 4)):
        out.append(J('OC', LA=la, LB=lb, LOC=loc, NOC=noc))
    for pw in (0, 1):
        out.append(J('OC', LA=1, LB=2, LOC=1, NOC=2, PW=pw))
    out.append(J('OC', LA=1, LB=2, LOC=1, NOC=2, NPU=2, NPA=2, NPB=2, ORDER=1))
    out.append(J('OC', LA=2, LB=1, LOC=2, NOC=1, ORDER=2))
    # shells whose lists are in different orders
    for order in (3, 4):
        for api in ('OVL', 'KIN', 'MOM', 'T1', 'NUC', 'OC'):
            for la, lb in ((1, 1), (2, 2)) + (((1, 2), (2, 1), (3, 3)) if thorough else ()):
                out.append(J(api, LA=la, LB=lb, ORDER=order, **(dict(LOC=1, NOC=2) if api == 'OC' else {})))
        out.append(J('T2', timeout=850, LA=1, LB=1, LU=1, ORDER=order))
        out.append(J('SO', timeout=850, LA=1, LB=1, LU=1, ORDER=order))
        out.append(J('OVLG', LA=1, LB=1, ORDER=order))
    for m in range(6):
        for la, lb in ((0, 0), (1, 0), (0, 1), (2, 1), (1, 2)) + (((2, 2), (3, 2)) if thorough else ()):
            out.append(J('NUC', LA=la, LB=lb, MODEL=m))
        out.append(J('NUC', LA=2, LB=1, MODEL=m, NPA=2, NPB=2, ORDER=2))
    return out


def high(thorough):
    """the routines without radial quadrature over the whole documented range of angular momenta (a few components of each list)
    and for long contractions"""
    out, seen = [], set()
    pairs = [(i, i) for i in range(11)] + [(i, i + 1) for i in range(0, 10, 2)] + [(i + 1, i) for i in range(1, 10, 2)] + [(10, i) for i in range(0, 10, 3)] + [(i, 10) for i in range(0, 10, 3)]
    if thorough:
        pairs = [(i, j) for i in range(11) for j in range(11)]
    for n, (la, lb) in enumerate(pairs):
        tr = {} if la + lb <= 5 else dict(TRUNC=2)
        for pw in (0, 1, 2) if thorough or la == lb else (n % 3,):
            out.append(J('T1', LA=la, LB=lb, PW=pw, **tr))
        if la + lb > 6:
            for api in ('OVL', 'KIN', 'MOM'):
                out.append(J(api, LA=la, LB=lb, **tr))
        out.append(J('NUC', LA=la, LB=lb, MODEL=0, **tr))
    for api, k in (('OVL', {}), ('KIN', {}), ('MOM', {}), ('T1', dict(PW=0)), ('T1', dict(PW=1))):
        out.append(J(api, LA=1, LB=0, NPA=8, NPB=7, NPU=1, **k))
    out.append(J('T1', LA=1, LB=1, MIXPW=1, NPU=8))
    # coefficients of alternating signs, of magnitudes from 1e-3 to 10
    for api, k in (('OVL', {}), ('KIN', {}), ('MOM', {}), ('T1', dict(NPU=4)), ('OC', dict(LOC=1, NOC=2)), ('NUC', {}), ('NUC', dict(MODEL=2)), ('T2', dict(LU=1)), ('SO', dict(LU=1))):
        for coef in (6, 7):
            out.append(J(api, timeout=850, LA=1 if api != 'SO' else 0, LB=0, NPA=4, NPB=4, COEF=coef, UCOEF=6, **k))
    out.append(J('T2', timeout=850, LA=0, LB=1, LU=1, NPU=7))
    out.append(J('T2', timeout=850, LA=1, LB=0, LU=0, NPA=6, NPB=1))
    for la, lb, loc, noc in ((4, 5, 3, 2), (0, 1, 4, 6), (6, 2, 0, 4), (3, 3, 5, 1)) + (((10, 10, 1, 1), (2, 2, 10, 1)) if thorough else ()):
        out.append(J('OC', timeout=850, LA=la, LB=lb, LOC=loc, NOC=noc, TRUNC=1))
    return out


def pairs(thorough):
    """one pair of primitives at a time (all other coefficients vanish), both relative signs: no pair of primitives is skipped"""
    out = []
    for api, k, n in (('OVL', {}, 4), ('KIN', {}, 4), ('MOM', {}, 4), ('T1', {}, 4), ('T1', dict(PW=1), 2), ('NUC', {}, 4), ('NUC', dict(MODEL=2), 2), ('OC', dict(LOC=1, NOC=2), 3)) + \
            ((('T2', dict(LU=1), 3), ('SO', dict(LU=1), 3), ('NUC', dict(MODEL=4), 3), ('NUC', dict(MODEL=1), 3), ('NUC', dict(MODEL=3), 3), ('NUC', dict(MODEL=5), 3)) if thorough else (('T2', dict(LU=1), 2),)):
        for i in range(n):
            for j in range(n):
                for sign in ((0, 3) if api not in ('T2', 'SO') or thorough else (3,)):
                    # opposite signs are the unusual case: every pair; equal signs: the last pairs only in the quick tier
                    if sign == 0 and not thorough and (i, j) not in ((n - 1, n - 1), (0, n - 1), (n - 1, 0)):
                        continue
                    out.append(J(api, timeout=850, LA=1 if api not in ('T2', 'SO') else 0, LB=0, NPA=n, NPB=n, COEF=0, COEFB=sign, UCOEF=0, ONLYA=i, ONLYB=j, **k))
    # the other nuclear models: the last pairs of a contraction
    if not thorough:
        for model in (1, 3, 4, 5):
            for i, j in ((2, 2), (1, 2), (2, 0)):
                out.append(J('NUC', LA=1, LB=0, NPA=3, NPB=3, COEF=0, COEFB=3, UCOEF=0, ONLYA=i, ONLYB=j, MODEL=model))
    return out


def geometries(thorough):
    """coincident centres: the special branches of each routine"""
    out = []
    pats = [dict(PA=0, PB=1, PC=0), dict(PA=0, PB=1, PC=1), dict(PA=0, PB=0, PC=1), dict(PA=0, PB=0, PC=0)]
    for p in pats:
        c = dict(p, CONC=1)
        for api in ('OVL', 'KIN', 'MOM'):
            if p['PC'] != p['PA']:
                continue
            out.append(J(api, LA=2, LB=2, **c))
        for pw in (0, 1, 2):
            out.append(J('T1', LA=2, LB=1, PW=pw, **c))
        for la, lb, lu in ((1, 1, 0), (1, 1, 1), (2, 0, 0), (1, 2, 1)) + (((2, 2, 1), (2, 2, 2), (3, 1, 1)) if thorough else ((2, 1, 1),)):
            out.append(J('T2', LA=la, LB=lb, LU=lu, **c))
        out.append(J('SO', LA=1, LB=1, LU=1, **c))
        out.append(J('SO', LA=2, LB=2 if thorough else 1, LU=1, **c))
        out.append(J('OC', LA=2, LB=1, LOC=1, NOC=2, **c))
        for m in (0, 1, 3, 4):
            out.append(J('NUC', LA=1, LB=1, MODEL=m, **c))
    for api, k in (('T1', {}), ('T2', dict(LU=1)), ('SO', dict(LU=1)), ('NUC', {}), ('NUC', dict(MODEL=2))):
        out.append(J(api, LA=1, LB=1, CONC=1, SHARED=2, **k))
    return out


def gradients(thorough):
    out = []
    for la, lb in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (3, 2)):
        out.append(J('OVLG', LA=la, LB=lb))
    out.append(J('OVLG', LA=1, LB=2, NPA=2, ORDER=0))
    for la, lb in ((0, 0), (1, 0), (0, 1), (2, 1)):
        for pd in ((0,) if la else (0, 1, 2)):
            out.append(J('T1G', LA=la, LB=lb, PD=pd))
    for la, lb in ((0, 0), (0, 1)):
        out.append(J('T2G', timeout=850, LA=la, LB=lb, LU=0, PD=2))
    out.append(J('OCG', LA=1, LB=1, NOC=2, LOC=1, PD=2))
    out.append(J('SOG', timeout=850, LA=0, LB=0, LU=1, PD=0))
    if thorough:
        out.append(J('T2G', timeout=850, LA=1, LB=0, LU=1, PD=0))
        out.append(J('SOG', timeout=850, LA=1, LB=0, LU=1, PD=1))
        out.append(J('FULLG', timeout=850, LA=0, LB=0, NAR=2, NSO=1, NOC=2, LOC=0, PD=2))
    return out


def full(thorough):
    out = [J('FULL', timeout=850, LA=0, LB=0, NAR=2, NSO=1, NOC=2, LOC=0), J('FULL', timeout=850, LA=1, LB=0, NAR=1, NSO=1, NOC=1, LOC=1)]
    return out


def with_(jobs, **k):
    return [(h, dict(d, **k), f, t) for h, d, f, t in jobs]


def weight(j):
    h, d, f, t = j
    if d['API'] == 'OVLG' and d.get('LA', 0) + d.get('LB', 0) > 15 and 'TRUNC' not in d:
        return 1e9
    w = {'T2': 40, 'SO': 60, 'T2G': 600, 'SOG': 900, 'FULLG': 1500, 'FULL': 200, 'NUC': 3}.get(d['API'], 1)
    return w * (1 + d.get('LA', 0)) ** 2 * (1 + d.get('LB', 0)) ** 2 * (1 + d.get('LU', 0))


def adversarial(thorough):
    """zero/negative/vanishing coefficients, empty potentials, every coincidence pattern with and without shared coordinates,
    maximum angular momenta, empty parts of a full pseudopotential"""
    adv = []
    for api in ('OVL', 'KIN', 'MOM'):
        for c in (1, 2, 4):
            adv.append(J(api, LA=1, LB=1, NPA=2, NPB=2, COEF=c))
        for la, lb in ((10, 10), (10, 0), (0, 10)):
            adv.append(J(api, LA=la, LB=lb))
        adv.append(J(api, LA=2, LB=2, PA=0, PB=0, CONC=1, ORIG=1))
    pats = (dict(PA=0, PB=1, PC=0), dict(PA=0, PB=1, PC=1), dict(PA=0, PB=0, PC=1), dict(PA=0, PB=0, PC=0), dict(PA=0, PB=1, PC=2))
    for api, k in (('T1', {}), ('T2', dict(LU=1)), ('SO', dict(LU=1)), ('OC', dict(LOC=1, NOC=2)), ('NUC', {}), ('NUC', dict(MODEL=3)),
                   ('FULL', dict(NAR=2, NSO=1, NOC=2, LOC=1))):
        lb = 0 if api in ('FULL', 'T2', 'SO') and not thorough else 1
        for c in (1, 2, 4):
            adv.append(J(api, LA=1, LB=lb, NPA=2, NPB=2, NPU=2, COEF=c, **k))
        adv.append(J(api, LA=1, LB=1, NPU=0, **k))
        adv.append(J(api, LA=1, LB=0, UCOEF=2, **k))
        adv.append(J(api, LA=1, LB=lb, UCOEF=4, NPU=2, **k))
        for p in pats:
            for s in (0, 2):
                for o in (0, 1):
                    adv.append(J(api, LA=1, LB=lb, CONC=1, SHARED=s, ORIG=o, **p, **k))
    adv.append(J('FULL', LA=1, LB=1, NAR=0, NSO=0, NOC=0, NPU=0, NULLU=1))
    adv.append(J('FULL', LA=1, LB=1, NAR=0, NSO=0, NOC=0))
    for api in ('OC', 'OCG'):
        adv.append(J(api, LA=1, LB=1, LOC=1, NOC=0, **(dict(PD=1) if api == 'OCG' else {})))
    adv.append(J('FULL', LA=0, LB=1, NAR=1, NSO=0, NOC=0))
    adv.append(J('FULL', LA=1, LB=0, NAR=0, NSO=0, NOC=1, LOC=1))
    adv.append(J('FULLG', timeout=850, LA=0, LB=1, NAR=0, NSO=0, NOC=0, PD=2))
    for api, k in (('OVLG', {}), ('T1G', {}), ('T2G', dict(LU=0)), ('OCG', dict(LOC=1, NOC=2))):
        for p in pats[:3]:
            for pd in (0, 1):
                adv.append(J(api, LA=0, LB=1, CONC=1, PD=pd, **p, **k))
        adv.append(J(api, LA=0, LB=1, CONC=1, PA=0, PB=0, PC=0, PD=0, **k))
        for pd in (0, 1, 2, 3):
            adv.append(J(api, LA=0, LB=1, CONC=1, PA=0, PB=1, PC=2, PD=pd, **k))
    if thorough:
        for p in pats:
            for s in (0, 1, 2):
                adv.append(J('FULLG', timeout=850, LA=0, LB=1, NAR=1, NSO=1, NOC=2, LOC=0, CONC=1, SHARED=s, PD=p['PC'], **p))
                adv.append(J('SOG', timeout=850, LA=1, LB=0, LU=1, CONC=1, SHARED=s, PD=p['PC'], **p))
    return adv


def extreme(thorough):
    """largest documented angular momenta; only a few components of each list"""
    out = [J('T1', LA=10, LB=10, TRUNC=2), J('T1', LA=0, LB=10, TRUNC=2), J('T1', LA=10, LB=0, TRUNC=2, PW=1), J('T1', LA=0, LB=10, TRUNC=1, PW=0),
           J('T2', LA=0, LB=0, LU=0, RSHMAX=22), J('OC', LA=10, LB=10, LOC=0, NOC=1, TRUNC=1), J('OC', LA=1, LB=1, LOC=10, NOC=1, RSHMAX=12),
           J('OVLG', LA=10, LB=10, RSHMAX=4, TRUNC=1, PD=0), J('OVLG', LA=10, LB=0, RSHMAX=4), J('OVLG', LA=0, LB=10, RSHMAX=4),
           J('T1G', LA=10, LB=0, TRUNC=1, RSHMAX=4), J('NUC', LA=10, LB=10, TRUNC=1, RSHMAX=4)]
    out += [J('OCG', LA=0, LB=10, LOC=0, NOC=1, RSHMAX=4, PD=1), J('OCG', LA=10, LB=0, LOC=0, NOC=1, RSHMAX=4, PD=0), J('OCG', LA=10, LB=10, LOC=0, NOC=1, RSHMAX=4, PD=1, TRUNC=1),
            J('T1G', LA=0, LB=10, RSHMAX=4, PD=1, TRUNC=1), J('T1G', LA=10, LB=10, RSHMAX=4, PD=0, TRUNC=1)]
    if thorough:
        out += [J('T2', LA=10, LB=0, LU=0, TRUNC=1, RSHMAX=12), J('T2', LA=0, LB=0, LU=10, TRUNC=1, RSHMAX=12)]
        out += [J('OVLG', timeout=850, LA=10, LB=10, RSHMAX=4), J('OVLG', LA=9, LB=10, RSHMAX=4), J('T2', timeout=850, LA=0, LB=10, LU=0, TRUNC=1, RSHMAX=12), J('SO', timeout=850, LA=0, LB=0, LU=10, TRUNC=1, RSHMAX=12),
                J('T2', timeout=850, LA=2, LB=2, LU=10, TRUNC=1, RSHMAX=14), J('T1G', timeout=850, LA=10, LB=1, RSHMAX=4), J('T1G', timeout=850, LA=0, LB=10, RSHMAX=4)]
    return out
