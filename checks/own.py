"""C04, value half: abstract interpretation of harness/own.c with symbolic source data."""
import os
from vlib import *

CATS = {'SAME', 'CHECK', 'OOB', 'UNINIT', 'NULLDEREF', 'UAF', 'DOUBLEFREE', 'BADFREE', 'UNKNOWNPTR', 'ASSERT', 'EXIT', 'ROWRITE'}
NOWIDEN = ['--delay=100000', '--counted-delay=100000', '--max-steps=600000000']


def add(res, w):
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    jobs = []
    for np, z in ((1, 0), (4, 0), (4, 5), (5, 26), (3, 7), (40, 262144 + 9)) + (((200, 0), (8, 0), (8, 170), (8, 85), (2, 1), (2, 2), (6, 56)) if thorough else ()):
        for part in (0, 1):
            jobs.append(('own.c', dict(PART=part, NP=np, ZMASK=z), NOWIDEN, 400))
    for nc in (1, 7, 100):
        jobs.append(('own.c', dict(PART=2, NP=2, NC=nc), NOWIDEN, 400))
    rs = w.absint_many(jobs)
    obl, done = 0, 0
    for r in sorted(rs, key=lambda r: r['status'] == 'ok', reverse=True):
        if r['status'] != 'ok':
            if res.viol:
                continue
            raise Broken('constructors could not be analysed: %s %s' % (r['defs'], r['err'][-300:]))
        obl += r['stats']['checks']
        bad = [x for x in r['reports'] if x['cat'] in CATS]
        for x in bad:
            res.violation('%s:%s:%s' % (x['cat'], x['where'].split('(')[-1].rstrip(')'), x['msg'][:80]), 'object data: %s at %s: %s; call path %s; %s' % (x['cat'], x['where'], x['msg'], x['path'], r['defs']))
        if r['reached'].get('end'):
            done += 1
        elif not res.viol:
            raise Broken('constructors do not return in the analysis: %s' % r['defs'])
    res.cov.update(value_runs=len(rs), value_runs_completed=done, value_obligations=obl)
