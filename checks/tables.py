"""C16: every entry of the tabulated constants in the program text against the formula that defines it."""
import concurrent.futures, json, os
from vlib import *

WORKER = os.path.join(VERIF, 'checks', 'tables_worker.py')


def run(prop):
    res = Result(prop)
    with Work() as w:
        bc = w.bitcode()
        exe = ensure_engine('tables')
        out = os.path.join(w.dir, 'tables.jsonl')
        r = sh([exe, bc])
        if r.returncode != 0:
            raise Broken('table dump failed: ' + r.stderr[-500:])
        open(out, 'w').write(r.stdout)

        def one(k):
            r = sh(['python3-vt', WORKER, out, k])
            if r.returncode != 0:
                raise Broken('comparison of %s failed: %s' % (k, r.stderr[-800:]))
            return json.loads(r.stdout)
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(one, ['small', 'boys', 'bessel', 'fermi']))
    tables, missing, n = {}, [], 0
    for r in rs:
        tables.update(r['tables'])
        missing += r['missing']
        for b in r['bad']:
            res.violation('%s:%s' % (b['table'], b['entry']), '%s: entry %s of table %s is %s, its defining formula gives %s' % (b['file'], b['entry'], b['table'], b['value'], b['expected']))
    n = sum(t['entries'] for t in tables.values())
    if not tables:
        raise Broken('no table recognised')
    for m in missing:
        print('note: table not compared: ' + m)
    res.cov.update(explanation='the constant initialisers are read from the compiled program (not executed) and every entry is compared with its defining formula evaluated with 36 to 45 digits',
                   tables=tables, entries_compared=n, tables_not_found=missing, obligations=n)
    res.assume += ['the allowed deviation per table is listed; it is a small multiple of the deviation of the tables as distributed', 'mpmath elementary functions']
    return res
