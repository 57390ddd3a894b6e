"""run by tables.py under python3-vt: compares dumped tables with their defining formulas; prints one JSON object"""
import json, sys, time
import mpmath as mp
mp.mp.dps = 45
T = {}
for l in open(sys.argv[1]):
    d = json.loads(l)
    T[d['name']] = d


def vals(d):
    return [mp.mpf(float.fromhex(v)) if 'x' in v else mp.mpf(v) for v in d['values']]


def boys(x, nmax):
    top = nmax
    if x == 0:
        return [mp.mpf(1) / (2 * n + 1) for n in range(nmax + 1)]
    F = [mp.mpf(0)] * (top + 1)
    # series for the highest order, then downward recursion
    s = t = mp.mpf(1) / (2 * top + 1)
    k = 1
    while abs(t) > mp.mpf(10) ** (-44) * abs(s):
        t *= 2 * x / (2 * top + 2 * k + 1)
        s += t
        k += 1
    F[top] = s * mp.exp(-x)
    e = mp.exp(-x)
    for n in range(top - 1, -1, -1):
        F[n] = (2 * x * F[n + 1] + e) / (2 * n + 1)
    return F


def scaled_bessel(x, lmax):
    """exp(-x) i_l(x), l = 0..lmax"""
    if x == 0:
        return [mp.mpf(1)] + [mp.mpf(0)] * lmax
    def top(l):  # exp(-x) x^l/(2l+1)!! * sum
        s = t = mp.mpf(1)
        k = 1
        y = x * x / 2
        while abs(t) > mp.mpf(10) ** (-44) * abs(s):
            t *= y / (k * (2 * l + 2 * k + 1))
            s += t
            k += 1
        return s * x ** l / mp.fac2(2 * l + 1) * mp.exp(-x)
    B = [mp.mpf(0)] * (lmax + 1)
    B[lmax] = top(lmax)
    if lmax:
        B[lmax - 1] = top(lmax - 1)
    for l in range(lmax - 1, 0, -1):
        B[l - 1] = B[l + 1] + (2 * l + 1) / x * B[l]
    return B


def fermi_s(k, x):
    """S_k(x) = sum_{i>=1} (-1)^i exp(i x)/i^k = Li_k(-exp(x))"""
    z = -mp.exp(x)
    if k == 1:
        return -mp.log1p(-z)
    if k == 0:
        return z / (1 - z)
    if k == -1:
        return z / (1 - z) ** 2
    if k == -2:
        return z * (1 + z) / (1 - z) ** 3
    raise ValueError


class Sk:
    """S_k on the grid by integration-free Taylor stepping: S_k' = S_{k-1}; derivatives of S_0.. are elementary"""

    @staticmethod
    def row(x):
        out = {k: fermi_s(k, x) for k in (-2, -1, 0, 1)}
        for k in range(2, 8):
            out[k] = mp.polylog(k, -mp.exp(x)) if x < -1 else None
        return out


def eta_series(k, x, etas):
    """Li_k(-e^x) = -sum_m eta(k-m) x^m/m!  for |x| < pi"""
    s = mp.mpf(0)
    p = mp.mpf(1)
    for m in range(len(etas[k])):
        s += etas[k][m] * p
        p *= x / (m + 1)
        if m > 20 and abs(p) < mp.mpf(10) ** -30:
            break
    return -s


def direct(k, x):
    s = mp.mpf(0)
    i = 1
    ex = mp.exp(x)
    p = ex
    while True:
        t = p / mp.mpf(i) ** k
        s += -t if i % 2 else t
        if p < mp.mpf(10) ** -30:
            return s
        p *= ex
        i += 1


def cheb(f, a, b, n, N=64):
    """Chebyshev coefficients of f on [a,b]"""
    ys = []
    for j in range(N):
        t = mp.cos(mp.pi * (j + mp.mpf(1) / 2) / N)
        ys.append(f((a + b) / 2 + (b - a) / 2 * t))
    out = []
    for k in range(n):
        c = 2 * sum(ys[j] * mp.cos(mp.pi * k * (j + mp.mpf(1) / 2) / N) for j in range(N)) / N
        out.append(c / 2 if k == 0 else c)
    return out


def dawson(x):
    return mp.sqrt(mp.pi) / 2 * mp.exp(-x * x) * mp.erfi(x)


res = {'tables': {}, 'bad': [], 'missing': [], 'other': []}


def report(name, n, worst, where, tol, rule):
    res['tables'][name] = dict(entries=n, worst_deviation=float(worst), worst_entry=where, allowed=float(tol), rule=rule)


def compare(name, size, expect, tol, rule, absolute=0):
    """expect: iterator of (index, label, value); deviation |v-e|/|e| (or absolute where |e| < absolute)"""
    d = T.get(name)
    if d is None or d['zero'] or len(d['values']) != size or '?' in d['values']:
        res['missing'].append('%s (%s)' % (name, 'not found' if d is None else '%d entries' % len(d['values'])))
        return
    v = vals(d)
    worst, where, n = mp.mpf(0), '', 0
    for i, label, e in expect:
        n += 1
        dev = abs(v[i] - e) / max(abs(e), absolute) if e != 0 or absolute else (mp.mpf(0) if v[i] == 0 else mp.mpf(1))
        if dev > worst:
            worst, where = dev, label
        if dev > tol:
            res['bad'].append(dict(table=name, file=d['file'], entry=label, value=mp.nstr(v[i], 18), expected=mp.nstr(e, 18)))
    report(name, n, worst, where, tol, rule)


t0 = time.time()
which = sys.argv[2].split(',')
known = set()
if 'small' in which:
    compare('pretabulated_factorials', 21, ((n, '%d!' % n, mp.factorial(n)) for n in range(21)), 0, 'n!')
    compare('pretabulated_double_factorials', 31, ((n, '%d!!' % n, mp.fac2(n)) for n in range(31)), 0, 'n!!')
    compare('radial_gto_norm_factor.factors', 20, ((L, 'L=%d' % L, mp.sqrt(mp.mpf(2) ** (2 * L + mp.mpf('3.5')) / (mp.fac2(2 * L + 1) * mp.sqrt(mp.pi)))) for L in range(20)), mp.mpf('1e-14'), 'sqrt(2^(2L+7/2)/((2L+1)!! sqrt(pi)))')
    compare('rfun_coeffs', 2500, ((50 * n + k, 'n=%d k=%d' % (n, k), mp.factorial(n + k) / (mp.factorial(k) * mp.factorial(n - k) * mp.mpf(2) ** k) if k <= n else mp.mpf(0)) for n in range(50) for k in range(50)), mp.mpf('1e-13'), '(n+k)!/(k!(n-k)! 2^k), zero for k > n')
    for nm, a, b, n in (('1_175', '1', '1.75', 21), ('175_250', '1.75', '2.5', 21), ('250_325', '2.5', '3.25', 21), ('325_425', '3.25', '4.25', 21), ('425_550', '4.25', '5.5', 21), ('550_725', '5.5', '7.25', 20)):
        c = cheb(dawson, mp.mpf(a), mp.mpf(b), n)
        compare('Dawson_Chebyshev_Expansion_%s.c' % nm, n, ((k, 'c[%d]' % k, c[k]) for k in range(n)), mp.mpf('1e-16'), 'Chebyshev coefficients of the Dawson integral on [%s,%s]' % (a, b), absolute=mp.mpf(1))
if 'boys' in which:
    def it():
        for i in range(301):
            F = boys(mp.mpf(i) / 10, 39)
            for n in range(40):
                yield 40 * i + n, 'x=%.1f n=%d' % (i / 10, n), F[n]
    compare('boys_table', 301 * 40, it(), mp.mpf('1e-13'), 'Boys function F_n(x), x = 0, 0.1, ..., 30')
if 'bessel' in which:
    def it():
        for i in range(1601):
            B = scaled_bessel(mp.mpf(i) / 100, 59)
            for l in range(60):
                yield 60 * i + l, 'x=%.2f l=%d' % (i / 100, l), B[l]
    compare('bessel_table_0', 1601 * 60, it(), mp.mpf('5e-12'), 'exp(-x) i_l(x), x = 0, 0.01, ..., 16', absolute=mp.mpf('1e-6'))
if 'fermi' in which:
    M = 90
    etas = {k: [mp.altzeta(k - m) for m in range(M)] for k in range(2, 8)}
    def it():
        for i in range(2001):
            x = mp.mpf(-10) + mp.mpf(i) / 200
            for k in range(-1 if i < 2000 else 2, 8):  # the entries the evaluation reads
                e = fermi_s(k, x) if k < 2 else (eta_series(k, x, etas) if x > -1.6 else direct(k, x))
                yield 10 * i + k + 2, 'x=%.3f k=%d' % (float(x), k), e
    mp.mp.dps = 36
    compare('specfunc_fermi_sk_table', 20010, it(), mp.mpf('2e-12'), 'S_k(x) = sum_i (-1)^i exp(ix)/i^k, k = -1..7, x = -10, -9.995, ..., 0', absolute=mp.mpf(1))
res['seconds'] = time.time() - t0
json.dump(res, sys.stdout)
