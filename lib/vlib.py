"""Shared infrastructure of the static checks: builds LLVM bitcode of /repo's current working tree, compiles and
links analysis harnesses, runs the engines, applies the known-findings file and writes evidence."""
import concurrent.futures, threading, glob, itertools, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LIB = os.path.join(REPO, 'libgrpp')
LLVM = '/usr/lib/llvm-18/bin/'
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))


class Broken(Exception):
    """the analysis itself could not be carried out (exit 2: no answer)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)


def ensure_engine(name):
    exe = os.path.join(VERIF, 'build', name)
    src = os.path.join(VERIF, 'engine', name + '.cpp')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        r = sh(['bash', os.path.join(VERIF, 'engine', 'build.sh'), name])
        if r.returncode != 0 or not os.path.exists(exe):
            raise Broken('cannot build engine %s: %s' % (name, r.stderr[-2000:]))
    return exe


class Work:
    """scratch directory holding the bitcode of the library as it is in the working tree now"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vgrpp.')
        self.sources = sorted(glob.glob(os.path.join(LIB, '*.c')))
        self.lib = self.prom = None
        self.lock = threading.Lock()
        self.seq = itertools.count()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    CFLAGS = ['-std=gnu11', '-O0', '-g', '-fopenmp', '-ffp-contract=off', '-Xclang', '-disable-O0-optnone', '-w', '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion',
              '-Wno-error=incompatible-function-pointer-types', '-Wno-error=implicit-int',
              '-I', LIB]

    def listed_sources(self):
        """the library's translation units as the build lists them (CMakeLists), all *.c of the directory if none"""
        try:
            txt = open(os.path.join(LIB, 'CMakeLists.txt')).read()
        except OSError:
            return self.sources
        names = [n for n in re.findall(r'[\w./-]+\.c\b', txt)]
        out = [os.path.join(LIB, n) for n in names if os.path.exists(os.path.join(LIB, n))]
        return sorted(set(out)) if len(out) >= 10 else self.sources

    def bitcode(self):
        if self.lib:
            return self.lib
        srcs = self.listed_sources()
        if len(srcs) < 10:
            raise Broken('only %d library sources found in %s' % (len(srcs), LIB))

        def cc(s):
            o = os.path.join(self.dir, os.path.basename(s)[:-2] + '.bc')
            r = sh(['clang-18'] + self.CFLAGS + ['-emit-llvm', '-c', s, '-o', o])
            if r.returncode != 0:
                raise Broken('cannot compile %s: %s' % (s, r.stderr[-1500:]))
            return o
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            bcs = list(ex.map(cc, srcs))
        self.lib = os.path.join(self.dir, '_lib.bc')
        r = sh([LLVM + 'llvm-link'] + bcs + ['-o', self.lib])
        if r.returncode != 0:
            raise Broken('llvm-link: ' + r.stderr[-1500:])
        self.srcs = srcs
        return self.lib

    def promoted(self):
        """the library with stack slots promoted to SSA registers"""
        with self.lock:
            if not self.prom:
                o = os.path.join(self.dir, '_prom.bc')
                r = sh([LLVM + 'opt', '-passes=mem2reg', self.bitcode(), '-o', o])
                if r.returncode != 0:
                    raise Broken('opt: ' + r.stderr[-1500:])
                self.prom = o
        return self.prom

    def link(self, harness, defs):
        b = os.path.join(self.dir, 'h_%d' % next(self.seq))
        src = os.path.join(VERIF, 'harness', harness)
        r = sh(['clang-18'] + self.CFLAGS + ['-I', os.path.join(VERIF, 'harness')] +
               ['-D%s=%s' % kv for kv in defs.items()] + ['-emit-llvm', '-c', src, '-o', b + '.h.bc'])
        if r.returncode != 0:
            raise Broken('harness %s does not compile against the headers: %s' % (harness, r.stderr[-1500:]))
        r = sh([LLVM + 'opt', '-passes=mem2reg', b + '.h.bc', '-o', b + '.m.bc'])
        if r.returncode != 0:
            raise Broken('opt: ' + r.stderr[-1500:])
        r = sh([LLVM + 'llvm-link', self.promoted(), b + '.m.bc', '-o', b + '.bc'])
        if r.returncode != 0:
            raise Broken('link: ' + r.stderr[-1500:])
        os.unlink(b + '.h.bc')
        os.unlink(b + '.m.bc')
        return b

    def effects(self, roots, timeout=600):
        """points-to/effect analysis of the given roots, in parallel; list of result records"""
        exe = ensure_engine('effects')
        bc = os.path.join(self.dir, '_eff.bc')
        if not os.path.exists(bc):
            r = sh([LLVM + 'opt', '-passes=inferattrs,function(mem2reg)', self.bitcode(), '-o', bc])
            if r.returncode != 0:
                raise Broken('opt: ' + r.stderr[-1500:])

        def one(chunk):
            f = os.path.join(self.dir, 'roots.%s.%d' % (chunk[0], len(chunk)))
            with open(f, 'w') as h:
                h.write('\n'.join(chunk) + '\n')
            r = sh(['bash', '-c', 'ulimit -v 12000000; exec timeout %d %s %s %s %s.json' % (timeout, exe, bc, f, f)])
            if r.returncode != 0:
                raise Broken('effects analysis of %s: rc=%d %s' % (chunk, r.returncode, r.stderr[-500:]))
            return json.load(open(f + '.json'))['roots']
        chunks = [roots[i::JOBS] for i in range(JOBS) if roots[i::JOBS]]
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            return [x for l in ex.map(one, chunks) for x in l]

    def absint(self, harness, defs, flags=(), timeout=300, entry='harness'):
        """one abstract-interpretation run; returns dict(status='ok'|'undecided', ...)"""
        t0 = time.time()
        exe = ensure_engine('absint')
        b = self.link(harness, defs)
        cmd = ['bash', '-c', 'ulimit -v 12000000; exec timeout %d %s %s.bc --entry=%s --out=%s.json %s' %
               (timeout, exe, b, entry, b, ' '.join(flags))]
        r = sh(cmd)
        res = dict(harness=harness, defs=defs, rc=r.returncode, wall=time.time() - t0, err=r.stderr[-800:], stderr=r.stderr)
        os.unlink(b + '.bc')
        if r.returncode != 0 or not os.path.exists(b + '.json'):
            res['status'] = 'undecided'
            return res
        res['status'] = 'ok'
        with open(b + '.json') as f:
            res.update(json.load(f))
        os.unlink(b + '.json')
        return res

    def absint_many(self, jobs):
        """jobs: list of (harness, defs, flags, timeout); heavy ones first for balance"""
        self.bitcode()
        ensure_engine('absint')
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(self.absint, *j) for j in jobs]
            return [f.result() for f in futs]


def load_known(prop):
    """entries 'known: property=C07 key=<k> text' of known_findings.txt"""
    out = {}
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'known:\s+property=(\S+)\s+key=(\S+)\s+(.*)', l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return out


class Result:
    def __init__(self, prop, level='other'):
        self.prop, self.level = prop, level
        self.viol = []          # (key, text)
        self.cov = {}
        self.assume = []
        self.t0 = time.time()
        self.notes = []

    def violation(self, key, text):
        key = re.sub(r'\s+', '_', key)
        if not any(k == key for k, _ in self.viol):
            self.viol.append((key, text))

    def finish(self):
        known = load_known(self.prop)
        fresh = [(k, t) for k, t in self.viol if k not in known]
        for k, t in self.viol:
            if k in known:
                print('KNOWN-FINDING: property=%s %s (%s)' % (self.prop, known[k], k))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for n in self.notes:
            print(n)
        if fresh:
            rep = os.path.join(VERIF, 'build', 'replay', self.prop + '.txt')
            os.makedirs(os.path.dirname(rep), exist_ok=True)
            with open(rep, 'w') as f:
                for k, t in fresh:
                    f.write('%s\n    %s\n' % (k, t))
            for k, t in fresh[:20]:
                print('  %s' % t[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, rep))
            return 1
        print('%s: held (%.1f s)' % (self.prop, time.time() - self.t0))
        return 0
