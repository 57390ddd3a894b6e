"""C08 (Fortran interface module against C entry points) and C19 (declarations against definitions): queries over the
declarations of every translation unit (engine/decls, libclang) and over the parsed Fortran module."""
import concurrent.futures, glob, json, os, re
from vlib import *

FLAGS = ['-std=gnu11', '-fopenmp', '-I', LIB, '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-Wreturn-type', '-Wno-error=implicit-function-declaration',
         '-Wincompatible-library-redeclaration', '-Wno-error=int-conversion', '-Wno-error=incompatible-function-pointer-types']
LAYOUT_DIAGS = {'-Wreturn-type', '-Wimplicit-function-declaration', '-Wincompatible-library-redeclaration', '-Wimplicit-int'}


def decls_of(path):
    r = sh([ensure_engine('decls'), path] + FLAGS)
    if r.returncode != 0:
        raise Broken('cannot list the declarations of %s: %s' % (path, r.stderr[-300:]))
    out = []
    for l in r.stdout.splitlines():
        d = json.loads(l)
        d['tu'] = os.path.basename(path)
        out.append(d)
    return out


def all_decls(w):
    srcs = w.listed_sources()
    hdrs = sorted(glob.glob(os.path.join(LIB, '*.h')))
    if len(srcs) < 10:
        raise Broken('only %d library sources found' % len(srcs))
    wrappers = []
    for h in hdrs:      # headers no source includes are looked at as well
        f = os.path.join(w.dir, 'hdr_' + os.path.basename(h) + '.c')
        with open(f, 'w') as o:
            o.write('#include "%s"\n' % h)
        wrappers.append(f)
    ensure_engine('decls')
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        per = list(ex.map(decls_of, srcs + wrappers))
    seen, out = set(), []
    for l in per:
        for d in l:
            k = json.dumps({x: v for x, v in d.items() if x != 'tu'}, sort_keys=True)
            if k not in seen:
                seen.add(k)
                out.append(d)
    return out, srcs, hdrs


def norm(t):
    """top-level qualifiers of a parameter do not belong to the function type"""
    return re.sub(r'\s*\b(const|volatile|restrict)$', '', re.sub(r'^(const|volatile) (?!.*\*)', '', t.replace('restrict', '').strip())).strip()


def compatible_var(a, b):
    return re.sub(r'\[\d*\]', '[]', a, count=1) == re.sub(r'\[\d*\]', '[]', b, count=1) and (a == b or '[]' in a or '[]' in b)


def sig(d):
    return '%s %s(%s)' % (d['result'], d['name'], '' if d['noproto'] else ', '.join(p[0] for p in d['params']) or 'void')


def run_c19(res):
    with Work() as w:
        ds, srcs, hdrs = all_decls(w)
    fdefs, vdefs = {}, {}
    for d in ds:
        if d['kind'] == 'function' and d['definition'] and not d['static']:
            fdefs.setdefault(d['name'], []).append(d)
        if d['kind'] == 'variable' and d['definition']:
            vdefs.setdefault(d['name'], []).append(d)
    hn = {os.path.basename(h) for h in hdrs}
    n = dict(header_functions=0, declarations=0, variables=0, structs=0)
    for name, l in fdefs.items():
        for d in l[1:]:
            res.violation('MULTIPLE:' + name, '%s is defined twice: %s and %s' % (name, l[0]['where'], d['where']))
    for d in ds:
        if d['kind'] == 'function' and not d['definition'] and not d['static']:
            hdr = d['where'].split(':')[0] in hn
            if hdr:
                n['header_functions'] += 1
            if d['name'] not in fdefs:
                if hdr:
                    res.violation('UNDEFINED:' + d['name'], 'declared in %s but defined nowhere in the library: %s' % (d['where'], sig(d)))
                continue
            f = fdefs[d['name']][0]
            n['declarations'] += 1
            bad = norm(d['result']) != norm(f['result'])
            if d['noproto'] or f['noproto']:
                bad = bad or (len(f['params']) > 0) or (len(d['params']) > 0)
            else:
                bad = bad or [norm(p[0]) for p in d['params']] != [norm(p[0]) for p in f['params']]
            if bad:
                res.violation('MISMATCH:%s:%s' % (d['name'], d['where'].split(':')[0]), 'declaration at %s%s disagrees with the definition at %s: %s / %s' %
                              (d['where'], ' (inside %s)' % d['in'] if d['in'] else '', f['where'], sig(d), sig(f)))
        if d['kind'] == 'variable' and not d['definition'] and d['name'] in vdefs:
            n['variables'] += 1
            f = vdefs[d['name']][0]
            if d['type'] != f['type'] and not compatible_var(d['type'], f['type']):
                res.violation('MISMATCH:%s:%s' % (d['name'], d['where'].split(':')[0]), 'variable declared at %s as %s but defined at %s as %s' % (d['where'], d['type'], f['where'], f['type']))
        if d['kind'] == 'diag' and d['option'] in LAYOUT_DIAGS:
            res.violation('DIAG:%s:%s' % (d['option'], d['where'].split(':')[0]), '%s: %s' % (d['where'], d['text']))
    structs = {}
    for d in ds:
        if d['kind'] == 'struct' and '(unnamed' not in d['name'] and '(anonymous' not in d['name']:
            n['structs'] += 1
            if structs.setdefault(d['name'], d)['fields'] != d['fields']:
                res.violation('STRUCT:' + d['name'], 'type %s is defined differently at %s and %s' % (d['name'], structs[d['name']]['where'], d['where']))
    if n['header_functions'] < 20 or n['declarations'] < 50:
        raise Broken('too few declarations found: %s' % n)
    res.cov.update(explanation='every function declaration in every header and source (file scope and inside functions) is compared, canonical types, with the external definition; every header function must be defined; every extern variable and struct must agree; non-void functions must return a value and no function may be called undeclared',
                   translation_units=len(srcs), headers=len(hdrs), obligations=sum(n.values()), **n)


# ---------------------------------------------------------------------------------------------------- Fortran
def logical_lines(path):
    """joined continuation lines without comments, lower case, with their first line number"""
    out, cur, start = [], '', 0
    for i, l in enumerate(open(path, errors='replace'), 1):
        s = re.sub(r"'[^']*'|\"[^\"]*\"", "''", l)
        s = s.split('!')[0].strip()
        if not s:
            continue
        if cur:
            s = s.lstrip('&')
        else:
            start = i
        if s.endswith('&'):
            cur += s[:-1] + ' '
            continue
        for part in (cur + s).split(';'):
            if part.strip():
                out.append((start, re.sub(r'\s+', ' ', part.strip().lower())))
        cur = ''
    return out


def split_args(s):
    out, d, c = [], 0, ''
    for ch in s:
        if ch == '(':
            d += 1
        if ch == ')':
            d -= 1
        if ch == ',' and d == 0:
            out.append(c.strip())
            c = ''
        else:
            c += ch
    if c.strip():
        out.append(c.strip())
    return out


TYPE = re.compile(r'^(integer|real|double precision|logical|complex|character|type)\s*(\*\s*\d+|\([^()]*\))?\s*(.*)$')


def ftype(base, kind):
    k = (kind or '').strip('()* ').replace('kind', '').replace('=', '').strip()
    if base == 'double precision':
        return 'real8'
    if base == 'integer':
        return {'': 'int4', '4': 'int4', 'c_int': 'int4', 'c_int32_t': 'int4', 'int32': 'int4', '8': 'int8', 'c_int64_t': 'int8', 'int64': 'int8', 'c_long': 'int8', '2': 'int2', '1': 'int1'}.get(k, 'integer(%s)' % k)
    if base == 'real':
        return {'8': 'real8', 'c_double': 'real8', 'real64': 'real8', '': 'real4', '4': 'real4', 'c_float': 'real4'}.get(k, 'real(%s)' % k)
    return base


class Proc:
    def __init__(self, kind, name, args, line, iface):
        self.kind, self.name, self.args, self.line, self.iface = kind, name, args, line, iface
        self.types, self.value, self.calls, self.bind = {}, set(), [], None
        self.consts = {}


def parse_fortran(path):
    procs, consts, stack, iface, loops = [], {}, [], 0, []
    for ln, s in logical_lines(path):
        if re.match(r'^(abstract )?interface\b', s):
            iface += 1
            continue
        if re.match(r'^end ?interface\b', s):
            iface -= 1
            continue
        m = re.match(r'^(?:(?:pure|elemental|recursive) )*(subroutine|function|(?:(?:integer|real|double precision|logical)\s*(?:\([^)]*\))?\s+)function) (\w+) ?(?:\((.*?)\))?(.*)$', s)
        if m and not s.startswith('end'):
            kind = 'function' if 'function' in m.group(1) else 'subroutine'
            p = Proc(kind, m.group(2), [a.strip() for a in (m.group(3) or '').split(',') if a.strip()], ln, iface > 0)
            tm = re.match(r'^(integer|real|double precision)\s*(\([^)]*\))?', m.group(1))
            if tm:
                p.types[p.name] = (ftype(tm.group(1), tm.group(2)), False)
            b = re.search(r'bind\s*\(\s*c\s*(?:,\s*name\s*=\s*\S+)?\s*\)', m.group(4) or '')
            p.bind = b.group(0) if b else None
            stack.append(p)
            procs.append(p)
            loops = []
            continue
        if re.match(r'^end ?(subroutine|function)\b', s) and stack:
            stack.pop()
            continue
        cur = stack[-1] if stack else None
        m = TYPE.match(s)
        if m and ('::' in s or cur) and not s.startswith('type '):
            rest = m.group(3)
            attrs, names = (rest.split('::', 1) if '::' in rest else ('', rest))
            t = ftype(m.group(1), m.group(2))
            for n in split_args(names):
                mm = re.match(r'^(\w+)\s*(\(.*?\))?\s*(?:=\s*(.*))?$', n)
                if not mm:
                    continue
                arr = bool(mm.group(2)) or 'dimension' in attrs
                if 'parameter' in attrs and mm.group(3) is not None:
                    (cur.consts if cur else consts)[mm.group(1)] = (mm.group(3).strip(), ln, t)
                elif cur:
                    cur.types[mm.group(1)] = (t, arr)
                    if re.search(r'\bvalue\b', attrs):
                        cur.value.add(mm.group(1))
            continue
        if cur:
            m = re.match(r'^(?:\w+ ?: ?)?do (\w+) ?= ?(.*)$', s)
            if m:
                loops.append((m.group(1), [x.strip() for x in split_args(m.group(2))]))
                continue
            if re.match(r'^end ?do\b', s) and loops:
                loops.pop()
                continue
            m = re.match(r'^(?:if ?\(.*\) ?)?call (\w+) ?(?:\((.*)\))?$', s)
            if m:
                cur.calls.append((m.group(1), split_args(m.group(2) or ''), ln, list(loops)))
    return procs, consts


CMAP = {'int4': 'int', 'real8': 'double', 'int8': 'long', 'real4': 'float', 'int2': 'short', 'int1': 'signed char'}


def run_c08(res):
    files = [f for f in glob.glob(os.path.join(REPO, '**', '*.f90'), recursive=True) + glob.glob(os.path.join(REPO, '**', '*.F90'), recursive=True)
             if not any(x.startswith('_build') or x.startswith('.') for x in os.path.relpath(f, REPO).split('/'))]
    mods = [f for f in files if re.search(r'^\s*module\s+libgrpp\s*$', open(f, errors='replace').read(), re.M | re.I)]
    if not mods:
        raise Broken('no Fortran module libgrpp found in ' + REPO)
    mod = mods[0]
    procs, consts = parse_fortran(mod)
    ext = [p for p in procs if p.iface]
    if len(ext) < 5:
        raise Broken('only %d interface bodies recognised in %s' % (len(ext), mod))
    n = dict(interface_bodies=len(ext), arguments=0, constants=0, implicit_calls=0)
    rel = os.path.relpath(mod, REPO)
    with Work() as w:
        ds, srcs, hdrs = all_decls(w)
        fdefs = {d['name']: d for d in ds if d['kind'] == 'function' and d['definition'] and not d['static']}
        probe = os.path.join(w.dir, 'consts.c')
        with open(probe, 'w') as f:
            f.write('#include "libgrpp.h"\n' + ''.join('#ifdef %s\nenum { V_%s = (%s) };\n#endif\n' % (k.upper(), k.upper(), k.upper()) for k in consts))
        cvals = {}
        for d in decls_of(probe):
            if d['kind'] == 'enum':
                cvals[d['name'][2:].lower() if d['name'].startswith('V_') else d['name'].lower()] = d['value']

    def cname(p):
        if p.bind:
            m = re.search(r"name\s*=\s*\S+", p.bind)
            return p.name
        return p.name + '_'

    def check(what, line, name, actual):
        """actual: list of (text, type, byvalue, dummy/base name)"""
        if name not in fdefs:
            res.violation('NOENTRY:' + name, '%s:%d: %s has no exported C entry point %s' % (rel, line, what, name))
            return
        f = fdefs[name]
        if len(f['params']) != len(actual):
            res.violation('COUNT:' + name, '%s:%d: %s has %d arguments, the C entry point at %s has %d' % (rel, line, what, len(actual), f['where'], len(f['params'])))
            return
        cn = [p[1].lower() for p in f['params']]
        for i, ((txt, t, byval, base), (ct, cpn)) in enumerate(zip(actual, f['params'])):
            n['arguments'] += 1
            want = CMAP.get(t, t)
            got = norm(re.sub(r'\bconst\b', '', ct).replace('*', ' ').strip())
            ptr = ct.count('*')
            if got != want or ptr != (0 if byval else 1):
                res.violation('KIND:%s:%d' % (name, i + 1), '%s:%d: %s, argument %d (%s): %s %s in Fortran, %s %s in C (%s)' %
                              (rel, line, what, i + 1, txt, t, 'by value' if byval else 'by reference', ct, cpn, f['where']))
        return f

    for p in ext:
        for a in p.args:
            if a not in p.types:
                raise Broken('%s:%d: type of %s in %s not recognised' % (rel, p.line, a, p.name))
        f = check('interface of %s' % p.name, p.line, cname(p), [(a, p.types[a][0], a in p.value, a) for a in p.args])
        if f:
            cn = [x[1].lower() for x in f['params']]
            for i, a in enumerate(p.args):
                if a in cn and cn.count(a) == 1 and cn.index(a) != i and (i >= len(cn) or cn[i] in p.args):
                    res.violation('ORDER:%s:%s' % (p.name, a), '%s:%d: argument %s of %s is number %d in Fortran but number %d in C (%s)' % (rel, p.line, a, p.name, i + 1, cn.index(a) + 1, f['where']))
            rt = p.types.get(p.name, (None,))[0] if p.kind == 'function' else None
            want = CMAP.get(rt, rt) if rt else 'void'
            if f['result'] != want:
                res.violation('RESULT:' + p.name, '%s:%d: result of %s is %s in Fortran, %s in C (%s)' % (rel, p.line, p.name, want, f['result'], f['where']))
    mnames = {p.name for p in procs}
    for p in procs:
        if p.iface:
            continue
        for name, args, ln, loops in p.calls:
            if name in mnames:
                continue
            act = []
            for a in args:
                b = re.match(r'^(\w+)', a)
                if not b or b.group(1) not in p.types:
                    raise Broken('%s:%d: argument %s of the call of %s not understood' % (rel, ln, a, name))
                act.append((a, p.types[b.group(1)][0], False, b.group(1)))
            n['implicit_calls'] += 1
            f = check('call of %s' % name, ln, name + '_', act)
            if f:
                check_indices(res, rel, ln, name, act, f, loops, p)
    for k, (v, ln, t) in consts.items():
        m = re.match(r'^[+-]?\d+', v)
        if k in cvals and m:
            n['constants'] += 1
            if int(m.group(0)) != cvals[k]:
                res.violation('CONST:' + k, '%s:%d: %s is %s in Fortran, %d in C' % (rel, ln, k.upper(), v, cvals[k]))
    if n['constants'] < 3 and not res.viol:
        raise Broken('only %d constants are shared between Fortran and C' % n['constants'])
    res.cov.update(explanation='argument count, order, kind and passing convention of each interface body and of each implicit-interface call, and the value of each shared constant, compared with the definitions of the C entry points',
                   fortran_module=rel, procedures=[p.name for p in ext], obligations=n['arguments'] + n['constants'] + n['interface_bodies'] * 2, **n)


def check_indices(res, rel, ln, name, act, f, loops, proc):
    """an actual argument picked from a per-shell array by a loop variable: all data of one outercore shell must come
    from the same element, data of the two shells of a pair from the two loop variables, and the role must match"""
    groups, lv = {}, [l[0] for l in loops]
    for (txt, t, bv, base), (ct, cpn) in zip(act, f['params']):
        m = re.match(r'^\w+ ?\( ?(\w+) ?(,.*)?\)$', txt)
        if not m or m.group(1) not in lv:
            continue
        g = re.search(r'([12])', cpn)
        groups.setdefault(g.group(1) if g else '', set()).add(m.group(1))
        role_f, role_c = role(base), role(cpn.lower())
        if role_f and role_c and role_f != role_c:
            res.violation('ROLE:%s:%s' % (name, cpn), '%s:%d: %s receives %s' % (rel, ln, cpn, txt))
    for g, vs in groups.items():
        if len(vs) > 1:
            res.violation('INDEX:%s' % name, '%s:%d: data of one outercore shell are taken from different elements (%s)' % (rel, ln, ' '.join(sorted(vs))))
    if len(groups) == 2 and all(len(v) == 1 for v in groups.values()) and len(set.union(*groups.values())) == 1:
        res.violation('INDEX:%s' % name, '%s:%d: both outercore shells of the pair are taken from the same element' % (rel, ln))
    for v, b in loops:
        if len(b) >= 2 and not (b[0] == '1' and b[1] in proc.types and len(b) == 2):
            res.violation('RANGE:%s:%s' % (name, v), '%s:%d: the loop over outercore shells runs over %s' % (rel, ln, ','.join(b)))


def role(n):
    n = re.sub(r'\d', '', n)
    tail = n.split('_')[-1]
    if tail in ('l', 'j'):
        return tail
    if tail in ('primitives', 'powers', 'coeffs', 'alpha'):
        return tail + (':shell' if 'shell' in n else ':pot' if ('pot' in n or 'rpp' in n) else '')
    return None


def run(prop):
    res = Result(prop)
    {'C08': run_c08, 'C19': run_c19}[prop](res)
    res.assume += ['clang 18 front end (libclang) represents the declarations', 'external Fortran names are lower case with one trailing underscore, arguments by reference']
    return res
