"""C01, C02 and the aliasing half of C04/C05: interprocedural effect analysis (engine/effects.cpp) of every public
routine, all call paths cloned; the memory a routine writes, releases, keeps or returns is classified by its owner."""
import re
from vlib import *
import own

# public computing routines and the number of their trailing output parameters
COMPUTE = dict(
    libgrpp_type1_integrals=1, libgrpp_type2_integrals=1, libgrpp_spin_orbit_integrals=3, libgrpp_outercore_potential_integrals=4,
    libgrpp_full_grpp_integrals=4, libgrpp_type1_integrals_gradient=1, libgrpp_type2_integrals_gradient=1,
    libgrpp_spin_orbit_integrals_gradient=3, libgrpp_outercore_potential_integrals_gradient=4, libgrpp_full_grpp_integrals_gradient=4,
    libgrpp_overlap_integrals=1, libgrpp_overlap_integrals_gradient=1, libgrpp_kinetic_energy_integrals=1, libgrpp_momentum_integrals=3,
    libgrpp_nuclear_attraction_integrals=1, libgrpp_nuclear_attraction_integrals_point_charge=1,
    libgrpp_nuclear_attraction_integrals_charged_ball=1, libgrpp_nuclear_attraction_integrals_gaussian_model=1,
    libgrpp_nuclear_attraction_integrals_fermi_model=1, libgrpp_nuclear_attraction_integrals_fermi_bubble_model=1,
    libgrpp_outercore_potential_integrals_part_1=4, libgrpp_outercore_potential_integrals_part_2=4,
    libgrpp_estimate_fermi_model_parameters=2, libgrpp_potential_value=0, libgrpp_get_shell_size=0,
    libgrpp_estimate_nuclear_rms_radius_johnson_1985=0, libgrpp_estimate_nuclear_rms_radius_golovko_2008=0,
    libgrpp_charge_density_ball=0, libgrpp_charge_density_gaussian=0, libgrpp_charge_density_fermi=0, libgrpp_charge_density_fermi_bubble=0,
    libgrpp_rms_radius_fermi=0, libgrpp_rms_radius_fermi_bubble=0, libgrpp_coulomb_potential_point=0, libgrpp_coulomb_potential_ball=0,
    libgrpp_coulomb_potential_gaussian=0, libgrpp_coulomb_potential_fermi=0, libgrpp_coulomb_potential_fermi_bubble=0)
FORTRAN = dict(
    libgrpp_type1_integrals_=1, libgrpp_type2_integrals_=1, libgrpp_spin_orbit_integrals_=3,
    libgrpp_outercore_potential_integrals_part_1_=4, libgrpp_outercore_potential_integrals_part_2_=4,
    libgrpp_type1_integrals_gradient_=3, libgrpp_type2_integrals_gradient_=3, libgrpp_spin_orbit_integrals_gradient_=9,
    evaluate_overlap_integral_contracted_=1, radial_gto_norm_factor_=1, libgrpp_overlap_integrals_=1, libgrpp_kinetic_energy_integrals_=1,
    libgrpp_momentum_integrals_=3, libgrpp_nuclear_attraction_integrals_=1, libgrpp_nuclear_attraction_integrals_point_charge_=1,
    libgrpp_nuclear_attraction_integrals_charged_ball_=1, libgrpp_nuclear_attraction_integrals_gaussian_model_=1,
    libgrpp_nuclear_attraction_integrals_fermi_model_=1, libgrpp_nuclear_attraction_integrals_fermi_bubble_model_=1,
    libgrpp_estimate_nuclear_rms_radius_johnson_1985_=1, libgrpp_estimate_nuclear_rms_radius_golovko_2008_=1,
    libgrpp_estimate_fermi_model_parameters_=3, libgrpp_charge_density_ball_=1, libgrpp_charge_density_gaussian_=1,
    libgrpp_charge_density_fermi_=1, libgrpp_charge_density_fermi_bubble_=1, libgrpp_coulomb_potential_point_=1,
    libgrpp_coulomb_potential_ball_=1, libgrpp_coulomb_potential_gaussian_=1, libgrpp_coulomb_potential_fermi_=1,
    libgrpp_coulomb_potential_fermi_bubble_=1, libgrpp_rms_radius_fermi_=1, libgrpp_rms_radius_fermi_bubble_=1)
CONSTRUCT = dict(libgrpp_new_potential=0, libgrpp_new_shell=0, libgrpp_shell_deep_copy=0, libgrpp_shrink_potential=0, libgrpp_new_grpp=0,
                 libgrpp_generate_shell_cartesians=0)
DIFFERENTIATE = dict(differentiate_shell=2)
MUTATE = ('libgrpp_shell_shrink', 'libgrpp_shell_mult_normcoef', 'libgrpp_grpp_set_local_potential', 'libgrpp_grpp_add_averaged_potential',
          'libgrpp_grpp_add_spin_orbit_potential', 'libgrpp_grpp_add_outercore_potential')
DESTROY = ('libgrpp_delete_potential', 'libgrpp_delete_shell', 'libgrpp_delete_grpp')
SETUP = re.compile(r'libgrpp_(init|finalize|set_\w+?)_?$')

NONREENTRANT = set('''rand srand random srandom drand48 srand48 lrand48 mrand48 strtok asctime ctime gmtime localtime setlocale setenv putenv
unsetenv lgamma lgammaf lgammal gamma strerror tmpnam tmpfile ttyname getpwnam getpwuid readdir ecvt fcvt gcvt hsearch hcreate time clock gettimeofday
clock_gettime fesetround fesetenv feholdexcept feupdateenv signal longjmp omp_set_num_threads omp_set_dynamic omp_set_nested
omp_set_schedule system popen getenv localeconv strsignal ptsname crypt encrypt wcstombs mbtowc mblen nl_langinfo l64a getlogin'''.split())


def nargs(w):
    """number of parameters of every function defined in the library"""
    r = sh([LLVM + 'llvm-nm', '--defined-only', w.bitcode()])
    txt = sh([LLVM + 'llvm-dis', w.bitcode(), '-o', '-']).stdout
    out = {}
    for m in re.finditer(r'^define (?:[\w ]+? )?(\S+) @([\w.]+)\(([^{]*?)\)', txt, re.M):
        a = m.group(3).strip()
        out[m.group(2)] = (0 if not a else len(re.findall(r'%\d+|%[\w.]+', a)), 'internal' in m.group(0).split('@')[0])
    return out


def run(prop):
    res = Result(prop)
    with Work() as w:
        sig = nargs(w)
        table = {}
        if prop in ('C01', 'C02'):
            table.update(COMPUTE)
            table.update(FORTRAN)
        if prop in ('C01', 'C02', 'C04'):
            table.update(CONSTRUCT)
            table.update(DIFFERENTIATE)
        if prop in ('C02', 'C04'):
            table.update({f: None for f in MUTATE})
            if prop == 'C02':
                table.update({f: None for f in DESTROY})
                # any further exported routine the library may have
                table.update({f: None for f, (n, internal) in sig.items() if not internal and f.startswith('libgrpp_') and not SETUP.match(f) and f not in table})
                table.update({f: None for f in ('libgrpp_is_initialized',)})
        roots = [f for f in table if f in sig]
        missing = [f for f in table if f not in sig]
        if len(roots) < 0.5 * len(table):
            raise Broken('most public routines are not defined any more: ' + ' '.join(missing[:10]))
        rs = w.effects(roots)
        if prop == 'C04':
            own.add(res, w)
    tr = [r['root'] for r in rs if r.get('truncated') or r.get('missing')]
    for r in rs:
        f = r['root']
        if r.get('missing'):
            continue
        n = sig[f][0]
        nout = table[f]
        for x in r['reports']:
            out = nout is not None and x['param'] >= n - nout and x['param'] >= 0
            loc = x['where'] or f
            fn = loc.split('(')[-1].rstrip(')')
            txt = '%s in %s: %s; call path %s' % (x['cat'], loc, x['what'], x['path'])
            # (releases of caller memory by computing routines depend on which slots of a temporary object were emptied before:
            #  they are decided by the flow-sensitive memory analysis of C05)
            if x['cat'] == 'FREE-PARAM' and not (prop == 'C04' and (f in CONSTRUCT or f in DIFFERENTIATE)):
                continue
            if prop in ('C01', 'C04') and x['cat'] in ('WRITE-PARAM', 'FREE-PARAM') and nout is not None:
                if out and x['cat'] == 'WRITE-PARAM' and not (x['depth'] == 0 and outer_is_array(f, n, x['param'])):
                    continue
                res.violation('%s:%s:%s' % (x['cat'], fn, x['what']), 'caller-supplied input (parameter %d of %s) is %s: %s' % (x['param'], f, 'released' if x['cat'] == 'FREE-PARAM' else 'written', txt))
            if prop == 'C02' and x['cat'] in ('WRITE-GLOBAL', 'FREE-GLOBAL', 'KEPT', 'RESULT-SHARES-GLOBAL'):
                res.violation('%s:%s:%s' % (x['cat'], fn, x['what']), 'global state is changed, kept or exposed by %s: %s' % (f, txt))
            if prop == 'C04' and x['cat'] in ('RESULT-SHARES', 'RESULT-SHARES-GLOBAL', 'RESULT-STACK', 'OUT-SHARES'):
                if f in MUTATE and x['cat'] != 'OUT-SHARES':
                    continue
                if f in ('libgrpp_grpp_set_local_potential', 'libgrpp_grpp_add_averaged_potential', 'libgrpp_grpp_add_spin_orbit_potential', 'libgrpp_grpp_add_outercore_potential'):
                    continue
                res.violation('%s:%s:%s' % (x['cat'], f, x['what']), 'the object built by %s shares storage: %s' % (f, txt))
        if prop == 'C02':
            for e, wh in r['externals'].items():
                if e in NONREENTRANT:
                    res.violation('NONREENTRANT:%s:%s' % (e, wh.split('|')[0].split('(')[-1].rstrip(')')), 'non-reentrant library facility %s is called at %s (root %s)' % (e, wh, f))
    if tr and not res.viol:
        raise Broken('analysis truncated for ' + ' '.join(tr[:10]))
    fns = set()
    for r in rs:
        fns |= set(r.get('functions', []))
    res.cov.update(explanation={'C01': 'every store and block write on every call path from every public routine is resolved to the owner of the memory; none may be an input of the routine',
                                'C02': 'every store on every call path is resolved; none may hit global, function-static or table storage, no caller pointer may be kept in or returned from global storage; external calls are checked against a list of non-reentrant facilities',
                                'C04': 'the storage reachable from each constructed object is disjoint from everything reachable from the parameters, and the parameters are not written or released; with symbolic source data every field of every constructed, copied, shrunk or differentiated object is the datum it stands for'}[prop],
                   roots=len(rs), root_names=[r['root'] for r in rs], absent=missing, call_path_contexts=sum(r.get('contexts', 0) for r in rs),
                   stores_resolved=sum(r.get('stores', 0) for r in rs), instructions=sum(r.get('instructions', 0) for r in rs),
                   functions_analysed=len(fns), function_names=sorted(fns),
                   externals=sorted({e for r in rs for e in r.get('externals', {})}))
    res.assume += ['distinct parameters of a routine that are written do not overlap its inputs', 'clang 18 -O0 + mem2reg IR represents the program',
                   'library functions behave as their LLVM attributes state']
    return res


GRADOUT = re.compile(r'_gradient$')


def outer_is_array(f, n, p):
    """double **grad outputs: the array of row pointers itself belongs to the caller"""
    return bool(GRADOUT.search(f))
