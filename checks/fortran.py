"""C09: abstract interpretation of every Fortran entry point over symbolic data, the C routines replaced by stubs that
compare every argument with the caller's data (harness/fortran.c)."""
from vlib import *

NAMES = '''libgrpp_type1_integrals_ libgrpp_type2_integrals_ libgrpp_spin_orbit_integrals_ libgrpp_outercore_potential_integrals_part_1_
libgrpp_outercore_potential_integrals_part_2_ libgrpp_type1_integrals_gradient_ libgrpp_type2_integrals_gradient_ libgrpp_spin_orbit_integrals_gradient_
radial_gto_norm_factor_ evaluate_overlap_integral_contracted_ libgrpp_overlap_integrals_ libgrpp_kinetic_energy_integrals_ libgrpp_momentum_integrals_
libgrpp_nuclear_attraction_integrals_ libgrpp_nuclear_attraction_integrals_point_charge_ libgrpp_nuclear_attraction_integrals_charged_ball_
libgrpp_nuclear_attraction_integrals_gaussian_model_ libgrpp_nuclear_attraction_integrals_fermi_model_ libgrpp_nuclear_attraction_integrals_fermi_bubble_model_
libgrpp_estimate_nuclear_rms_radius_johnson_1985_ libgrpp_estimate_nuclear_rms_radius_golovko_2008_ libgrpp_estimate_fermi_model_parameters_
libgrpp_charge_density_ball_ libgrpp_charge_density_gaussian_ libgrpp_charge_density_fermi_ libgrpp_charge_density_fermi_bubble_
libgrpp_coulomb_potential_point_ libgrpp_coulomb_potential_ball_ libgrpp_coulomb_potential_gaussian_ libgrpp_coulomb_potential_fermi_
libgrpp_coulomb_potential_fermi_bubble_ libgrpp_rms_radius_fermi_ libgrpp_rms_radius_fermi_bubble_ libgrpp_set_default_parameters_
libgrpp_set_radial_tolerance_ libgrpp_set_angular_screening_tolerance_ libgrpp_set_modified_bessel_tolerance_ libgrpp_set_cartesian_order_
libgrpp_init_ libgrpp_finalize_'''.split()
CATS = {'SAME', 'CHECK', 'OOB', 'UNINIT', 'NULLDEREF', 'UAF', 'UNKNOWNPTR', 'LEAK', 'DOUBLEFREE', 'BADFREE', 'ASSERT', 'EXIT'}


def run(prop):
    res = Result(prop)
    with Work() as w:
        jobs = [('fortran.c', dict(PART=i, VAR=v), [], 300) for i in range(len(NAMES)) for v in ((0, 1) if i == 8 else (0, 1, 2) if i < 19 else (0,))]
        rs = w.absint_many(jobs)
    obl, fns, dec = 0, set(), 0
    for r in rs:
        name = NAMES[r['defs']['PART']]
        if r['status'] != 'ok':
            raise Broken('%s could not be analysed: %s' % (name, r['err'][-300:]))
        obl += r['stats']['checks']
        dec += 1 if r['reached'].get('end') else 0
        fns |= set(r['functions'])
        bad = [x for x in r['reports'] if x['cat'] in CATS]
        for x in bad:
            res.violation('%s:%s:%s' % (x['cat'], name, x['where'].split(':')[0]), '%s: %s at %s: %s; call path %s' % (name, x['cat'], x['where'], x['msg'], x['path']))
        if not r['reached'].get('end') and not bad:
            raise Broken('%s does not return in the analysis' % name)
    res.cov.update(explanation='each entry point is interpreted on symbolic caller data; the stub of the C routine it must reach compares every scalar, array element and structure field with the caller\'s datum and returns symbolic results, which must arrive in the caller\'s outputs; exactly one call',
                   entry_points=NAMES, runs=len(rs), runs_completed=dec, obligations=obl, functions_analysed=len(fns), function_names=sorted(fns))
    res.assume += ['the Fortran compiler appends one underscore and passes by reference (as test_libgrpp_f90 relies on)', 'coefficients in [0.1,10]: zero coefficients are dropped by the potential constructor (see C04)',
                   'sizes: 3 combinations of angular momenta and contraction lengths per routine']
    return res
