/* C03.  PHASE 0: routine ROUT before initialisation; 1: after finalisation; 2: order, exclusion and idempotence of
   initialisation and finalisation.  Watch modes: see engine/absint.cpp (watchAccess). */
#include "abs.h"
#include "libgrpp.h"
int ai_lockvar = 0;
#ifndef CYCLES
#define CYCLES 4
#endif
#ifndef ROUT
#define ROUT 0
#endif
#ifdef FULLINIT
#elif PHASE == 2
void create_real_spherical_harmonic_coeffs_tables(int);
void ai_stub_create_real_spherical_harmonic_coeffs_tables(int L) {
  /* angular integrals reach l = L(basis) + L(pseudopotential), one more for gradients */
  ai_check(L > LIBGRPP_MAX_BASIS_L + LIBGRPP_MAX_RPP_L && L > 2 * LIBGRPP_MAX_BASIS_L, "spherical-harmonic tables reach every angular momentum needed at the documented limits");
  create_real_spherical_harmonic_coeffs_tables(L < 4 ? L : 4);
}
#else
extern double bessel_table[][60][10];
void create_real_spherical_harmonic_coeffs_tables(int);
void ai_stub_create_real_spherical_harmonic_coeffs_tables(int L) { create_real_spherical_harmonic_coeffs_tables(L < 8 ? L : 8); }
void ai_stub_pretabulate_bessel() { ai_fill((double *) bessel_table, 2000L * 600, ai_real(-1, 1)); }
#endif

void libgrpp_outercore_potential_integrals_part_1_();
void libgrpp_outercore_potential_integrals_part_2_();

static void gate(void) {
  double o[3][3], c[2], a[2], prm[3];
  int pw[2];
  for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) o[i][k] = 0.3 + i - 0.7 * k * i;
  for (int i = 0; i < 2; i++) { c[i] = ai_real(0.1, 10); a[i] = ai_real(0.01, 1000); pw[i] = 2; }
  for (int i = 0; i < 3; i++) prm[i] = ai_real(1e-6, 1e-3);
  libgrpp_shell_t *A = libgrpp_new_shell(o[0], 1, 1, c, a), *B = libgrpp_new_shell(o[1], 1, 2, c, a), *OS = libgrpp_new_shell(o[2], 1, 1, c, a);
  libgrpp_potential_t *U = libgrpp_new_potential(1, 3, 1, pw, c, a), *OU = libgrpp_new_potential(1, 3, 1, pw, c, a);
  libgrpp_grpp_t *G = libgrpp_new_grpp();
  libgrpp_grpp_set_local_potential(G, U);
  libgrpp_grpp_add_averaged_potential(G, U);
  libgrpp_grpp_add_spin_orbit_potential(G, U);
  libgrpp_grpp_add_outercore_potential(G, OU, OS);
  double m[9], x[9], y[9], z[9], g[12][9], *gr[12], d[3];
  for (int i = 0; i < 12; i++) gr[i] = g[i];
  for (int k = 0; k < 3; k++) d[k] = o[0][k];
  (void) m; (void) x; (void) y; (void) z; (void) d; (void) gr; (void) prm;
  int one = 1, three = 3;
  for (int i = 0; i < 9; i++) m[i] = x[i] = y[i] = z[i] = 0;
  ai_watch(3);
  switch (ROUT) {
    case 0: libgrpp_type1_integrals(A, B, o[2], U, m); break;
    case 1: libgrpp_type2_integrals(A, B, o[2], U, m); break;
    case 2: libgrpp_spin_orbit_integrals(A, B, o[2], U, x, y, z); break;
    case 3: libgrpp_outercore_potential_integrals(A, B, o[2], 1, &OU, &OS, m, x, y, z); break;
    case 4: libgrpp_full_grpp_integrals(A, B, G, o[2], m, x, y, z); break;
    case 5: libgrpp_type1_integrals_gradient(A, B, o[2], U, d, gr); break;
    case 6: libgrpp_type2_integrals_gradient(A, B, o[2], U, d, gr); break;
    case 7: libgrpp_spin_orbit_integrals_gradient(A, B, o[2], U, d, gr, gr + 3, gr + 6); break;
    case 8: libgrpp_outercore_potential_integrals_gradient(A, B, o[2], 1, &OU, &OS, d, gr, gr + 3, gr + 6, gr + 9); break;
    case 9: libgrpp_full_grpp_integrals_gradient(A, B, G, o[2], d, gr, gr + 3, gr + 6, gr + 9); break;
    case 10: libgrpp_nuclear_attraction_integrals(A, B, o[2], 7, LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE, prm, m); break;
    case 11: libgrpp_nuclear_attraction_integrals(A, B, o[2], 7, LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL, prm, m); break;
    case 12: libgrpp_nuclear_attraction_integrals(A, B, o[2], 7, LIBGRPP_NUCLEAR_MODEL_GAUSSIAN, prm, m); break;
    case 13: libgrpp_nuclear_attraction_integrals(A, B, o[2], 7, LIBGRPP_NUCLEAR_MODEL_FERMI, prm, m); break;
    case 14: libgrpp_nuclear_attraction_integrals(A, B, o[2], 7, LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE, prm, m); break;
    case 15: libgrpp_nuclear_attraction_integrals(A, B, o[2], 7, LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE_NUMERICAL, prm, m); break;
    case 16: libgrpp_nuclear_attraction_integrals_point_charge(A, B, o[2], 7, m); break;
    case 17: libgrpp_nuclear_attraction_integrals_charged_ball(A, B, o[2], 7, prm[0], m); break;
    case 18: libgrpp_nuclear_attraction_integrals_gaussian_model(A, B, o[2], 7, prm[0], m); break;
    case 19: libgrpp_nuclear_attraction_integrals_fermi_model(A, B, o[2], 7, prm[0], prm[1], m); break;
    case 20: libgrpp_nuclear_attraction_integrals_fermi_bubble_model(A, B, o[2], 7, prm[0], prm[1], prm[2], m); break;
    case 21: libgrpp_outercore_potential_integrals_part_1_(o[0], &one, &one, c, a, o[1], &one, &one, c, a, o[2], &one, &three, &one, pw, c, a, &one, c, a, m, x, y, z); break;
    case 22: libgrpp_outercore_potential_integrals_part_2_(o[0], &one, &one, c, a, o[1], &one, &one, c, a, o[2], &one, &three, &one, pw, c, a, &one, c, a, &one, &three, &one, pw, c, a, &one, c, a, m, x, y, z); break;
  }
  ai_reach("routine returned");
}

void harness(void) {
  ai_watch(1);
  int r0 = libgrpp_is_initialized();
  ai_watch(0);
  ai_check(!r0, "the library starts uninitialised");
#if PHASE == 0
  ai_reach("end");
  gate();
#elif PHASE == 1
  ai_watch(2);
  libgrpp_init();
  ai_watch(0);
  libgrpp_finalize();
  ai_reach("end");
  gate();
#else
  ai_watch(5);
  libgrpp_finalize();
  ai_watch(2);
  libgrpp_init();
  ai_watch(0);
  ai_check(libgrpp_is_initialized() == 1, "initialisation leaves the library ready");
  ai_watch(4);
  libgrpp_init();
  ai_watch(0);
  ai_check(libgrpp_is_initialized() == 1, "repeated initialisation leaves the library ready");
  ai_watch(5);
  libgrpp_finalize();
  ai_watch(0);
  ai_check(libgrpp_is_initialized() == 0, "finalisation ends the ready state");
  ai_watch(5);
  libgrpp_finalize();
  libgrpp_init();
  ai_watch(0);
  ai_check(libgrpp_is_initialized() == 1, "the library can be initialised again after finalisation");
  for (int i = 0; i < CYCLES; i++) {
    libgrpp_finalize();
    ai_check(libgrpp_is_initialized() == 0, "every finalisation ends the ready state");
    libgrpp_init();
    ai_check(libgrpp_is_initialized() == 1, "every initialisation leaves the library ready");
  }
  ai_reach("end");
#endif
}
