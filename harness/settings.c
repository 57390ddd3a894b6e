/* C17: accuracy settings; C18: Cartesian component lists */
#include "abs.h"
#include "libgrpp.h"
#include "parameters.h"
#include "nuclear_models.h"
extern double bessel_table[2000][60][10];
void create_real_spherical_harmonic_coeffs_tables(int L);
void ai_stub_create_real_spherical_harmonic_coeffs_tables(int L) { create_real_spherical_harmonic_coeffs_tables(L < 8 ? L : 8); }
void ai_stub_pretabulate_bessel() { ai_fill((double *) bessel_table, 2000L * 600, ai_real(0.1, 1)); }
/* no estimate available: the quadrature alone decides */
#ifndef SCREEN
int ai_stub_screening_radial_type2() { return EXIT_FAILURE; }
#endif
enum { LBL = 5, TOL = 77 };
static double T(void) { return ai_atom_in(TOL, 1e-18, 1e-2); }
static int count;
static double ca[2] = {0.7, 1.3}, aa[2] = {0.31, 1.9}, cb[2] = {1.1, 0.6}, ab[2] = {0.57, 3.1};
static double PA[3] = {0.1, -0.2, 0.3}, PB[3] = {-1.1, 0.4, 0.9}, PC[3] = {0.8, 0.25, -0.6};
static int pw[2] = {2, 1};
static double pc[2] = {3.0, -1.5}, pa[2] = {1.2, 0.4};
#if PART == 1 || PART == 2 || PART == 3 || PART == 4 || PART == 5
/* radial quadrature samples the potential: an unknown function, every sample counted */
double ai_stub_libgrpp_potential_value(libgrpp_potential_t *u, double r) { (void) u; (void) r; count++; return ai_real(-10, 10); }
double ai_stub_libgrpp_coulomb_potential_ball(double r, double Z, double R) { (void) r; (void) Z; (void) R; count++; return ai_real(-10, 10); }
#endif
static double m[4][400];
static void routine(int la, int lb) {
  libgrpp_shell_t *A = libgrpp_new_shell(PA, la, 2, ca, aa), *B = libgrpp_new_shell(PB, lb, 1, cb, ab);
  libgrpp_potential_t *U = libgrpp_new_potential(PART == 2 || PART == 4 ? 0 : 1, 0, 2, pw, pc, pa);
  double prm[1] = {2.0};
#if PART == 1
  libgrpp_nuclear_attraction_integrals(A, B, PC, 10, LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL, prm, m[0]);
#elif PART == 2 || PART == 4
  libgrpp_type2_integrals(A, B, PC, U, m[0]);
#elif PART == 3
  libgrpp_spin_orbit_integrals(A, B, PC, U, m[0], m[1], m[2]);
#endif
  (void) prm; libgrpp_delete_shell(A); libgrpp_delete_shell(B); libgrpp_delete_potential(U);
}
static int user_generator(int L, int *list) {
  int c = 0;
  for (int k = 0; k <= L; k++) for (int n = 0; n <= L - k; n++) { list[3 * c] = n; list[3 * c + 1] = L - k - n; list[3 * c + 2] = k; c++; }
  return c;
}
static void expect(int order, int L, int *e) {
  if (order == 2) { user_generator(L, e); return; }
  int c = 0;
  for (int n = L; n >= 0; n--) for (int l = L - n; l >= 0; l--) { e[3 * c] = n; e[3 * c + 1] = l; e[3 * c + 2] = L - n - l; c++; }
}
static void same_list(int *v, int L, int order, const char *unused) {
  (void) unused;
  int e[3 * 120]; expect(order, L, e);
  for (int i = 0; i < 3 * ((L + 1) * (L + 2) / 2); i++) ai_check(v[i] == e[i], "Cartesian components in the order of the convention in force");
}
void harness(void) {
  struct { double radial_tolerance, angular_screening_tolerance, modified_bessel_tolerance; int (*cartesian_generator)(int, int *); } p0;
  p0.radial_tolerance = libgrpp_params.radial_tolerance; p0.angular_screening_tolerance = libgrpp_params.angular_screening_tolerance;
  p0.modified_bessel_tolerance = libgrpp_params.modified_bessel_tolerance; p0.cartesian_generator = libgrpp_params.cartesian_generator;
#if PART == 0 /* setters and defaults */
  ai_check(p0.radial_tolerance == 1e-16 && p0.angular_screening_tolerance == 1e-16 && p0.modified_bessel_tolerance == 1e-16, "documented initial tolerances");
  for (int round = 0; round < 2; round++) {
    libgrpp_set_radial_tolerance(ai_atom_in(1, 1e-20, 1)); libgrpp_set_angular_screening_tolerance(ai_atom_in(2, 1e-20, 1)); libgrpp_set_modified_bessel_tolerance(ai_atom_in(3, 1e-20, 1));
    ai_check_same(libgrpp_params.radial_tolerance, ai_atom(1), "radial tolerance is stored as given");
    ai_check_same(libgrpp_params.angular_screening_tolerance, ai_atom(2), "angular screening tolerance is stored as given");
    ai_check_same(libgrpp_params.modified_bessel_tolerance, ai_atom(3), "modified Bessel tolerance is stored as given");
    if (round) libgrpp_set_cartesian_generator(user_generator); else libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_TURBOMOLE);
    ai_check_same(libgrpp_params.radial_tolerance, ai_atom(1), "choosing the component order keeps the radial tolerance");
    ai_check_same(libgrpp_params.angular_screening_tolerance, ai_atom(2), "choosing the component order keeps the angular screening tolerance");
    ai_check_same(libgrpp_params.modified_bessel_tolerance, ai_atom(3), "choosing the component order keeps the Bessel tolerance");
    libgrpp_set_default_parameters();
    ai_check_same(libgrpp_params.radial_tolerance, 1e-16, "default radial tolerance");
    ai_check(libgrpp_params.radial_tolerance == p0.radial_tolerance, "default radial tolerance");
    ai_check(libgrpp_params.angular_screening_tolerance == p0.angular_screening_tolerance, "default angular screening tolerance");
    ai_check(libgrpp_params.modified_bessel_tolerance == p0.modified_bessel_tolerance, "default Bessel tolerance");
    ai_check(libgrpp_params.cartesian_generator == p0.cartesian_generator, "default order of Cartesian components");
  }
  libgrpp_set_radial_tolerance(1e-3);
  libgrpp_init(); libgrpp_finalize();
  ai_check(libgrpp_params.radial_tolerance == 1e-3, "initialisation keeps the settings");
#elif PART <= 3 && defined(SCREEN) /* radial tolerance, with the screening estimate */
  (void) p0;
  libgrpp_init();
  libgrpp_set_radial_tolerance(ai_taint(T(), LBL));
  ai_watch_copy(LBL);
  routine(0, 0);
  ai_watch_copy(-1);
#elif PART <= 3 && defined(NEVER) /* a tolerance which is never met: the quadrature must still terminate */
  (void) p0;
  libgrpp_init();
  libgrpp_set_radial_tolerance(-1.0);
  routine(0, 0);
#elif PART <= 3 /* radial tolerance */
  (void) p0;
  libgrpp_init();
  libgrpp_set_radial_tolerance(1e300);
  routine(0, 0);
  int loose = ai_imax(count), definite = ai_imin(count) == loose;
  ai_check(loose > 0, "radial quadrature samples the potential");
  count = 0;
  libgrpp_set_radial_tolerance(ai_taint(T(), LBL));
  ai_watch_copy(LBL);
  routine(0, 0);
  ai_watch_copy(-1);
  if (definite) ai_reach("definite");
  if (definite) ai_check(ai_imax(count) > loose, "the radial tolerance decides when the quadrature stops");
#elif PART == 4 /* angular screening tolerance (or the Bessel tolerance) */
  (void) p0;
  libgrpp_init();
#ifdef BESSEL
  libgrpp_set_modified_bessel_tolerance(ai_taint(T(), LBL));
#else
  libgrpp_set_angular_screening_tolerance(ai_taint(T(), LBL));
#endif
  ai_watch_copy(LBL);
  routine(0, 0);
  ai_watch_copy(-1);
#elif PART == 5 /* C18 */
  (void) p0;
#ifndef LMAX
#define LMAX 12
#endif
  for (int order = -1; order <= 2; order++) {
    if (order == 0) libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_DIRAC);
    if (order == 1) libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_TURBOMOLE);
    if (order == 2) libgrpp_set_cartesian_generator(user_generator);
    for (int L = 0; L <= LMAX; L++) {
      int *list = libgrpp_generate_shell_cartesians(L);
      ai_check(ai_region_size(list) >= 12 * ((L + 1) * (L + 2) / 2), "list holds all components");
      same_list(list, L, order, "");
      free(list);
      libgrpp_shell_t *s = libgrpp_new_shell(PA, L, 2, ca, aa);
      ai_check(s->L == L && s->cart_size == (L + 1) * (L + 2) / 2 && libgrpp_get_shell_size(s) == s->cart_size, "shell has (L+1)(L+2)/2 components");
      same_list(s->cart_list, L, order, "");
      libgrpp_shell_t *c = libgrpp_shell_deep_copy(s);
      ai_check(c->L == L && c->cart_size == s->cart_size, "copy of the shell has the same components");
      same_list(c->cart_list, L, order, "");
      libgrpp_delete_shell(c); libgrpp_delete_shell(s);
    }
  }
  libgrpp_set_default_parameters();
  int *list = libgrpp_generate_shell_cartesians(3);
  same_list(list, 3, 0, "");
#endif
  ai_reach("end");
}
