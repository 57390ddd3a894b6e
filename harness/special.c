/* Boundary arguments of the special functions, nuclear models, tables and object constructors: direct abstract calls. */
#include "abs.h"
#include "libgrpp.h"
#include "nuclear_models.h"
#include "parameters.h"

void boys_values(double x, int nmax, double *b);
void gfun_values(double x, int nmax, double *g);
double Dawsons_Integral(double x);
double modified_bessel_scaled(int n, double x);
double specfunc_fermi_sk(int k, double x);
double evaluate_real_spherical_harmonic(const int l, const int m, const double *k);
void evaluate_real_spherical_harmonics_array(const int l, const double *k, double *rsh_array);
double factorial(int n);
double factorial_ratio(int n, int m);
double double_factorial(int n);
extern double bessel_table[][60][10];
void create_real_spherical_harmonic_coeffs_tables(int);
#ifndef RSHMAX
#define RSHMAX 10
#endif
#ifndef REALINIT
void ai_stub_create_real_spherical_harmonic_coeffs_tables(int L) { create_real_spherical_harmonic_coeffs_tables(L < RSHMAX ? L : RSHMAX); }
void ai_stub_pretabulate_bessel() { ai_fill((double *) bessel_table, 2000L * 600, ai_real(-1, 1)); }
#endif

#define NMAX 21 /* highest order any routine asks for at L = 10 */

static void use(double v) { ai_check_init(v, "value of a special function"); }

void harness(void) {
  libgrpp_init();
  ai_track_heap(1);
  double buf[64];
#if PART == 1
  {
    static const double xs[] = {0.0, 1e-300, 0.049, 0.051, 29.94, 29.96, 30.0, 30.0000001, 31.0, 1e4};
    for (int i = 0; i < 10; i++) { boys_values(xs[i], NMAX, buf); for (int n = 0; n <= NMAX; n++) use(buf[n]); }
    static const double lo[] = {0.0, 1.0, 15.0, 29.0, 30.001}, hi[] = {1.0, 15.0, 29.0, 30.0, 1e6};
    for (int i = 0; i < 5; i++) { boys_values(ai_real(lo[i], hi[i]), NMAX, buf); use(buf[NMAX]); }
  }
#elif PART == 2
  {
    static const double xs[] = {0.0, 1e-12, 0.5, 11.9, 12.0, 12.0001, 13.0, 1e4};
    for (int i = 0; i < 8; i++) { gfun_values(xs[i], NMAX, buf); for (int n = 0; n <= NMAX; n++) use(buf[n]); }
    static const double ds[] = {0.0, 1e-9, 1.0, 1.75, 2.5, 3.25, 4.25, 5.5, 7.25, 8.0, 49.9, 1e3, -1.0};
    for (int i = 0; i < 13; i++) use(Dawsons_Integral(ds[i]));
  }
#elif PART == 3
  {
    static const double xs[] = {0.0, 1e-9, 1e-7, 1.1e-7, 0.004, 0.006, 7.77, 15.994, 15.996, 16.0, 16.0000001, 17.0, 1e5};
    for (int n = 0; n <= NMAX; n++) {
      for (int i = 0; i < 13; i++) use(modified_bessel_scaled(n, xs[i]));
      use(modified_bessel_scaled(n, ai_real(1e-6, 1)));
      use(modified_bessel_scaled(n, ai_real(1, 16)));
      use(modified_bessel_scaled(n, ai_real(16.001, 1e6)));
    }
  }
#elif PART == 4
  {
    static const double xs[] = {0.0, -1e-9, -0.0026, -5.0, -9.9976, -9.99999, -10.0, -10.0001, -14.0, -14.1, -30.0, -31.0, -1e4};
    for (int k = 2; k <= 7; k++) {
      for (int i = 0; i < 13; i++) use(specfunc_fermi_sk(k, xs[i]));
      use(specfunc_fermi_sk(k, ai_real(-9.99, -0.01)));
      use(specfunc_fermi_sk(k, ai_real(-1e6, -30.001)));
    }
  }
#elif PART == 5
  {
    double o[3] = {0, 0, 0};
    for (int l = 0; l <= RSHMAX; l++) {
      evaluate_real_spherical_harmonics_array(l, o, buf);
      for (int m = -l; m <= l; m++) { use(evaluate_real_spherical_harmonic(l, m, o)); use(buf[m + l]); }
    }
    for (int n = -1; n <= 70; n++) { use(double_factorial(n)); }
    for (int n = 0; n <= 60; n++) { use(factorial(n)); for (int m = 0; m <= n; m++) use(factorial_ratio(n, m)); }
  }
#elif PART == 6
  {
    double Z = ai_real(1, 120), R = ai_real(1e-6, 1e-3), c = ai_real(1e-5, 2e-4), a = ai_real(5e-6, 2e-5), k = ai_real(-0.5, 2);
    use(libgrpp_charge_density_ball(0.0, Z, R));
    use(libgrpp_charge_density_gaussian(0.0, Z, R));
    use(libgrpp_coulomb_potential_ball(0.0, Z, R));
    double c1 = 1.1e-4, a1 = 1e-5;
    use(libgrpp_charge_density_fermi(0.0, Z, c1, a1));
    use(libgrpp_charge_density_fermi_bubble(0.0, Z, c1, a1, k));
    use(libgrpp_rms_radius_fermi(80, c1, a1));
    use(libgrpp_rms_radius_fermi_bubble(80, c1, a1, 0.1));
    use(libgrpp_coulomb_potential_fermi(c1, Z, c1, a1));
    use(libgrpp_coulomb_potential_fermi_bubble(c1, Z, c1, a1, k));
    use(libgrpp_coulomb_potential_fermi(1e-12, Z, c1, a1));
    use(libgrpp_coulomb_potential_fermi_bubble(1e-12, Z, c1, a1, k));
    use(libgrpp_coulomb_potential_fermi(100.0, Z, c1, a1));
    use(libgrpp_coulomb_potential_fermi_bubble(100.0, Z, c1, a1, k));
    /* very diffuse or very sharp surfaces: the ends of the table of S_k */
    use(libgrpp_coulomb_potential_fermi(1e-9, Z, 1e-4, 1e-5));
    use(libgrpp_coulomb_potential_fermi(1e-9, Z, 1e-4, 1e-7));
    use(libgrpp_coulomb_potential_fermi_bubble(1e-9, Z, 1e-4, 1e-7, k));
    use(libgrpp_estimate_nuclear_rms_radius_johnson_1985(1));
    use(libgrpp_estimate_nuclear_rms_radius_golovko_2008(1));
    double pc, pa;
    int ok = libgrpp_estimate_fermi_model_parameters(0.8, &pc, &pa);
    use(pa);
    ai_check(ok == -1, "parameters of the Fermi model cannot be estimated for a tiny nucleus");
    ok = libgrpp_estimate_fermi_model_parameters(5.5, &pc, &pa);
    use(pc); use(pa);
    ai_check(ok == 1, "parameters of the Fermi model can be estimated for a heavy nucleus");
    (void) c; (void) a;
    int p[2] = {2, 3}; double cc[2] = {1.5, -0.5}, al[2] = {1.0, 2.0};
    libgrpp_potential_t *U = libgrpp_new_potential(1, 3, 2, p, cc, al);
    use(libgrpp_potential_value(U, 0.0));
    libgrpp_delete_potential(U);
  }
#elif PART == 7
  /* life cycle of every object */
  {
    double o[3] = {ai_real(-1, 1), ai_real(-1, 1), ai_real(-1, 1)};
    for (int kind = 0; kind < 6; kind++) {
      double c[4], a[4];
      int p[4], np = kind == 0 ? 1 : kind == 5 ? 0 : 4;
      for (int i = 0; i < np; i++) {
        c[i] = kind == 1 ? 0.0 : kind == 2 ? (i % 2 ? 0.0 : ai_real(0.1, 1)) : kind == 3 ? (i ? ai_real(-1, -0.1) : 0.0) : ai_real(0.1, 1);
        a[i] = ai_real(0.1, 100); p[i] = i % 3;
      }
      libgrpp_potential_t *U = libgrpp_new_potential(kind, 2 * kind + 1, np, p, c, a);
      libgrpp_potential_t *V = libgrpp_shrink_potential(U);
      use(libgrpp_potential_value(V, 1.0));
      libgrpp_delete_potential(U);
      for (int i = 0; i < V->num_primitives; i++) use(V->coeffs[i] + V->alpha[i] + V->powers[i]);
      libgrpp_delete_potential(V);
      libgrpp_delete_potential(NULL);
      ai_check_leaks("potentials");
      for (int L = 0; L <= 10; L += (L < 3 ? 1 : 7)) {
        libgrpp_shell_t *S = libgrpp_new_shell(o, L, np, c, a);
        libgrpp_shell_t *T = libgrpp_shell_deep_copy(S);
        libgrpp_shell_mult_normcoef(S);
        libgrpp_shell_shrink(S);
        libgrpp_delete_shell(S);
        libgrpp_shell_shrink(T);
        libgrpp_shell_mult_normcoef(T);
        for (int i = 0; i < T->num_primitives; i++) use(T->coeffs[i] + T->alpha[i]);
        for (int i = 0; i < 3 * libgrpp_get_shell_size(T); i++) use(T->cart_list[i]);
        for (int i = 0; i < 3; i++) use(T->origin[i]);
        libgrpp_delete_shell(T);
        int *l = libgrpp_generate_shell_cartesians(L);
        free(l);
        ai_check_leaks("shells");
      }
    }
    double c[1] = {ai_real(0.1, 1)}, a[1] = {ai_real(0.1, 1)};
    int p[1] = {2};
    libgrpp_delete_grpp(NULL);
    for (int nar = 0; nar <= 3; nar++)
      for (int nso = 0; nso <= 2; nso++)
        for (int noc = 0; noc <= 2; noc++) {
          libgrpp_grpp_t *G = libgrpp_new_grpp();
          if (nar != 1) libgrpp_grpp_set_local_potential(G, libgrpp_new_potential(0, 0, 1, p, c, a));
          if (nar == 2) libgrpp_grpp_set_local_potential(G, libgrpp_new_potential(0, 0, 1, p, c, a));
          for (int i = 0; i < nar; i++) libgrpp_grpp_add_averaged_potential(G, libgrpp_new_potential(i, 0, 1, p, c, a));
          for (int i = 0; i < nso; i++) libgrpp_grpp_add_spin_orbit_potential(G, libgrpp_new_potential(i + 1, 0, 1, p, c, a));
          for (int i = 0; i < noc; i++)
            libgrpp_grpp_add_outercore_potential(G, libgrpp_new_potential(i, 0, 1, p, c, a), libgrpp_new_shell(o, i, 1, c, a));
          libgrpp_delete_grpp(G);
          ai_check_leaks("full pseudopotential");
        }
    /* the documented capacity of a full pseudopotential: every projector up to L = 10 with both J */
    libgrpp_grpp_t *G = libgrpp_new_grpp();
    for (int i = 0; i <= 10; i++) libgrpp_grpp_add_averaged_potential(G, libgrpp_new_potential(i, 0, 1, p, c, a));
    for (int i = 1; i <= 10; i++) libgrpp_grpp_add_spin_orbit_potential(G, libgrpp_new_potential(i, 0, 1, p, c, a));
    for (int i = 0; i < 63; i++) libgrpp_grpp_add_outercore_potential(G, libgrpp_new_potential(i % 11, 0, 1, p, c, a), libgrpp_new_shell(o, i % 11, 1, c, a));
    libgrpp_delete_grpp(G);
    ai_check_leaks("large full pseudopotential");
    libgrpp_finalize();
    libgrpp_finalize();
    libgrpp_init();
    libgrpp_init();
    ai_check(libgrpp_is_initialized(), "initialised again");
  }
#endif
  ai_reach("end");
}
