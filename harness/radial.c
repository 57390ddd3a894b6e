/* C31: radial integrals.  The Bessel function is replaced by a family with closed-form integrals, coefficients are symbols:
   whatever grid the quadrature uses, every table entry must be the integral of its own integrand. */
#include "abs.h"
#include "libgrpp.h"
#include "radial_type1_integral.h"
#include "radial_type2_integral.h"
#include <math.h>
#ifndef KIND
#define KIND 2 /* 1: one parameter (lambda, N); 2: two parameters (lambda1, lambda2, N) */
#endif
#ifndef SYM
#define SYM 0 /* symbols: 0 potential, 1 first shell, 2 second shell */
#endif
#ifndef L1
#define L1 2
#endif
#ifndef L2
#define L2 1
#endif
#ifndef NM
#define NM 2
#endif
#ifndef TOL
#define TOL -1.0 /* negative: refine to the finest grid */
#endif
#ifndef SCR
#define SCR 0
#endif
#ifndef CA
#define CA 0.7
#endif
#ifndef CB
#define CB 1.1
#endif
#ifndef SCALE
#define SCALE 1.0
#endif
#ifndef NA
#define NA 2
#endif
#ifndef NB
#define NB 2
#endif
#ifndef NU
#define NU 3
#endif
#ifndef PN
#define PN 0
#endif
#ifndef ACC
#define ACC 1e-8
#endif
enum { MX = 30 };
static double ipow(double x, int n) { double r = 1; while (n-- > 0) r *= x; return r; }
static double moment(int n, double p) { /* integral of r^n exp(-p r^2) over r > 0 */
  double r = n % 2 ? 0.5 / p : 0.5 * sqrt(M_PI / p);
  for (int k = n; k >= 2; k -= 2) r *= (k - 1) / (2 * p);
  return r;
}
static double norm(double al, int L) { return pow(2 * al / M_PI, 0.75) * ipow(2 * sqrt(al), L); }
double ai_stub_modified_bessel_scaled(int l, double x) {
  ai_reach("AUX");
  ai_check(l >= 0 && l <= (L1 > L2 ? L1 : L2), "order of the Bessel function is that of a requested integral");
  return ipow(x, l) * exp(-x);
}
int ai_stub_screening_radial_type2(int l1, int l2, int n, double ca, double cb, libgrpp_shell_t *bra, libgrpp_shell_t *ket, libgrpp_potential_t *u, double *v) {
  *v = 1e30;
  return SCR ? 0 : 1;
}
int ai_stub_libgrpp_is_initialized() { return 1; }
static double a[MX], b[MX], z[MX], ca[MX], cb[MX], cu[MX];
static int pw[MX];
static double cf(int i) { return i == 0 ? 0.7 : i == 1 ? -1.3 : 0.9 + 0.03 * i; }
static void same(double v, double w) { ai_check_close(v, w, ACC * ai_scale(w) + 1e-13, "radial integral equals the integral of its integrand"); }
#if KIND == 1
static double pot(double r, void *p) {
  double s = 0;
  ai_check(p == (void *) cu, "parameters of the potential are passed on");
  for (int k = 0; k < NU; k++) s += cu[k] * (pow(r, pw[k] - 2) * exp(-z[k] * r * r));
  return s;
}
#endif
void harness(void) {
  for (int i = 0; i < MX; i++) {
    a[i] = SCALE * (i == 0 ? 0.9 : i == 1 ? 0.31 : 0.2 * pow(1.21, i));
    b[i] = SCALE * (i == 0 ? 0.45 : i == 1 ? 1.6 : 0.17 * pow(1.19, i));
    z[i] = SCALE * (i == 0 ? 0.6 : i == 1 ? 2.1 : 0.25 * pow(1.17, i));
    pw[i] = (PN + i) % 3;
    ca[i] = SYM == 1 && i < NA ? ai_atom_in(10 + i, 0.5, 2) : cf(i);
    cb[i] = SYM == 2 && i < NB ? ai_atom_in(10 + i, 0.5, 2) : cf(i + 1);
    cu[i] = SYM == 0 && i < NU ? ai_atom_in(10 + i, 0.5, 2) : cf(i + 2);
  }
  libgrpp_set_radial_tolerance(TOL);
#if KIND == 1
  double k = 2 * fabs(a[0] * CA - b[0] * CB), pre = 1.7;
  radial_type1_table_t *t = tabulate_radial_type1_integrals(L1, L1, CA * CA, CB * CB, a[0], b[0], k, pre, pot, cu);
  ai_reach("returned");
  for (int l = 0; l <= L1; l++)
    for (int n = 0; n <= L1; n++) {
      double w = 0;
      for (int q = 0; q < NU; q++) w += cu[q] * (pre * ipow(k, l) * exp(-a[0] * CA * CA - b[0] * CB * CB) * moment(n + l + pw[q], a[0] + b[0] + z[q]));
      same(get_radial_type1_integral(t, l, n), w);
    }
  delete_radial_type1_integrals(t);
#else
  double o[3] = {0.3, 0.1, -0.2};
  enum { LA = 1, LB = 2 };
  libgrpp_shell_t *A = libgrpp_new_shell(o, LA, NA, ca, a), *B = libgrpp_new_shell(o, LB, NB, cb, b);
  libgrpp_potential_t *U = libgrpp_new_potential(1, 1, NU, pw, cu, z);
  radial_type2_table_t *t = tabulate_radial_type2_integrals(L1, L2, NM, CA * CA, CB * CB, U, A, B);
  ai_reach("returned");
  for (int l = 0; l <= L1; l++)
    for (int m = 0; m <= L2; m++)
      for (int n = 0; n <= NM; n++) {
        double w = 0;
        for (int i = 0; i < NA; i++)
          for (int j = 0; j < NB; j++) {
            double f = norm(a[i], LA) * norm(b[j], LB) * ipow(2 * a[i] * CA, l) * ipow(2 * b[j] * CB, m) * exp(-a[i] * CA * CA - b[j] * CB * CB);
            for (int q = 0; q < NU; q++) {
              double g = f * moment(n + l + m + pw[q], a[i] + b[j] + z[q]);
              w += SYM == 0 ? cu[q] * (ca[i] * cb[j] * g) : SYM == 1 ? ca[i] * (cu[q] * cb[j] * g) : cb[j] * (ca[i] * cu[q] * g);
            }
          }
        same(get_radial_type2_integral(t, l, m, n), w);
      }
  delete_radial_type2_integrals(t);
#endif
  ai_reach("end");
}
