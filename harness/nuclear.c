/* C10: dispatch of nuclear charge models.  The electrostatic potentials and the two primitive integrators are replaced by
   specifications; parameters are symbolic. */
#include "abs.h"
#include "libgrpp.h"
#include "nuclear_models.h"
#include <math.h>
#ifndef MODEL
#define MODEL 1   /* the value of the enumeration */
#endif
#ifndef CONV
#define CONV 0    /* 1: convenience routine */
#endif
#ifndef Q
#define Q 83
#endif
#ifndef LA
#define LA 1
#define LB 2
#define NA 2
#define NB 3
#endif
enum { A_PRM = 1000 };
static double ca[3] = {0.7, -1.3, 0.45}, aa[3] = {0.31, 1.9, 14.0}, cb[3] = {1.1, 0.6, -0.2}, ab[3] = {0.57, 3.1, 22.0};
static double PA[3] = {0.1, -0.2, 0.3}, PB[3] = {-1.1, 0.4, 0.9}, PC[3] = {0.8, 0.25, -0.6};
static libgrpp_shell_t *sA, *sB;
static double prm(int i) { return ai_atom_in(A_PRM + i, i == 2 ? -0.4 : 0.1, i == 2 ? 0.4 : 4.0); }
static int find(double al, const double *set, int n) { for (int i = 0; i < n; i++) if (al == set[i]) return i; return -1; }
static int eq3(const double *a, const double *b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }
static double prim(int p, int q, const int *x, const int *y) { return ai_atom(100000 + ((((p * 3 + q) * 64 + (x[0] * 16 + x[1] * 4 + x[2])) * 64) + (y[0] * 16 + y[1] * 4 + y[2]))); }
static void par(double v, int i) { ai_check_same(v, prm(i), "model parameter reaches its place in the electrostatic potential of the model"); }
static double V(int model, double r, double Z) {
  (void) r;
  ai_reach("potential");
  ai_check(model == MODEL, "electrostatic potential of the selected model is used");
  ai_check(Z == Q, "charge reaches the electrostatic potential");
  return -Z;
}
double ai_stub_libgrpp_coulomb_potential_point(double r, double Z) { return V(LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE_NUMERICAL, r, Z); }
double ai_stub_libgrpp_coulomb_potential_ball(double r, double Z, double R) { par(R, 0); return V(LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL, r, Z); }
double ai_stub_libgrpp_coulomb_potential_gaussian(double r, double Z, double R) { par(R, 0); return V(LIBGRPP_NUCLEAR_MODEL_GAUSSIAN, r, Z); }
double ai_stub_libgrpp_coulomb_potential_fermi(double r, double Z, double c, double a) { par(c, 0); par(a, 1); return V(LIBGRPP_NUCLEAR_MODEL_FERMI, r, Z); }
double ai_stub_libgrpp_coulomb_potential_fermi_bubble(double r, double Z, double c, double a, double k) { par(c, 0); par(a, 1); par(k, 2); return V(LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE, r, Z); }
int ai_stub_libgrpp_is_initialized() { return 1; }

static void emit(double alA, int nA, int *lA, double alB, int nB, int *lB, double f, double *m) {
  int p = find(alA, aa, NA), q = find(alB, ab, NB);
  ai_check(p >= 0 && q >= 0, "primitives of the two shells");
  if (p < 0 || q < 0) return;
  for (int i = 0; i < nA; i++) for (int j = 0; j < nB; j++) m[i * nB + j] = f * prim(p, q, lA + 3 * i, lB + 3 * j);
}
void ai_stub_evaluate_radially_local_potential_integral_primitive_gaussians(double *A, int nA, int *lA, double alA, double *B, int nB, int *lB, double alB,
  double *C, double (*pot)(double, void *), void *params, double *m) {
  ai_reach("numerical");
  ai_check(eq3(A, PA) && eq3(B, PB) && eq3(C, PC), "centres of the nuclear attraction integral");
  double v1 = pot(0.5, params), v2 = pot(2.25, params);
  ai_check(v1 == v2, "charge reaches the electrostatic potential");
  emit(alA, nA, lA, alB, nB, lB, v1, m);
}
void ai_stub_evaluate_rpp_type1_mmd_n1_primitive_shell_pair(libgrpp_shell_t *A, double alA, libgrpp_shell_t *B, double alB, double *C, double e, double *m) {
  ai_reach("analytic");
  ai_check(MODEL == LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE || MODEL == LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE_NUMERICAL, "analytic 1/r integral only for the point charge");
  ai_check(eq3(A->origin, PA) && eq3(B->origin, PB) && eq3(C, PC), "centres of the nuclear attraction integral");
  ai_check(e == 0.0, "bare Coulomb operator");
  emit(alA, A->cart_size, A->cart_list, alB, B->cart_size, B->cart_list, 1.0, m);
}
void harness(void) {
  sA = libgrpp_new_shell(PA, LA, NA, ca, aa); sB = libgrpp_new_shell(PB, LB, NB, cb, ab);
  int n = sA->cart_size * sB->cart_size;
  double *m = malloc(n * sizeof(double));
  for (int i = 0; i < n; i++) m[i] = 1e4 + i;
  int np = MODEL == LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL || MODEL == LIBGRPP_NUCLEAR_MODEL_GAUSSIAN ? 1 : MODEL == LIBGRPP_NUCLEAR_MODEL_FERMI ? 2 : MODEL == LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE ? 3 : 0;
#if CONV == 0
  double *params = np ? malloc(np * sizeof(double)) : NULL;
  for (int i = 0; i < np; i++) params[i] = prm(i);
  libgrpp_nuclear_attraction_integrals(sA, sB, PC, Q, MODEL, params, m);
#else
  if (MODEL == LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE) libgrpp_nuclear_attraction_integrals_point_charge(sA, sB, PC, Q, m);
  if (MODEL == LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL) libgrpp_nuclear_attraction_integrals_charged_ball(sA, sB, PC, Q, prm(0), m);
  if (MODEL == LIBGRPP_NUCLEAR_MODEL_GAUSSIAN) libgrpp_nuclear_attraction_integrals_gaussian_model(sA, sB, PC, Q, prm(0), m);
  if (MODEL == LIBGRPP_NUCLEAR_MODEL_FERMI) libgrpp_nuclear_attraction_integrals_fermi_model(sA, sB, PC, Q, prm(0), prm(1), m);
  if (MODEL == LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE) libgrpp_nuclear_attraction_integrals_fermi_bubble_model(sA, sB, PC, Q, prm(0), prm(1), prm(2), m);
#endif
  for (int i = 0; i < sA->cart_size; i++)
    for (int j = 0; j < sB->cart_size; j++) {
      double e = 0;
      for (int p = 0; p < NA; p++) for (int q = 0; q < NB; q++) e += -(double) Q * ca[p] * cb[q] * prim(p, q, sA->cart_list + 3 * i, sB->cart_list + 3 * j);
      ai_check_same(m[i * sB->cart_size + j], e, "matrix element is the contracted attraction by the full charge");
    }
  ai_reach("end");
}
