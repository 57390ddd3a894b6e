/* C30: nuclear charge models obey electrostatics.  The densities are integrated analytically here (complete Fermi integrals
   expressed through S_k), independently of the closed forms in the library.
   SYM 0: the charge is a symbol;  SYM 1: the functions S_k((r-c)/a), k = 2..5, are independent symbols.
   S_k(-c/a) are arbitrary numbers (set SET): normalisation, radii and potentials must depend on them consistently. */
#include "abs.h"
#include "libgrpp.h"
#include "nuclear_models.h"
#include <math.h>
#ifndef SYM
#define SYM 0
#endif
#ifndef SET
#define SET 0
#endif
#ifndef FN
#define FN 0
#endif
#ifndef RR
#define RR 1.3
#endif
#ifndef CC
#define CC 0.9
#endif
#ifndef AA
#define AA 0.25
#endif
#ifndef KK
#define KK 0.3
#endif
#ifndef QQ
#define QQ 7.0
#endif
#define PI 3.14159265358979323846
static const double r = RR, c = CC, a = AA, k = KK;
static int used;
static double ipow(double x, int n) { double p = 1; for (int i = 0; i < n; i++) p *= x; return p; }
static const double eta[8] = {0.5, 0.69314718055994530942, 0.82246703342411321824, 0.90154267736969571405, 0.94703282949724591758, 0.97211977044690930594, 0.98555109129743510410, 0.99259381992283028267};
static double S0(int n) { return SET == 0 ? -0.01 / (1 + n) : SET == 1 ? 0.07 - 0.013 * n * n : 0.0; }        /* S_n(-c/a) */
static double Sx(int n) {                                                                                     /* S_n(-|r-c|/a) */
  if (n < 2) return 0;            /* cancels in every quantity below */
  if (r == c) return -eta[n];
  return SYM == 1 ? ai_atom_in(100 + n, -1.0, 0.0) : -0.3 / (2 + n);
}
double ai_stub_specfunc_fermi_sk(int n, double x) {
  used++;
  double x1 = r < c ? (r - c) / a : (c - r) / a;
  ai_reach("sk");
  if (fabs(x + c / a) < 1e-9 * (1 + c / a)) return S0(n);
  if (fabs(x - x1) < 1e-9 * (1 - x1)) return Sx(n);
  ai_check(0, "S_k is needed at -c/a and at the distance from the half-density radius only");
  return 0;
}
double ai_stub_erf(double x) {
  double xi = sqrt(1.5) / CC * r;
  ai_check_close(x, xi, 1e-11 * (1 + xi), "argument of the error function in the Gaussian model is r sqrt(3/2) / R");
  ai_reach("erf");
  return SYM == 1 ? ai_atom_in(300, 0.0, 1.0) : 0.37;
}
static double fall(int n, int i) { double f = 1; for (int j = 0; j < i; j++) f *= n - j; return f; }
/* moments of 1/(1+exp((s-c)/a)) */
static double J(int n, int atc) { double s = 0, x = atc ? c : r; for (int i = 0; i <= n; i++) { if (atc ? 0 : i < 1) continue; s = s - fall(n, i) * ipow(x, n - i) * ipow(a, i + 1) * (atc ? -eta[i + 1] : Sx(i + 1)); } return s; }
static double K(int n, int atc) {
  double s = ipow(atc ? c : r, n + 1) / (n + 1), x = atc ? c : r;
  for (int i = 0; i <= n; i++) { if (!atc && i < 1) continue; s = s + (i % 2 ? -1 : 1) * fall(n, i) * ipow(x, n - i) * ipow(a, i + 1) * (atc ? -eta[i + 1] : Sx(i + 1)); }
  return s - (n % 2 ? -1 : 1) * fall(n, n) * ipow(a, n + 1) * S0(n + 1);
}
static double I(int n) { return K(n, 1) + J(n, 1); }                 /* 0 .. infinity */
static double in(int n) { return r < c ? K(n, 0) : I(n) - J(n, 0); } /* 0 .. r */
static double out(int n) { return r < c ? I(n) - K(n, 0) : J(n, 0); }
static double Zs(void) { return SYM == 0 ? ai_atom_in(1, 1.0, 120.0) : QQ; }
void harness(void) {
  double Z = Zs();
#if FN == 0
  ai_check_same(libgrpp_coulomb_potential_point(r, Z), -Z * (1.0 / r), "potential of a point charge is -Z/r");
#elif FN == 1
  double R0 = sqrt(5.0 / 3.0) * CC, f = r <= R0 ? -(1.5 - 0.5 * r * r / (R0 * R0)) / R0 : -1.0 / r;
  ai_check_same(libgrpp_coulomb_potential_ball(r, Z, CC), Z * f, "potential of a charged ball: that of a constant density inside, -Z/r outside");
  ai_check_same(libgrpp_charge_density_ball(r, Z, CC), r < R0 ? Z * (3.0 / (4.0 * PI * R0 * R0 * R0)) : 0.0 * Z, "density of a charged ball is normalised to the charge");
#elif FN == 2
  double e = SYM == 1 ? ai_atom_in(300, 0.0, 1.0) : 0.37;
  ai_check_same(libgrpp_coulomb_potential_gaussian(r, Z, CC), SYM == 1 ? e * (-QQ / r) : Z * (-0.37 / r), "potential of the Gaussian model is -Z erf(r sqrt(3/2)/R)/r");
  if (SYM == 0) ai_check_same(libgrpp_charge_density_gaussian(r, Z, CC), Z * (ipow(sqrt(1.5 / PI) / CC, 3) * exp(-1.5 * r * r / (CC * CC))), "density of the Gaussian model is normalised and has the given rms radius");
#elif FN == 3
  double v = (in(2) * (1 / r) + out(1)) * (1 / I(2)), v0 = 0;
  ai_check_same(libgrpp_coulomb_potential_fermi(r, Z, c, a), SYM == 1 ? v * (-QQ) : Z * (0 - v), "potential of the Fermi model is the electrostatic potential of its density");
  if (SYM == 0) ai_check_same(libgrpp_charge_density_fermi(r, Z, c, a), Z * (1 / (4 * PI * I(2)) / (1 + exp((r - c) / a))), "density of the Fermi model is normalised to the charge");
  ai_check_close(libgrpp_rms_radius_fermi(23, c, a), sqrt(I(4) / I(2)), 1e-9 * (c + a), "rms radius of the Fermi model is that of its density");
#elif FN == 4
  double k2 = k / (c * c), n = I(2) + k2 * I(4);
  double v = ((in(2) + k2 * in(4)) * (1 / r) + (out(1) + k2 * out(3))) * (1 / n);
  ai_check_same(libgrpp_coulomb_potential_fermi_bubble(r, Z, c, a, k), SYM == 1 ? v * (-QQ) : Z * (0 - v), "potential of the Fermi bubble model is the electrostatic potential of its density");
  if (SYM == 0) ai_check_same(libgrpp_charge_density_fermi_bubble(r, Z, c, a, k), Z * ((1 + k2 * r * r) / (4 * PI * n) / (1 + exp((r - c) / a))), "density of the Fermi bubble model is normalised to the charge");
  ai_check_close(libgrpp_rms_radius_fermi_bubble(23, c, a, k), sqrt((I(4) + k2 * I(6)) / n), 1e-9 * (c + a), "rms radius of the Fermi bubble model is that of its density");
#elif FN == 5
  double cc = -1, ta = -1;
  int rc = libgrpp_estimate_fermi_model_parameters(CC, &cc, &ta);
  double a0 = 2.3 / (4 * log(3.0)), c2 = 5.0 / 3.0 * CC * CC - 7.0 / 3.0 * PI * PI * a0 * a0;
  if (c2 > 0) {
    ai_check(rc == 1, "parameters of the Fermi model can be estimated for this radius");
    ai_check_close(ta, a0, 1e-11, "skin thickness of 2.3 fm");
    ai_check_close(cc, sqrt(c2), 1e-10, "half-density radius reproduces the rms radius");
  } else ai_check(rc == -1, "impossible estimate of Fermi model parameters is reported");
  int A = (int) QQ;
  ai_check_close(libgrpp_estimate_nuclear_rms_radius_johnson_1985(A), 0.836 * pow(A, 1.0 / 3.0) + 0.570, 1e-11, "radius estimate of Johnson and Soff");
  ai_check_close(libgrpp_estimate_nuclear_rms_radius_golovko_2008(A), 0.77 * pow(A, 1.0 / 3.0) + 0.98, 1e-11, "radius estimate of Golovko et al");
#endif
  ai_reach("end");
}
