/* C09: every Fortran entry point is called with symbolic data; the C routine it must forward to is replaced by its
   specification: all arguments are compared with the caller's data and symbolic results are written to the outputs. */
#include "abs.h"
#include "libgrpp.h"
#ifndef VAR
#define VAR 0
#endif
#if VAR == 0
#define N0 2
#define N1 3
#define L0 1
#define L1 2
#elif VAR == 1
#define N0 3
#define N1 1
#define L0 3
#define L1 0
#else
#define N0 1
#define N1 4
#define L0 0
#define L1 4
#endif
/* caller's data: shells 0,1 (A,B), 2,3 (outercore); potentials 0,1 */
static int Ls[4] = {L0, L1, 3, 3}, Np[4] = {N0, N1, 2, 3};
static int pL[2] = {3, 3}, pJ[2] = {5, 7}, pn[2] = {3, 2}, pw[2][3] = {{0, 1, 2}, {2, 0, 0}};
static double so[4][3], sc[4][4], sa[4][4], pc[2][3], pa[2][3], C[3], D[3], prm[3], sx[4];
static int Z = 83, model = 3, calls = 0;
static double zero3[3];
enum { A_SO = 1000, A_SC = 1100, A_SA = 1200, A_PC = 1300, A_PA = 1400, A_C = 1500, A_D = 1510, A_PRM = 1520, A_SX = 1530, A_OUT = 5000 };

static double at(int id) {
  if (id >= A_SC && id < A_C) return ai_atom_in(id, 0.1, 10); /* coefficients and exponents: not zero */
  return ai_atom_in(id, -50, 50);
}
static void setup(void) {
  for (int s = 0; s < 4; s++) {
    for (int k = 0; k < 3; k++) so[s][k] = at(A_SO + 10 * s + k);
    for (int i = 0; i < 4; i++) { sc[s][i] = at(A_SC + 10 * s + i); sa[s][i] = at(A_SA + 10 * s + i); }
    sx[s] = at(A_SX + s);
  }
  for (int p = 0; p < 2; p++) for (int i = 0; i < 3; i++) { pc[p][i] = at(A_PC + 10 * p + i); pa[p][i] = at(A_PA + 10 * p + i); }
  for (int k = 0; k < 3; k++) { C[k] = at(A_C + k); D[k] = at(A_D + k); prm[k] = at(A_PRM + k); }
}
static void same(double v, int id, const char *s) { (void) s; ai_check_same(v, ai_atom_in(id, 0, 1), "argument or result does not carry the caller's datum"); }
static int single = 0; /* shells restricted to one Cartesian component */
static int sn[2][3] = {{2, 0, 1}, {0, 1, 3}};

static void chk_shell(libgrpp_shell_t *s, int w, int at_C) {
  if (single) {
    ai_check(s->cart_size == 1, "shell has the single component asked for");
    for (int k = 0; k < 3; k++) ai_check(s->cart_list[k] == sn[w][k], "Cartesian powers of the component");
    ai_check(s->L == sn[w][0] + sn[w][1] + sn[w][2], "angular momentum of the component");
  } else {
    ai_check(s->L == Ls[w], "angular momentum of the shell");
    ai_check(s->cart_size == (Ls[w] + 1) * (Ls[w] + 2) / 2, "number of Cartesian components");
    int *list = libgrpp_generate_shell_cartesians(Ls[w]);
    for (int i = 0; i < 3 * s->cart_size; i++) ai_check(s->cart_list[i] == list[i], "Cartesian components of the shell");
    free(list);
  }
  ai_check(s->num_primitives == Np[w], "number of primitives of the shell");
  for (int i = 0; i < Np[w]; i++) {
    same(s->coeffs[i], A_SC + 10 * w + i, "shell coefficient");
    same(s->alpha[i], A_SA + 10 * w + i, "shell exponent");
  }
#if PART == 8 /* any common origin will do */
  (void) at_C;
#else
  if (w < 2 || at_C) for (int k = 0; k < 3; k++) same(s->origin[k], w < 2 ? A_SO + 10 * w + k : A_C + k, "shell origin");
#endif
}
static void chk_pot(libgrpp_potential_t *p, int w, int useL, int useJ) {
  if (useL) ai_check(p->L == pL[w], "angular momentum of the potential");
  if (useJ) ai_check(p->J == pJ[w], "total angular momentum of the potential");
  ai_check(p->num_primitives == pn[w], "number of primitives of the potential");
  for (int i = 0; i < pn[w]; i++) {
    ai_check(p->powers[i] == pw[w][i], "powers of the potential");
    same(p->coeffs[i], A_PC + 10 * w + i, "potential coefficient");
    same(p->alpha[i], A_PA + 10 * w + i, "potential exponent");
  }
}
static void chk_point(double *p, int base) { for (int k = 0; k < 3; k++) same(p[k], base + k, "point"); }
static int size2(libgrpp_shell_t *A, libgrpp_shell_t *B) { return A->cart_size * B->cart_size; }
static void put(double *m, int n, int which) { for (int i = 0; i < n; i++) m[i] = ai_atom(A_OUT + 1000 * which + i); calls += which == 0; }
static void putg(double **g, int n, int first) { for (int k = 0; k < 3; k++) put(g[k], n, first + k); }
static void got(double *m, int n, int which) { for (int i = 0; i < n; i++) same(m[i], A_OUT + 1000 * which + i, "output"); }
static void ab(libgrpp_shell_t *A, libgrpp_shell_t *B) { chk_shell(A, 0, 0); chk_shell(B, 1, 0); }

/* ---- specifications of the C routines ---- */
void ai_stub_libgrpp_type1_integrals(libgrpp_shell_t *A, libgrpp_shell_t *B, double *c, libgrpp_potential_t *U, double *m) { ab(A, B); chk_point(c, A_C); chk_pot(U, 0, 0, 0); put(m, size2(A, B), 0); }
void ai_stub_libgrpp_type2_integrals(libgrpp_shell_t *A, libgrpp_shell_t *B, double *c, libgrpp_potential_t *U, double *m) { ab(A, B); chk_point(c, A_C); chk_pot(U, 0, 1, 0); put(m, size2(A, B), 0); }
void ai_stub_libgrpp_spin_orbit_integrals(libgrpp_shell_t *A, libgrpp_shell_t *B, double *c, libgrpp_potential_t *U, double *x, double *y, double *z) {
  ab(A, B); chk_point(c, A_C); chk_pot(U, 0, 1, 0); put(x, size2(A, B), 0); put(y, size2(A, B), 1); put(z, size2(A, B), 2); }
void ai_stub_libgrpp_outercore_potential_integrals_part_1(libgrpp_shell_t *A, libgrpp_shell_t *B, double *c, libgrpp_potential_t *U, libgrpp_shell_t *S, double *m, double *x, double *y, double *z) {
  ab(A, B); chk_point(c, A_C); chk_pot(U, 0, 1, 1); chk_shell(S, 2, 0);
  put(m, size2(A, B), 0); put(x, size2(A, B), 1); put(y, size2(A, B), 2); put(z, size2(A, B), 3); }
void ai_stub_libgrpp_outercore_potential_integrals_part_2(libgrpp_shell_t *A, libgrpp_shell_t *B, double *c, libgrpp_potential_t *U, libgrpp_shell_t *S, libgrpp_potential_t *V, libgrpp_shell_t *T, double *m, double *x, double *y, double *z) {
  ab(A, B); chk_point(c, A_C); chk_pot(U, 0, 1, 1); chk_shell(S, 2, 0); chk_pot(V, 1, 1, 1); chk_shell(T, 3, 0);
  put(m, size2(A, B), 0); put(x, size2(A, B), 1); put(y, size2(A, B), 2); put(z, size2(A, B), 3); }
void ai_stub_libgrpp_type1_integrals_gradient(libgrpp_shell_t *A, libgrpp_shell_t *B, double *c, libgrpp_potential_t *U, double *d, double **g) { ab(A, B); chk_point(c, A_C); chk_pot(U, 0, 0, 0); chk_point(d, A_D); putg(g, size2(A, B), 0); }
void ai_stub_libgrpp_type2_integrals_gradient(libgrpp_shell_t *A, libgrpp_shell_t *B, double *c, libgrpp_potential_t *U, double *d, double **g) { ab(A, B); chk_point(c, A_C); chk_pot(U, 0, 1, 0); chk_point(d, A_D); putg(g, size2(A, B), 0); }
void ai_stub_libgrpp_spin_orbit_integrals_gradient(libgrpp_shell_t *A, libgrpp_shell_t *B, double *c, libgrpp_potential_t *U, double *d, double **x, double **y, double **z) {
  ab(A, B); chk_point(c, A_C); chk_pot(U, 0, 1, 0); chk_point(d, A_D); putg(x, size2(A, B), 0); putg(y, size2(A, B), 3); putg(z, size2(A, B), 6); }
#if PART == 8
/* normalisation: the overlap of the first component of the contracted function with itself */
void ai_stub_libgrpp_overlap_integrals(libgrpp_shell_t *A, libgrpp_shell_t *B, double *m) {
  chk_shell(A, 0, 1); chk_shell(B, 0, 1); calls++;
  for (int k = 0; k < 3; k++) ai_check_same(A->origin[k], B->origin[k], "both functions sit at the same point");
  m[0] = 4.0; }
#else
void ai_stub_libgrpp_overlap_integrals(libgrpp_shell_t *A, libgrpp_shell_t *B, double *m) { ab(A, B); put(m, size2(A, B), 0); }
#endif
void ai_stub_libgrpp_kinetic_energy_integrals(libgrpp_shell_t *A, libgrpp_shell_t *B, double *m) { ab(A, B); put(m, size2(A, B), 0); }
void ai_stub_libgrpp_momentum_integrals(libgrpp_shell_t *A, libgrpp_shell_t *B, double *x, double *y, double *z) { ab(A, B); put(x, size2(A, B), 0); put(y, size2(A, B), 1); put(z, size2(A, B), 2); }
static void nuc(libgrpp_shell_t *A, libgrpp_shell_t *B, double *c, int q) { ab(A, B); chk_point(c, A_C); ai_check(q == Z, "charge"); }
void ai_stub_libgrpp_nuclear_attraction_integrals(libgrpp_shell_t *A, libgrpp_shell_t *B, double *c, int q, int mod, double *p, double *m) {
  nuc(A, B, c, q); ai_check(mod == model, "nuclear model"); chk_point(p, A_PRM); put(m, size2(A, B), 0); }
void ai_stub_libgrpp_nuclear_attraction_integrals_point_charge(libgrpp_shell_t *A, libgrpp_shell_t *B, double *c, int q, double *m) { nuc(A, B, c, q); put(m, size2(A, B), 0); }
void ai_stub_libgrpp_nuclear_attraction_integrals_charged_ball(libgrpp_shell_t *A, libgrpp_shell_t *B, double *c, int q, double r, double *m) { nuc(A, B, c, q); same(r, A_PRM, "radius"); put(m, size2(A, B), 0); }
void ai_stub_libgrpp_nuclear_attraction_integrals_gaussian_model(libgrpp_shell_t *A, libgrpp_shell_t *B, double *c, int q, double r, double *m) { nuc(A, B, c, q); same(r, A_PRM, "radius"); put(m, size2(A, B), 0); }
void ai_stub_libgrpp_nuclear_attraction_integrals_fermi_model(libgrpp_shell_t *A, libgrpp_shell_t *B, double *c, int q, double p0, double p1, double *m) { nuc(A, B, c, q); same(p0, A_PRM, "c"); same(p1, A_PRM + 1, "a"); put(m, size2(A, B), 0); }
void ai_stub_libgrpp_nuclear_attraction_integrals_fermi_bubble_model(libgrpp_shell_t *A, libgrpp_shell_t *B, double *c, int q, double p0, double p1, double p2, double *m) {
  nuc(A, B, c, q); same(p0, A_PRM, "c"); same(p1, A_PRM + 1, "a"); same(p2, A_PRM + 2, "k"); put(m, size2(A, B), 0); }
static double out0(void) { double v; put(&v, 1, 0); return v; }
double ai_stub_libgrpp_estimate_nuclear_rms_radius_johnson_1985(int A) { ai_check(A == 209, "mass number"); return out0(); }
double ai_stub_libgrpp_estimate_nuclear_rms_radius_golovko_2008(int A) { ai_check(A == 209, "mass number"); return out0(); }
int ai_stub_libgrpp_estimate_fermi_model_parameters(double R, double *c, double *a) { same(R, A_SX, "R"); put(c, 1, 0); put(a, 1, 1); return 7; }
#define F3(n) double ai_stub_libgrpp_##n(double r, double z, double p) { same(r, A_SX, "r"); same(z, A_SX + 1, "Z"); same(p, A_PRM, "R"); return out0(); }
#define F4(n) double ai_stub_libgrpp_##n(double r, double z, double c, double a) { same(r, A_SX, "r"); same(z, A_SX + 1, "Z"); same(c, A_PRM, "c"); same(a, A_PRM + 1, "a"); return out0(); }
#define F5(n) double ai_stub_libgrpp_##n(double r, double z, double c, double a, double k) { same(r, A_SX, "r"); same(z, A_SX + 1, "Z"); same(c, A_PRM, "c"); same(a, A_PRM + 1, "a"); same(k, A_PRM + 2, "k"); return out0(); }
F3(charge_density_ball) F3(charge_density_gaussian) F4(charge_density_fermi) F5(charge_density_fermi_bubble)
F3(coulomb_potential_ball) F3(coulomb_potential_gaussian) F4(coulomb_potential_fermi) F5(coulomb_potential_fermi_bubble)
double ai_stub_libgrpp_coulomb_potential_point(double r, double z) { same(r, A_SX, "r"); same(z, A_SX + 1, "Z"); return out0(); }
double ai_stub_libgrpp_rms_radius_fermi(int z, double c, double a) { ai_check(z == Z, "charge"); same(c, A_PRM, "c"); same(a, A_PRM + 1, "a"); return out0(); }
double ai_stub_libgrpp_rms_radius_fermi_bubble(int z, double c, double a, double k) { ai_check(z == Z, "charge"); same(c, A_PRM, "c"); same(a, A_PRM + 1, "a"); same(k, A_PRM + 2, "k"); return out0(); }
void ai_stub_libgrpp_set_default_parameters() { calls++; }
void ai_stub_libgrpp_set_radial_tolerance(double t) { same(t, A_SX, "tolerance"); calls++; }
void ai_stub_libgrpp_set_angular_screening_tolerance(double t) { same(t, A_SX, "tolerance"); calls++; }
void ai_stub_libgrpp_set_modified_bessel_tolerance(double t) { same(t, A_SX, "tolerance"); calls++; }
void ai_stub_libgrpp_set_cartesian_order(int o) { ai_check(o == 1, "order"); calls++; }
void ai_stub_libgrpp_init() { calls++; }
void ai_stub_libgrpp_finalize() { calls++; }

/* ---- the entry points (old-style declarations: the argument lists are those of the Fortran interface) ---- */
#define E(f) void f();
E(libgrpp_set_default_parameters_) E(libgrpp_set_radial_tolerance_) E(libgrpp_set_angular_screening_tolerance_) E(libgrpp_set_modified_bessel_tolerance_)
E(libgrpp_set_cartesian_order_) E(libgrpp_init_) E(libgrpp_finalize_) E(libgrpp_type1_integrals_) E(libgrpp_type2_integrals_) E(libgrpp_spin_orbit_integrals_)
E(libgrpp_outercore_potential_integrals_part_1_) E(libgrpp_outercore_potential_integrals_part_2_) E(libgrpp_type1_integrals_gradient_) E(libgrpp_type2_integrals_gradient_)
E(libgrpp_spin_orbit_integrals_gradient_) E(evaluate_overlap_integral_contracted_) E(radial_gto_norm_factor_) E(libgrpp_overlap_integrals_) E(libgrpp_kinetic_energy_integrals_)
E(libgrpp_momentum_integrals_) E(libgrpp_nuclear_attraction_integrals_) E(libgrpp_nuclear_attraction_integrals_point_charge_) E(libgrpp_nuclear_attraction_integrals_charged_ball_)
E(libgrpp_nuclear_attraction_integrals_gaussian_model_) E(libgrpp_nuclear_attraction_integrals_fermi_model_) E(libgrpp_nuclear_attraction_integrals_fermi_bubble_model_)
E(libgrpp_estimate_nuclear_rms_radius_johnson_1985_) E(libgrpp_estimate_nuclear_rms_radius_golovko_2008_) E(libgrpp_estimate_fermi_model_parameters_) E(libgrpp_charge_density_ball_)
E(libgrpp_charge_density_gaussian_) E(libgrpp_charge_density_fermi_) E(libgrpp_charge_density_fermi_bubble_) E(libgrpp_coulomb_potential_point_) E(libgrpp_coulomb_potential_ball_)
E(libgrpp_coulomb_potential_gaussian_) E(libgrpp_coulomb_potential_fermi_) E(libgrpp_coulomb_potential_fermi_bubble_) E(libgrpp_rms_radius_fermi_) E(libgrpp_rms_radius_fermi_bubble_)

#define SH(w) so[w], &Ls[w], &Np[w], sc[w], sa[w]
#define SHELLS SH(0), SH(1)
#define POTL(w) &pL[w], &pn[w], pw[w], pc[w], pa[w]

void harness(void) {
  double m[9][400];
  int err = -1, mass = 209, one = 1, n = ((L0 + 1) * (L0 + 2) / 2) * ((L1 + 1) * (L1 + 2) / 2), want = 1, outs = 0;
  setup();
  ai_track_heap(1);
#if PART == 0
  libgrpp_type1_integrals_(SHELLS, C, &pn[0], pw[0], pc[0], pa[0], m[0]); outs = 1;
#elif PART == 1
  libgrpp_type2_integrals_(SHELLS, C, POTL(0), m[0]); outs = 1;
#elif PART == 2
  libgrpp_spin_orbit_integrals_(SHELLS, C, POTL(0), m[0], m[1], m[2]); outs = 3;
#elif PART == 3
  libgrpp_outercore_potential_integrals_part_1_(SHELLS, C, &pL[0], &pJ[0], &pn[0], pw[0], pc[0], pa[0], &Np[2], sc[2], sa[2], m[0], m[1], m[2], m[3]); outs = 4;
#elif PART == 4
  libgrpp_outercore_potential_integrals_part_2_(SHELLS, C, &pL[0], &pJ[0], &pn[0], pw[0], pc[0], pa[0], &Np[2], sc[2], sa[2],
    &pL[1], &pJ[1], &pn[1], pw[1], pc[1], pa[1], &Np[3], sc[3], sa[3], m[0], m[1], m[2], m[3]); outs = 4;
#elif PART == 5
  libgrpp_type1_integrals_gradient_(SHELLS, C, &pn[0], pw[0], pc[0], pa[0], D, m[0], m[1], m[2]); outs = 3;
#elif PART == 6
  libgrpp_type2_integrals_gradient_(SHELLS, C, POTL(0), D, m[0], m[1], m[2]); outs = 3;
#elif PART == 7
  libgrpp_spin_orbit_integrals_gradient_(SHELLS, C, POTL(0), D, m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]); outs = 9;
#elif PART == 8
  /* (L,0,0) overlap with itself is 4: the factor is sqrt((2L-1)!!)/2 */
  single = 1;
  sn[0][0] = Ls[0]; sn[0][1] = sn[0][2] = 0;
  libgrpp_shell_t dummy; (void) dummy;
  radial_gto_norm_factor_(&Ls[0], &Np[0], sc[0], sa[0], m[0]);
  double expect = L0 == 0 || L0 == 1 ? 0.5 : L0 == 3 ? 1.9364916731037085 : 0;
  ai_check(m[0][0] > expect - 1e-12 && m[0][0] < expect + 1e-12, "radial_gto_norm_factor_ returns sqrt((2L-1)!!) divided by the root of the overlap");
#elif PART == 9
  single = 1;
  evaluate_overlap_integral_contracted_(so[0], &sn[0][0], &sn[0][1], &sn[0][2], &Np[0], sc[0], sa[0], so[1], &sn[1][0], &sn[1][1], &sn[1][2], &Np[1], sc[1], sa[1], m[0]);
  outs = 1; n = 1;
#elif PART == 10
  libgrpp_overlap_integrals_(SHELLS, m[0]); outs = 1;
#elif PART == 11
  libgrpp_kinetic_energy_integrals_(SHELLS, m[0]); outs = 1;
#elif PART == 12
  libgrpp_momentum_integrals_(SHELLS, m[0], m[1], m[2]); outs = 3;
#elif PART == 13
  libgrpp_nuclear_attraction_integrals_(SHELLS, C, &Z, &model, prm, m[0]); outs = 1;
#elif PART == 14
  libgrpp_nuclear_attraction_integrals_point_charge_(SHELLS, C, &Z, m[0]); outs = 1;
#elif PART == 15
  libgrpp_nuclear_attraction_integrals_charged_ball_(SHELLS, C, &Z, &prm[0], m[0]); outs = 1;
#elif PART == 16
  libgrpp_nuclear_attraction_integrals_gaussian_model_(SHELLS, C, &Z, &prm[0], m[0]); outs = 1;
#elif PART == 17
  libgrpp_nuclear_attraction_integrals_fermi_model_(SHELLS, C, &Z, &prm[0], &prm[1], m[0]); outs = 1;
#elif PART == 18
  libgrpp_nuclear_attraction_integrals_fermi_bubble_model_(SHELLS, C, &Z, &prm[0], &prm[1], &prm[2], m[0]); outs = 1;
#else
  n = 1; outs = 1;
#if PART == 19
  libgrpp_estimate_nuclear_rms_radius_johnson_1985_(&mass, m[0]);
#elif PART == 20
  libgrpp_estimate_nuclear_rms_radius_golovko_2008_(&mass, m[0]);
#elif PART == 21
  libgrpp_estimate_fermi_model_parameters_(&sx[0], m[0], m[1], &err); outs = 2;
  ai_check(err == 7, "the error code is returned");
#elif PART == 22
  libgrpp_charge_density_ball_(&sx[0], &sx[1], &prm[0], m[0]);
#elif PART == 23
  libgrpp_charge_density_gaussian_(&sx[0], &sx[1], &prm[0], m[0]);
#elif PART == 24
  libgrpp_charge_density_fermi_(&sx[0], &sx[1], &prm[0], &prm[1], m[0]);
#elif PART == 25
  libgrpp_charge_density_fermi_bubble_(&sx[0], &sx[1], &prm[0], &prm[1], &prm[2], m[0]);
#elif PART == 26
  libgrpp_coulomb_potential_point_(&sx[0], &sx[1], m[0]);
#elif PART == 27
  libgrpp_coulomb_potential_ball_(&sx[0], &sx[1], &prm[0], m[0]);
#elif PART == 28
  libgrpp_coulomb_potential_gaussian_(&sx[0], &sx[1], &prm[0], m[0]);
#elif PART == 29
  libgrpp_coulomb_potential_fermi_(&sx[0], &sx[1], &prm[0], &prm[1], m[0]);
#elif PART == 30
  libgrpp_coulomb_potential_fermi_bubble_(&sx[0], &sx[1], &prm[0], &prm[1], &prm[2], m[0]);
#elif PART == 31
  libgrpp_rms_radius_fermi_(&Z, &prm[0], &prm[1], m[0]);
#elif PART == 32
  libgrpp_rms_radius_fermi_bubble_(&Z, &prm[0], &prm[1], &prm[2], m[0]);
#else
  outs = 0;
#if PART == 33
  libgrpp_set_default_parameters_();
#elif PART == 34
  libgrpp_set_radial_tolerance_(&sx[0]);
#elif PART == 35
  libgrpp_set_angular_screening_tolerance_(&sx[0]);
#elif PART == 36
  libgrpp_set_modified_bessel_tolerance_(&sx[0]);
#elif PART == 37
  libgrpp_set_cartesian_order_(&one);
#elif PART == 38
  libgrpp_init_();
#elif PART == 39
  libgrpp_finalize_();
#endif
#endif
#endif
  ai_check(calls == want, "the C routine is called exactly once");
  for (int k = 0; k < outs; k++) got(m[k], n, k);
  (void) err; (void) mass; (void) one; (void) zero3;
  ai_check_leaks("entry point");
  ai_reach("end");
}
