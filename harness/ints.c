/* Generic analysis harness: builds abstract shells / potentials of a given shape through the public API, calls one
   public integral routine and states the obligations on its outputs.  Compiled to LLVM IR and abstractly interpreted
   by engine/absint; never executed.  Shape and mode are chosen by -D macros. */
#include "abs.h"
#include "libgrpp.h"
#include "overlap.h"
#include "overlap_gradient.h"
#include "kinetic.h"
#include "momentum.h"
#include "parameters.h"

/* routines */
#define OVL 1
#define KIN 2
#define MOM 3
#define T1 4
#define T2 5
#define SO 6
#define OC 7
#define FULL 8
#define NUC 9      /* generic nuclear attraction, model MODEL */
#define NUCW 10    /* convenience wrapper of model MODEL */
#define OVLG 21
#define T1G 24
#define T2G 25
#define SOG 26
#define OCG 27
#define FULLG 28

#ifndef LA
#define LA 0
#endif
#ifndef LB
#define LB 0
#endif
#ifndef LU
#define LU 0
#endif
#ifndef NPA
#define NPA 1
#endif
#ifndef NPB
#define NPB 1
#endif
#ifndef NPU
#define NPU 1
#endif
#ifndef PW
#define PW 2
#endif
#ifndef NOC
#define NOC 1
#endif
#ifndef LOC
#define LOC 0
#endif
#ifndef NAR
#define NAR 1
#endif
#ifndef NSO
#define NSO 1
#endif
#ifndef MODEL
#define MODEL 0
#endif
#ifndef ORDER
#define ORDER 0
#endif
/* geometry: equality classes of A, B, C, D (differentiation point) */
#ifndef PA
#define PA 0
#endif
#ifndef PB
#define PB 1
#endif
#ifndef PC
#define PC 2
#endif
#ifndef PD
#define PD PA
#endif
/* SHARED: number of trailing coordinates common to all centres; ORIG: class 0 sits at the origin */
#ifndef SHARED
#define SHARED 0
#endif
#ifndef ORIG
#define ORIG 0
#endif
/* CONC: concrete coordinates (needed to decide coincidence tests); CX: concrete exponents */
#ifndef CONC
#define CONC 0
#endif
#ifndef CX
#define CX 0
#endif
/* COEF: 0 positive [0.1,10]; 1 any sign incl. zero; 2 all zero; 3 negative */
#ifndef COEF
#define COEF 0
#endif
#ifndef COEFB
#define COEFB COEF
#endif
#ifndef ONLYA
#define ONLYA -1
#endif
#ifndef ONLYB
#define ONLYB -1
#endif
#ifndef UCOEF
#define UCOEF COEF
#endif
/* obligations */
#ifndef GRADE
#define GRADE 0
#endif
#ifndef TRANS
#define TRANS 0
#endif
#ifndef TAINT
#define TAINT 0
#endif
#ifndef MEM
#define MEM 0
#endif
#ifndef RSHMAX
#define RSHMAX 10
#endif

extern double bessel_table[][60][10];
void create_real_spherical_harmonic_coeffs_tables(int);
#if !defined(REALINIT)
void ai_stub_create_real_spherical_harmonic_coeffs_tables(int L) { create_real_spherical_harmonic_coeffs_tables(L < RSHMAX ? L : RSHMAX); }
void ai_stub_pretabulate_bessel() { ai_fill((double *) bessel_table, 2000L * 600, ai_real(-1, 1)); }
#endif

/* ---- taint labels (bit numbers) ---- */
#define TL_A 0      /* +k coordinate of A */
#define TL_B 3
#define TL_C 6
#define TL_ALA 9    /* +i exponent of A, up to 4 primitives */
#define TL_CFA 13
#define TL_ALB 17
#define TL_CFB 21
#define TL_ALU 25
#define TL_CFU 29
#define TL_PWU 33
#define TL_J 37
#define TL_CHG 38
#define TL_PAR 39   /* +0..2 nuclear model parameters */
#define TL_OCAL 42  /* +i outercore exponents */
#define TL_OCCF 46
#define TL_OCO 50   /* origins stored in the outercore shells: irrelevant, the operator sits on C */
#define TL_LU 53
#define TL_OUT 63

static double tv(double v, int label) {
#if TAINT
  return ai_taint(v, label);
#else
  return v;
#endif
}
/* GRADE: 1 physical length dimension, 2 mirror parity, 3 degree in the coefficients */
static double dimv(double v, double l, double a, double b, double u, double o) {
#if GRADE == 1
  return ai_dim(v, l, 0, 0, 0, 0, 0, 0, 0);
#elif GRADE == 3
  return ai_dim(v, 0, a, b, u, 0, o, 0, 0);
#else
  return v;
#endif
}
static const double PTS[4][3] = {{0.3, -0.7, 1.1}, {-0.5, 0.4, 0.9}, {0.8, 1.3, -0.2}, {1.7, -1.9, 0.6}};
static double coord(int cls, int k, int label) {
  double v;
#if CONC
  v = (k >= 3 - SHARED) ? PTS[0][k] : PTS[cls][k];
  if (ORIG) v = (cls == 0 || k >= 3 - SHARED) ? 0.0 : PTS[cls][k];
#else
  v = ai_real(-10, 10);
#endif
#if GRADE == 1
  v = ai_dim(v, 1, 0, 0, 0, 0, 0, 0, 0);
#elif GRADE == 2
  v = ai_par(v, 1 << k);
#endif
#if TRANS
  v = ai_shift(v, k == 0 ? 1.0 : k == 1 ? 2.0 : 5.0);
#endif
  return tv(v, label + k);
}
static double coefv(int kind, int i) {
  switch (kind) {
    case 0: return ai_real(0.1, 10);
    case 1: return ai_real(-10, 10);
    case 2: return 0.0;
    case 3: return ai_real(-10, -0.1);
    case 4: return i == 0 ? 0.0 : ai_real(0.1, 10);
    case 6: return i % 2 ? ai_real(-1e-2, -1e-3) : ai_real(1, 10);
    case 7: return i % 2 ? ai_real(1e-3, 1e-2) : ai_real(-10, -1);
    default: return 0.5 + 0.25 * i;
  }
}
static double expv(int who, int i) {
#if CX
  return 0.8 + 0.45 * who + 0.7 * i;
#else
  return ai_real(0.01, 1000);
#endif
}
static void point(double *o, int cls, int label) { for (int k = 0; k < 3; k++) o[k] = coord(cls, k, label); }

static int lab_step = 1, lab_off = 0; /* outercore data are labelled per projector, other data per primitive */
static libgrpp_shell_t *mkshell(int L, int np, int who, int cls) {
  double o[3], c[8], a[8];
  int lo = who == 0 ? TL_A : who == 1 ? TL_B : TL_OCO;
  int la = who == 0 ? TL_ALA : who == 1 ? TL_ALB : TL_OCAL;
  int lc = who == 0 ? TL_CFA : who == 1 ? TL_CFB : TL_OCCF;
  point(o, cls, lo);
  for (int i = 0; i < np; i++) {
    double ci = coefv(who == 1 ? COEFB : COEF, i);
    /* ONLYA, ONLYB: all other primitives have vanishing coefficients */
    if ((who == 0 && ONLYA >= 0 && i != ONLYA) || (who == 1 && ONLYB >= 0 && i != ONLYB)) ci = 0.0;
    c[i] = tv(dimv(ci, 0, who == 0, who == 1, 0, 0), lc + (who == 2 ? lab_off + lab_step * i : i));
    a[i] = tv(dimv(expv(who, i), -2, 0, 0, 0, 0), la + (who == 2 ? lab_off + lab_step * i : i));
  }
  return libgrpp_new_shell(o, L, np, c, a);
}
static libgrpp_potential_t *mkpot(int L, int J, int pw, int np) {
  double c[8], a[8];
  int p[8];
  for (int i = 0; i < np; i++) {
#ifdef MIXPW
    int q = i % 3;
#else
    int q = pw;
#endif
#if TAINT
    p[i] = ai_itaint(q, TL_PWU + lab_off + lab_step * i);
#else
    p[i] = q;
#endif
    c[i] = tv(dimv(coefv(UCOEF, i), -(q - 2), 0, 0, 1, 0), TL_CFU + lab_off + lab_step * i);
    a[i] = tv(dimv(expv(3, i), -2, 0, 0, 0, 0), TL_ALU + lab_off + lab_step * i);
  }
#if TAINT
  J = ai_itaint(J, TL_J);
#endif
  return libgrpp_new_potential(L, J, np, p, c, a);
}

static double *mat(int n) { return malloc(n * sizeof(double)); }
static double **gmat(int n) {
  double **g = malloc(3 * sizeof(double *));
  for (int k = 0; k < 3; k++) g[k] = mat(n);
  return g;
}

#ifndef WANT
#define WANT 0
#endif
static const int axial[4] = {0, 6, 5, 3};

/* obligations on one output matrix; dl = length dimension, ax = extra parity of the operator component */
static void obl(double *m, libgrpp_shell_t *A, libgrpp_shell_t *B, double dl, int ax, int nU, int nO, const char *s) {
  int n = A->cart_size * B->cart_size;
  for (int i = 0; i < n; i++) {
    int a = i / B->cart_size, b = i % B->cart_size, par = ax;
    for (int k = 0; k < 3; k++) par ^= ((A->cart_list[3 * a + k] + B->cart_list[3 * b + k]) & 1) << k;
    (void) par;
#if GRADE == 1
    ai_check_dim(m[i], dl, 0, 0, 0, 0, 0, 0, 0, s);
#elif GRADE == 2
    ai_check_par(m[i], par, s);
#elif GRADE == 3
    ai_check_dim(m[i], 0, 1, 1, nU, 0, nO, 0, 0, s);
#endif
#if TRANS
    ai_check_shift0(m[i], s);
#endif
#if TAINT
#ifdef WANTMASK
    ai_check_has(m[i], WANTMASK, s);
#endif
#ifdef NOTMASK
    ai_check_not(m[i], NOTMASK, s);
#endif
#endif
#if MEM
    ai_check_init(m[i], s);
#endif
  }
}
static void oblg(double **g, libgrpp_shell_t *A, libgrpp_shell_t *B, double dl, int ax, int nU, int nO, const char *s) {
  for (int k = 0; k < 3; k++) obl(g[k], A, B, dl - 1, ax ^ (1 << k), nU, nO, s);
}

#if ORDER >= 2
/* a user-supplied order: the reverse of the default one */
static int user_generator(int L, int *list) {
  int count = 0;
  for (int r = 0; r <= L; r++)
    for (int s = 0; s <= L - r; s++) {
      list[3 * count] = r; list[3 * count + 1] = s; list[3 * count + 2] = L - r - s;
      count++;
    }
  return count;
}
#endif

void harness(void) {
  libgrpp_init();
#if ORDER == 2 || ORDER == 3
  libgrpp_set_cartesian_generator(user_generator);
#elif ORDER == 4
  libgrpp_set_cartesian_order(0);
#else
  libgrpp_set_cartesian_order(ORDER);
#endif
#if GRADE == 1
  ai_map_literals(1);
#endif
#if MEM
  ai_track_heap(1);
#endif
  double c[3], d[3];
  point(c, PC, TL_C);
  (void) d;
  libgrpp_shell_t *A = mkshell(LA, NPA, 0, PA);
  /* ORDER 3, 4: the order is changed between the two shells, whose lists then differ */
#if ORDER == 3
  libgrpp_set_cartesian_order(0);
#elif ORDER == 4
  libgrpp_set_cartesian_generator(user_generator);
#endif
  libgrpp_shell_t *B = mkshell(LB, NPB, 1, PB);
#ifdef TRUNC
  /* high angular momenta: only TRUNC components of each list (first, last, one in between) are integrated */
  libgrpp_shell_t *AB[2] = {A, B};
  for (int w = 0; w < 2; w++) {
    int l = AB[w]->L, sz = AB[w]->cart_size, pick[4] = {0, sz - 1, sz / 2, sz / 3};
    int keep[12];
    for (int q = 0; q < TRUNC; q++) for (int k = 0; k < 3; k++) keep[3 * q + k] = AB[w]->cart_list[3 * pick[q] + k];
    if (l > 0) { AB[w]->cart_size = TRUNC; for (int q = 0; q < 3 * TRUNC; q++) AB[w]->cart_list[q] = keep[q]; }
  }
#endif
  int n = libgrpp_get_shell_size(A) * libgrpp_get_shell_size(B);
  double *m = mat(n), *mx = mat(n), *my = mat(n), *mz = mat(n);
  double **g = gmat(n), **gx = gmat(n), **gy = gmat(n), **gz = gmat(n);

#if API == OVL
  libgrpp_overlap_integrals(A, B, m);
  obl(m, A, B, 0, 0, 0, 0, "overlap");
#elif API == KIN
  libgrpp_kinetic_energy_integrals(A, B, m);
  obl(m, A, B, -2, 0, 0, 0, "kinetic energy");
#elif API == MOM
  libgrpp_momentum_integrals(A, B, mx, my, mz);
  obl(mx, A, B, -1, 1, 0, 0, "momentum x");
  obl(my, A, B, -1, 2, 0, 0, "momentum y");
  obl(mz, A, B, -1, 4, 0, 0, "momentum z");
#elif API == OVLG
#if CONC
  point(d, PD, TL_A);
#else
  for (int k = 0; k < 3; k++) d[k] = A->origin[k];
#endif
  libgrpp_overlap_integrals_gradient(A, B, d, g);
  oblg(g, A, B, 0, 0, 0, 0, "overlap gradient");
#elif API == NUC || API == NUCW
  int Z = 7;
#if TAINT
  Z = ai_itaint(Z, TL_CHG);
#endif
  double p0 = tv(dimv(ai_real(1e-6, 1e-3), 1, 0, 0, 0, 0), TL_PAR), p1 = tv(dimv(ai_real(1e-6, 1e-3), 1, 0, 0, 0, 0), TL_PAR + 1),
         p2 = tv(ai_real(0.1, 2), TL_PAR + 2);
#if API == NUC
  double prm[3];
  prm[0] = p0; prm[1] = p1; prm[2] = p2;
  libgrpp_nuclear_attraction_integrals(A, B, c, Z, MODEL, prm, m);
#elif MODEL == 0
  libgrpp_nuclear_attraction_integrals_point_charge(A, B, c, Z, m);
#elif MODEL == 1
  libgrpp_nuclear_attraction_integrals_charged_ball(A, B, c, Z, p0, m);
#elif MODEL == 2
  libgrpp_nuclear_attraction_integrals_gaussian_model(A, B, c, Z, p0, m);
#elif MODEL == 3
  libgrpp_nuclear_attraction_integrals_fermi_model(A, B, c, Z, p0, p1, m);
#elif MODEL == 4
  libgrpp_nuclear_attraction_integrals_fermi_bubble_model(A, B, c, Z, p0, p1, p2, m);
#endif
  obl(m, A, B, -1, 0, 0, 0, "nuclear attraction");
#else
#if NPU == 0 && defined(NULLU)
  libgrpp_potential_t *U = NULL;
#else
  libgrpp_potential_t *U = mkpot(LU, 2 * LU + 1, PW, NPU);
#endif
  libgrpp_potential_t *OU[NOC ? NOC : 1];
  libgrpp_shell_t *OS[NOC ? NOC : 1];
#if API == OC || API == OCG || API == FULL || API == FULLG
  for (int i = 0; i < NOC; i++) {
    int l = (NOC > 1 && i >= 2) ? LOC + 1 : LOC;
    lab_step = 0; lab_off = i;
    OU[i] = mkpot(l, (i % 2) ? 2 * l + 1 : (l ? 2 * l - 1 : 1), PW, NPU);
    OS[i] = mkshell(l, NPU ? NPU : 1, 2, PC);
    lab_step = 1; lab_off = 0;
  }
#endif
#if API == T1
  libgrpp_type1_integrals(A, B, c, U, m);
  obl(m, A, B, 0, 0, 1, 0, "local potential");
#elif API == T2
  libgrpp_type2_integrals(A, B, c, U, m);
  obl(m, A, B, 0, 0, 1, 0, "semi-local potential");
#elif API == SO
  libgrpp_spin_orbit_integrals(A, B, c, U, mx, my, mz);
  obl(mx, A, B, 0, axial[1], 1, 0, "spin-orbit x");
  obl(my, A, B, 0, axial[2], 1, 0, "spin-orbit y");
  obl(mz, A, B, 0, axial[3], 1, 0, "spin-orbit z");
#elif API == OC
  libgrpp_outercore_potential_integrals(A, B, c, NOC, OU, OS, m, mx, my, mz);
  obl(m, A, B, 0, 0, 1, 0, "outercore scalar");
  obl(mx, A, B, 0, axial[1], 1, 0, "outercore spin-orbit x");
  obl(my, A, B, 0, axial[2], 1, 0, "outercore spin-orbit y");
  obl(mz, A, B, 0, axial[3], 1, 0, "outercore spin-orbit z");
#else
#if API == FULL || API == FULLG
  libgrpp_grpp_t *G = libgrpp_new_grpp();
#if NAR >= 0
  if (U) libgrpp_grpp_set_local_potential(G, U);
#endif
  for (int i = 0; i < NAR; i++) libgrpp_grpp_add_averaged_potential(G, mkpot(i, 0, PW, NPU));
  for (int i = 0; i < NSO; i++) libgrpp_grpp_add_spin_orbit_potential(G, mkpot(i + 1, 0, PW, NPU));
  for (int i = 0; i < NOC; i++) libgrpp_grpp_add_outercore_potential(G, OU[i], OS[i]);
#endif
#if CONC
  point(d, PD, 0);
#else
  for (int k = 0; k < 3; k++) d[k] = PD == PC ? c[k] : PD == PB ? B->origin[k] : A->origin[k];
#endif
#if API == FULL
  libgrpp_full_grpp_integrals(A, B, G, c, m, mx, my, mz);
  obl(m, A, B, 0, 0, 1, 0, "full scalar");
  obl(mx, A, B, 0, axial[1], 1, 0, "full spin-orbit x");
  obl(my, A, B, 0, axial[2], 1, 0, "full spin-orbit y");
  obl(mz, A, B, 0, axial[3], 1, 0, "full spin-orbit z");
#elif API == FULLG
  libgrpp_full_grpp_integrals_gradient(A, B, G, c, d, g, gx, gy, gz);
  oblg(g, A, B, 0, 0, 1, 0, "full scalar gradient");
  oblg(gx, A, B, 0, axial[1], 1, 0, "full spin-orbit x gradient");
  oblg(gy, A, B, 0, axial[2], 1, 0, "full spin-orbit y gradient");
  oblg(gz, A, B, 0, axial[3], 1, 0, "full spin-orbit z gradient");
#elif API == T1G
  libgrpp_type1_integrals_gradient(A, B, c, U, d, g);
  oblg(g, A, B, 0, 0, 1, 0, "local potential gradient");
#elif API == T2G
  libgrpp_type2_integrals_gradient(A, B, c, U, d, g);
  oblg(g, A, B, 0, 0, 1, 0, "semi-local potential gradient");
#elif API == SOG
  libgrpp_spin_orbit_integrals_gradient(A, B, c, U, d, gx, gy, gz);
  oblg(gx, A, B, 0, axial[1], 1, 0, "spin-orbit x gradient");
  oblg(gy, A, B, 0, axial[2], 1, 0, "spin-orbit y gradient");
  oblg(gz, A, B, 0, axial[3], 1, 0, "spin-orbit z gradient");
#elif API == OCG
  libgrpp_outercore_potential_integrals_gradient(A, B, c, NOC, OU, OS, d, g, gx, gy, gz);
  oblg(g, A, B, 0, 0, 1, 0, "outercore scalar gradient");
  oblg(gx, A, B, 0, axial[1], 1, 0, "outercore spin-orbit x gradient");
  oblg(gy, A, B, 0, axial[2], 1, 0, "outercore spin-orbit y gradient");
  oblg(gz, A, B, 0, axial[3], 1, 0, "outercore spin-orbit z gradient");
#endif
#if API == FULL || API == FULLG
  libgrpp_delete_grpp(G);
  U = NULL;
#endif
#endif
#if API == OC || API == OCG
  for (int i = 0; i < NOC; i++) { libgrpp_delete_potential(OU[i]); libgrpp_delete_shell(OS[i]); }
#endif
  if (U) libgrpp_delete_potential(U);
#endif
  libgrpp_delete_shell(A);
  libgrpp_delete_shell(B);
  free(m); free(mx); free(my); free(mz);
  for (int k = 0; k < 3; k++) { free(g[k]); free(gx[k]); free(gy[k]); free(gz[k]); }
  free(g); free(gx); free(gy); free(gz);
#if MEM
  ai_check_leaks("computing routine");
#endif
  ai_reach("end");
}
