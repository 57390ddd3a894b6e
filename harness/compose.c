/* C11, C12: composite integrals and gradients over stub components.  Each component routine is replaced by a
   specification returning, element by element, sum over primitives of coefficient*norm*(symbolic primitive integral),
   so the composite result is an exact linear form in symbolic primitive integrals that can be compared with the formula. */
#include "abs.h"
#include "libgrpp.h"
#include "overlap.h"
#include "overlap_gradient.h"
#include <math.h>
#ifndef KIND
#define KIND 0   /* 0 full, 1 outercore, 2 type1 grad, 3 type2 grad, 4 spin-orbit grad, 5 outercore grad, 6 full grad, 7 overlap grad */
#endif
#ifndef LA
#define LA 1
#define LB 1
#define NA 1
#define NB 1
#endif
#ifndef NAREP
#define NAREP 2
#define NSO 2
#define NOC 2
#define ULOC 1
#endif
#ifndef ORDER
#define ORDER 0
#endif
#ifndef AX
#define AX 3
#endif
enum { MAXP = 320 };
enum { K_T1, K_T2, K_SO, K_OC1, K_OC2, K_OVL };
static double P[4][3];                    /* A, B, C, D */
static double ca[3] = {0.7, -1.3, 0.45}, aa[3] = {0.31, 1.9, 14.0}, cb[3] = {1.1, 0.6, -0.2}, ab[3] = {0.57, 3.1, 22.0};
static libgrpp_potential_t *loc, *arep[MAXP], *esop[MAXP], *oc[MAXP];
static libgrpp_shell_t *ocs[MAXP];
static int potL[MAXP], potJ[MAXP];
static libgrpp_shell_t *sA, *sB;

static double norm(double al, int L) { return pow(2 * al / M_PI, 0.75) * pow(4 * al, 0.5 * L); }
static int code(const int *c) { return (c[0] * 16 + c[1]) * 16 + c[2]; }
/* primitive integral over primitives p (of A) and q (of B) with Cartesian powers x and y */
static double prim(int kind, int pot, int mat, int p, int q, const int *x, const int *y) {
  long v[7] = {kind, pot, mat, p, q, code(x), code(y)}, h = 12345;
  for (int i = 0; i < 7; i++) h = (h * 48271 + (v[i] + 7) * 16807 * 31) % 2147483647;
  return ai_atom((int) h);
}
static int find(double al, const double *set, int n) { for (int i = 0; i < n; i++) if (al == set[i]) return i; return -1; }
static int at(const double *o, int w) { return o[0] == P[w][0] && o[1] == P[w][1] && o[2] == P[w][2]; }
/* 0: bra is made of A's primitives and ket of B's; 1: exchanged; -1: neither */
static int orient(libgrpp_shell_t *X, libgrpp_shell_t *Y) {
  int r = -1;
  if (find(X->alpha[0], aa, NA) >= 0 && find(Y->alpha[0], ab, NB) >= 0) r = 0;
  else if (find(X->alpha[0], ab, NB) >= 0 && find(Y->alpha[0], aa, NA) >= 0) r = 1;
  ai_check(r >= 0, "component integrals are taken between functions of the two shells");
  if (r < 0) return r;
  ai_check(at(X->origin, r) && at(Y->origin, 1 - r), "component integrals are taken between functions at the origins of the two shells");
  return r;
}
static void emit(libgrpp_shell_t *X, libgrpp_shell_t *Y, int kind, int pot, int mat, double *m, int add) {
  int r = orient(X, Y);
  for (int i = 0; i < X->cart_size; i++)
    for (int j = 0; j < Y->cart_size; j++) {
      double s = 0;
      if (r >= 0)
        for (int p = 0; p < X->num_primitives; p++)
          for (int q = 0; q < Y->num_primitives; q++) {
            int ip = find(X->alpha[p], r ? ab : aa, r ? NB : NA), iq = find(Y->alpha[q], r ? aa : ab, r ? NA : NB);
            ai_check(ip >= 0 && iq >= 0, "component integrals are taken between functions of the two shells");
            if (ip < 0 || iq < 0) continue;
            double f = X->coeffs[p] * norm(X->alpha[p], X->L) * Y->coeffs[q] * norm(Y->alpha[q], Y->L);
            const int *x = X->cart_list + 3 * i, *y = Y->cart_list + 3 * j;
            s += r == 0 ? f * prim(kind, pot, mat, ip, iq, x, y) : (mat ? -f : f) * prim(kind, pot, mat, iq, ip, y, x);
          }
      if (add) m[i * Y->cart_size + j] += s; else m[i * Y->cart_size + j] = s;
    }
}
static void zeros(libgrpp_shell_t *X, libgrpp_shell_t *Y, double *m) { for (int i = 0; i < X->cart_size * Y->cart_size; i++) m[i] = 0; }
/* the potentials: number id has coeffs[0] = 1 + id */
static int mk_n(int id) { return 1 + id % 3; }
static double mk_c(int id, int i) { return i == 0 ? 1 + id : 0.25 * (i + 1) + id; }
static double mk_a(int id, int i) { return 0.5 + i + 0.125 * id; }
static int mk_p(int id, int i) { return (id + i) % 3; }
static libgrpp_potential_t *mkpot(int id, int L, int J) {
  int pw[3]; double c[3], a[3];
  for (int i = 0; i < mk_n(id); i++) { pw[i] = mk_p(id, i); c[i] = mk_c(id, i); a[i] = mk_a(id, i); }
  potL[id] = L; potJ[id] = J;
  return libgrpp_new_potential(L, J, mk_n(id), pw, c, a);
}
static int pot_id(libgrpp_potential_t *U, int lo, int hi, int useL, int useJ) {
  int id = -1;
  for (int i = lo; i < hi; i++) if (U->num_primitives > 0 && U->coeffs[0] == 1 + i) id = i;
  ai_check(id >= 0, "the component routine receives a component of the right part of the pseudopotential");
  if (id < 0) return id;
  ai_check(U->num_primitives == mk_n(id), "number of primitives of the component");
  if (useL) ai_check(U->L == potL[id], "angular momentum of the component");
  if (useJ) ai_check(U->J == potJ[id], "total angular momentum of the component");
  for (int i = 0; i < U->num_primitives && i < 3; i++)
    ai_check(U->powers[i] == mk_p(id, i) && U->coeffs[i] == mk_c(id, i) && U->alpha[i] == mk_a(id, i), "radial part of the component");
  return id;
}
enum { ID_LOC = 0, ID_AREP = 1, ID_SO = 101, ID_OC = 201 };   /* at most 100 + 100 + 20 components */
static void chk_C(double *c) { ai_check(at(c, 2), "component integrals use the pseudopotential centre"); }
static int oc_id(libgrpp_potential_t *U, libgrpp_shell_t *S) {
  int id = pot_id(U, ID_OC, ID_OC + NOC, 1, 1);
  if (id >= 0) ai_check(S->L == potL[id] && S->num_primitives == 2 && S->alpha[0] == 5 + id && S->alpha[1] == 50 + id && S->coeffs[0] == 0.5 && S->coeffs[1] == -0.5 - id, "outercore shell belongs to its potential");
  return id;
}
int ai_stub_libgrpp_is_initialized() { return 1; }
void ai_stub_libgrpp_type1_integrals(libgrpp_shell_t *X, libgrpp_shell_t *Y, double *c, libgrpp_potential_t *U, double *m) {
  ai_reach("T1"); chk_C(c); zeros(X, Y, m);
  if (U == NULL || U->num_primitives == 0) return;
  int id = pot_id(U, ID_LOC, ID_LOC + 1, 0, 0);
  if (id >= 0) emit(X, Y, K_T1, id, 0, m, 0);
}
void ai_stub_libgrpp_type2_integrals(libgrpp_shell_t *X, libgrpp_shell_t *Y, double *c, libgrpp_potential_t *U, double *m) {
  ai_reach("T2"); chk_C(c); zeros(X, Y, m);
  if (U == NULL || U->num_primitives == 0) return;
  int id = pot_id(U, ID_AREP, ID_AREP + NAREP, 1, 0);
  if (id >= 0) emit(X, Y, K_T2, id, 0, m, 0);
}
void ai_stub_libgrpp_spin_orbit_integrals(libgrpp_shell_t *X, libgrpp_shell_t *Y, double *c, libgrpp_potential_t *U, double *x, double *y, double *z) {
  ai_reach("SO"); chk_C(c); zeros(X, Y, x); zeros(X, Y, y); zeros(X, Y, z);
  if (U == NULL || U->num_primitives == 0) return;
  int id = pot_id(U, ID_SO, ID_SO + NSO, 1, 0);
  if (id >= 0) { emit(X, Y, K_SO, id, 1, x, 0); emit(X, Y, K_SO, id, 2, y, 0); emit(X, Y, K_SO, id, 3, z, 0); }
}
/* the outercore parts add to the matrices; the two-shell term couples only shells with the same L and J */
void ai_stub_libgrpp_outercore_potential_integrals_part_1(libgrpp_shell_t *X, libgrpp_shell_t *Y, double *c, libgrpp_potential_t *U, libgrpp_shell_t *S, double *m, double *x, double *y, double *z) {
  ai_reach("OC"); chk_C(c); int id = oc_id(U, S); double *o[4] = {m, x, y, z};
  if (id >= 0) for (int k = 0; k < 4; k++) emit(X, Y, K_OC1, id, k, o[k], 1);
}
void ai_stub_libgrpp_outercore_potential_integrals_part_2(libgrpp_shell_t *X, libgrpp_shell_t *Y, double *c, libgrpp_potential_t *U, libgrpp_shell_t *S, libgrpp_potential_t *V, libgrpp_shell_t *T, double *m, double *x, double *y, double *z) {
  ai_reach("OC"); chk_C(c); int i = oc_id(U, S), j = oc_id(V, T); double *o[4] = {m, x, y, z};
  if (i < 0 || j < 0 || potL[i] != potL[j] || potJ[i] != potJ[j]) return;
  for (int k = 0; k < 4; k++) emit(X, Y, K_OC2, (i - ID_OC) * 20 + (j - ID_OC), k, o[k], 1);
}
void ai_stub_libgrpp_overlap_integrals(libgrpp_shell_t *X, libgrpp_shell_t *Y, double *m) { ai_reach("OVL"); emit(X, Y, K_OVL, 0, 0, m, 0); }

/* ---- what is expected ---- */
/* operator matrix `mat` between primitives p,q and powers x,y */
static double op(int mat, int p, int q, const int *x, const int *y) {
  double s = 0;
#if KIND == 7
  return prim(K_OVL, 0, 0, p, q, x, y);
#endif
#if KIND == 0 || KIND == 2 || KIND == 6
  if (mat == 0 && ULOC) s += prim(K_T1, ID_LOC, 0, p, q, x, y);
#endif
#if KIND == 0 || KIND == 3 || KIND == 6
  if (mat == 0) for (int k = 0; k < NAREP; k++) s += prim(K_T2, ID_AREP + k, 0, p, q, x, y);
#endif
#if KIND == 0 || KIND == 4 || KIND == 6
  if (mat > 0) for (int k = 0; k < NSO; k++) s += (KIND == 4 ? 1.0 : 2.0 / (2 * potL[ID_SO + k] + 1)) * prim(K_SO, ID_SO + k, mat, p, q, x, y);
#endif
#if KIND == 0 || KIND == 1 || KIND == 5 || KIND == 6
  for (int k = 0; k < NOC; k++) {
    s += prim(K_OC1, ID_OC + k, mat, p, q, x, y);
    for (int l = 0; l < NOC; l++) if (potL[ID_OC + k] == potL[ID_OC + l] && potJ[ID_OC + k] == potJ[ID_OC + l]) s += prim(K_OC2, k * 20 + l, mat, p, q, x, y);
  }
#endif
  return s;
}
/* side -1: the matrix element itself; 0/1: derivative along axis k with respect to the centre of A/B */
static double element(int mat, const int *x, const int *y, int side, int k) {
  double s = 0;
  for (int p = 0; p < NA; p++)
    for (int q = 0; q < NB; q++) {
      double f = ca[p] * norm(aa[p], LA) * cb[q] * norm(ab[q], LB);
      if (side < 0) { s += f * op(mat, p, q, x, y); continue; }
      int u[2][3] = {{x[0], x[1], x[2]}, {y[0], y[1], y[2]}}, n = u[side][k];
      u[side][k] = n + 1;
      s += f * 2 * (side ? ab[q] : aa[p]) * op(mat, p, q, u[0], u[1]);
      if (n > 0) { u[side][k] = n - 1; s -= f * n * op(mat, p, q, u[0], u[1]); }
    }
  return s;
}
static int user_generator(int L, int *list) { /* an order of the user's own: m ascending slowest, then n ascending */
  int c = 0;
  for (int m = 0; m <= L; m++) for (int n = 0; n <= L - m; n++) { list[3 * c] = n; list[3 * c + 1] = L - m - n; list[3 * c + 2] = m; c++; }
  return c;
}
#define NX ((LA + 1) * (LA + 2) / 2)
#define NY ((LB + 1) * (LB + 2) / 2)
static double out[12][NX * NY];
static libgrpp_grpp_t *G;
static void points(const int *cls) {
  for (int w = 0; w < 4; w++)
    for (int k = 0; k < 3; k++) {
      /* displacements of the classes: along one axis, all axes, tiny, large, with vanishing sum of components, each class along its own axis, negative */
      static const double dir[13][3] = {{0.7, 0, 0}, {0, 1.4, 0}, {0, 0, 2.1}, {0.7, 1.4, 2.1}, {1e-5, 2e-5, 3e-5}, {40, 80, 120},
                                        {0, 0.5, -0.5}, {0.5, -0.5, 0}, {-0.5, 0, 0.5}, {0.3, 0.3, -0.6}, {1e-8, -1e-8, 2e-8}, {-0.7, -1.4, -2.1}, {0, 0, 0}};
      double d = dir[AX][k] * cls[w];
      if (AX == 12) d = cls[w] == k + 1 ? 0.5 : 0;
      P[w][k] = 0.3 - 0.4 * k + d;
    }
}
static void shells(void) { sA = libgrpp_new_shell(P[0], LA, NA, ca, aa); sB = libgrpp_new_shell(P[1], LB, NB, cb, ab); }
static void dirty(void) { for (int m = 0; m < 12; m++) for (int i = 0; i < NX * NY; i++) out[m][i] = 1e3 + i; }

static void components(void) {
  G = libgrpp_new_grpp();
  loc = mkpot(ID_LOC, 5, 0);
  static const int Ls[8] = {2, 0, 1, 1, 3, 0, 5, 4}, So[8] = {3, 1, 2, 1, 5, 4, 2, 3}, Ol[4] = {1, 2, 1, 1}, Oj[4] = {3, 3, 1, 3};
  for (int i = 0; i < NAREP; i++) arep[i] = mkpot(ID_AREP + i, Ls[i % 8], 0);
  for (int i = 0; i < NSO; i++) esop[i] = mkpot(ID_SO + i, So[i % 8], 0);
  for (int i = 0; i < NOC; i++) {
    double o[3] = {0, 0, 0}, c[2] = {0.5, -0.5 - (ID_OC + i)}, a[2] = {5 + ID_OC + i, 50 + ID_OC + i};
    oc[i] = mkpot(ID_OC + i, Ol[i % 4], Oj[i % 4]);
    ocs[i] = libgrpp_new_shell(o, Ol[i % 4], 2, c, a);
  }
#if ULOC
  libgrpp_grpp_set_local_potential(G, loc);
#endif
  for (int i = 0; i < NAREP || i < NSO || i < NOC; i++) { /* interleaved on purpose */
    if (i < NSO) libgrpp_grpp_add_spin_orbit_potential(G, esop[i]);
    if (i < NOC) libgrpp_grpp_add_outercore_potential(G, oc[i], ocs[i]);
    if (i < NAREP) libgrpp_grpp_add_averaged_potential(G, arep[i]);
  }
}
static void order(void) {
#if ORDER == 1
  libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_TURBOMOLE);
#elif ORDER == 2
  libgrpp_set_cartesian_generator(user_generator);
#else
  libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_DIRAC);
#endif
}

#if KIND <= 1
void harness(void) {
  static const int cls[4] = {0, 1, 2, 3};
  order(); points(cls); shells(); components(); dirty();
#if KIND == 0
  libgrpp_full_grpp_integrals(sA, sB, G, P[2], out[0], out[1], out[2], out[3]);
#else
  libgrpp_outercore_potential_integrals(sA, sB, P[2], NOC, oc, ocs, out[0], out[1], out[2], out[3]);
#endif
  for (int i = 0; i < NX; i++)
    for (int j = 0; j < NY; j++) {
      const int *x = sA->cart_list + 3 * i, *y = sB->cart_list + 3 * j;
      ai_check_same(out[0][i * NY + j], element(0, x, y, -1, 0), "scalar matrix is the sum of its components");
      ai_check_same(out[1][i * NY + j], element(1, x, y, -1, 0), "spin-orbit x matrix is the sum of its components");
      ai_check_same(out[2][i * NY + j], element(2, x, y, -1, 0), "spin-orbit y matrix is the sum of its components");
      ai_check_same(out[3][i * NY + j], element(3, x, y, -1, 0), "spin-orbit z matrix is the sum of its components");
    }
  ai_reach("end");
}
#else
static void verify(int mat, int first, int a, int b, int c) {
  for (int k = 0; k < 3; k++)
    for (int i = 0; i < NX; i++)
      for (int j = 0; j < NY; j++) {
        const int *x = sA->cart_list + 3 * i, *y = sB->cart_list + 3 * j;
        double e = 0, v = out[first + k][i * NY + j], dA = element(mat, x, y, 0, k), dB = element(mat, x, y, 1, k);
#if KIND == 7 /* overlap: dB may be replaced by -dA (translation invariance) */
        if (ai_is_same(v, a * dA + b * dB) || ai_is_same(v, -a * dB + b * dB) || ai_is_same(v, -a * dB - b * dA)) continue;
        e = a * dA - b * dA;
#else
        if (a || c) e += (a - c) * dA;
        if (b || c) e += (b - c) * dB;
#endif
        ai_check_same(v, e, "gradient is the derivative combination of raised and lowered integrals");
      }
}
void harness(void) {
  static const int part[15][4] = {{0,0,0,0},{0,0,0,1},{0,0,1,0},{0,1,0,0},{0,1,1,1},{0,0,1,1},{0,1,0,1},{0,1,1,0},{0,0,1,2},{0,1,0,2},{0,1,2,0},{0,1,1,2},{0,1,2,1},{0,1,2,2},{0,1,2,3}};
  order(); components();
  for (int t = 0; t < 15; t++) {
    const int *cls = part[t];
    points(cls); shells(); dirty();
    double *g[4][3];
    for (int m = 0; m < 4; m++) for (int k = 0; k < 3; k++) g[m][k] = out[3 * m + k];
    int a = cls[0] == cls[3], b = cls[1] == cls[3], c = cls[2] == cls[3];
#if KIND == 2
    libgrpp_type1_integrals_gradient(sA, sB, P[2], loc, P[3], g[0]);
    verify(0, 0, a, b, c);
#elif KIND == 3
    libgrpp_type2_integrals_gradient(sA, sB, P[2], arep[0], P[3], g[0]);
    verify(0, 0, a, b, c);
#elif KIND == 4
    libgrpp_spin_orbit_integrals_gradient(sA, sB, P[2], esop[0], P[3], g[1], g[2], g[3]);
    verify(1, 3, a, b, c); verify(2, 6, a, b, c); verify(3, 9, a, b, c);
#elif KIND == 7
    libgrpp_overlap_integrals_gradient(sA, sB, P[3], g[0]);
    verify(0, 0, a, b, 0);
#else
#if KIND == 5
    libgrpp_outercore_potential_integrals_gradient(sA, sB, P[2], NOC, oc, ocs, P[3], g[0], g[1], g[2], g[3]);
#else
    libgrpp_full_grpp_integrals_gradient(sA, sB, G, P[2], P[3], g[0], g[1], g[2], g[3]);
#endif
    for (int m = 0; m < 4; m++) verify(m, 3 * m, a, b, c);
#endif
    libgrpp_delete_shell(sA); libgrpp_delete_shell(sB);
    ai_reach("pattern");
  }
  ai_reach("end");
}
#endif
