/* C27, C28, C29: closed-form content of the one-component integrals.  The numerical ingredients (auxiliary functions, radial
   integrals) are replaced by symbols; what the routine does with them - angular expansion, Hermite expansion, contraction,
   normalisation, component labelling - must produce, element by element, the linear form derived independently here. */
#include "abs.h"
#include "libgrpp.h"
#include "overlap.h"
#include "kinetic.h"
#include "momentum.h"
#include "radial_type1_integral.h"
#include "radial_type2_integral.h"
#include <math.h>
#ifndef KIND
#define KIND 0 /* 0 overlap, 1 kinetic, 2 momentum, 3 local, 4 point nucleus, 5 extended nucleus, 6 semi-local, 7 spin-orbit */
#endif
#ifndef ZSET
#define ZSET 0 /* exponents of the local potential */
#endif
#ifndef LA
#define LA 1
#endif
#ifndef LB
#define LB 1
#endif
#ifndef NA
#define NA 2
#endif
#ifndef NB
#define NB 1
#endif
#ifndef ORDER
#define ORDER 0
#endif
#ifndef GEO
#define GEO 0
#endif
#ifndef EXPO
#define EXPO 0
#endif
#ifndef PL
#define PL 1
#endif
#ifndef NPOT
#define NPOT 2
#endif
#ifndef PN
#define PN 0 /* power of the first term */
#endif
enum { SA = (LA + 1) * (LA + 2) / 2, SB = (LB + 1) * (LB + 2) / 2, NF = LA + LB };
static const double pts[16][3][3] = {
  {{0.1, -0.2, 0.3}, {0.6, 0.5, -0.4}, {-0.3, 0.35, 0.15}}, /* generic */
  {{0.1, -0.2, 0.3}, {0.1, -0.2, 0.3}, {-0.3, 0.35, 0.15}}, /* A = B */
  {{0.1, -0.2, 0.3}, {0.6, 0.5, -0.4}, {0.1, -0.2, 0.3}},   /* A = C */
  {{0.6, 0.5, -0.4}, {0.1, -0.2, 0.3}, {0.1, -0.2, 0.3}},   /* B = C */
  {{0.1, -0.2, 0.3}, {0.1, -0.2, 0.3}, {0.1, -0.2, 0.3}},   /* all equal */
  {{0.1, 0, 0}, {0.7, 0, 0}, {-0.4, 0, 0}},                 /* on the x axis */
  {{0, 0.1, 0}, {0, 0.7, 0}, {0, -0.4, 0}},
  {{0, 0, 0.1}, {0, 0, 0.7}, {0, 0, -0.4}},
  {{0.5, 0, 0}, {0, 0.5, 0}, {0, 0, 0.5}},
  {{0.5, 0, -0.5}, {-0.5, 0, 0.5}, {0, 0, 0}},              /* C is the midpoint */
  {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}},
  {{1.1, -1.2, 1.3}, {1.6, -0.5, 0.6}, {0.7, -0.65, 0.85}},
  {{0.1, -0.2, 0.3}, {6.1, 4.8, -4.7}, {0.1, 0.8, 1.3}},    /* distant */
  {{0.1, -0.2, 0.3}, {0.1, -0.2, 0.3 + 1e-7}, {0.1, -0.2, 0.3 - 1e-5}}, /* nearly coincident */
  {{-20.1, 0.2, 3.3}, {-19.6, 0.5, 2.4}, {8.3, -9.35, 5.15}}, /* distant potential centre */
  {{0, 0.3, 0.7}, {0, 0.3, -0.7}, {0, 0.3, 0}}};
static const double xa[7][3] = {{0.31, 1.9, 1.2}, {1.0, 0.8, 2.0}, {0.02, 0.005, 0.7}, {5e3, 2e2, 0.5}, {1e-3, 3e4, 2}, {1.25e6, 0.11, 7}, {0.9, 0.9, 1.4}}, xb[7][3] = {{0.57, 1.1, 0.8}, {1.0, 0.6, 1.5}, {0.009, 0.03, 1.8}, {3e3, 0.7, 1.6}, {4e4, 5e-3, 1}, {8e5, 40, 0.3}, {0.5, 0.5, 0.5}};
enum { MX = 64 };
static double kb[MX];
static double A[3], B[3], C[3], a[MX], b[MX];
static double cf(int i) { return i == 0 ? 0.7 : i == 1 ? -1.3 : 0.9 + 0.03 * (i - 2); }
static libgrpp_shell_t *sA, *sB;
static int pidx;
static double fact(int n) { double r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
static double dfac(int n) { double r = 1; for (; n > 1; n -= 2) r *= n; return r; }
static double binom(int n, int k) { return k < 0 || k > n ? 0 : fact(n) / fact(k) / fact(n - k); }
static double ipow(double x, int n) { double r = 1; while (n-- > 0) r *= x; return r; }
static double norm(double al, int L) { return pow(2 * al / M_PI, 0.75) * ipow(2 * sqrt(al), L); }
static double d2(const double *p, const double *q) { return (p[0] - q[0]) * (p[0] - q[0]) + (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]); }
static int near(double x, double y) { return fabs(x - y) <= 1e-9 * (1 + fabs(y)); }
static int user_generator(int L, int *list) {
  int c = 0;
  for (int m = 0; m <= L; m++) for (int n = 0; n <= L - m; n++) { list[3 * c] = n; list[3 * c + 1] = L - m - n; list[3 * c + 2] = m; c++; }
  return c;
}
int ai_stub_libgrpp_is_initialized() { return 1; }

#if KIND <= 2 || KIND == 3 || KIND == 4
#define COEF_A(i) ai_atom_in(11 + (i), 0.5, 2)
#else
#define COEF_A(i) cf(i)
#endif

/* ================= products of two Gaussians and their derivatives ================= */
#if KIND <= 2
/* integral of (x-A)^i (x-B)^j exp(-a (x-A)^2 - b (x-B)^2) */
static double s1(int i, int j, double al, double be, double Ax, double Bx) {
  double p = al + be, P = (al * Ax + be * Bx) / p, s = 0;
  if (i < 0 || j < 0) return 0;
  for (int k = 0; k <= i; k++)
    for (int l = 0; l <= j; l++)
      if ((k + l) % 2 == 0) s += binom(i, k) * binom(j, l) * ipow(P - Ax, i - k) * ipow(P - Bx, j - l) * dfac(k + l - 1) / ipow(2 * p, (k + l) / 2);
  return s * sqrt(M_PI / p) * exp(-al * be / p * (Ax - Bx) * (Ax - Bx));
}
/* the same with the n-th derivative acting on the second function */
static double sd(int n, int i, int j, double al, double be, double Ax, double Bx) {
  if (n == 0) return s1(i, j, al, be, Ax, Bx);
  return (j > 0 ? j * sd(n - 1, i, j - 1, al, be, Ax, Bx) : 0) - 2 * be * sd(n - 1, i, j + 1, al, be, Ax, Bx);
}
static double prim(int what, int ax, const int *x, const int *y, double al, double be) {
  double f[3][3], r = 0;
  for (int k = 0; k < 3; k++) { f[k][0] = sd(0, x[k], y[k], al, be, A[k], B[k]); f[k][1] = what == 2 && k == ax ? sd(1, x[k], y[k], al, be, A[k], B[k]) : 0; f[k][2] = what == 1 ? sd(2, x[k], y[k], al, be, A[k], B[k]) : 0; }
  if (what == 0) return f[0][0] * f[1][0] * f[2][0];
  if (what == 1) return -0.5 * (f[0][2] * f[1][0] * f[2][0] + f[0][0] * f[1][2] * f[2][0] + f[0][0] * f[1][0] * f[2][2]);
  return -f[ax][1] * f[(ax + 1) % 3][0] * f[(ax + 2) % 3][0];
}
static double expected(int what, int ax, const int *x, const int *y) {
  double s = 0;
  for (int i = 0; i < NA; i++) {
    double t = 0;
    for (int j = 0; j < NB; j++) t += kb[j] * norm(b[j], LB) * prim(what, ax, x, y, a[i], b[j]);
    s += COEF_A(i) * (norm(a[i], LA) * t);
  }
  return s;
}
static double out[3][SA * SB];
static void evaluate(void) {
#if KIND == 0
  libgrpp_overlap_integrals(sA, sB, out[0]);
#elif KIND == 1
  libgrpp_kinetic_energy_integrals(sA, sB, out[0]);
#else
  libgrpp_momentum_integrals(sA, sB, out[0], out[1], out[2]);
#endif
}
static double ref(int mat, const int *x, const int *y) { return expected(KIND, mat, x, y); }
#endif

/* ================= local potentials by Hermite expansion ================= */
#if KIND == 3 || KIND == 4
#undef COEF_A
#define COEF_A(i) cf(i)
enum { NT = KIND == 4 ? 1 : NPOT };
static double z[MX]; static int pw[MX];
static int tot; /* 1 Boys, 2 G */
static double QC(int i, int j, int k, double *q, double *Q, double *K) {
  double c = z[k], e = 0;
  *q = a[i] + b[j] + c;
  for (int w = 0; w < 3; w++) Q[w] = (a[i] * A[w] + b[j] * B[w] + c * C[w]) / *q;
  e = (a[i] * b[j] * d2(A, B) + a[i] * c * d2(A, C) + b[j] * c * d2(B, C)) / *q;
  *K = exp(-e);
  return *q * d2(Q, C);
}
static int which(double x, int pow, int nmax) { /* identify the pair of primitives and the term by the argument */
  for (int i = 0; i < NA; i++) for (int j = 0; j < NB; j++) for (int k = 0; k < NT; k++) if (pw[k] == pow) {
    double q, Q[3], K, y = QC(i, j, k, &q, Q, &K);
    if (fabs(x - y) <= 1e-10 * (1 + fabs(y))) return (i * NB + j) * NT + k;
  }
  ai_check(0, "auxiliary functions are evaluated at the reduced distance of the primitive product from the potential centre");
  return -1;
}
/* coinciding arguments get the same symbols: the symbol is that of the first pair with this argument */
static double fm(int pow, int id, int m) { return ai_atom_in(1000 + (pow + 3 * id) * 64 + m, 0.5, 2); }
void ai_stub_boys_values(double x, int nmax, double *g) { ai_reach("AUX"); int id = which(x, 1, nmax); if (id >= 0) for (int m = 0; m <= nmax; m++) g[m] = fm(1, id, m); }
void ai_stub_gfun_values(double x, int nmax, double *g) { ai_reach("AUX"); int id = which(x, 0, nmax); if (id >= 0) for (int m = 0; m <= nmax; m++) g[m] = fm(0, id, m); }
/* polynomial in derivatives: (x-A)^i (x-B)^j exp(-q (x-Q)^2) = sum_t e[t] (d/dQ)^t exp(-q (x-Q)^2) */
static void hermite(int i, int j, double q, double QA, double QB, double *e) {
  /* (x-Q)^n = sum_r n!/(r! (n-2r)!) (1/(4q))^r (d/(2q))^(n-2r) */
  for (int t = 0; t <= i + j; t++) e[t] = 0;
  for (int k = 0; k <= i; k++)
    for (int l = 0; l <= j; l++) {
      double f = binom(i, k) * binom(j, l) * ipow(QA, i - k) * ipow(QB, j - l);
      int n = k + l;
      for (int r = 0; 2 * r <= n; r++) e[n - 2 * r] += f * fact(n) / fact(r) / fact(n - 2 * r) / ipow(4 * q, r) / ipow(2 * q, n - 2 * r);
    }
}
/* d^t/dx^t of f(x^2 + ...) = sum_s t!/(s!(t-2s)!) (2x)^(t-2s) f^(t-s) */
static double element(int i, int j, int k, const int *x, const int *y) {
  double q, Q[3], K, arg = QC(i, j, k, &q, Q, &K), e[3][2 * 11 + 1], D[3 * 22];
  for (int w = 0; w < 3; w++) hermite(x[w], y[w], q, Q[w] - A[w], Q[w] - B[w], e[w]);
  if (pw[k] == 2) return K * pow(M_PI / q, 1.5) * e[0][0] * e[1][0] * e[2][0];
  int nt = x[0] + x[1] + x[2] + y[0] + y[1] + y[2], id = -1;
  for (int n = 0; n <= nt; n++) D[n] = 0; /* coefficient of the n-th derivative of f with respect to R^2 */
  for (int t = 0; t <= x[0] + y[0]; t++) for (int u = 0; u <= x[1] + y[1]; u++) for (int v = 0; v <= x[2] + y[2]; v++) {
    double E = e[0][t] * e[1][u] * e[2][v];
    int T[3] = {t, u, v};
    double g[3][12], S[3];
    for (int w = 0; w < 3; w++) for (int s = 0; 2 * s <= T[w]; s++) g[w][s] = fact(T[w]) / fact(s) / fact(T[w] - 2 * s) * ipow(2 * (Q[w] - C[w]), T[w] - 2 * s);
    if (E == 0) continue;
    for (int s0 = 0; 2 * s0 <= t; s0++) for (int s1 = 0; 2 * s1 <= u; s1++) for (int s2 = 0; 2 * s2 <= v; s2++)
      D[t + u + v - s0 - s1 - s2] += E * g[0][s0] * g[1][s1] * g[2][s2];
  }
  id = which(arg, pw[k], 0);
  double s = 0;
  if (pw[k] == 1) { for (int n = 0; n <= nt; n++) if (D[n] != 0) s += (D[n] * ipow(-q, n)) * fm(1, id, n); return s * (K * 2 * M_PI / q); }
  /* G_m' = G_(m+1) - G_m */
  for (int n = 0; n <= nt; n++) if (D[n] != 0) for (int m = 0; m <= n; m++) s += (D[n] * ipow(q, n) * ((n - m) % 2 ? -1 : 1) * binom(n, m)) * fm(0, id, m);
  return s * (K * 2 * pow(M_PI, 1.5) / sqrt(q));
}
static double out[3][SA * SB];
static libgrpp_potential_t *U;
static void evaluate(void) {
#if KIND == 3
  libgrpp_type1_integrals(sA, sB, C, U, out[0]);
#else
  libgrpp_nuclear_attraction_integrals_point_charge(sA, sB, C, 17, out[0]);
#endif
}
static double pc[MX];
static void setup(void) {
#if KIND == 3
  int p[MX]; double c[MX], x[MX];
  for (int k = 0; k < NPOT; k++) pc[k] = k == 0 ? 3.3 : k == 1 ? -1.7 : k == 2 ? 0.6 : 2.9 - 0.07 * (k - 3);
  static const double sz[4][4] = {{0.4, 1.3, 2.2, 3.1}, {0.4, 1.3, 1.3, 1.3}, {1.3, 0.4, 0.4, 1.3}, {4e3, 1e-3, 60, 0.2}};
  /* PN 0, 1, 2: all powers in turn; 3, 4, 5: one power throughout */
  for (int k = 0; k < NPOT; k++) { p[k] = pw[k] = PN > 2 ? PN - 3 : (PN + k) % 3; c[k] = pc[k]; x[k] = z[k] = k < 4 ? sz[ZSET][k] : 0.25 * pow(1.31, k); }
  U = libgrpp_new_potential(0, 0, NPOT, p, c, x);
#else
  pw[0] = 1; z[0] = 0;
#endif
}
static double ref(int mat, const int *x, const int *y) {
  double s = 0;
  for (int i = 0; i < NA; i++) for (int j = 0; j < NB; j++) for (int k = 0; k < NT; k++)
    s += (KIND == 4 ? -17 : pc[k]) * (COEF_A(i) * norm(a[i], LA) * kb[j] * norm(b[j], LB)) * element(i, j, k, x, y);
  return s;
}
#endif

/* ================= expansions in spherical harmonics ================= */
#if KIND >= 5
enum { PLX = KIND == 5 ? 0 : PL, NMON = (PLX + 1) * (PLX + 2) / 2, NM = 2 * PLX + 1, LAM = PLX + (LA > LB ? LA : LB) + (KIND == 5 ? LA + LB : 0) };
static int mon[3 * NMON];
static double Y[NM][NMON], Lop[3][NM][NM];
static double solid(int L, int m, int a_, int b_, int c_) {
  int M = m < 0 ? -m : m;
  double s = 0;
  for (int k = 0; 2 * k <= L - M; k++) {
    double t = (k % 2 ? -1 : 1) * binom(L, k) * binom(2 * L - 2 * k, L) * fact(L - 2 * k) / fact(L - 2 * k - M) / ipow(2, L);
    for (int i = 0; i <= M; i++) {
      if ((i % 2 == 1) != (m < 0)) continue;
      int x = a_ - (M - i), y = b_ - i, zc = c_ - (L - 2 * k - M);
      if (x < 0 || y < 0 || zc < 0 || x % 2 || y % 2 || zc % 2 || x + y + zc != 2 * k) continue;
      s += t * ((i / 2) % 2 ? -1 : 1) * binom(M, i) * fact(k) / fact(x / 2) / fact(y / 2) / fact(zc / 2);
    }
  }
  return s * sqrt((m == 0 ? 1 : 2) * (2 * L + 1) / (4 * M_PI) * fact(L - M) / fact(L + M));
}
static int midx(int L, int x, int y) { int n = 0; for (int i = 0; i < x; i++) n += L - i + 1; return n + y; }
static void angular(int L) {
  int n = 0;
  for (int x = 0; x <= L; x++) for (int y = 0; y <= L - x; y++) { mon[3 * n] = x; mon[3 * n + 1] = y; mon[3 * n + 2] = L - x - y; n++; }
  for (int m = -L; m <= L; m++) for (int i = 0; i < n; i++) Y[m + L][i] = solid(L, m, mon[3 * i], mon[3 * i + 1], mon[3 * i + 2]);
#if KIND == 7
  for (int ax = 0; ax < 3; ax++)
    for (int m = 0; m < 2 * L + 1; m++) {
      double D[NMON];
      int u = (ax + 1) % 3, v = (ax + 2) % 3;
      for (int i = 0; i < n; i++) D[i] = 0;
      for (int i = 0; i < n; i++) if (Y[m][i] != 0)
        for (int w = 0; w < 2; w++) {
          int up = w ? v : u, dn = w ? u : v, e[3] = {mon[3 * i], mon[3 * i + 1], mon[3 * i + 2]}, k = e[dn];
          if (k == 0) continue;
          e[dn]--; e[up]++;
          D[midx(L, e[0], e[1])] += (w ? -1 : 1) * k * Y[m][i];
        }
      for (int k = 0; k < 2 * L + 1; k++) {
        double num = 0, den = 0;
        for (int i = 0; i < n; i++) if (Y[k][i] != 0) {
          double g = fact(mon[3 * i]) * fact(mon[3 * i + 1]) * fact(mon[3 * i + 2]);
          num += g * Y[k][i] * D[i]; den += g * Y[k][i] * Y[k][i];
        }
        Lop[ax][k][m] = -num / den;
      }
    }
#endif
}
/* integral over the unit sphere of x^i y^j z^k */
static double sphere(int i, int j, int k) { return i % 2 || j % 2 || k % 2 ? 0 : 4 * M_PI * dfac(i - 1) * dfac(j - 1) * dfac(k - 1) / dfac(i + j + k + 1); }
/* integral of (2l+1)/(4 pi) P_l(u.r) x^i y^j z^k over the unit sphere; zero direction: only l = 0 */
static double zonal(int l, const double *u, int i, int j, int k) {
  double s = 0;
  if ((l + i + j + k) % 2) return 0;
  if (u[0] == 0 && u[1] == 0 && u[2] == 0 && l > 0) return 0;
  for (int r = 0; 2 * r <= l; r++) {
    int n = l - 2 * r;
    double t = 0;
    for (int p = 0; p <= n; p++) if ((p + i) % 2 == 0)
      for (int q = 0; q <= n - p; q++) {
        int w = n - p - q;
        if ((q + j) % 2 || (w + k) % 2) continue;
        t += fact(n) / fact(p) / fact(q) / fact(w) * ipow(u[0], p) * ipow(u[1], q) * ipow(u[2], w) * sphere(i + p, j + q, k + w);
      }
    s += t * (r % 2 ? -1 : 1) * fact(2 * l - 2 * r) / fact(r) / fact(l - r) / fact(l - 2 * r) / ipow(2, l);
  }
  return s * (2 * l + 1) / (4 * M_PI);
}
static void unit(const double *k, double *u) {
  double n = sqrt(k[0] * k[0] + k[1] * k[1] + k[2] * k[2]);
  for (int w = 0; w < 3; w++) u[w] = n > 0 ? k[w] / n : 0;
}
#endif
#if KIND == 5
/* extended nucleus: 4 pi N_A N_B sum binomials sum_lambda Omega_lambda Q(lambda, N), one table of radial integrals per pair of primitives */
static radial_type1_table_t tabs[NA * NB];
static int maxl[NA * NB], maxn[NA * NB];
static void kvec(int i, int j, double *k) { for (int w = 0; w < 3; w++) k[w] = -2 * (a[i] * (C[w] - A[w]) + b[j] * (C[w] - B[w])); }
static double rad(int pr, int l, int n) {
  double kv[3];
  kvec(pr / NB, pr % NB, kv);
  if (l > 0 && fabs(kv[0]) + fabs(kv[1]) + fabs(kv[2]) < 1e-13) return 0; /* modified Bessel functions of positive order vanish at the origin */
  return ai_atom_in(1000 + (pr * 64 + l) * 64 + n, 0.5, 2); }
static double pre;
radial_type1_table_t *ai_stub_tabulate_radial_type1_integrals(int lambda_max, int n_max, double CA_2, double CB_2, double alA, double alB, double k, double prefactor, double (*potential)(double, void *), void *par) {
  ai_reach("AUX");
  for (int i = 0; i < NA; i++) for (int j = 0; j < NB; j++) if (alA == a[i] && alB == b[j]) {
    double kv[3], o[3] = {0, 0, 0};
    kvec(i, j, kv);
    ai_check(near(CA_2, d2(A, C)) && near(CB_2, d2(B, C)), "squared distances of the shells from the centre");
    ai_check(near(k, sqrt(d2(kv, o))), "length of the expansion vector");
    pre = prefactor;
    ai_check(near(prefactor, 4 * M_PI * norm(a[i], LA) * norm(b[j], LB)), "prefactor of the radial integrals");
    maxl[i * NB + j] = lambda_max; maxn[i * NB + j] = n_max;
    return &tabs[i * NB + j];
  }
  ai_check(0, "radial integrals belong to a pair of primitives of the two shells");
  return 0;
}
double ai_stub_get_radial_type1_integral(radial_type1_table_t *t, int l, int n) {
  int pr = 0;
  while (pr < NA * NB - 1 && t != &tabs[pr]) pr++;
  ai_check(l >= 0 && l <= maxl[pr] && n >= 0 && n <= maxn[pr], "radial integral within the tabulated range");
  return rad(pr, l, n);
}
void ai_stub_delete_radial_type1_integrals(radial_type1_table_t *t) {}
static double out[3][SA * SB];
static void setup(void) { angular(0); }
static void evaluate(void) {
#if PN == 0
  libgrpp_nuclear_attraction_integrals_charged_ball(sA, sB, C, 17, 0.01, out[0]);
#elif PN == 1
  libgrpp_nuclear_attraction_integrals_gaussian_model(sA, sB, C, 17, 0.01, out[0]);
#else
  libgrpp_nuclear_attraction_integrals_fermi_model(sA, sB, C, 17, 0.01, 0.001, out[0]);
#endif
}
static double zt[NA * NB][LA + LB + 1][(LA + LB + 1) * (LA + LB + 2) * (LA + LB + 3) / 6];
static int zt_ready;
static int zi(int i, int j, int k) { int n = i + j + k, t = n * (n + 1) * (n + 2) / 6; for (int x = 0; x < i; x++) t += n - x + 1; return t + j; }
static double ref(int mat, const int *x, const int *y) {
  double s = 0;
  if (!zt_ready) {
    zt_ready = 1;
    for (int i = 0; i < NA; i++) for (int j = 0; j < NB; j++) {
      double kv[3], u[3];
      kvec(i, j, kv); unit(kv, u);
      for (int l = 0; l <= NF; l++) for (int p = 0; p <= NF; p++) for (int q = 0; q <= NF - p; q++) for (int r = 0; r <= NF - p - q; r++)
        zt[i * NB + j][l][zi(p, q, r)] = l > p + q + r ? 0 : zonal(l, u, p, q, r);
    }
  }
  for (int i = 0; i < NA; i++) for (int j = 0; j < NB; j++) {
    double w[NF + 1][NF + 1];
    for (int l = 0; l <= NF; l++) for (int n = 0; n <= NF; n++) w[l][n] = 0;
    for (int p = 0; p <= x[0]; p++) for (int q = 0; q <= x[1]; q++) for (int r = 0; r <= x[2]; r++)
      for (int d = 0; d <= y[0]; d++) for (int e = 0; e <= y[1]; e++) for (int f = 0; f <= y[2]; f++) {
        double g = binom(x[0], p) * binom(x[1], q) * binom(x[2], r) * binom(y[0], d) * binom(y[1], e) * binom(y[2], f) *
          ipow(C[0] - A[0], x[0] - p) * ipow(C[1] - A[1], x[1] - q) * ipow(C[2] - A[2], x[2] - r) * ipow(C[0] - B[0], y[0] - d) * ipow(C[1] - B[1], y[1] - e) * ipow(C[2] - B[2], y[2] - f);
        if (g == 0) continue;
        for (int l = 0; l <= p + q + r + d + e + f; l++) w[l][p + q + r + d + e + f] += g * zt[i * NB + j][l][zi(p + d, q + e, r + f)];
      }
    for (int l = 0; l <= NF; l++) for (int n = 0; n <= NF; n++) if (fabs(w[l][n]) > 1e-14) s += COEF_A(i) * kb[j] * w[l][n] * rad(i * NB + j, l, n);
  }
  return s;
}
#endif
#if KIND >= 6
/* semi-local and spin-orbit: 16 pi^2 sum binomials sum_{lambda1,lambda2} T(lambda1,lambda2,N) sum_m Omega_1m Omega_2m' */
static radial_type2_table_t tab;
static int max1, max2, maxN;
static libgrpp_potential_t *U;
/* the modified Bessel functions of positive order vanish at the origin */
static double rad(int l1, int l2, int n) { return (l1 > 0 && d2(A, C) < 1e-24) || (l2 > 0 && d2(B, C) < 1e-24) ? 0 : ai_atom_in(1000 + (l1 * 64 + l2) * 64 + n, 0.5, 2); }
radial_type2_table_t *ai_stub_tabulate_radial_type2_integrals(int l1, int l2, int n, double CA_2, double CB_2, libgrpp_potential_t *pot, libgrpp_shell_t *bra, libgrpp_shell_t *ket) {
  ai_reach("AUX");
  ai_check(near(CA_2, d2(A, C)) && near(CB_2, d2(B, C)), "squared distances of the shells from the centre");
  ai_check(pot->L == PL && pot->num_primitives == U->num_primitives, "radial integrals are taken with the potential of the call");
  for (int k = 0; k < NPOT && k < pot->num_primitives; k++) ai_check(pot->coeffs[k] == U->coeffs[k] && pot->alpha[k] == U->alpha[k] && pot->powers[k] == U->powers[k], "radial integrals are taken with the potential of the call");
  if (bra->num_primitives != NA || ket->num_primitives != NB) { ai_check(0, "radial integrals are taken between the shells of the call"); return &tab; }
  ai_check(bra->num_primitives == NA && ket->num_primitives == NB && bra->L == LA && ket->L == LB, "radial integrals are taken between the shells of the call");
  for (int i = 0; i < NA; i++) ai_check(bra->alpha[i] == a[i] && bra->coeffs[i] == COEF_A(i), "radial integrals are taken between the shells of the call");
  for (int i = 0; i < NB; i++) ai_check(ket->alpha[i] == b[i] && ket->coeffs[i] == kb[i], "radial integrals are taken between the shells of the call");
  max1 = l1; max2 = l2; maxN = n;
  return &tab;
}
double ai_stub_get_radial_type2_integral(radial_type2_table_t *t, int l1, int l2, int n) {
  ai_check(l1 >= 0 && l1 <= max1 && l2 >= 0 && l2 <= max2 && n >= 0 && n <= maxN, "radial integral within the tabulated range");
  return rad(l1, l2, n);
}
void ai_stub_delete_radial_type2_integrals(radial_type2_table_t *t) {}
static double out[3][SA * SB];
static void setup(void) {
  int p[MX]; double c[MX], x[MX];
  for (int k = 0; k < NPOT; k++) { p[k] = 2 - k % 2; c[k] = k == 0 ? 3.3 : k == 1 ? -1.7 : 0.6 + 0.05 * k; x[k] = k == 0 ? 0.4 : k == 1 ? 1.3 : 0.25 * pow(1.31, k); }
  U = libgrpp_new_potential(PL, 0, NPOT, p, c, x);
  angular(PL);
}
static void evaluate(void) {
#if KIND == 6
  libgrpp_type2_integrals(sA, sB, C, U, out[0]);
#else
  libgrpp_spin_orbit_integrals(sA, sB, C, U, out[0], out[1], out[2]);
#endif
}
enum { LX = LA > LB ? LA : LB, NABC = (LX + 1) * (LX + 2) * (LX + 3) / 6 };
static double Om[2][NABC][LX + PL + 1][NM]; /* side, powers, lambda, m */
static int zi(int i, int j, int k) { int n = i + j + k, t = n * (n + 1) * (n + 2) / 6; for (int x = 0; x < i; x++) t += n - x + 1; return t + j; }
static void omegas(void) {
  double u[2][3], k0[3], k1[3];
  for (int w = 0; w < 3; w++) { k0[w] = -2 * (C[w] - A[w]); k1[w] = -2 * (C[w] - B[w]); }
  unit(k0, u[0]); unit(k1, u[1]);
  for (int s = 0; s < 2; s++) {
    int L = s ? LB : LA;
    for (int p = 0; p <= L; p++) for (int q = 0; q <= L - p; q++) for (int r = 0; r <= L - p - q; r++)
      for (int l = 0; l <= PL + p + q + r; l++) {
        double W[NMON];
        if ((l + PL + p + q + r) % 2) continue;
        for (int i = 0; i < NMON; i++) W[i] = zonal(l, u[s], p + mon[3 * i], q + mon[3 * i + 1], r + mon[3 * i + 2]);
        for (int m = 0; m < NM; m++) {
          double t = 0;
          for (int i = 0; i < NMON; i++) if (Y[m][i] != 0) t += Y[m][i] * W[i];
          Om[s][zi(p, q, r)][l][m] = fabs(t) < 1e-14 ? 0 : t;
        }
      }
  }
}
/* side s, component x: coefficient of lambda, degree n and m */
static double side[2][SA > SB ? SA : SB][LX + 1][LX + PL + 1][NM];
static void sides(void) {
  for (int s = 0; s < 2; s++) {
    libgrpp_shell_t *S = s ? sB : sA;
    const double *o = s ? B : A;
    int L = s ? LB : LA;
    for (int c = 0; c < (s ? SB : SA); c++) {
      const int *x = S->cart_list + 3 * c;
      for (int n = 0; n <= L; n++) for (int l = 0; l <= L + PL; l++) for (int m = 0; m < NM; m++) side[s][c][n][l][m] = 0;
      for (int p = 0; p <= x[0]; p++) for (int q = 0; q <= x[1]; q++) for (int r = 0; r <= x[2]; r++) {
        double g = binom(x[0], p) * binom(x[1], q) * binom(x[2], r) * ipow(C[0] - o[0], x[0] - p) * ipow(C[1] - o[1], x[1] - q) * ipow(C[2] - o[2], x[2] - r);
        if (g == 0) continue;
        for (int l = 0; l <= PL + p + q + r; l++) if ((l + PL + p + q + r) % 2 == 0)
          for (int m = 0; m < NM; m++) side[s][c][p + q + r][l][m] += g * Om[s][zi(p, q, r)][l][m];
      }
    }
  }
}
static double ref_at(int mat, int c, int d) {
  double s = 0;
  for (int n1 = 0; n1 <= LA; n1++) for (int l1 = (PL + n1) % 2; l1 <= PL + n1; l1 += 2)
    for (int n2 = 0; n2 <= LB; n2++) for (int l2 = (PL + n2) % 2; l2 <= PL + n2; l2 += 2) {
      double t = 0;
      for (int m = 0; m < NM; m++) {
        if (side[0][c][n1][l1][m] == 0) continue;
#if KIND == 6
        t += side[0][c][n1][l1][m] * side[1][d][n2][l2][m];
#else
        for (int k = 0; k < NM; k++) if (fabs(Lop[mat][m][k]) > 1e-12) t += side[0][c][n1][l1][m] * Lop[mat][m][k] * side[1][d][n2][l2][k];
#endif
      }
      if (fabs(t) > 1e-15) s += 16 * M_PI * M_PI * t * rad(l1, l2, n1 + n2);
    }
  return s;
}
#endif

enum { NMAT = KIND == 2 || KIND == 7 ? 3 : 1 };
static double want[3][SA * SB];
void harness(void) {
  double cA[MX];
  for (int w = 0; w < MX; w++) { a[w] = w < 3 ? xa[EXPO][w] : 0.15 * pow(1.27, w); b[w] = w < 3 ? xb[EXPO][w] : 0.17 * pow(1.29, w); kb[w] = w == 0 ? 1.1 : w == 1 ? -0.6 : w == 2 ? 0.4 : (w % 2 ? -0.3 : 0.5) + 0.01 * w; }
  for (int w = 0; w < NA || w < 3; w++) cA[w] = COEF_A(w);
  for (int w = 0; w < 3; w++) { A[w] = pts[GEO][0][w]; B[w] = pts[GEO][1][w]; C[w] = pts[GEO][2][w]; }
#if ORDER == 1
  libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_TURBOMOLE);
#elif ORDER == 2
  libgrpp_set_cartesian_generator(user_generator);
#endif
  sA = libgrpp_new_shell(A, LA, NA, cA, a);
  sB = libgrpp_new_shell(B, LB, NB, kb, b);
#ifdef TRUNC /* memory checks at the largest angular momenta: one component of each list, no reference */
  libgrpp_shell_t *AB[2] = {sA, sB};
  for (int w = 0; w < 2; w++) { int k = TRUNC == 1 ? 0 : AB[w]->cart_size / 2; for (int q = 0; q < 3; q++) AB[w]->cart_list[q] = AB[w]->cart_list[3 * k + q]; AB[w]->cart_size = 1; }
#endif
  for (int m = 0; m < 3; m++) for (int i = 0; i < SA * SB; i++) out[m][i] = 1e3 + i;
#if KIND >= 6
  create_real_spherical_harmonic_coeffs_tables(40 < LA + LB + PL + 2 ? 40 : LA + LB + PL + 2);
#elif KIND == 5
  create_real_spherical_harmonic_coeffs_tables(LA + LB + 1);
#endif
#if KIND >= 3
  setup();
#endif
  evaluate();
  ai_reach("returned");
#ifdef TRUNC
  ai_reach("end");
  return;
#endif
#if KIND >= 6
  omegas(); sides();
#endif
  double mag = 0;
  for (int i = 0; i < SA; i++)
    for (int j = 0; j < SB; j++)
      for (int m = 0; m < NMAT; m++) {
#if KIND >= 6
        want[m][i * SB + j] = ref_at(m, i, j);
#else
        want[m][i * SB + j] = ref(m, sA->cart_list + 3 * i, sB->cart_list + 3 * j);
#endif
        double s = ai_scale(want[m][i * SB + j]);
        if (s > mag) mag = s;
      }
#if KIND <= 4
  /* magnitude of the product of two s functions of this normalisation */
  for (int i = 0; i < NA; i++) for (int j = 0; j < NB; j++) {
    double p = a[i] + b[j], f = 1e-3 * fabs(kb[j]) * norm(a[i], LA) * norm(b[j], LB);
#if KIND <= 2
    double s = f * pow(M_PI / p, 1.5) * exp(-a[i] * b[j] / p * d2(A, B));
    if (s > mag) mag = s;
#else
    for (int k = 0; k < NT; k++) {
      double q, Q[3], K;
      QC(i, j, k, &q, Q, &K);
      if (f * K * 2 * M_PI / q > mag) mag = f * K * 2 * M_PI / q;
    }
#endif
  }
#else
  if (mag < 1) mag = 1;
#endif
  for (int m = 0; m < NMAT; m++)
    for (int i = 0; i < SA * SB; i++)
      ai_check_close(out[m][i], want[m][i], 1e-9 * mag, "matrix element equals the closed form for its pair of components");
  ai_reach("end");
}
