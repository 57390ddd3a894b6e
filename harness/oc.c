/* C11 (PART 0), C26: the outercore operator over stub specifications of the public component routines.  Overlaps are arbitrary
   constants, local-potential integrals are symbolic primitive integrals and potential coefficients are symbols, so every
   matrix element is an exact linear form in them. */
#include "abs.h"
#include "libgrpp.h"
#include "overlap.h"
#include <math.h>
#ifndef PART
#define PART 0
#endif
#ifndef LA
#define LA 1
#endif
#ifndef LB
#define LB 1
#endif
#ifndef L1
#define L1 1
#endif
#ifndef NPOT
#define NPOT 2
#endif
#ifndef NC
#define NC 2
#endif
#ifndef ORDER
#define ORDER 0
#endif
#ifndef L2
#define L2 L1
#endif
static double CC[3] = {0.3, -0.2, 0.9};
/* shells: 0 A, 1 B, 2.. outercore shells */
enum { MAXS = 64 };
static double coef[2] = {0.7, -1.3};
static double expo(int s, int p) { return (p ? 0.57 : 5.5) * (1 + 0.171 * s); }
static double ccoef(int s, int p) { return coef[p] * (1 + 0.11 * s); }
static double norm(double al, int L) { return pow(2 * al / M_PI, 0.75) * pow(4 * al, 0.5 * L); }
static int nsh, nprim[MAXS], sL[MAXS], sJ[MAXS];
static libgrpp_shell_t *S[MAXS];
static libgrpp_potential_t *U[MAXS];
static int code(const int *c) { return (c[0] * 16 + c[1]) * 16 + c[2]; }
static int find(libgrpp_shell_t *X) {
  for (int s = 0; s < nsh; s++) if (X->num_primitives == nprim[s] && X->alpha[0] == expo(s, 0)) return s;
  ai_check(0, "component integrals are taken between functions of the two shells and of the outercore shells");
  return -1;
}
static void place(libgrpp_shell_t *X, int s) {
  if (s < 2) ai_check(X->origin[0] == S[s]->origin[0] && X->origin[1] == S[s]->origin[1] && X->origin[2] == S[s]->origin[2], "component integrals use the origins of the two shells");
  else ai_check(X->origin[0] == CC[0] && X->origin[1] == CC[1] && X->origin[2] == CC[2], "outercore functions are placed at the pseudopotential centre");
}
/* distinct identifiers and arbitrary numbers for tuples of small integers (multiplicative hashing modulo a prime) */
static long mix(int k, int s, int p, const int *x, int t, int q, const int *y) {
  long v[7] = {k, s, p, code(x), t, q, code(y)}, h = 12345;
  for (int i = 0; i < 7; i++) h = (h * 48271 + (v[i] + 7) * 16807 * 31) % 2147483647;
  for (int i = 0; i < 3; i++) h = h * 48271 % 2147483647;
  return h;
}
/* arbitrary but fixed overlap of primitive p with powers x of shell s and primitive q with powers y of shell t */
static double ov(int s, int p, const int *x, int t, int q, const int *y) {
  if (s > t) return ov(t, q, y, s, p, x);
  return 0.1 + (double) (mix(1000, s, p, x, t, q, y) % 100000) / 100000;
}
static double ui(int pot, int s, int p, const int *x, int t, int q, const int *y) {
  if (s > t) return ui(pot, t, q, y, s, p, x);
  return ai_atom(100000 + mix(pot, s, p, x, t, q, y) % 2147000000);
}
static double pcoef(int s, int k) { return ai_atom_in(1000 * s + k + 1, 0.5, 2); }
static double pexp(int s, int k) { return 0.4 + k + 0.13 * s; }
static int pown(int s, int k) { return (s + k) % 3; }
int ai_stub_libgrpp_is_initialized() { return 1; }
void ai_stub_libgrpp_overlap_integrals(libgrpp_shell_t *X, libgrpp_shell_t *Y, double *m) {
  ai_reach("OVL");
  int s = find(X), t = find(Y);
  if (s < 0 || t < 0) return;
  place(X, s); place(Y, t);
  for (int i = 0; i < X->cart_size; i++)
    for (int j = 0; j < Y->cart_size; j++) {
      double v = 0;
      for (int p = 0; p < X->num_primitives; p++)
        for (int q = 0; q < Y->num_primitives; q++)
          v += X->coeffs[p] * norm(X->alpha[p], X->L) * Y->coeffs[q] * norm(Y->alpha[q], Y->L) * ov(s, p, X->cart_list + 3 * i, t, q, Y->cart_list + 3 * j);
      m[i * Y->cart_size + j] = v;
    }
}
void ai_stub_libgrpp_type1_integrals(libgrpp_shell_t *X, libgrpp_shell_t *Y, double *c, libgrpp_potential_t *V, double *m) {
  ai_reach("T1");
  int s = find(X), t = find(Y), v = -1;
  if (s < 0 || t < 0) return;
  place(X, s); place(Y, t);
  ai_check(c[0] == CC[0] && c[1] == CC[1] && c[2] == CC[2], "component integrals use the pseudopotential centre");
  for (int k = 2; k < nsh; k++) if (V->num_primitives == NPOT && V->alpha[0] == pexp(k, 0)) v = k;
  ai_check(v >= 0 && ((s == v) != (t == v)), "the radial part is taken with its own outercore shell on one side");
  if (v < 0) return;
  for (int k = 0; k < NPOT; k++) ai_check(V->alpha[k] == pexp(v, k) && V->powers[k] == pown(v, k) && ai_is_same(V->coeffs[k], pcoef(v, k)), "radial part of the outercore potential");
  for (int i = 0; i < X->cart_size; i++)
    for (int j = 0; j < Y->cart_size; j++) {
      double w = 0;
      for (int p = 0; p < X->num_primitives; p++)
        for (int q = 0; q < Y->num_primitives; q++)
          w += X->coeffs[p] * norm(X->alpha[p], X->L) * Y->coeffs[q] * norm(Y->alpha[q], Y->L) * ui(v, s, p, X->cart_list + 3 * i, t, q, Y->cart_list + 3 * j);
      m[i * Y->cart_size + j] = w;
    }
}
void ai_stub_libgrpp_type2_integrals(libgrpp_shell_t *X, libgrpp_shell_t *Y, double *c, libgrpp_potential_t *V, double *m) {
  ai_reach("T2"); ai_stub_libgrpp_type1_integrals(X, Y, c, V, m); /* on a function of angular momentum L both are the same operator */
}
static int add(const double *o, int L, int J, int np) {
  double c[2], a[2];
  int s = nsh++;
  for (int p = 0; p < np; p++) { c[p] = ccoef(s, p); a[p] = expo(s, p); }
  nprim[s] = np; sL[s] = L; sJ[s] = J;
  S[s] = libgrpp_new_shell((double *) o, L, np, c, a);
  if (s >= 2) {
    int pw[NPOT]; double cc[NPOT], aa[NPOT];
    for (int k = 0; k < NPOT; k++) { pw[k] = pown(s, k); cc[k] = pcoef(s, k); aa[k] = pexp(s, k); }
    U[s] = libgrpp_new_potential(L, J, NPOT, pw, cc, aa);
  }
  return s;
}
static void drop(void) { for (int s = 2; s < nsh; s++) { libgrpp_delete_shell(S[s]); libgrpp_delete_potential(U[s]); } nsh = 2; }
static int user_generator(int L, int *list) {
  int c = 0;
  for (int m = 0; m <= L; m++) for (int n = 0; n <= L - m; n++) { list[3 * c] = n; list[3 * c + 1] = L - m - n; list[3 * c + 2] = m; c++; }
  return c;
}
/* ---- reference ---- */
enum { NA_ = (LA + 1) * (LA + 2) / 2, NB_ = (LB + 1) * (LB + 2) / 2, LM = L1 > L2 ? L1 : L2, NS = (LM + 1) * (LM + 2) / 2, NM = 2 * LM + 1 };
static double out[4][NA_ * NB_];
static double fact(int n) { double r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
static double binom(int n, int k) { return k < 0 || k > n ? 0 : fact(n) / fact(k) / fact(n - k); }
/* real solid harmonic of degree L: polynomial coefficient of x^a y^b z^c, normalised on the unit sphere */
static double solid(int L, int m, int a, int b, int c) {
  int M = m < 0 ? -m : m, r = 0;
  double s = 0;
  /* (x+iy)^M -> real (m>=0) or imaginary part, times sum_k (-1)^k 2^-L C(L,k) C(2L-2k,L) (L-2k)!/(L-2k-M)! z^(L-2k-M) (x^2+y^2+z^2)^k */
  for (int k = 0; 2 * k <= L - M; k++) {
    double t = (k % 2 ? -1 : 1) * binom(L, k) * binom(2 * L - 2 * k, L) * fact(L - 2 * k) / fact(L - 2 * k - M) / pow(2, L);
    for (int i = 0; i <= M; i++) { /* x^(M-i) (iy)^i */
      if ((i % 2 == 1) != (m < 0)) continue;
      int xa = a - (M - i), yb = b - i, zc = c - (L - 2 * k - M);
      if (xa < 0 || yb < 0 || zc < 0 || xa % 2 || yb % 2 || zc % 2 || (xa + yb + zc) != 2 * k) continue;
      s += t * ((i / 2) % 2 ? -1 : 1) * binom(M, i) * fact(k) / fact(xa / 2) / fact(yb / 2) / fact(zc / 2);
    }
  }
  r = m == 0 ? 1 : 2;
  return s * sqrt(r * (2 * L + 1) / (4 * M_PI) * fact(L - M) / fact(L + M));
}
static int lst[3 * NS];
static double Y[NM][NS], Lop[3][NM][NM];
static int idx(int L, int a, int b) { int n = 0; for (int i = 0; i < a; i++) n += L - i + 1; return n + b; }
static void angular(int L) {
  int n = 0;
  for (int a = 0; a <= L; a++) for (int b = 0; b <= L - a; b++) { lst[3 * n] = a; lst[3 * n + 1] = b; lst[3 * n + 2] = L - a - b; n++; }
  for (int m = -L; m <= L; m++) for (int i = 0; i < n; i++) Y[m + L][i] = solid(L, m, lst[3 * i], lst[3 * i + 1], lst[3 * i + 2]);
  /* minus (r x grad) in this basis; harmonic polynomials of one degree: <f,g> proportional to sum of coefficients times a!b!c! */
  for (int ax = 0; ax < 3; ax++)
    for (int m = 0; m < 2 * L + 1; m++) {
      double D[NS];
      for (int i = 0; i < n; i++) D[i] = 0;
      int u = (ax + 1) % 3, v = (ax + 2) % 3;
      for (int i = 0; i < n; i++) if (Y[m][i] != 0) /* r_u d/dr_v - r_v d/dr_u */
        for (int w = 0; w < 2; w++) {
          int up = w ? v : u, dn = w ? u : v, e[3] = {lst[3 * i], lst[3 * i + 1], lst[3 * i + 2]}, k = e[dn];
          if (k == 0) continue;
          e[dn]--; e[up]++;
          D[idx(L, e[0], e[1])] += (w ? -1 : 1) * k * Y[m][i];
        }
      for (int k = 0; k < 2 * L + 1; k++) {
        double num = 0, den = 0;
        for (int i = 0; i < n; i++) if (Y[k][i] != 0) {
          double g = fact(lst[3 * i]) * fact(lst[3 * i + 1]) * fact(lst[3 * i + 2]);
          num += g * Y[k][i] * D[i]; den += g * Y[k][i] * Y[k][i];
        }
        Lop[ax][k][m] = -num / den;
      }
    }
}
/* radial normalisation of r^L exp(-al r^2) times a sphere-normalised harmonic */
static double rnorm(double al, int L) {
  double g = sqrt(M_PI) / 2; /* Gamma(3/2) */
  for (int i = 1; i <= L; i++) g *= i + 0.5;
  return sqrt(2 * pow(2 * al, L + 1.5) / g);
}
static double rint0(int n, double a) { /* integral of r^n exp(-a r^2) */
  double r;
  if (n % 2) { r = 0.5 / a; for (int i = 1; i < n; i += 2) r *= (i + 1) / 2 / a; return r; }
  r = 0.5 * sqrt(M_PI / a);
  for (int i = 1; i < n; i += 2) r *= i / (2 * a);
  return r;
}
/* <component x of shell s | outercore function |t,m>> and the same with the local operator in between */
static void proj(int s, const int *x, int t, int L, double *o, double *u) {
  for (int m = 0; m < 2 * L + 1; m++) {
    o[m] = 0; if (u) u[m] = 0;
    for (int i = 0; i < (L + 1) * (L + 2) / 2; i++) if (Y[m][i] != 0)
      for (int p = 0; p < nprim[s]; p++)
        for (int q = 0; q < nprim[t]; q++) {
          double f = ccoef(s, p) * norm(expo(s, p), sL[s]) * ccoef(t, q) * rnorm(expo(t, q), L) * Y[m][i];
          o[m] += f * ov(s, p, x, t, q, lst + 3 * i);
          if (u) u[m] += f * ui(t, s, p, x, t, q, lst + 3 * i);
        }
  }
}
static double delta(int s, int t) { /* <s| (U_s + U_t)/2 |t> */
  double d = 0;
  for (int w = 0; w < 2; w++)
    for (int k = 0; k < NPOT; k++) {
      double r = 0;
      int v = w ? t : s;
      for (int p = 0; p < nprim[s]; p++)
        for (int q = 0; q < nprim[t]; q++)
          r += ccoef(s, p) * rnorm(expo(s, p), sL[s]) * ccoef(t, q) * rnorm(expo(t, q), sL[t]) * rint0(2 * sL[s] + pown(v, k), expo(s, p) + expo(t, q) + pexp(v, k));
      d += 0.5 * r * pcoef(v, k);
    }
  return d;
}
static double xA[NA_][NM], uA[NA_][NM], xB[NB_][NM], uB[NB_][NM], x2[NB_][NM];
static void dirty(double v) { for (int k = 0; k < 4; k++) for (int i = 0; i < NA_ * NB_; i++) out[k][i] = v; }
static void call(void) { libgrpp_outercore_potential_integrals(S[0], S[1], CC, nsh - 2, U + 2, S + 2, out[0], out[1], out[2], out[3]); }
static double expect[4][NA_ * NB_];

void harness(void) {
  double a[3] = {0, 0, 0}, b[3] = {1, -0.4, 0.6}, o[3] = {7, 7, 7};
#if ORDER == 1
  libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_TURBOMOLE);
#elif ORDER == 2
  libgrpp_set_cartesian_generator(user_generator);
#endif
  add(a, LA, 0, 2); add(b, LB, 0, 1);
#if PART == 0
  /* shells with different L or J are not coupled: the operator of two shells is the sum of the operators of each */
  for (int J = 2 * L1 - 1; J <= 2 * L1 + 1; J += 2)
    for (int K = 2 * L2 - 1; K <= 2 * L2 + 1; K += 2) {
      if (J < 0 || K < 0 || (L1 == L2 && J == K)) continue;
      add(o, L1, J, NC); add(o, L2, K, NC);
      dirty(1e3);
      call();
      for (int k = 0; k < 4; k++) for (int i = 0; i < NA_ * NB_; i++) expect[k][i] = 0;
      for (int w = 0; w < 2; w++) {
        libgrpp_shell_t *sh[1] = {S[2 + w]};
        libgrpp_potential_t *po[1] = {U[2 + w]};
        double one[4][NA_ * NB_];
        libgrpp_outercore_potential_integrals(S[0], S[1], CC, 1, po, sh, one[0], one[1], one[2], one[3]);
        for (int k = 0; k < 4; k++) for (int i = 0; i < NA_ * NB_; i++) expect[k][i] += one[k][i];
      }
      for (int k = 0; k < 4; k++) for (int i = 0; i < NA_ * NB_; i++)
        ai_check_same(out[k][i], expect[k][i], "outercore shells with different L or J are not coupled");
      drop();
    }
#else
  /* NOC shells of one L and J */
  angular(L1);
  for (int J = 2 * L1 - 1; J <= 2 * L1 + 1; J += 2) {
    if (J < 0) continue;
    for (int k = 0; k < PART; k++) add(o, L1, J, k == 0 ? NC : 3 - NC);
    dirty(1e3);
    call();
    double w = J < 2 * L1 ? L1 / (2.0 * L1 + 1) : (L1 + 1) / (2.0 * L1 + 1), g = (J < 2 * L1 ? -2.0 : 2.0) / (2 * L1 + 1);
    for (int k = 0; k < 4; k++) for (int i = 0; i < NA_ * NB_; i++) expect[k][i] = 0;
    for (int s = 2; s < nsh; s++)
      for (int t = 1; t < nsh; t++) { /* t == 1: one-shell term, otherwise the two-shell term of (s,t) */
        double d = t > 1 ? delta(s, t) : 0;
        for (int i = 0; i < NA_; i++) proj(0, S[0]->cart_list + 3 * i, s, L1, xA[i], t == 1 ? uA[i] : 0);
        for (int j = 0; j < NB_; j++) proj(1, S[1]->cart_list + 3 * j, t == 1 ? s : t, L1, xB[j], t == 1 ? uB[j] : 0);
        for (int i = 0; i < NA_; i++) for (int j = 0; j < NB_; j++)
          for (int m = 0; m < 2 * L1 + 1; m++) {
            if (t == 1) expect[0][i * NB_ + j] += w * (xA[i][m] * uB[j][m] + uA[i][m] * xB[j][m]);
            else expect[0][i * NB_ + j] -= w * (xA[i][m] * xB[j][m]) * d;
            for (int n = 0; n < 2 * L1 + 1; n++)
              for (int k = 0; k < 3; k++) if (fabs(Lop[k][m][n]) > 1e-12) {
                if (t == 1) expect[k + 1][i * NB_ + j] += g * Lop[k][m][n] * (xA[i][m] * uB[j][n] + uA[i][m] * xB[j][n]);
                else expect[k + 1][i * NB_ + j] -= g * Lop[k][m][n] * (xA[i][m] * xB[j][n]) * d;
              }
          }
      }
    for (int i = 0; i < NA_ * NB_; i++) {
      ai_check_same(out[0][i], expect[0][i], "scalar outercore matrix element");
      ai_check_same(out[1][i], expect[1][i], "spin-orbit x outercore matrix element");
      ai_check_same(out[2][i], expect[2][i], "spin-orbit y outercore matrix element");
      ai_check_same(out[3][i], expect[3][i], "spin-orbit z outercore matrix element");
    }
    drop();
  }
#endif
  ai_reach("end");
}
