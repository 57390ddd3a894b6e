/* C04: objects made by constructors and derived from other objects reproduce their source data, in storage of their own */
#include "abs.h"
#include "libgrpp.h"
#include "parameters.h"
#include "diff_gaussian.h"
#ifndef NP
#define NP 4
#endif
/* ZMASK: which primitives have (numerically) vanishing coefficients */
#define ZERO(i) ((i) < 31 && (ZMASK >> (i) & 1))
#ifndef ZMASK
#define ZMASK 0
#endif
static double o[3], c[256], a[256];
static int pw[256];
static double *hc, *ha, *ho;
static int *hp;
static void sources(void) {
  ho = malloc(3 * sizeof(double)); hc = malloc(NP * sizeof(double)); ha = malloc(NP * sizeof(double)); hp = malloc(NP * sizeof(int));
  for (int k = 0; k < 3; k++) ho[k] = o[k] = ai_atom_in(100 + k, -50, 50);
  for (int i = 0; i < NP; i++) {
    hc[i] = c[i] = (ZERO(i)) ? (i % 2 ? 0.0 : 1e-15) : i % 3 == 2 ? ai_atom_in(2000 + i, -1e9, -2e-14) : ai_atom_in(2000 + i, 2e-14, 1e9);
    ha[i] = a[i] = ai_atom_in(4000 + i, 1e-6, 1e12);
    hp[i] = pw[i] = (i * 2 + 1) % 3;
  }
  ai_readonly(ho, 1); ai_readonly(hc, 1); ai_readonly(ha, 1); ai_readonly(hp, 1);
}
static void shell_is(libgrpp_shell_t *s, int L, int n, int drop) {
  ai_check(s->L == L, "angular momentum of the shell");
  ai_check(s->cart_size == (L + 1) * (L + 2) / 2, "number of components of the shell");
  for (int k = 0; k < 3; k++) ai_check_same(s->origin[k], o[k], "coordinate of the shell");
  int q = 0;
  for (int i = 0; i < n; i++) {
    if (drop && (ZERO(i))) continue;
    ai_check_same(s->coeffs[q], c[i], "coefficient of the shell, in the given order");
    ai_check_same(s->alpha[q], a[i], "exponent of the shell, in the given order");
    q++;
  }
  ai_check(s->num_primitives == q, "number of primitives of the shell");
}
static void disjoint(libgrpp_shell_t *s, libgrpp_shell_t *t) {
  ai_check(!ai_same_region(s, t) && !ai_same_region(s->coeffs, t->coeffs) && !ai_same_region(s->alpha, t->alpha) && !ai_same_region(s->cart_list, t->cart_list), "the derived shell owns its arrays");
}
static void own(void *x) { ai_check(!ai_same_region(x, ho) && !ai_same_region(x, hc) && !ai_same_region(x, ha) && !ai_same_region(x, hp), "the object does not keep the caller's arrays"); }
static void pot_is(libgrpp_potential_t *u, int L, int J) {
  ai_check(u->L == L && u->J == J, "angular momenta of the potential");
  int q = 0;
  for (int i = 0; i < NP; i++) {
    if (ZERO(i)) continue;
    ai_check_same(u->coeffs[q], c[i], "coefficient of the potential, in the given order");
    ai_check_same(u->alpha[q], a[i], "exponent of the potential, in the given order");
    ai_check(u->powers[q] == pw[i], "power of the potential, in the given order");
    q++;
  }
  ai_check(u->num_primitives == q, "number of primitives of the potential");
}
static int user_generator(int L, int *list) {
  int n = 0;
  for (int k = 0; k <= L; k++) for (int m = 0; m <= L - k; m++) { list[3 * n] = m; list[3 * n + 1] = L - k - m; list[3 * n + 2] = k; n++; }
  return n;
}
void harness(void) {
  sources();
#if PART == 0 /* shells */
  for (int L = 0; L <= 11; L++) {
    libgrpp_shell_t *s = libgrpp_new_shell(ho, L, NP, hc, ha);
    shell_is(s, L, NP, 0);
    own(s->coeffs); own(s->alpha);
    libgrpp_shell_t *t = libgrpp_shell_deep_copy(s);
    shell_is(t, L, NP, 0); disjoint(s, t);
    for (int i = 0; i < 3 * s->cart_size; i++) ai_check(t->cart_list[i] == s->cart_list[i], "the copy of a shell has the components of the shell");
    /* a copy is made of the object, not of the settings in force: it keeps its components when the convention has changed */
    libgrpp_set_cartesian_generator(user_generator);
    libgrpp_shell_t *v = libgrpp_shell_deep_copy(s);
    shell_is(v, L, NP, 0); disjoint(s, v);
    for (int i = 0; i < 3 * s->cart_size; i++) ai_check(v->cart_list[i] == s->cart_list[i], "the copy of a shell has the components of the shell");
    libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_DIRAC);
    /* the copy survives its source and the other way round */
    libgrpp_delete_shell(s);
    shell_is(t, L, NP, 0);
    libgrpp_shell_t *m = NULL, *p = NULL;
    differentiate_shell(t, &m, &p);
    shell_is(t, L, NP, 0);
    ai_check((m == NULL) == (L == 0), "s shells have no lowered shell");
    if (m) { ai_check(m->L == L - 1 && m->cart_size == L * (L + 1) / 2 && m->num_primitives == NP, "lowered shell"); disjoint(m, t); disjoint(m, p); }
    ai_check(p->L == L + 1 && p->cart_size == (L + 2) * (L + 3) / 2 && p->num_primitives == NP, "raised shell"); disjoint(p, t);
    for (int k = 0; k < 3; k++) { ai_check_same(p->origin[k], o[k], "centre of the raised shell"); if (m) ai_check_same(m->origin[k], o[k], "centre of the lowered shell"); }
    for (int i = 0; i < NP; i++) { ai_check_same(p->alpha[i], a[i], "exponent of the raised shell"); if (m) ai_check_same(m->alpha[i], a[i], "exponent of the lowered shell"); }
    if (m) libgrpp_delete_shell(m);
    libgrpp_delete_shell(p);
    libgrpp_shell_shrink(v);
    shell_is(v, L, NP, 1);
    libgrpp_delete_shell(t);
    shell_is(v, L, NP, 1);
    libgrpp_delete_shell(v);
  }
#elif PART == 1 /* potentials */
  for (int L = 0; L <= 10; L++) for (int w = 0; w < 2; w++) {
    int J = w ? 2 * L + 1 : 2 * L - 1;
    libgrpp_potential_t *u = libgrpp_new_potential(L, J, NP, hp, hc, ha);
    pot_is(u, L, J);
    own(u->coeffs); own(u->alpha); own(u->powers);
    libgrpp_potential_t *v = libgrpp_shrink_potential(u);
    pot_is(v, L, J); pot_is(u, L, J);
    ai_check(!ai_same_region(u, v) && !ai_same_region(u->coeffs, v->coeffs) && !ai_same_region(u->alpha, v->alpha) && !ai_same_region(u->powers, v->powers), "the derived potential owns its arrays");
    libgrpp_delete_potential(u);
    pot_is(v, L, J);
    /* a potential whose terms were set to zero afterwards */
    for (int i = 0; i < v->num_primitives; i++) v->coeffs[i] = 0.0;
    libgrpp_potential_t *z = libgrpp_shrink_potential(v);
    ai_check(z->num_primitives == 0 && z->L == L && z->J == J, "removal of all terms");
    libgrpp_delete_potential(v); libgrpp_delete_potential(z);
  }
#else /* full pseudopotential: every component handed over is stored, in order, in its own part */
  libgrpp_grpp_t *g = libgrpp_new_grpp();
  ai_check(g->n_arep == 0 && g->n_esop == 0 && g->n_oc_shells == 0 && g->U_L == NULL, "a new pseudopotential is empty");
  libgrpp_potential_t *ul[2], *ua[NC], *us[NC], *uo[NC];
  libgrpp_shell_t *so[NC];
  for (int i = 0; i < NC; i++) {
    ua[i] = libgrpp_new_potential(i % 11, 0, NP, hp, hc, ha); libgrpp_grpp_add_averaged_potential(g, ua[i]);
    if (i % 2 == 0) { us[i / 2] = libgrpp_new_potential(i % 11, 0, NP, hp, hc, ha); libgrpp_grpp_add_spin_orbit_potential(g, us[i / 2]); }
    if (i == NC / 2) { ul[0] = libgrpp_new_potential(0, 0, NP, hp, hc, ha); libgrpp_grpp_set_local_potential(g, ul[0]); ai_check_ptr(g->U_L, ul[0], "local part"); }
    uo[i] = libgrpp_new_potential(i % 11, 1, NP, hp, hc, ha); so[i] = libgrpp_new_shell(ho, i % 11, NP, hc, ha); libgrpp_grpp_add_outercore_potential(g, uo[i], so[i]);
  }
  ul[1] = libgrpp_new_potential(0, 0, NP, hp, hc, ha); libgrpp_grpp_set_local_potential(g, ul[1]); ai_check_ptr(g->U_L, ul[1], "local part replaced");
  ai_check(g->n_arep == NC && g->n_esop == (NC + 1) / 2 && g->n_oc_shells == NC, "number of components");
  for (int i = 0; i < NC; i++) {
    ai_check_ptr(g->U_arep[i], ua[i], "averaged component, in the order of addition");
    if (i < g->n_esop) ai_check_ptr(g->U_esop[i], us[i], "spin-orbit component, in the order of addition");
    ai_check_ptr(g->U_oc[i], uo[i], "outercore potential, in the order of addition");
    ai_check_ptr(g->oc_shells[i], so[i], "outercore shell, in the order of addition");
    pot_is(g->U_arep[i], i % 11, 0); pot_is(g->U_oc[i], i % 11, 1); shell_is(g->oc_shells[i], i % 11, NP, 0);
  }
  libgrpp_delete_grpp(g);
#endif
  ai_reach("end");
}
