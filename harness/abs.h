/* Intrinsics understood by the static analyser (engine/absint.cpp).  Harness code is compiled to LLVM IR,
   linked with the library's IR and abstractly interpreted; it is never executed. */
#ifndef AI_ABS_H
#define AI_ABS_H
#include <stdlib.h>
#include <string.h>
double ai_real(double lo, double hi);
int ai_int(int lo, int hi);
double ai_dim(double v, double u0, double u1, double u2, double u3, double u4, double u5, double u6, double u7);
double ai_taint(double v, int label);
int ai_itaint(int v, int label);
double ai_par(double v, int mask);
double ai_shift(double v, double w);
double ai_atom(int id);
double ai_atom_in(int id, double lo, double hi);
double ai_uninit_double(void);
void ai_fill(double *p, long n, double v);
void ai_readonly(void *p, int on);
void ai_track_heap(int on);
void ai_no_report(int on);
void ai_reach(const char *s);
void ai_unreachable(const char *s);
void ai_check(int cond, const char *s);
long ai_region_size(void *p);
int ai_same_region(void *p, void *q);
int ai_is_live(void *p);
void ai_check_leaks(const char *s);
void ai_check_dim(double v, double u0, double u1, double u2, double u3, double u4, double u5, double u6, double u7, const char *s);
void ai_check_par(double v, int mask, const char *s);
void ai_check_shift0(double v, const char *s);
void ai_check_has(double v, long mask, const char *s);
void ai_check_not(double v, long mask, const char *s);
void ai_check_init(double v, const char *s);
void ai_check_nonzero(double v, const char *s);
void ai_check_same(double v, double expected, const char *s);
void ai_check_ptr(void *p, void *q, const char *s);
void ai_dump(double v, const char *s);
void ai_map_literals(int on);
void ai_delay(int n);
void ai_watch(int mode);
int ai_imax(int v);
int ai_imin(int v);
double ai_scale(double v);
void ai_check_close(double v, double expected, double tolerance, const char *s);
int ai_is_same(double v, double expected);
void ai_watch_copy(int label);
void ai_trace(const char *s);
#endif
