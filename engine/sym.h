/* Harness interface.  The same harness source is built twice:
 *  - symbolically (SYM_SYMBOLIC): all doubles may be symbolic terms, checks are SMT queries;
 *  - natively: inputs come from a model file, checks are floating-point comparisons (replay). */
#ifndef SYM_H
#define SYM_H
#ifdef __cplusplus
extern "C" {
#endif
/* an input: any real number in [lo,hi] */
double sym_real(const char *name, double lo, double hi);
/* an input: an integer in [0,n), explored by case split */
int sym_choice(const char *name, int n);
/* a value about which nothing is known except later assumptions (symbolic mode only) */
double sym_fresh(const char *name);
/* assumptions on inputs */
void sym_assume_le(double a, double b);
void sym_assume_lt(double a, double b);
void sym_assume_eq(double a, double b);
void sym_assume_ne(double a, double b);
void sym_stop(void);                       /* abandon this path (assumption failed) */
/* checks; label names the violated condition */
void sym_check_eq(double a, double b, const char *label);
void sym_check_le(double a, double b, const char *label);
void sym_check_lt(double a, double b, const char *label);
void sym_check(int cond, const char *label);
/* formal derivative d f / d x, x an input (symbolic mode only) */
double sym_diff(double f, double x);
int  sym_is_symbolic(void);                /* 1 in symbolic mode */
int  sym_is_term(double x);                /* 1 if x is a non-constant term */
int  sym_is_nan(double x);
void sym_reach(const char *label);         /* witness counter */
void sym_dump(const char *what, double x); /* debugging */
/* solve A x = b, CSR */
void sym_solve(int n, const int *ia, const int *ja, const double *sa, const double *b, double *x);
/* tolerance used by the native build for sym_check_eq / sym_check_le */
void sym_native_tol(double rel, double abs_);
/* numeric step for native finite differences */
#ifdef __cplusplus
}
#endif
#endif
