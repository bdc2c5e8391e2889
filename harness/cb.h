/* interface of the CBMC harnesses */
#ifndef CB_H
#define CB_H
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#ifdef CB_CBMC
int nondet_int(void); double nondet_double(void);
#define ND_INT(var) do { (var) = nondet_int(); __CPROVER_input(#var, (var)); } while (0)
#define ND_DOUBLE(var) do { (var) = nondet_double(); __CPROVER_input(#var, (var)); } while (0)
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, l) __CPROVER_assert(c, l)
#define REACH() __CPROVER_assert(0, "REACH end of harness")
#else
int nd_int_(const char *); double nd_double_(const char *); void nd_assume_(int); void cb_check_(int, const char *);
#define ND_INT(var) ((var) = nd_int_(#var))
#define ND_DOUBLE(var) ((var) = nd_double_(#var))
#define ASSUME(c) nd_assume_(!!(c))
#define CHECK(c, l) cb_check_(!!(c), l)
#define REACH() ((void)0)
#endif
#define ND_RANGE(var, lo, hi) do { ND_INT(var); ASSUME((var) >= (lo) && (var) <= (hi)); } while (0)
#endif
