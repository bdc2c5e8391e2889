/* native replay of CBMC counterexamples: inputs are read in the order in which the harness asks for them */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static FILE *in; static char lab[400];
void harness(void);
static unsigned long long next(const char *name) { char n[200], h[100]; char l[2000]; while (in && fgets(l, sizeof l, in)) { if (l[0] == '#') continue; if (sscanf(l, "%199s %99s", n, h) == 2) return strtoull(h, 0, 16); } return 0; }
int nd_int_(const char *name) { return (int)(unsigned)next(name); }
double nd_double_(const char *name) { unsigned long long b = next(name); double d; memcpy(&d, &b, 8); return d; }
void nd_assume_(int c) { if (!c) { printf("assumption not met\n"); exit(77); } }
void cb_check_(int c, const char *l) { if (!c) { printf("FAIL %s\n", l); fflush(stdout); exit(1); } }
int main(int argc, char **argv) { if (argc > 1) { in = fopen(argv[1], "r"); if (in && !fgets(lab, sizeof lab, in)) return 3; } harness(); return 0; }
