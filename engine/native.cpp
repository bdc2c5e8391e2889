// Native replay: the harness and the unmodified repository code, plain doubles.
#include "sym.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <string>
#include <vector>
#include <signal.h>
#include <typeinfo>
#include <unistd.h>
static std::map<std::string, double> R; static std::map<std::string, int> C; static std::map<std::string, int> seen;
static double RT = 1e-9, AT = 1e-11; static bool failed = false; static int verbose = 0;
static std::string nm(const char *n) { std::string s = n; for (char &c : s) if (c == ' ') c = '_'; int k = seen[s]++; return k ? s + "~" + std::to_string(k) : s; }
static void fail(const char *label) { printf("FAIL %s\n", label); fflush(stdout); failed = true; }
static void sig(int s) { printf("FAIL crash: signal %d\n", s); fflush(stdout); _exit(1); }
extern "C" {
double sym_real(const char *n, double lo, double hi) {
  std::string k = nm(n); auto it = R.find(k); double v;
  if (it != R.end()) v = it->second;
  else { double l = std::isfinite(lo) ? lo : -1, h = std::isfinite(hi) ? hi : l + 2; if (!std::isfinite(lo) && std::isfinite(hi)) l = hi - 2; v = l + (h - l) * (0.3 + 0.4 * (rand() / (RAND_MAX + 1.0))); }
  if (v < lo) v = lo; if (v > hi) v = hi;
  if (verbose) printf("  %s = %.17g\n", k.c_str(), v);
  return v;
}
int sym_choice(const char *n, int m) { std::string k = nm(n); auto it = C.find(k); int v = it == C.end() ? 0 : it->second; if (verbose) printf("  %s = %d of %d\n", k.c_str(), v, m); return v; }
double sym_fresh(const char *) { return NAN; }
static void as(bool ok) { if (!ok) { printf("ASSUMPTION failed\n"); fflush(stdout); _exit(failed ? 1 : 3); } }
void sym_assume_le(double a, double b) { as(a <= b + 1e-12 * (std::fabs(a) + std::fabs(b))); }
void sym_assume_lt(double a, double b) { as(a < b + 1e-12 * (std::fabs(a) + std::fabs(b))); }
void sym_assume_eq(double a, double b) { as(std::fabs(a - b) <= 1e-7 * (std::fabs(a) + std::fabs(b)) + 1e-12); }
void sym_assume_ne(double a, double b) { as(a != b); }
void sym_stop(void) { as(false); }
void sym_check(int c, const char *l) { if (!c) fail(l); }
void sym_check_eq(double a, double b, const char *l) {
  bool ok = std::fabs(a - b) <= AT + RT * std::max(std::fabs(a), std::fabs(b)) || a == b;
  if (!ok) { printf("  %.17g != %.17g\n", a, b); fail(l); }
}
void sym_check_le(double a, double b, const char *l) { bool ok = a <= b + AT + RT * std::max(std::fabs(a), std::fabs(b)); if (!ok) { printf("  %.17g > %.17g\n", a, b); fail(l); } }
void sym_check_lt(double a, double b, const char *l) { bool ok = a < b + AT + RT * std::max(std::fabs(a), std::fabs(b)); if (!ok) { printf("  %.17g >= %.17g\n", a, b); fail(l); } }
double sym_diff(double, double) { return NAN; }
int sym_is_symbolic(void) { return 0; }
int sym_is_term(double) { return 0; }
int sym_is_nan(double x) { return std::isnan(x); }
void sym_reach(const char *l) { if (verbose) printf("  reached %s\n", l); }
void sym_dump(const char *w, double x) { if (verbose) printf("  %s = %.17g\n", w, x); }
void sym_native_tol(double r, double a) { RT = r; AT = a; }
void sym_solve(int n, const int *ia, const int *ja, const double *sa, const double *b, double *x) {
  std::vector<double> A(n * n, 0.0), y(b, b + n);
  for (int i = 0; i < n; ++i) for (int k = ia[i]; k < ia[i + 1]; ++k) A[i * n + ja[k]] += sa[k];
  for (int c = 0; c < n; ++c) {
    int p = c; for (int i = c; i < n; ++i) if (std::fabs(A[i * n + c]) > std::fabs(A[p * n + c])) p = i;
    for (int j = 0; j < n; ++j) std::swap(A[c * n + j], A[p * n + j]); std::swap(y[c], y[p]);
    for (int i = c + 1; i < n; ++i) { double f = A[i * n + c] / A[c * n + c]; for (int j = c; j < n; ++j) A[i * n + j] -= f * A[c * n + j]; y[i] -= f * y[c]; }
  }
  for (int i = n - 1; i >= 0; --i) { double s = y[i]; for (int j = i + 1; j < n; ++j) s -= A[i * n + j] * x[j]; x[i] = s / A[i * n + i]; }
}
void harness(void);
}
int main(int argc, char **argv) {
  verbose = getenv("SYM_VERBOSE") != 0;
  if (const char *s = getenv("SYM_SEED")) srand(atoi(s));
  if (argc > 1) {
    FILE *f = fopen(argv[1], "r"); char line[4096];
    while (f && fgets(line, sizeof line, f)) {
      char kind[32], name[512]; double v; int k;
      if (sscanf(line, "%31s %511s", kind, name) < 2) continue;
      if (!strcmp(kind, "real") && sscanf(line, "%*s %*s %lf", &v) == 1) R[name] = v;
      if (!strcmp(kind, "choice") && sscanf(line, "%*s %*s %d", &k) == 1) C[name] = k;
    }
    if (f) fclose(f);
  }
  int sg[] = { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL }; for (int s : sg) signal(s, sig);
  alarm(60);
  try { harness(); } catch (std::exception &e) { printf("FAIL uncaught exception %s: %s\n", typeid(e).name(), e.what()); failed = true; } catch (...) { printf("FAIL uncaught exception\n"); failed = true; }
  if (!failed) printf("OK\n");
  fflush(stdout);
  _exit(failed ? 1 : 0);
}
