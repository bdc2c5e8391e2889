/* C36: CSR matrix construction. qsort/bsearch are models that call the repository's comparator; fopen/fclose/fprintf record what is written. */
#include "cb.h"
#include <stdarg.h>
#include <stdio.h>
static double dv(void) { double x; ND_DOUBLE(x); ASSUME(x == x); return x; }
void cb_qsort(void *b, size_t n, size_t s, int (*cmp)(const void *, const void *))
{
    CHECK(s == sizeof(int), "row sorting uses the element size"); int *a = b;
    for (size_t i = 1; i < n; ++i) for (size_t j = i; j > 0 && cmp(a + j - 1, a + j) > 0; --j) { const int t = a[j]; a[j] = a[j - 1]; a[j - 1] = t; }
}
void *cb_bsearch(const void *k, const void *b, size_t n, size_t s, int (*cmp)(const void *, const void *))
{
    const int *a = b; size_t l = 0, u = n; CHECK(s == sizeof(int), "lookup uses the element size");
    while (l < u) { const size_t m = (l + u) / 2; const int c = cmp(k, a + m); if (c < 0) u = m; else if (c > 0) l = m + 1; else return (void *)(a + m); }
    return NULL;
}
static int fails, opened, closed, nout; static unsigned long oi[12], oj[12]; static double ov[12]; static FILE *const FP = (FILE *)&fails;
FILE *cb_fopen(const char *n, const char *m) { (void)n; (void)m; if (fails) return NULL; ++opened; return FP; }
int cb_fclose(FILE *f) { CHECK(f == FP, "only an open file is closed"); ++closed; return 0; }
int cb_fprintf(FILE *f, const char *fmt, ...)
{
    CHECK(f == FP, "output goes to the given stream"); va_list a; va_start(a, fmt); if (fmt[1] == 'l') { oi[nout] = va_arg(a, unsigned long); oj[nout] = va_arg(a, unsigned long); } ov[nout] = va_arg(a, double); va_end(a); ++nout; return 1;
}
#include <opm/core/linalg/sparse_sys.h>
#define qsort cb_qsort
#define bsearch cb_bsearch
#define fopen cb_fopen
#define fclose cb_fclose
#define fprintf cb_fprintf
#include <opm/core/linalg/sparse_sys.c>
#ifndef M
#define M 3
#endif
#ifndef R
#define R 3          /* most elements in a row */
#endif
#ifndef NC
#define NC 4          /* columns */
#endif
/* SHAPE = number of elements in each row, base R+1 */
void harness(void)
{
    int code = SHAPE, cnt[M], n = 0, start[M + 1]; for (int i = 0; i < M; ++i) { cnt[i] = code % (R + 1); code /= R + 1; start[i] = n; n += cnt[i]; } start[M] = n; if (n == 0) { REACH(); return; }
    int c[9]; double a[9]; for (int i = 0; i < M; ++i) for (int k = start[i]; k < start[i + 1]; ++k) { int t; ND_RANGE(t, 0, NC - 1); c[k] = t; for (int l = start[i]; l < k; ++l) ASSUME(c[l] != t); a[k] = dv(); }
    struct CSRMatrix *A = csrmatrix_new_count_nnz(M); ASSUME(A != NULL); CHECK(A->m == M && A->ja == NULL && A->sa == NULL, "a counting matrix has row pointers only"); for (int i = 0; i <= M; ++i) CHECK(A->ia[i] == 0, "counts start at zero");
    for (int i = 0; i < M; ++i) for (int k = 0; k < cnt[i]; ++k) A->ia[i + 1]++;
    const size_t nnz = csrmatrix_new_elms_pushback(A); CHECK((int)nnz == n && (int)A->nnz == n, "number of elements is the sum of the counts");
    for (int i = 0; i < M; ++i) CHECK(A->ia[i + 1] == start[i], "end pointers are positioned at row starts"); CHECK(A->ia[0] == 0, "first row starts at zero");
    for (int i = 0; i < M; ++i) for (int k = start[i]; k < start[i + 1]; ++k) A->ja[A->ia[i + 1]++] = c[k];
    for (int i = 0; i <= M; ++i) CHECK(A->ia[i] == start[i], "row pointers after push-back");
    csrmatrix_sortrows(A);
    for (int i = 0; i < M; ++i) { CHECK(A->ia[i] == start[i], "sorting keeps row pointers"); for (int k = start[i] + 1; k < start[i + 1]; ++k) CHECK(A->ja[k - 1] < A->ja[k], "rows are strictly ascending after sorting"); for (int k = start[i]; k < start[i + 1]; ++k) { int f = 0; for (int l = start[i]; l < start[i + 1]; ++l) f += A->ja[l] == c[k]; CHECK(f == 1, "sorting keeps every column of the row"); } }
    csrmatrix_zero(A); for (int k = 0; k < n; ++k) { CHECK(A->sa[k] == 0.0, "zeroing clears every element"); }
    for (int i = 0; i < M; ++i) for (int k = start[i]; k < start[i + 1]; ++k) { const size_t p = csrmatrix_elm_index(i, c[k], A); CHECK((int)p >= start[i] && (int)p < start[i + 1] && A->ja[p] == c[k], "lookup gives the element's own position"); ASSUME((int)p >= 0 && (int)p < n); A->sa[p] += a[k]; }
    for (int i = 0; i < M; ++i) for (int k = start[i]; k < start[i + 1]; ++k) for (int l = start[i]; l < start[i + 1]; ++l) if (A->ja[l] == c[k]) CHECK(A->sa[l] == a[k], "every contribution lands in its own element");
    csrmatrix_write_stream(A, FP); CHECK(nout == n, "one line per element");
    for (int i = 0; i < M; ++i) for (int k = start[i]; k < start[i + 1]; ++k) CHECK((int)oi[k] == i + 1 && (int)oj[k] == A->ja[k] + 1 && ov[k] == A->sa[k], "matrix is written in coordinate format");
    nout = 0; vector_write_stream(n, a, FP); CHECK(nout == n, "one line per vector element"); for (int k = 0; k < n; ++k) CHECK(ov[k] == a[k], "vector is written in order");
    double w[11]; for (int k = 0; k < 11; ++k) w[k] = 7.0; vector_zero(n, w + 1); CHECK(w[0] == 7.0 && w[n + 1] == 7.0, "vector zeroing touches its own data only"); for (int k = 1; k <= n; ++k) CHECK(w[k] == 0.0, "vector zeroing clears every element");
    int t; ND_RANGE(t, 0, 1); fails = t; nout = 0;
    csrmatrix_write(A, "A"); CHECK(nout == (fails ? 0 : n) && opened == closed, "a file that is opened is written and closed"); nout = 0; vector_write(n, a, "b"); CHECK(nout == (fails ? 0 : n) && opened == closed, "a file that is opened is written and closed");
    struct CSRMatrix *B = csrmatrix_new_known_nnz(M, n); ASSUME(B != NULL); CHECK((int)B->m == M && (int)B->nnz == n, "known size matrix"); for (int i = 0; i <= M; ++i) B->ia[i] = A->ia[i]; for (int k = 0; k < n; ++k) { B->ja[k] = A->ja[k]; B->sa[k] = 1.0; } csrmatrix_zero(B); for (int k = 0; k < n; ++k) { CHECK(B->sa[k] == 0.0 && A->ja[k] == B->ja[k], "zeroing clears every element"); }
    REACH(); csrmatrix_delete(A); csrmatrix_delete(B); csrmatrix_delete(NULL);
}
