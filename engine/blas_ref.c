/* Reference BLAS/LAPACK subset for the symbolic build (exact-arithmetic semantics: a pivot is the first
 * non-zero candidate; QR is Gram-Schmidt between dgeqrf and dorgqr).  Instrumented like repository code. */
#include <math.h>
#include <stdlib.h>
#define AT(A, ld, i, j) ((A)[(i) + (size_t)(j) * (ld)])
void dgemm_(const char *ta, const char *tb, const int *m, const int *n, const int *k, const double *a1, const double *A, const int *lda,
            const double *B, const int *ldb, const double *a2, double *C, const int *ldc)
{
    int tA = *ta != 'N' && *ta != 'n', tB = *tb != 'N' && *tb != 'n';
    for (int j = 0; j < *n; ++j) for (int i = 0; i < *m; ++i) {
        double s = 0;
        for (int l = 0; l < *k; ++l) s += (tA ? AT(A, *lda, l, i) : AT(A, *lda, i, l)) * (tB ? AT(B, *ldb, j, l) : AT(B, *ldb, l, j));
        AT(C, *ldc, i, j) = *a1 * s + (*a2 == 0.0 ? 0.0 : *a2 * AT(C, *ldc, i, j));
    }
}
void dsyrk_(const char *uplo, const char *trans, const int *n, const int *k, const double *a1, const double *A, const int *lda,
            const double *a2, double *C, const int *ldc)
{
    int t = *trans != 'N' && *trans != 'n', up = *uplo == 'U' || *uplo == 'u';
    for (int j = 0; j < *n; ++j) for (int i = 0; i < *n; ++i) {
        if (up ? i > j : i < j) continue;
        double s = 0;
        for (int l = 0; l < *k; ++l) s += t ? AT(A, *lda, l, i) * AT(A, *lda, l, j) : AT(A, *lda, i, l) * AT(A, *lda, j, l);
        AT(C, *ldc, i, j) = *a1 * s + (*a2 == 0.0 ? 0.0 : *a2 * AT(C, *ldc, i, j));
    }
}
void dgemv_(const char *trans, const int *m, const int *n, const double *a1, const double *A, const int *lda, const double *x, const int *incx,
            const double *a2, double *y, const int *incy)
{
    int t = *trans != 'N' && *trans != 'n', ny = t ? *n : *m, nx = t ? *m : *n;
    for (int i = 0; i < ny; ++i) {
        double s = 0;
        for (int j = 0; j < nx; ++j) s += (t ? AT(A, *lda, j, i) : AT(A, *lda, i, j)) * x[j * *incx];
        y[i * *incy] = *a1 * s + (*a2 == 0.0 ? 0.0 : *a2 * y[i * *incy]);
    }
}
void daxpy_(const int *n, const double *a, const double *x, const int *incx, double *y, const int *incy)
{
    for (int i = 0; i < *n; ++i) y[i * *incy] += *a * x[i * *incx];
}
double ddot_(const int *n, const double *x, const int *incx, const double *y, const int *incy)
{
    double s = 0; for (int i = 0; i < *n; ++i) s += x[i * *incx] * y[i * *incy]; return s;
}
void dgetrf_(const int *m, const int *n, double *A, const int *ld, int *ipiv, int *info)
{
    int mn = *m < *n ? *m : *n; *info = 0;
    for (int c = 0; c < mn; ++c) {
        int p = c; while (p < *m && AT(A, *ld, p, c) == 0.0) ++p;
        if (p == *m) { if (!*info) *info = c + 1; ipiv[c] = c + 1; continue; }
        ipiv[c] = p + 1;
        if (p != c) for (int j = 0; j < *n; ++j) { double t = AT(A, *ld, p, j); AT(A, *ld, p, j) = AT(A, *ld, c, j); AT(A, *ld, c, j) = t; }
        for (int i = c + 1; i < *m; ++i) {
            AT(A, *ld, i, c) /= AT(A, *ld, c, c);
            for (int j = c + 1; j < *n; ++j) AT(A, *ld, i, j) -= AT(A, *ld, i, c) * AT(A, *ld, c, j);
        }
    }
}
void dgetrs_(const char *trans, const int *n, const int *nrhs, const double *A, const int *ld, const int *ipiv, double *B, const int *ldb, int *info)
{
    int t = *trans != 'N' && *trans != 'n', N = *n; *info = 0;
    for (int r = 0; r < *nrhs; ++r) {
        double *b = B + (size_t)r * *ldb;
        if (!t) {
            for (int i = 0; i < N; ++i) { int p = ipiv[i] - 1; if (p != i) { double x = b[i]; b[i] = b[p]; b[p] = x; } }
            for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) b[i] -= AT(A, *ld, i, j) * b[j];
            for (int i = N - 1; i >= 0; --i) { for (int j = i + 1; j < N; ++j) b[i] -= AT(A, *ld, i, j) * b[j]; b[i] /= AT(A, *ld, i, i); }
        } else {
            for (int i = 0; i < N; ++i) { for (int j = 0; j < i; ++j) b[i] -= AT(A, *ld, j, i) * b[j]; b[i] /= AT(A, *ld, i, i); }
            for (int i = N - 1; i >= 0; --i) for (int j = i + 1; j < N; ++j) b[i] -= AT(A, *ld, j, i) * b[j];
            for (int i = N - 1; i >= 0; --i) { int p = ipiv[i] - 1; if (p != i) { double x = b[i]; b[i] = b[p]; b[p] = x; } }
        }
    }
}
__attribute__((weak)) void dgesv_(const int *n, const int *nrhs, double *A, const int *lda, int *piv, double *B, const int *ldb, int *info)
{
    dgetrf_(n, n, A, lda, piv, info);
    if (*info == 0) dgetrs_("N", n, nrhs, A, lda, piv, B, ldb, info);
}
void dgtsv_(const int *n, const int *nrhs, double *DL, double *D, double *DU, double *B, const int *ldb, int *info)
{
    int N = *n; double *A = calloc((size_t)N * N, sizeof *A); int *p = malloc(N * sizeof *p);
    for (int i = 0; i < N; ++i) { AT(A, N, i, i) = D[i]; if (i + 1 < N) { AT(A, N, i + 1, i) = DL[i]; AT(A, N, i, i + 1) = DU[i]; } }
    dgesv_(n, nrhs, A, n, p, B, ldb, info); free(A); free(p);
}
void dgbsv_(const int *n, const int *kl, const int *ku, const int *nrhs, double *AB, const int *ldab, int *ipiv, double *B, const int *ldb, int *info)
{
    int N = *n; double *A = calloc((size_t)N * N, sizeof *A);
    for (int j = 0; j < N; ++j) for (int i = 0; i < N; ++i) if (i - j <= *kl && j - i <= *ku) AT(A, N, i, j) = AB[*kl + *ku + i - j + (size_t)j * *ldab];
    dgesv_(n, nrhs, A, n, ipiv, B, ldb, info); free(A);
}
void dpotrf_(const char *uplo, const int *n, double *A, const int *ld, int *info)
{
    int up = *uplo == 'U' || *uplo == 'u'; *info = 0;
#define L(i, j) (*(up ? &AT(A, *ld, j, i) : &AT(A, *ld, i, j)))
    for (int j = 0; j < *n; ++j) {
        double s = L(j, j); for (int k = 0; k < j; ++k) s -= L(j, k) * L(j, k);
        if (s <= 0.0) { *info = j + 1; return; }
        L(j, j) = sqrt(s);
        for (int i = j + 1; i < *n; ++i) { double t = L(i, j); for (int k = 0; k < j; ++k) t -= L(i, k) * L(j, k); L(i, j) = t / L(j, j); }
    }
}
void dpotrs_(const char *uplo, const int *n, const int *nrhs, double *A, const int *ld, double *B, const int *ldb, int *info)
{
    int up = *uplo == 'U' || *uplo == 'u'; *info = 0;
    for (int r = 0; r < *nrhs; ++r) {
        double *b = B + (size_t)r * *ldb;
        for (int i = 0; i < *n; ++i) { for (int j = 0; j < i; ++j) b[i] -= L(i, j) * b[j]; b[i] /= L(i, i); }
        for (int i = *n - 1; i >= 0; --i) { for (int j = i + 1; j < *n; ++j) b[i] -= L(j, i) * b[j]; b[i] /= L(i, i); }
    }
#undef L
}
void dgeqrf_(const int *m, const int *n, double *A, const int *ld, double *tau, double *work, const int *lwork, int *info)
{
    *info = 0; if (*lwork == -1) { work[0] = *n; return; }
    (void)A; (void)ld; for (int i = 0; i < (*m < *n ? *m : *n); ++i) tau[i] = 0;
}
void dorgqr_(const int *m, const int *n, const int *k, double *A, const int *ld, const double *tau, double *work, const int *lwork, int *info)
{
    (void)tau; (void)k; *info = 0; if (*lwork == -1) { work[0] = *n; return; }
    for (int j = 0; j < *n; ++j) {
        for (int l = 0; l < j; ++l) { double s = 0; for (int i = 0; i < *m; ++i) s += AT(A, *ld, i, l) * AT(A, *ld, i, j); for (int i = 0; i < *m; ++i) AT(A, *ld, i, j) -= s * AT(A, *ld, i, l); }
        double s = 0; for (int i = 0; i < *m; ++i) s += AT(A, *ld, i, j) * AT(A, *ld, i, j); s = sqrt(s);
        for (int i = 0; i < *m; ++i) AT(A, *ld, i, j) /= s;
    }
}
