/* Reference implementations of the BLASFEO routines the project calls (textbook loops,
 * column-major storage).  Used only to execute the project's real C code when a
 * counterexample is replayed and in the bounded stand-ins.  vf_oob counts accesses outside
 * a declared matrix or vector. */
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "blasfeo_common.h"
#include "blasfeo_d_aux.h"
#include "blasfeo_d_aux_ext_dep.h"
#include "blasfeo_d_blas.h"
int vf_oob = 0;
static double vf_sink;
static double *M_(vf_m *A, int i, int j)
{ if (i < 0 || j < 0 || i >= A->m || j >= A->n) { vf_oob++; vf_sink = 0; return &vf_sink; } return A->pA + i + (size_t) j * A->m; }
static double *V_(vf_v *a, int i)
{ if (i < 0 || i >= a->m) { vf_oob++; vf_sink = 0; return &vf_sink; } return a->pa + i; }
#define M(A, i, j) (*M_((A), (i), (j)))
#define V(a, i) (*V_((a), (i)))
#define FOR(i, n) for (int i = 0; i < (n); i++)
static double *tmpd(int n) { return (double *) malloc(sizeof(double) * (n > 0 ? n : 1)); }

size_t blasfeo_memsize_dmat(int m, int n) { size_t s = sizeof(double) * (size_t) (m > 0 ? m : 0) * (size_t) (n > 0 ? n : 0); return (s + 63) / 64 * 64; }
size_t blasfeo_memsize_diag_dmat(int m, int n) { return blasfeo_memsize_dmat(m < n ? m : n, 1); }
size_t blasfeo_memsize_dvec(int m) { return blasfeo_memsize_dmat(m, 1); }
void blasfeo_create_dmat(int m, int n, vf_m *A, void *mem) { A->mem = A->pA = mem; A->dA = 0; A->m = A->pm = m; A->n = A->cn = n; A->use_dA = 0; A->memsize = blasfeo_memsize_dmat(m, n); }
void blasfeo_create_dvec(int m, vf_v *a, void *mem) { a->mem = a->pa = mem; a->m = a->pm = m; a->memsize = blasfeo_memsize_dvec(m); }
void blasfeo_allocate_dmat(int m, int n, vf_m *A) { void *p = calloc(1, blasfeo_memsize_dmat(m, n) + 64); blasfeo_create_dmat(m, n, A, p); }
void blasfeo_allocate_dvec(int m, vf_v *a) { void *p = calloc(1, blasfeo_memsize_dvec(m) + 64); blasfeo_create_dvec(m, a, p); }
void blasfeo_free_dmat(vf_m *A) { free(A->mem); }
void blasfeo_free_dvec(vf_v *a) { free(a->mem); }
void blasfeo_pack_dmat(int m, int n, double *A, int lda, vf_m *B, int bi, int bj) { FOR(i, m) FOR(j, n) M(B, bi + i, bj + j) = A[i + (size_t) j * lda]; }
void blasfeo_pack_tran_dmat(int m, int n, double *A, int lda, vf_m *B, int bi, int bj) { FOR(i, m) FOR(j, n) M(B, bi + j, bj + i) = A[i + (size_t) j * lda]; }
static int one(int xi) { return xi; }
void blasfeo_pack_dvec(int m, double *x, int xi, vf_v *a, int ai) { FOR(i, m) V(a, ai + i) = x[i * one(xi)]; }
void blasfeo_unpack_dmat(int m, int n, vf_m *A, int ai, int aj, double *B, int ldb) { FOR(i, m) FOR(j, n) B[i + (size_t) j * ldb] = M(A, ai + i, aj + j); }
void blasfeo_unpack_tran_dmat(int m, int n, vf_m *A, int ai, int aj, double *B, int ldb) { FOR(i, m) FOR(j, n) B[j + (size_t) i * ldb] = M(A, ai + i, aj + j); }
void blasfeo_unpack_dvec(int m, vf_v *a, int ai, double *x, int xi) { FOR(i, m) x[i * one(xi)] = V(a, ai + i); }
void blasfeo_dgein1(double a, vf_m *A, int i, int j) { M(A, i, j) = a; }
double blasfeo_dgeex1(vf_m *A, int i, int j) { return M(A, i, j); }
void blasfeo_dvecin1(double a, vf_v *x, int i) { V(x, i) = a; }
double blasfeo_dvecex1(vf_v *x, int i) { return V(x, i); }
void blasfeo_dgese(int m, int n, double al, vf_m *A, int ai, int aj) { FOR(i, m) FOR(j, n) M(A, ai + i, aj + j) = al; }
void blasfeo_dvecse(int m, double al, vf_v *x, int xi) { FOR(i, m) V(x, xi + i) = al; }
void blasfeo_dgecp(int m, int n, vf_m *A, int ai, int aj, vf_m *B, int bi, int bj) { FOR(i, m) FOR(j, n) M(B, bi + i, bj + j) = M(A, ai + i, aj + j); }
void blasfeo_dgesc(int m, int n, double al, vf_m *A, int ai, int aj) { FOR(i, m) FOR(j, n) M(A, ai + i, aj + j) *= al; }
void blasfeo_dgecpsc(int m, int n, double al, vf_m *A, int ai, int aj, vf_m *B, int bi, int bj) { FOR(i, m) FOR(j, n) M(B, bi + i, bj + j) = al * M(A, ai + i, aj + j); }
void blasfeo_dgead(int m, int n, double al, vf_m *A, int ai, int aj, vf_m *B, int bi, int bj) { FOR(i, m) FOR(j, n) M(B, bi + i, bj + j) += al * M(A, ai + i, aj + j); }
void blasfeo_dgetr(int m, int n, vf_m *A, int ai, int aj, vf_m *B, int bi, int bj) { FOR(i, m) FOR(j, n) M(B, bi + j, bj + i) = M(A, ai + i, aj + j); }
void blasfeo_dtrcp_l(int m, vf_m *A, int ai, int aj, vf_m *B, int bi, int bj) { FOR(i, m) FOR(j, i + 1) M(B, bi + i, bj + j) = M(A, ai + i, aj + j); }
void blasfeo_dtrtr_l(int m, vf_m *A, int ai, int aj, vf_m *B, int bi, int bj) { FOR(i, m) FOR(j, i + 1) M(B, bi + j, bj + i) = M(A, ai + i, aj + j); }
void blasfeo_dtrtr_u(int m, vf_m *A, int ai, int aj, vf_m *B, int bi, int bj) { FOR(i, m) for (int j = i; j < m; j++) M(B, bi + j, bj + i) = M(A, ai + i, aj + j); }
void blasfeo_ddiare(int k, double al, vf_m *A, int ai, int aj) { FOR(i, k) M(A, ai + i, aj + i) += al; }
void blasfeo_ddiain(int k, double al, vf_v *x, int xi, vf_m *A, int ai, int aj) { FOR(i, k) M(A, ai + i, aj + i) = al * V(x, xi + i); }
void blasfeo_ddiaad(int k, double al, vf_v *x, int xi, vf_m *A, int ai, int aj) { FOR(i, k) M(A, ai + i, aj + i) += al * V(x, xi + i); }
void blasfeo_ddiaad_sp(int k, double al, vf_v *x, int xi, int *idx, vf_m *A, int ai, int aj) { FOR(i, k) M(A, ai + idx[i], aj + idx[i]) += al * V(x, xi + i); }
void blasfeo_drowin(int k, double al, vf_v *x, int xi, vf_m *A, int ai, int aj) { FOR(i, k) M(A, ai, aj + i) = al * V(x, xi + i); }
void blasfeo_drowex(int k, double al, vf_m *A, int ai, int aj, vf_v *x, int xi) { FOR(i, k) V(x, xi + i) = al * M(A, ai, aj + i); }
void blasfeo_drowsc(int k, double al, vf_m *A, int ai, int aj) { FOR(i, k) M(A, ai, aj + i) *= al; }
void blasfeo_drowsw(int k, vf_m *A, int ai, int aj, vf_m *C, int ci, int cj) { FOR(i, k) { double t = M(A, ai, aj + i); M(A, ai, aj + i) = M(C, ci, cj + i); M(C, ci, cj + i) = t; } }
void blasfeo_drowpe(int k, int *p, vf_m *A) { FOR(i, k) if (p[i] != i) blasfeo_drowsw(A->n, A, i, 0, A, p[i], 0); }
void blasfeo_drowpei(int k, int *p, vf_m *A) { for (int i = k - 1; i >= 0; i--) if (p[i] != i) blasfeo_drowsw(A->n, A, i, 0, A, p[i], 0); }
static void colsw(vf_m *A, int a, int b) { FOR(i, A->m) { double t = M(A, i, a); M(A, i, a) = M(A, i, b); M(A, i, b) = t; } }
void blasfeo_dcolpe(int k, int *p, vf_m *A) { FOR(i, k) if (p[i] != i) colsw(A, i, p[i]); }
void blasfeo_dcolpei(int k, int *p, vf_m *A) { for (int i = k - 1; i >= 0; i--) if (p[i] != i) colsw(A, i, p[i]); }
void blasfeo_dcolex(int k, vf_m *A, int ai, int aj, vf_v *x, int xi) { FOR(i, k) V(x, xi + i) = M(A, ai + i, aj); }
void blasfeo_dcolin(int k, vf_v *x, int xi, vf_m *A, int ai, int aj) { FOR(i, k) M(A, ai + i, aj) = V(x, xi + i); }
void blasfeo_dcolsc(int k, double al, vf_m *A, int ai, int aj) { FOR(i, k) M(A, ai + i, aj) *= al; }
void blasfeo_dveccp(int m, vf_v *a, int ai, vf_v *c, int ci) { FOR(i, m) V(c, ci + i) = V(a, ai + i); }
void blasfeo_dvecsc(int m, double al, vf_v *a, int ai) { FOR(i, m) V(a, ai + i) *= al; }
void blasfeo_dveccpsc(int m, double al, vf_v *a, int ai, vf_v *c, int ci) { FOR(i, m) V(c, ci + i) = al * V(a, ai + i); }
void blasfeo_dvecad(int m, double al, vf_v *a, int ai, vf_v *c, int ci) { FOR(i, m) V(c, ci + i) += al * V(a, ai + i); }
void blasfeo_dvecad_sp(int m, double al, vf_v *x, int xi, int *idx, vf_v *z, int zi) { FOR(i, m) V(z, zi + idx[i]) += al * V(x, xi + i); }
void blasfeo_dvecin_sp(int m, double al, vf_v *x, int xi, int *idx, vf_v *z, int zi) { FOR(i, m) V(z, zi + idx[i]) = al * V(x, xi + i); }
void blasfeo_dvecex_sp(int m, double al, int *idx, vf_v *x, int xi, vf_v *z, int zi) { FOR(i, m) V(z, zi + i) = al * V(x, xi + idx[i]); }
void blasfeo_dvecpe(int k, int *p, vf_v *x, int xi) { FOR(i, k) if (p[i] != i) { double t = V(x, xi + p[i]); V(x, xi + p[i]) = V(x, xi + i); V(x, xi + i) = t; } }
void blasfeo_dvecpei(int k, int *p, vf_v *x, int xi) { for (int i = k - 1; i >= 0; i--) if (p[i] != i) { double t = V(x, xi + p[i]); V(x, xi + p[i]) = V(x, xi + i); V(x, xi + i) = t; } }
void blasfeo_dvecnrm_inf(int m, vf_v *x, int xi, double *r) { double n = 0; FOR(i, m) n = fmax(n, fabs(V(x, xi + i))); *r = n; }
void blasfeo_dvecnrm_1(int m, vf_v *x, int xi, double *r) { double n = 0; FOR(i, m) n += fabs(V(x, xi + i)); *r = n; }
/* level 1-3 */
void blasfeo_daxpy(int m, double al, vf_v *x, int xi, vf_v *y, int yi, vf_v *z, int zi) { FOR(i, m) V(z, zi + i) = al * V(x, xi + i) + V(y, yi + i); }
void blasfeo_daxpby(int m, double al, vf_v *x, int xi, double be, vf_v *y, int yi, vf_v *z, int zi) { FOR(i, m) V(z, zi + i) = al * V(x, xi + i) + be * V(y, yi + i); }
void blasfeo_dvecmul(int m, vf_v *x, int xi, vf_v *y, int yi, vf_v *z, int zi) { FOR(i, m) V(z, zi + i) = V(x, xi + i) * V(y, yi + i); }
void blasfeo_dvecmulacc(int m, vf_v *x, int xi, vf_v *y, int yi, vf_v *z, int zi) { FOR(i, m) V(z, zi + i) += V(x, xi + i) * V(y, yi + i); }
double blasfeo_dvecmuldot(int m, vf_v *x, int xi, vf_v *y, int yi, vf_v *z, int zi) { double s = 0; FOR(i, m) s += V(z, zi + i) = V(x, xi + i) * V(y, yi + i); return s; }
double blasfeo_ddot(int m, vf_v *x, int xi, vf_v *y, int yi) { double s = 0; FOR(i, m) s += V(x, xi + i) * V(y, yi + i); return s; }
static void gemv(int tr, int m, int n, double al, vf_m *A, int ai, int aj, vf_v *x, int xi, double be, vf_v *y, int yi, vf_v *z, int zi)
{ int r = tr ? n : m, c = tr ? m : n; double *t = tmpd(r);
  FOR(i, r) { double s = 0; FOR(j, c) s += (tr ? M(A, ai + j, aj + i) : M(A, ai + i, aj + j)) * V(x, xi + j); t[i] = al * s + (be != 0 ? be * V(y, yi + i) : 0); }
  FOR(i, r) V(z, zi + i) = t[i]; free(t); }
void blasfeo_dgemv_n(int m, int n, double al, vf_m *A, int ai, int aj, vf_v *x, int xi, double be, vf_v *y, int yi, vf_v *z, int zi) { gemv(0, m, n, al, A, ai, aj, x, xi, be, y, yi, z, zi); }
void blasfeo_dgemv_t(int m, int n, double al, vf_m *A, int ai, int aj, vf_v *x, int xi, double be, vf_v *y, int yi, vf_v *z, int zi) { gemv(1, m, n, al, A, ai, aj, x, xi, be, y, yi, z, zi); }
void blasfeo_dgemv_d(int m, double al, vf_v *A, int ai, vf_v *x, int xi, double be, vf_v *y, int yi, vf_v *z, int zi) { FOR(i, m) V(z, zi + i) = al * V(A, ai + i) * V(x, xi + i) + be * V(y, yi + i); }
void blasfeo_dsymv_l(int m, double al, vf_m *A, int ai, int aj, vf_v *x, int xi, double be, vf_v *y, int yi, vf_v *z, int zi)
{ double *t = tmpd(m); FOR(i, m) { double s = 0; FOR(j, m) s += (i >= j ? M(A, ai + i, aj + j) : M(A, ai + j, aj + i)) * V(x, xi + j); t[i] = al * s + (be != 0 ? be * V(y, yi + i) : 0); } FOR(i, m) V(z, zi + i) = t[i]; free(t); }
void blasfeo_dsymv_l_mn(int m, int n, double al, vf_m *A, int ai, int aj, vf_v *x, int xi, double be, vf_v *y, int yi, vf_v *z, int zi)
{ double *t = tmpd(m); FOR(i, m) { double s = 0; FOR(j, m) { double a = i >= j ? (j < n ? M(A, ai + i, aj + j) : 0) : (i < n ? M(A, ai + j, aj + i) : 0); s += a * V(x, xi + j); } t[i] = al * s + (be != 0 ? be * V(y, yi + i) : 0); } FOR(i, m) V(z, zi + i) = t[i]; free(t); }
static void trmv(int tr, int m, vf_m *A, int ai, int aj, vf_v *x, int xi, vf_v *z, int zi)
{ double *t = tmpd(m); FOR(i, m) { t[i] = 0; FOR(j, m) if (tr ? j >= i : j <= i) t[i] += (tr ? M(A, ai + j, aj + i) : M(A, ai + i, aj + j)) * V(x, xi + j); } FOR(i, m) V(z, zi + i) = t[i]; free(t); }
void blasfeo_dtrmv_lnn(int m, vf_m *A, int ai, int aj, vf_v *x, int xi, vf_v *z, int zi) { trmv(0, m, A, ai, aj, x, xi, z, zi); }
void blasfeo_dtrmv_ltn(int m, vf_m *A, int ai, int aj, vf_v *x, int xi, vf_v *z, int zi) { trmv(1, m, A, ai, aj, x, xi, z, zi); }
/* triangular solves: lower/upper, transposed or not, unit diagonal or not */
static void trsv(int up, int tr, int unit, int m, vf_m *A, int ai, int aj, vf_v *x, int xi, vf_v *z, int zi)
{ double *t = tmpd(m); FOR(i, m) t[i] = V(x, xi + i); int fwd = up ? tr : !tr;
  for (int q = 0; q < m; q++) { int i = fwd ? q : m - 1 - q; double s = t[i];
    for (int r = 0; r < q; r++) { int j = fwd ? r : m - 1 - r; s -= (tr ? M(A, ai + j, aj + i) : M(A, ai + i, aj + j)) * t[j]; }
    t[i] = unit ? s : s / M(A, ai + i, aj + i); }
  FOR(i, m) V(z, zi + i) = t[i]; free(t); }
void blasfeo_dtrsv_lnn(int m, vf_m *A, int ai, int aj, vf_v *x, int xi, vf_v *z, int zi) { trsv(0, 0, 0, m, A, ai, aj, x, xi, z, zi); }
void blasfeo_dtrsv_lnu(int m, vf_m *A, int ai, int aj, vf_v *x, int xi, vf_v *z, int zi) { trsv(0, 0, 1, m, A, ai, aj, x, xi, z, zi); }
void blasfeo_dtrsv_ltn(int m, vf_m *A, int ai, int aj, vf_v *x, int xi, vf_v *z, int zi) { trsv(0, 1, 0, m, A, ai, aj, x, xi, z, zi); }
void blasfeo_dtrsv_ltu(int m, vf_m *A, int ai, int aj, vf_v *x, int xi, vf_v *z, int zi) { trsv(0, 1, 1, m, A, ai, aj, x, xi, z, zi); }
void blasfeo_dtrsv_unn(int m, vf_m *A, int ai, int aj, vf_v *x, int xi, vf_v *z, int zi) { trsv(1, 0, 0, m, A, ai, aj, x, xi, z, zi); }
void blasfeo_dtrsv_utn(int m, vf_m *A, int ai, int aj, vf_v *x, int xi, vf_v *z, int zi) { trsv(1, 1, 0, m, A, ai, aj, x, xi, z, zi); }
static void gemm(int ta, int tb, int m, int n, int k, double al, vf_m *A, int ai, int aj, vf_m *B, int bi, int bj, double be, vf_m *C, int ci, int cj, vf_m *D, int di, int dj, int part)
{ double *t = tmpd(m * n);
  FOR(i, m) FOR(j, n) { if (part == 1 && j > i) continue; if (part == 2 && j < i) continue; double s = 0;
    FOR(l, k) s += (ta ? M(A, ai + l, aj + i) : M(A, ai + i, aj + l)) * (tb ? M(B, bi + j, bj + l) : M(B, bi + l, bj + j));
    t[i + j * m] = al * s + (be != 0 ? be * M(C, ci + i, cj + j) : 0); }
  FOR(i, m) FOR(j, n) { if (part == 1 && j > i) continue; if (part == 2 && j < i) continue; M(D, di + i, dj + j) = t[i + j * m]; } free(t); }
#define GA int m, int n, int k, double al, vf_m *A, int ai, int aj, vf_m *B, int bi, int bj, double be, vf_m *C, int ci, int cj, vf_m *D, int di, int dj
void blasfeo_dgemm_nn(GA) { gemm(0, 0, m, n, k, al, A, ai, aj, B, bi, bj, be, C, ci, cj, D, di, dj, 0); }
void blasfeo_dgemm_nt(GA) { gemm(0, 1, m, n, k, al, A, ai, aj, B, bi, bj, be, C, ci, cj, D, di, dj, 0); }
void blasfeo_dgemm_tn(GA) { gemm(1, 0, m, n, k, al, A, ai, aj, B, bi, bj, be, C, ci, cj, D, di, dj, 0); }
void blasfeo_dgemm_tt(GA) { gemm(1, 1, m, n, k, al, A, ai, aj, B, bi, bj, be, C, ci, cj, D, di, dj, 0); }
void blasfeo_dsyrk_ln(int m, int k, double al, vf_m *A, int ai, int aj, vf_m *B, int bi, int bj, double be, vf_m *C, int ci, int cj, vf_m *D, int di, int dj) { gemm(0, 1, m, m, k, al, A, ai, aj, B, bi, bj, be, C, ci, cj, D, di, dj, 1); }
void blasfeo_dsyrk_ln_mn(GA) { gemm(0, 1, m, n, k, al, A, ai, aj, B, bi, bj, be, C, ci, cj, D, di, dj, 1); }
void blasfeo_dsyrk_ut(int m, int k, double al, vf_m *A, int ai, int aj, vf_m *B, int bi, int bj, double be, vf_m *C, int ci, int cj, vf_m *D, int di, int dj) { gemm(1, 0, m, m, k, al, A, ai, aj, B, bi, bj, be, C, ci, cj, D, di, dj, 2); }
void blasfeo_dsyr2k_ln(int m, int k, double al, vf_m *A, int ai, int aj, vf_m *B, int bi, int bj, double be, vf_m *C, int ci, int cj, vf_m *D, int di, int dj)
{ double *t = tmpd(m * m); FOR(i, m) FOR(j, i + 1) { double s = 0; FOR(l, k) s += M(A, ai + i, aj + l) * M(B, bi + j, bj + l) + M(B, bi + i, bj + l) * M(A, ai + j, aj + l); t[i + j * m] = al * s + (be != 0 ? be * M(C, ci + i, cj + j) : 0); } FOR(i, m) FOR(j, i + 1) M(D, di + i, dj + j) = t[i + j * m]; free(t); }
void blasfeo_dgemm_nd(int m, int n, double al, vf_m *A, int ai, int aj, vf_v *B, int bi, double be, vf_m *C, int ci, int cj, vf_m *D, int di, int dj) { FOR(i, m) FOR(j, n) M(D, di + i, dj + j) = al * M(A, ai + i, aj + j) * V(B, bi + j) + (be != 0 ? be * M(C, ci + i, cj + j) : 0); }
void blasfeo_dgemm_dn(int m, int n, double al, vf_v *A, int ai, vf_m *B, int bi, int bj, double be, vf_m *C, int ci, int cj, vf_m *D, int di, int dj) { FOR(i, m) FOR(j, n) M(D, di + i, dj + j) = al * V(A, ai + i) * M(B, bi + i, bj + j) + (be != 0 ? be * M(C, ci + i, cj + j) : 0); }
void blasfeo_dtrmm_rlnn(int m, int n, double al, vf_m *A, int ai, int aj, vf_m *B, int bi, int bj, vf_m *D, int di, int dj)
{ double *t = tmpd(m * n); FOR(i, m) FOR(j, n) { double s = 0; for (int l = j; l < n; l++) s += M(B, bi + i, bj + l) * M(A, ai + l, aj + j); t[i + j * m] = al * s; } FOR(i, m) FOR(j, n) M(D, di + i, dj + j) = t[i + j * m]; free(t); }
#define TA int m, int n, double al, vf_m *A, int ai, int aj, vf_m *B, int bi, int bj, vf_m *D, int di, int dj
static void trsm_l(int up, int unit, TA)
{ double *t = tmpd(m * n); FOR(c, n) for (int q = 0; q < m; q++) { int i = up ? m - 1 - q : q; double s = al * M(B, bi + i, bj + c); for (int r = 0; r < q; r++) { int j = up ? m - 1 - r : r; s -= M(A, ai + i, aj + j) * t[j + c * m]; } t[i + c * m] = unit ? s : s / M(A, ai + i, aj + i); } FOR(i, m) FOR(j, n) M(D, di + i, dj + j) = t[i + j * m]; free(t); }
void blasfeo_dtrsm_lunn(TA) { trsm_l(1, 0, m, n, al, A, ai, aj, B, bi, bj, D, di, dj); }
void blasfeo_dtrsm_llnu(TA) { trsm_l(0, 1, m, n, al, A, ai, aj, B, bi, bj, D, di, dj); }
void blasfeo_dtrsm_llnn(TA) { trsm_l(0, 0, m, n, al, A, ai, aj, B, bi, bj, D, di, dj); }
void blasfeo_dtrsm_rltn(TA) /* D = al B A^-T, A lower */
{ double *t = tmpd(m * n); FOR(i, m) FOR(j, n) { double s = al * M(B, bi + i, bj + j); FOR(l, j) s -= t[i + l * m] * M(A, ai + j, aj + l); t[i + j * m] = s / M(A, ai + j, aj + j); } FOR(i, m) FOR(j, n) M(D, di + i, dj + j) = t[i + j * m]; free(t); }
void blasfeo_dpotrf_l_mn(int m, int n, vf_m *C, int ci, int cj, vf_m *D, int di, int dj)
{ double *t = tmpd(m * n); FOR(j, n) for (int i = j; i < m; i++) { double s = M(C, ci + i, cj + j); FOR(l, j) s -= t[i + l * m] * t[j + l * m]; t[i + j * m] = i == j ? (s > 0 ? sqrt(s) : 0) : (t[j + j * m] > 0 ? s / t[j + j * m] : 0); } FOR(j, n) for (int i = j; i < m; i++) M(D, di + i, dj + j) = t[i + j * m]; free(t); }
/* an instance of the uninterpreted factorisation of checks/C13.py (function chol there and in vf/cnative.py) */
void blasfeo_dpotrf_l(int m, vf_m *C, int ci, int cj, vf_m *D, int di, int dj) { FOR(j, m) for (int i = j; i < m; i++) M(D, di + i, dj + j) = (1 + i - 0.5 * j) * M(C, ci + i, cj + j) + 0.25 * j; }
void blasfeo_dgetrf_rp(int m, int n, vf_m *C, int ci, int cj, vf_m *D, int di, int dj, int *p)
{ if (C != D || ci != di || cj != dj) blasfeo_dgecp(m, n, C, ci, cj, D, di, dj);
  int k = m < n ? m : n;
  FOR(c, k) { int b = c; for (int i = c + 1; i < m; i++) if (fabs(M(D, di + i, dj + c)) > fabs(M(D, di + b, dj + c))) b = i;
    p[c] = b; if (b != c) blasfeo_drowsw(n, D, di + c, dj, D, di + b, dj);
    double d = M(D, di + c, dj + c); for (int i = c + 1; i < m; i++) { double f = d != 0 ? M(D, di + i, dj + c) / d : 0; M(D, di + i, dj + c) = f; for (int j = c + 1; j < n; j++) M(D, di + i, dj + j) -= f * M(D, di + c, dj + j); } } }
void blasfeo_print_dmat(int m, int n, vf_m *A, int i, int j) {}
void blasfeo_print_exp_dmat(int m, int n, vf_m *A, int i, int j) {}
void blasfeo_print_to_file_dmat(FILE *f, int m, int n, vf_m *A, int i, int j) {}
void blasfeo_print_dvec(int m, vf_v *a, int i) {}
void blasfeo_print_exp_dvec(int m, vf_v *a, int i) {}
void blasfeo_print_tran_dvec(int m, vf_v *a, int i) {}
void blasfeo_print_exp_tran_dvec(int m, vf_v *a, int i) {}
void blasfeo_print_to_file_tran_dvec(FILE *f, int m, vf_v *a, int i) {}
void d_print_mat(int m, int n, double *A, int l) {}
void d_print_exp_mat(int m, int n, double *A, int l) {}
void d_print_exp_tran_mat(int m, int n, double *A, int l) {}
void d_zeros(double **p, int m, int n) { *p = calloc((size_t) m * n + 1, sizeof(double)); }
void d_free(double *p) { free(p); }
