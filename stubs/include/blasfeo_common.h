/* Assumed contract on the BLASFEO dependency: the abstract matrix and vector structures
 * the project relies on (column-major reference layout in the native build). */
#ifndef VF_BLASFEO_COMMON_H_
#define VF_BLASFEO_COMMON_H_
#include <stddef.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
struct blasfeo_dmat { double *mem; double *pA; double *dA; int m; int n; int pm; int cn; int use_dA; size_t memsize; };
struct blasfeo_dvec { double *mem; double *pa; int m; int pm; size_t memsize; };
#ifdef VF_CSYM
double *vf_dmatel(struct blasfeo_dmat *sA, int ai, int aj);
#define BLASFEO_DMATEL(sA, ai, aj) (*vf_dmatel((sA), (ai), (aj)))
#else
#define BLASFEO_DMATEL(sA, ai, aj) ((sA)->pA[(ai) + (size_t)(aj) * (sA)->m])
#endif
#define BLASFEO_DVECEL(sa, ai) ((sa)->pa[(ai)])
#define DMATEL_LIBSTR BLASFEO_DMATEL
#define DVECEL_LIBSTR BLASFEO_DVECEL
#ifdef __cplusplus
}
#endif
#endif
