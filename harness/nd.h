// values chosen by the verifier; natively they are read back from its counterexample
#ifndef VF_ND_H
#define VF_ND_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdbool.h>
#ifdef NATIVE
static FILE *nd_file;
static unsigned long long nd_seed = 88172645463325252ULL;
static int nd_random;
static unsigned long long nd_next(void)
{
    if (nd_random) { nd_seed ^= nd_seed << 13; nd_seed ^= nd_seed >> 7; nd_seed ^= nd_seed << 17; return nd_seed >> 8; }
    char b[80];
    if (!nd_file || !fgets(b, sizeof b, nd_file)) return 0;
    return strtoull(b, 0, 16);
}
static int nd_int(void) { if (nd_random) return (int) (nd_next() % 9) - 1; return (int) (unsigned) nd_next(); }
static bool nd_bool(void) { return (nd_random ? nd_next() >> 5 : nd_next()) & 1; }
static double nd_double(void)
{
    if (nd_random) { unsigned long long r = nd_next() >> 3; return r % 23 == 0 ? 0.0/0.0 : (double) (r % 37) / 8 - (r % 5 == 0 ? 2.0 : 0.0); }
    union { unsigned long long u; double d; } x; x.u = nd_next(); return x.d;
}
#define REQUIRE(c, msg) do { if (!(c)) { printf("CONTRACT VIOLATED: %s\n", msg); fflush(stdout); _Exit(99); } } while (0)
#define ASSUME(c) do { if (!(c)) { printf("ASSUMPTION NOT MET\n"); fflush(stdout); _Exit(77); } } while (0)
#define COVER(msg) do { printf("COVER: %s\n", msg); } while (0)
void harness(void);
int main(int argc, char **argv)
{
    if (argc > 2) { nd_random = 1; nd_seed += 0x9E3779B97F4A7C15ULL * strtoull(argv[2], 0, 10); }
    else nd_file = fopen(argc > 1 ? argv[1] : "values.txt", "r");
    harness();
    printf("CONTRACT HOLDS\n");
    return 0;
}
#else
int nondet_int(void); _Bool nondet_bool(void); double nondet_double(void);
int nd_log_i; double nd_log_d; _Bool nd_log_b;
static int nd_int(void) { nd_log_i = nondet_int(); return nd_log_i; }
static bool nd_bool(void) { nd_log_b = nondet_bool(); return nd_log_b; }
static double nd_double(void) { nd_log_d = nondet_double(); return nd_log_d; }
#define REQUIRE(c, msg) __CPROVER_assert(c, "VF " msg)
#define ASSUME(c) __CPROVER_assume(c)
#define COVER(msg) __CPROVER_assert(0, "COVER " msg)
#endif
static int nd_range(int lo, int hi) { int v = nd_int(); if (
#ifdef NATIVE
    nd_random
#else
    0
#endif
    ) v = lo + (v + 1) % (hi - lo + 1); ASSUME(v >= lo && v <= hi); return v; }
#endif
