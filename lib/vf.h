/* Harness interface shared by the verifier (CBMC) and by native replay of its counterexamples.
 * Under CBMC vf_in() is an arbitrary value; natively it is read from the recorded counterexample. */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#ifdef VF_CBMC
unsigned long long nondet_vf_u64(void);
static unsigned long long vf_log;
static unsigned long long vf_in(void) { unsigned long long v = nondet_vf_u64(); vf_log = v; return v; }
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, name) __CPROVER_assert((c), name)
#define REACH(name) __CPROVER_assert(0, "REACH:" name)
#else
#include <stdio.h>
static unsigned long long vf_in(void)
{
    static FILE *f; unsigned long long v = 0;
    if (!f) { f = fopen(getenv("VF_INPUTS"), "r"); if (!f) exit(76); }
    if (fscanf(f, "%llu", &v) != 1) { v = 0; }
    return v;
}
#define ASSUME(c) do { if (!(c)) { fprintf(stderr, "replay leaves the assumption %s\n", #c); exit(77); } } while (0)
#define CHECK(c, name) do { if (!(c)) { fprintf(stderr, "CONTRACT VIOLATED: %s (%s)\n", name, #c); exit(1); } } while (0)
#define REACH(name) ((void)0)
#endif
#define IN(type) ((type)vf_in())
#endif
