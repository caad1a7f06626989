/* The atomics of atomic.h in their C11 form, so that ThreadSanitizer treats the unlocked test of the list index before its atomic increment
 * as the atomic access it is on every supported target; the non-atomic increment stays a plain access. */
#ifndef FL2_ATOMIC_H
#define FL2_ATOMIC_H
#include <stdatomic.h>
typedef _Atomic long FL2_atomic;
#define ATOMIC_INITIAL_VALUE 0
#define FL2_atomic_increment(n) atomic_fetch_add(&n, 1)
#define FL2_atomic_add(n, a) atomic_fetch_add(&n, a)
#define FL2_nonAtomic_increment(n) ({ long *p_ = (long *)&(n); (*p_)++; })
#endif
