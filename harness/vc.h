/* Dual-mode harness support: symbolic under CBMC, concrete under a native replay build. */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#ifdef VC_NATIVE
#define VC_ASSERT(c, msg) do { if (!(c)) { printf("VC-FAIL %s:%d %s\n", __FILE__, __LINE__, msg); fflush(stdout); exit(1); } } while (0)
#define VC_ASSUME(c) do { if (!(c)) { printf("VC-ASSUME-FALSE %s:%d\n", __FILE__, __LINE__); fflush(stdout); exit(77); } } while (0)
#define VC_REACH(msg) do { } while (0)
#elif defined(VC_SYMX)
void vc_assert_(int c, const char *msg);
void vc_assume_(int c);
void vc_reach_(const char *msg);
void vc_inputs_(void);
#define VC_ASSERT(c, msg) vc_assert_(!!(c), msg)
#define VC_ASSUME(c) vc_assume_(!!(c))
#define VC_REACH(msg) vc_reach_(msg)
#else
#define VC_ASSERT(c, msg) __CPROVER_assert((c), "VC: " msg)
#define VC_ASSUME(c) __CPROVER_assume(c)
#define VC_REACH(msg) __CPROVER_assert(0, "VCREACH: " msg)
#endif
/* usage:  struct vc_inputs { ... };
 *         #include "vc_inputs.h"
 *         main: VC_GET_INPUTS();   then read vc_in.*  (never write it) */
