/* usage:  struct vc_inputs { ... };
 *         #include "vc_inputs.h"
 *         main: VC_GET_INPUTS();   then read vc_in.*  (never write it) */
#ifdef VC_NATIVE
#include VC_VALUES
#ifdef VC_RAW
#define VC_GET_INPUTS() memcpy(&vc_in, vc_raw, sizeof vc_in < sizeof vc_raw ? sizeof vc_in : sizeof vc_raw)
#else
#define VC_GET_INPUTS() do { } while (0)
#endif
#elif defined(VC_SYMX)
struct vc_inputs vc_in;
#define VC_GET_INPUTS() vc_inputs_()
#else
struct vc_inputs vc_in;
struct vc_inputs nondet_vc_inputs(void);
#define VC_GET_INPUTS() do { vc_in = nondet_vc_inputs(); } while (0)
#endif
