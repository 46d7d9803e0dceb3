/* normalising one column: zeros before the first nonzero entry stay, the first nonzero becomes 1 and
 * every entry is the original divided by it; the other columns are left alone */
#include "less_h.h"
struct vc_inputs { FQ_ELEM g[K]; uint16_t src, dst; };
#include "vc_inputs.h"
int main(void) {
    VC_GET_INPUTS();
    static generator_mat_t G;
    static normalized_IS_t V;
#ifdef FIRST   /* fixed positions, full size: entries above FIRST are zero, all others symbolic */
    unsigned src = SRC, dst = DST;
    for (int i = 0; i < FIRST && i < K; i++) VC_ASSUME(vc_in.g[i] == 0);
    if (FIRST < K) VC_ASSUME(vc_in.g[FIRST < K ? FIRST : 0] > 0);
#else
    unsigned src = vc_in.src, dst = vc_in.dst;
#endif
    VC_ASSUME(src < N && dst < NK);
    for (int i = 0; i < K; i++) { VC_ASSUME(vc_in.g[i] < Q); G.values[i][src] = vc_in.g[i]; }
    lex_minimize(&V, (POSITION_T)dst, &G, (POSITION_T)src);
    int first = K;
    for (int i = K - 1; i >= 0; i--) if (vc_in.g[i] != 0) first = i;
    for (int i = 0; i < K; i++) {
        FQ_ELEM v = V.values[i][dst];
        VC_ASSERT(v < Q, "canonical");
        if (i < first) VC_ASSERT(v == 0, "leading zeros stay");
        else if (i == first) VC_ASSERT(v == 1, "first nonzero becomes 1");
        else VC_ASSERT(((uint32_t)v * vc_in.g[first]) % Q == vc_in.g[i], "entry is the original divided by the first nonzero");
    }
    int other = 1;
    for (int i = 0; i < K; i++) for (int j = 0; j < NK; j++) if (j != (int)dst) other &= V.values[i][j] == 0;
    VC_ASSERT(other, "other columns untouched");
    VC_REACH("end");
    return 0;
}
