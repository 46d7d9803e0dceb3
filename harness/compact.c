/* compact <-> full conversion of systematic / echelon matrices */
#include "less_h.h"
struct vc_inputs { FQ_ELEM g[K][NK]; uint8_t piv[N]; };
#include "vc_inputs.h"
int main(void) {
    VC_GET_INPUTS();
    static generator_mat_t G, H;
    static rref_generator_mat_t C;
    uint8_t piv[NP];
    memset(piv, 0, sizeof piv);
    int n = 0;
    for (int j = 0; j < N; j++) { VC_ASSUME(vc_in.piv[j] < 2); piv[j] = vc_in.piv[j]; n += piv[j]; }
    VC_ASSUME(n == K);
    int pi = 0;
    for (int j = 0, d = 0; j < N; j++) {
        if (piv[j]) { for (int i = 0; i < K; i++) G.values[i][j] = i == pi; pi++; }
        else { for (int i = 0; i < K; i++) { VC_ASSUME(vc_in.g[i][d] < Q); G.values[i][j] = vc_in.g[i][d]; } d++; }
    }
    generator_rref_compact(&C, &G, piv);
    generator_rref_expand(&H, &C);
    int same = 1;
    for (int i = 0; i < K; i++) for (int j = 0; j < N; j++) same &= G.values[i][j] == H.values[i][j];
    VC_ASSERT(same, "expand(compact(G)) == G");
    int pos = 1;
    for (int j = 0, d = 0; j < N; j++) if (!piv[j]) { pos &= C.column_pos[d] == j; for (int i = 0; i < K; i++) pos &= C.values[i][d] == vc_in.g[i][d]; d++; }
    VC_ASSERT(pos, "compact form lists the non-pivot columns with their positions");
    VC_REACH("end");
    return 0;
}
