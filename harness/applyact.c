/* applying an action to a code: the first K columns are the selected columns scaled exactly, the remaining ones are the
 * unselected columns in order, untouched */
#include "less_h.h"
#ifndef ROWS
#define ROWS K
#endif
struct vc_inputs { FQ_ELEM g[K][N]; FQ_ELEM c[K]; POSITION_T p[K]; };
#include "vc_inputs.h"
int main(void) {
    VC_GET_INPUTS();
    static generator_mat_t G, R;
    static monomial_action_IS_t A;
    uint8_t used[N] = {0};
    for (int j = 0; j < K; j++) {
        VC_ASSUME(vc_in.c[j] > 0 && vc_in.c[j] < Q);
#ifdef FIXEDPERM
        POSITION_T p = (POSITION_T)((j * 2 + 1) % N);
#else
        POSITION_T p = vc_in.p[j];
        VC_ASSUME(p < N && !used[p]);
#endif
        used[p] = 1;
        A.coefficients[j] = vc_in.c[j];
        A.permutation[j] = p;
    }
    for (int i = 0; i < K; i++)
        for (int j = 0; j < N; j++) { VC_ASSUME(vc_in.g[i][j] < Q); G.values[i][j] = vc_in.g[i][j]; }
    apply_action_to_G(&R, &G, &A);
    for (int j = 0; j < K; j++)
        for (int i = 0; i < ROWS; i++)
            VC_ASSERT(R.values[i][j] == (FQ_ELEM)(((uint32_t)vc_in.g[i][A.permutation[j]] * A.coefficients[j]) % Q), "selected column scaled exactly");
    int d = K, rest = 1;
    for (int j = 0; j < N; j++)
        if (!used[j]) {
            for (int i = 0; i < ROWS; i++) rest &= R.values[i][d] == vc_in.g[i][j];
            d++;
        }
    VC_ASSERT(rest, "unselected columns follow in order, unscaled");
    VC_REACH("end");
    return 0;
}
