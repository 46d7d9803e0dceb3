/* scaling every column by its coefficient, at every column position: the entry that lands in position
 * perm[i] is the exact canonical product; positions are a fixed rotation, values are all symbolic */
#include "less_h.h"
#ifndef ROT
#define ROT 5
#endif
struct vc_inputs { FQ_ELEM g[K][N]; FQ_ELEM c[N]; uint8_t pad[N]; uint16_t rot; };
#include "vc_inputs.h"
int main(void) {
    VC_GET_INPUTS();
    static generator_mat_t G, R;
    static monomial_t M;
    for (int j = 0; j < N; j++) {
        VC_ASSUME(vc_in.c[j] > 0 && vc_in.c[j] < Q);
        M.coefficients[j] = vc_in.c[j];
        M.permutation[j] = (POSITION_T)((j + ROT) % N);
        for (int i = 0; i < K; i++) { VC_ASSUME(vc_in.g[i][j] < Q); G.values[i][j] = vc_in.g[i][j]; }
    }
    generator_monomial_mul(&R, &G, &M);
    for (int i = 0; i < K; i++)
        for (int j = 0; j < N; j++)
            VC_ASSERT(R.values[i][(j + ROT) % N] == (FQ_ELEM)(((uint32_t)vc_in.g[i][j] * vc_in.c[j]) % Q), "column entry is the exact product");
    VC_REACH("end");
    return 0;
}
