/* reduced row echelon form: success iff the rows are independent; on success the pivots are the
 * leftmost possible, pivot columns are unit vectors, entries canonical and the row space is unchanged */
#include "less_h.h"
struct vc_inputs { FQ_ELEM g[K][N]; uint8_t junk; };
#include "vc_inputs.h"
int main(void) {
    VC_GET_INPUTS();
    static generator_mat_t G;
    uint8_t piv[NP];
    memset(piv, 0, sizeof piv);
    for (int i = 0; i < K; i++) for (int j = 0; j < NP; j++) {
        if (j < N) { VC_ASSUME(vc_in.g[i][j] < Q); G.values[i][j] = vc_in.g[i][j]; }
    }
#ifdef FIXPIV
    VC_ASSUME(vc_in.g[0][0] == FIXPIV);
#endif
    int ok = generator_RREF(&G, piv);
#if K == 1
    int rank = 0;
    for (int j = 0; j < N; j++) rank |= vc_in.g[0][j] != 0;
#else
    int rank = 0;   /* some 2x2 minor is nonzero */
    for (int a = 0; a < N; a++) for (int b = a + 1; b < N; b++)
        rank |= ((uint32_t)vc_in.g[0][a] * vc_in.g[1][b]) % Q != ((uint32_t)vc_in.g[0][b] * vc_in.g[1][a]) % Q;
#endif
    VC_ASSERT(!!ok == !!rank, "success exactly when the rows are independent");
    if (ok) {
        int pc[K], n = 0, canon = 1, lead = 1, unit = 1;
        for (int j = 0; j < N; j++) if (piv[j]) { if (n < K) pc[n] = j; n++; }
        VC_ASSERT(n == K, "exactly K pivots flagged");
        for (int i = 0; i < K; i++) for (int j = 0; j < N; j++) {
            canon &= G.values[i][j] < Q;
            if (j < pc[i]) lead &= G.values[i][j] == 0;
            if (j == pc[i]) for (int r = 0; r < K; r++) unit &= G.values[r][j] == (r == i);
        }
        VC_ASSERT(canon, "entries are canonical");
        VC_ASSERT(lead, "rows are zero left of their pivot");
        VC_ASSERT(unit, "pivot columns are unit vectors");
        for (int i = 0; i < K; i++) for (int j = 0; j < N; j++) {
            uint32_t s = 0;
            for (int r = 0; r < K; r++) s += (uint32_t)vc_in.g[i][pc[r]] * G.values[r][j];
            VC_ASSERT(s % Q == vc_in.g[i][j], "row space unchanged");
        }
        VC_REACH("full rank");
    } else VC_REACH("deficient");
    return 0;
}
