/* row reduction of G = U * R: R is any matrix in reduced echelon form with the pivot pattern PATTERN (all its free
 * entries symbolic), U one of a family of invertible matrices (fixed). The unique echelon form of G is R itself.
 * DEFICIENT: U's last row is a combination of the others, so the rows of G are dependent for every R. */
#include "less_h.h"
struct vc_inputs { FQ_ELEM r[K][N]; };
#include "vc_inputs.h"
#ifndef PATTERN
#define PATTERN 0
#endif
#ifndef UKIND
#define UKIND 0
#endif
static unsigned lcg = 12345;
static unsigned rnd(void) { lcg = lcg * 1103515245u + 12345u; return (lcg >> 16) & 0x7fff; }
static uint32_t U[K][K];
static int pc[K];
static void body(int pv) {
    for (int i = 0; i < K; i++) {
        switch (PATTERN) {
        case 0: pc[i] = i; break;                               /* systematic */
        case 1: pc[i] = N - K + i; break;                       /* all pivots last */
        case 2: pc[i] = i < K / 2 ? i : i + 1; break;           /* one gap */
        case 3: pc[i] = i * (N - 1) / (K > 1 ? K - 1 : 1); break;  /* spread */
        case 4: pc[i] = i == K - 1 ? N - 1 : i; break;          /* last pivot in the last column */
        default: pc[i] = i == 0 ? 1 : i + 2; break;
        }
    }
    /* U = permutation * lower * upper: needs row exchanges */
    static uint32_t L1[K][K], U1[K][K];
    for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) {
        uint32_t x = rnd() % 127, y = rnd() % 127;
        if (UKIND == 0) { x = 0; y = 0; }
        if (UKIND == 3 && ((i + j) & 1)) { x = 0; y = 0; }
        L1[i][j] = j < i ? x : i == j;
        U1[i][j] = j > i ? y : i == j ? 1 + rnd() % 126 : 0;
    }
    for (int i = 0; i < K; i++) {
        int src = UKIND == 1 ? i : UKIND == 2 ? K - 1 - i : (i + 1) % K;
        for (int j = 0; j < K; j++) {
            uint32_t s = 0;
            for (int k = 0; k < K; k++) s += L1[src][k] * U1[k][j];
            U[i][j] = s % 127;
        }
    }
    if (pv) for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) U[i][j] = i == j ? pv : j > i ? (pv * 3 + j) % 127 : 0;
#ifdef DEFICIENT
    for (int j = 0; j < K; j++) {
        uint32_t s = 0;
        for (int i = 0; i < K - 1; i++) s += U[i][j] * (DEFICIENT * i + 1);
        U[K - 1][j] = s % 127;
    }
#endif
    FQ_ELEM R[K][N];
    generator_mat_t G;
    memset(R, 0, sizeof R);
    memset(&G, 0, sizeof G);
    uint8_t piv[NP];
    memset(piv, 0, sizeof piv);
    for (int j = 0, p = 0; j < N; j++) {
        if (p < K && pc[p] == j) { R[p][j] = 1; p++; }
        else for (int i = 0; i < p; i++) { VC_ASSUME(vc_in.r[i][j] < Q); R[i][j] = vc_in.r[i][j]; }
    }
    for (int i = 0; i < K; i++) for (int j = 0; j < N; j++) {
        uint32_t s = 0;
        for (int k = 0; k < K; k++) s += U[i][k] * R[k][j];
        G.values[i][j] = s % 127;
    }
    int ok = generator_RREF(&G, piv);
#ifdef DEFICIENT
    VC_ASSERT(!ok, "dependent rows are reported");
#else
    VC_ASSERT(ok, "a full-rank matrix is reduced");
    int flags = 1, p = 0;
    for (int j = 0; j < N; j++) { int f = p < K && pc[p] == j; flags &= !!piv[j] == f; p += f; }
    VC_ASSERT(flags, "exactly the pivot columns are flagged");
    for (int i = 0; i < K; i++) for (int j = 0; j < N; j++) VC_ASSERT(G.values[i][j] == R[i][j], "the result is the reduced echelon form");
#endif
}
int main(void) {
    VC_GET_INPUTS();
#ifdef ALLPIVOTS   /* every pivot value */
    for (int pv = 1; pv < Q; pv++) body(pv);
#else
    body(0);
#endif
    VC_REACH("end");
    return 0;
}
