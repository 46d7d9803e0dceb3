/* public matrix encoding: for every set of K pivot columns and all canonical entries, decode(encode(G))
 * is G (pivot columns unit vectors), accepted, exact length, every byte determined by the matrix */
#include "less_h.h"
struct vc_inputs { FQ_ELEM g[K][NK]; uint8_t piv[N]; uint8_t junk[RREF_MAT_PACKEDBYTES + 8]; uint8_t in[RREF_MAT_PACKEDBYTES]; };
#include "vc_inputs.h"
#ifndef WLO
#define WLO 0
#define WHI N
#endif
#ifndef BACKGROUND
#define BACKGROUND(j) 0
#endif
static void body(unsigned long mask) {
    static generator_mat_t G, H;
    uint8_t piv[NP];
    memset(piv, 0, sizeof piv);
    int n = 0;
    for (int j = 0; j < N; j++) {
#ifdef ALLPATTERNS
        piv[j] = (mask >> j) & 1;
        if (1) ; else
#endif
        if (j >= WLO && j < WHI) { VC_ASSUME(vc_in.piv[j] < 2); piv[j] = vc_in.piv[j]; }
        else piv[j] = BACKGROUND(j);
        n += piv[j];
    }
#ifndef ALLPATTERNS
    VC_ASSUME(n == K);
#endif
    int pi = 0;
    for (int j = 0, d = 0; j < N; j++) {
        if (piv[j]) { for (int i = 0; i < K; i++) G.values[i][j] = i == pi; pi++; }
        else { for (int i = 0; i < K; i++) { VC_ASSUME(vc_in.g[i][d] < Q); G.values[i][j] = vc_in.g[i][d]; } d++; }
    }
    uint8_t buf[RREF_MAT_PACKEDBYTES + 8], buf2[RREF_MAT_PACKEDBYTES + 8];
    memcpy(buf, vc_in.junk, sizeof buf);
    memset(buf2, 0, sizeof buf2);
    compress_rref(buf, &G, piv);
    compress_rref(buf2, &G, piv);
    int ok = expand_to_rref(&H, buf);
    VC_ASSERT(ok, "a well-formed encoding is accepted");
    int same = 1, tail = 1, det = 1;
    for (int i = 0; i < K; i++) for (int j = 0; j < N; j++) same &= G.values[i][j] == H.values[i][j];
    for (int i = 0; i < 8; i++) tail &= buf[RREF_MAT_PACKEDBYTES + i] == vc_in.junk[RREF_MAT_PACKEDBYTES + i];
    for (int i = 0; i < RREF_MAT_PACKEDBYTES; i++) det &= buf[i] == buf2[i];
    VC_ASSERT(same, "decode(encode(G)) == G");
    VC_ASSERT(tail, "encoding stays inside its fixed size");
    VC_ASSERT(det, "every byte of the encoding is determined by the matrix");
}
int main(void) {
    VC_GET_INPUTS();
#ifdef ALLPATTERNS   /* every set of K pivot columns in turn, all entries symbolic */
    for (unsigned long m = 0; m < 1ul << N; m++) if (__builtin_popcountl(m) == K) body(m);
#else
    body(0);
#endif
    VC_REACH("end");
    return 0;
}
