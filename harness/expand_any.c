/* decoding arbitrary bytes: accepted only if the result is a canonical matrix with K unit pivot columns,
 * and accepted matrices re-encode to the same bits */
#include "less_h.h"
struct vc_inputs { uint8_t in[RREF_MAT_PACKEDBYTES]; };
#include "vc_inputs.h"
static int body(long mask) {
    static generator_mat_t H;
    uint8_t buf[RREF_MAT_PACKEDBYTES], out[RREF_MAT_PACKEDBYTES];
    memcpy(buf, vc_in.in, sizeof buf);
#ifdef ALLPATTERNS
    for (int j = 0; j < N; j++) buf[j / 8] = (buf[j / 8] & ~(1 << j % 8)) | ((mask >> j & 1) << j % 8);
#endif
    uint8_t in[RREF_MAT_PACKEDBYTES];
    memcpy(in, buf, sizeof in);
    int ok = expand_to_rref(&H, buf);
    if (ok) {
        int canon = 1;
        for (int i = 0; i < K; i++) for (int j = 0; j < N; j++) canon &= H.values[i][j] < Q;
        VC_ASSERT(canon, "an accepted matrix is canonical");
        int n = 0, unit = 1;
        for (int j = 0; j < N; j++) {
            int f = (in[j / 8] >> (j % 8)) & 1;
            if (f) { for (int i = 0; i < K; i++) unit &= H.values[i][j] == (i == n); n++; }
        }
        VC_ASSERT(n == K && unit, "an accepted matrix has K unit pivot columns where flagged");
        uint8_t piv[NP];
        memset(piv, 0, sizeof piv);
        for (int j = 0; j < N; j++) piv[j] = (in[j / 8] >> (j % 8)) & 1;
        memset(out, 0, sizeof out);
        compress_rref(out, &H, piv);
        int same = 1;
        for (int b = 0; b < RREF_MAT_PACKEDBYTES * 8; b++) {
            int fb = (N + 7) / 8 * 8, used = b < N || (b >= fb && b < fb + 7 * K * NK);
            if (used) same &= ((out[b / 8] ^ in[b / 8]) >> (b % 8) & 1) == 0;
        }
        VC_ASSERT(same, "an accepted encoding is the encoding of what it decodes to");
    }
    return ok;
}
int main(void) {
    VC_GET_INPUTS();
    int acc = 0, rej = 0;
#ifdef ALLPATTERNS
    for (long m = 0; m < 1l << N; m++) { int ok = body(m); acc |= ok; rej |= !ok; }
#else
    acc = body(0); rej = !acc;
#endif
    if (acc) VC_REACH("accepted");
    if (rej) VC_REACH("rejected");
    return 0;
}
