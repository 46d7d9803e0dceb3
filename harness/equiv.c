/* reference and optimized implementation on the same symbolic input: outputs are equal byte for byte */
#include "less_h.h"
#include "equiv_w.h"
#define TS (NUM_NODES_OF_SEED_TREE * SEED_LENGTH_BYTES)
#define CATX(a, b) a##b
#define CAT(a, b) CATX(a, b)
#define A_FN CAT(w_, FN)
#define B_FN CAT(b_w_, FN)
struct vc_inputs { uint8_t in[INLEN + 8]; uint8_t stream[STREAM + 8]; };
#include "vc_inputs.h"
#define S_monmul 1
#define S_applyact 2
#define S_rref 3
#define S_lexmin 4
#define S_lexsort 5
#define S_packact 6
#define S_unpackact 7
#define S_valid 8
#define S_packmat 9
#define S_unpackmat 10
#define S_code 11
#define S_ephem 12
#define S_prikey 13
#define S_chal 14
#define S_inv 15
#define S_mul 16
#define S_compose 17
#define S_digest 18
#define S_tree 19
#define S_path 20
#define S_rebuild 21
#define KIND CAT(S_, FN)
static uint8_t in[INLEN + 8], oa[OUTLEN + 8], ob[OUTLEN + 8];
static void elems(int from, int n, int lo) { for (int i = 0; i < n; i++) { VC_ASSUME(in[from + i] >= lo && in[from + i] < Q); } }
static void perm(int from, int n, int of) {
#ifdef FIXED
    for (int i = 0; i < n; i++) { int p = n == of ? (i * FIXED + 3) % of : of - 1 - 2 * i; in[from + 2 * i] = p & 255; in[from + 2 * i + 1] = p >> 8; }
#else
    for (int i = 0; i < n; i++) {
        VC_ASSUME(in[from + 2 * i] + 256 * in[from + 2 * i + 1] < of);
        for (int j = 0; j < i; j++) VC_ASSUME(in[from + 2 * i] != in[from + 2 * j] || in[from + 2 * i + 1] != in[from + 2 * j + 1]);
    }
#endif
}
int main(void) {
    VC_GET_INPUTS();
    for (int i = 0; i < INLEN; i++) in[i] = vc_in.in[i];
#if KIND == 1
    elems(0, K * N, 0); elems(K * N, N, 1); perm(K * N + N, N, N);
#elif KIND == 2
    elems(0, K * N, 0); elems(K * N, K, 1); perm(K * N + K, K, N);
#elif KIND == 3 || KIND == 18
    /* the first K columns are fixed, full rank and need row exchanges; the others are arbitrary */
    elems(0, K * N, 0);
    for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) in[i * N + j] = i + j == K - 1 ? 1 + (i * 5 + 7) % 126 : i + j < K - 1 ? 0 : (i * 31 + j * 17 + 5) % 127;
#if KIND == 18
    /* fixed monomial that keeps the first K columns first; coefficients of the others arbitrary */
    elems(K * N, N, 1);
    for (int j = 0; j < N; j++) { int p = j < K ? (j * FIXED + 1) % K : N - 1 - (j - K); in[K * N + N + 2 * j] = p & 255; in[K * N + N + 2 * j + 1] = p >> 8; if (j < K) in[K * N + j] = 1 + (j * 13 + 9) % 126; }
#endif
#elif KIND == 4
    elems(0, K, 0);
#ifdef FIXED
    for (int i = 0; i < FIXED - 1; i++) in[i] = 0;
    if (FIXED <= K) VC_ASSUME(in[FIXED <= K ? FIXED - 1 : 0] > 0);
    in[K] = (N - 2) & 255; in[K + 1] = (N - 2) >> 8; in[K + 2] = NK / 2 & 255; in[K + 3] = NK / 2 >> 8;
#else
    VC_ASSUME(in[K] + 256 * in[K + 1] < N && in[K + 2] + 256 * in[K + 3] < NK);
#endif
#elif KIND == 5
    elems(0, K * NK, 0);
#elif KIND == 6
    elems(0, K, 0);
    for (int i = 0; i < K; i++) VC_ASSUME(in[K + 2 * i] + 256 * in[K + 2 * i + 1] < N);
#elif KIND == 9
    /* systematic-like matrix with pivots at every other column */
    for (int i = 0; i < K; i++) for (int j = 0; j < N; j++) if (j % 2 == 0 && j / 2 < K) in[i * N + j] = j / 2 == i; else VC_ASSUME(in[i * N + j] < Q);
    for (int j = 0; j < N; j++) in[K * N + j] = j % 2 == 0 && j / 2 < K;
#elif KIND == 10
    for (int b = 0; b < (N + 7) / 8; b++) in[b] = 0;
    for (int j = 0; j < N; j++) if (j % 2 == 0 && j / 2 < K) in[j / 8] |= 1 << j % 8;
#elif KIND == 15
    elems(0, N, 1); perm(N, N, N);
#elif KIND == 16
    elems(0, N, 1); perm(N, N, N); elems(3 * N, N, 1); perm(3 * N + N, N, N);
#elif KIND == 17
    elems(0, N, 1); perm(N, N, N); elems(3 * N, K, 1); perm(3 * N + K, K, N);
#elif KIND == 20 || KIND == 21
    { int o = KIND == 20 ? TS : TS + HASH_DIGEST_LENGTH, some = 0; for (int i = 0; i < T; i++) { VC_ASSUME(in[o + i] < 2); some |= in[o + i]; } VC_ASSUME(some); }
#endif
    static uint8_t ra[256], rb[256];
    w_stream(vc_in.stream, STREAM);
    b_w_stream(vc_in.stream, STREAM);
    A_FN(in, oa);
    B_FN(in, ob);
    unsigned na = w_used(ra, sizeof ra), nb = b_w_used(rb, sizeof rb);
    VC_ASSERT(na == nb, "the same amount is absorbed");
    int same = 1;
    for (int i = 0; i < (int)sizeof ra; i++) same &= ra[i] == rb[i];
    VC_ASSERT(same, "the same data is absorbed");
    for (int i = 0; i < OUTLEN; i++) VC_ASSERT(oa[i] == ob[i], "reference and optimized results are equal");
    VC_REACH("end");
    return 0;
}
