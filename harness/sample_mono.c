/* monomial expansion from the stream: coefficients = accepted 7-bit groups + 1, permutation = the
 * specified shuffle; bound to exactly seed (and salt and the full round index) */
#include "less_h.h"
#define XOF_STREAM (8 * WORDS + 4 * N)
#define XOF_REC (3 * SEED_LENGTH_BYTES + HASH_DIGEST_LENGTH + 8)
struct vc_inputs { uint8_t seed[PRIVATE_KEY_SEED_LENGTH_BYTES]; uint8_t salt[HASH_DIGEST_LENGTH]; uint16_t round; uint8_t stream[XOF_STREAM]; };
#include "vc_inputs.h"
#include "xof_stub.h"
int main(void) {
    VC_GET_INPUTS();
    static monomial_t M;
    uint8_t seed[PRIVATE_KEY_SEED_LENGTH_BYTES], salt[HASH_DIGEST_LENGTH];
    memcpy(seed, vc_in.seed, sizeof seed);
    memcpy(salt, vc_in.salt, sizeof salt);
    unsigned len;
#ifdef PRIKEY
    monomial_mat_seed_expand_prikey(&M, seed);
    len = PRIVATE_KEY_SEED_LENGTH_BYTES;
    for (unsigned i = 0; i < len; i++) VC_ASSERT(xof_rec[i] == vc_in.seed[i], "the private seed is absorbed");
#else
    monomial_mat_seed_expand_salt_rnd(&M, seed, salt, vc_in.round);
    len = SEED_LENGTH_BYTES + HASH_DIGEST_LENGTH + 2;
    for (unsigned i = 0; i < SEED_LENGTH_BYTES; i++) VC_ASSERT(xof_rec[i] == vc_in.seed[i], "the seed is absorbed");
    for (unsigned i = 0; i < HASH_DIGEST_LENGTH; i++) VC_ASSERT(xof_rec[SEED_LENGTH_BYTES + i] == vc_in.salt[i], "the salt is absorbed");
    VC_ASSERT(xof_rec[len - 2] == (vc_in.round & 255) && xof_rec[len - 1] == (vc_in.round >> 8), "the whole round index is absorbed");
#endif
    VC_ASSERT(xof_recn == len, "nothing else is absorbed");
    VC_ASSERT(xof_inits == 1 && xof_finals == 1 && !xof_badseq && xof_kind == XOF_EXPECTED, "one XOF instance of the category's kind");
    unsigned pos = 0;
    int got = 0;
    for (int w = 0; w < WORDS; w++) {
        if (got < N) {
            uint64_t v = 0;
            for (int b = 0; b < 8; b++) v |= (uint64_t)vc_in.stream[8 * w + b] << (8 * b);
            pos += 8;
            for (int k = 0; k < 9; k++) {
                unsigned e = (v >> (7 * k)) & 127;
                if (got < N && e < 126) { VC_ASSERT(M.coefficients[got] == e + 1, "coefficient is the next accepted group plus one"); got++; }
            }
        }
    }
    unsigned p[N];
    for (unsigned i = 0; i < N; i++) p[i] = i;
    for (unsigned i = 0; i + 1 < N; i++) {
        uint32_t r = 0;
        for (int b = 0; b < 4; b++) r |= (uint32_t)vc_in.stream[(pos + 4 * i + b) % XOF_STREAM] << (8 * b);
        unsigned j = i + r % (N - i), t = p[i];
        p[i] = p[j]; p[j] = t;
    }
    VC_ASSERT(pos + 4 * (N - 1) <= xof_pos, "the stream consumed covers the shuffle");
    for (unsigned i = 0; i < N; i++) VC_ASSERT(M.permutation[i] == p[i], "permutation is the specified shuffle");
    for (unsigned i = 0; i < N; i++) VC_ASSERT(M.coefficients[i] > 0 && M.coefficients[i] < Q && M.permutation[i] < N, "valid monomial");
    VC_REACH("end");
    return 0;
}
