/* monomial expansion at full size: coefficient groups symbolic (below 64 outside the window of words [WLO,WHI), arbitrary
 * inside); shuffle draws are fixed except draws DA and DB, which are arbitrary 32-bit values */
#include "less_h.h"
#define CW ((N + 8) / 9)
#define XOF_STREAM (8 * (CW + 2) + 4 * N)
#define XOF_REC (3 * SEED_LENGTH_BYTES + HASH_DIGEST_LENGTH + 8)
struct vc_inputs { uint8_t seed[PRIVATE_KEY_SEED_LENGTH_BYTES]; uint8_t salt[HASH_DIGEST_LENGTH]; uint16_t round; uint8_t coef[8 * (CW + 2)]; uint8_t da[4], db[4]; };
#include "vc_inputs.h"
static uint8_t data[XOF_STREAM];
static unsigned cwords;   /* words consumed by the coefficients */
static unsigned draw_at(unsigned i, unsigned b) {
#if DRAWBG == 2
    return 0;
#endif
    if (i == (DA)) return vc_in.da[b];
    if (i == (DB)) return vc_in.db[b];
    uint32_t r = DRAWBG == 0 ? 0xffffffffu - i : DRAWBG == 1 ? i * 2654435761u + 77u : 0u;
    return (r >> (8 * b)) & 255;
}
static uint8_t xbyte(unsigned pos);
#define XOF_BYTE(i) xbyte(i)
#include "xof_stub.h"
/* the coefficients are read in words; whatever is read after them in one piece of 4N bytes is the shuffle's draws */
static uint8_t xbyte(unsigned pos) {
    if (pos < 8 * cwords) return data[pos];
    return (uint8_t)draw_at((pos - 8 * cwords) / 4, (pos - 8 * cwords) % 4);
}
int main(void) {
    VC_GET_INPUTS();
    static monomial_t M;
    uint8_t seed[PRIVATE_KEY_SEED_LENGTH_BYTES], salt[HASH_DIGEST_LENGTH];
    memcpy(seed, vc_in.seed, sizeof seed);
    memcpy(salt, vc_in.salt, sizeof salt);
    uint64_t mask = 0;
    for (int k = 0; k < 9; k++) mask |= (uint64_t)63 << (7 * k);
    mask |= (uint64_t)1 << 63;
    for (int w = 0; w < CW + 2; w++)
        for (int b = 0; b < 8; b++)
            data[8 * w + b] = w >= (WLO) && w < (WHI) ? vc_in.coef[8 * w + b] : vc_in.coef[8 * w + b] & (uint8_t)(mask >> (8 * b));
    /* specified coefficients, and with them how many words they take */
    FQ_ELEM c[N];
    int got = 0;
    cwords = 0;
    while (got < N && cwords < CW + 2) {
        uint64_t v = 0;
        for (int b = 0; b < 8; b++) v |= (uint64_t)data[8 * cwords + b] << (8 * b);
        cwords++;
        for (int k = 0; k < 9 && got < N; k++) { unsigned e = (v >> (7 * k)) & 127; if (e < 126) c[got++] = e + 1; }
    }
    VC_ASSUME(got == N);
    unsigned len;
#ifdef PRIKEY
    monomial_mat_seed_expand_prikey(&M, seed);
    len = PRIVATE_KEY_SEED_LENGTH_BYTES;
    for (unsigned i = 0; i < len; i++) VC_ASSERT(xof_rec[i] == vc_in.seed[i], "the private seed is absorbed");
#else
    monomial_mat_seed_expand_salt_rnd(&M, seed, salt, vc_in.round);
    len = SEED_LENGTH_BYTES + HASH_DIGEST_LENGTH + 2;
    for (unsigned i = 0; i < SEED_LENGTH_BYTES; i++) VC_ASSERT(xof_rec[i] == vc_in.seed[i], "the seed is absorbed");
    for (unsigned i = 0; i < HASH_DIGEST_LENGTH; i++) VC_ASSERT(xof_rec[SEED_LENGTH_BYTES + i] == vc_in.salt[i], "the salt is absorbed");
    VC_ASSERT(xof_rec[len - 2] == (vc_in.round & 255) && xof_rec[len - 1] == (vc_in.round >> 8), "the whole round index is absorbed");
#endif
    VC_ASSERT(xof_recn == len, "nothing else is absorbed");
    VC_ASSERT(xof_inits == 1 && xof_finals == 1 && !xof_badseq && xof_kind == XOF_EXPECTED, "one XOF instance of the category's kind");
    for (unsigned i = 0; i < N; i++) VC_ASSERT(M.coefficients[i] == c[i], "coefficient is the next accepted group plus one");
    unsigned p[N];
    for (unsigned i = 0; i < N; i++) p[i] = i;
    for (unsigned i = 0; i + 1 < N; i++) {
        uint32_t r = 0;
        for (int b = 0; b < 4; b++) r |= (uint32_t)draw_at(i, b) << (8 * b);
        unsigned j = i + r % (N - i), t = p[i];
        p[i] = p[j]; p[j] = t;
    }
    for (unsigned i = 0; i < N; i++) VC_ASSERT(M.permutation[i] == p[i], "permutation is the specified shuffle");
    VC_REACH("end");
    return 0;
}
