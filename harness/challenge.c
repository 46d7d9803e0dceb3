/* challenge expansion: the specified rejection sampling of the stream seeded by the whole digest */
#include "less_h.h"
#define XOF_STREAM (2 * DRAWS)
#define XOF_REC (HASH_DIGEST_LENGTH + 8)
struct vc_inputs { uint8_t digest[HASH_DIGEST_LENGTH]; uint8_t stream[XOF_STREAM]; };
#include "vc_inputs.h"
#include "xof_stub.h"
static unsigned bits(unsigned n) { unsigned b = 0; while (b < 17 && (n >> b)) b++; return b ? b : 1; }
int main(void) {
    VC_GET_INPUTS();
    uint8_t out[T] = {0}, spec[T] = {0}, digest[HASH_DIGEST_LENGTH];
    memcpy(digest, vc_in.digest, sizeof digest);
    expand_digest_to_fixed_weight(out, digest);
    VC_ASSERT(xof_inits == 1 && xof_finals == 1 && !xof_badseq && xof_kind == XOF_EXPECTED, "one XOF instance of the category's kind");
    VC_ASSERT(xof_recn == HASH_DIGEST_LENGTH, "exactly the digest is absorbed");
    for (int i = 0; i < HASH_DIGEST_LENGTH; i++) VC_ASSERT(xof_rec[i] == vc_in.digest[i], "the whole digest is absorbed");
    unsigned kb = bits(NUM_KEYPAIRS - 1), pb = bits(T - 1), placed = 0, used = 0;
    for (unsigned d = 0; d < DRAWS; d++) {
        if (placed < W) {
            unsigned r = vc_in.stream[2 * d] | (unsigned)vc_in.stream[2 * d + 1] << 8;
            unsigned v = r & ((1u << kb) - 1), p = (r >> kb) & ((1u << pb) - 1);
            used++;
            if (v < NUM_KEYPAIRS && p < T && spec[p] == 0) { spec[p] = v; placed += v != 0; }
        }
    }
    VC_ASSERT(placed == W && used * 2 <= xof_pos, "sampling ends when W entries are placed");
    int same = 1, weight = 0, range = 1;
    for (int i = 0; i < T; i++) { same &= spec[i] == out[i]; weight += out[i] != 0; range &= out[i] < NUM_KEYPAIRS; }
    VC_ASSERT(same, "challenge is the specified sampling of the stream");
#if T <= 20   /* larger T: equality with the specified string (of weight W by construction) says it */
    VC_ASSERT(weight == W, "weight is exactly W");
#endif
    VC_ASSERT(range, "every entry names an existing key pair");
    VC_REACH("end");
    return 0;
}
