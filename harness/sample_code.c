/* public code expansion: exactly the in-range 7-bit groups of the stream, row by row, systematic form */
#include "less_h.h"
#define XOF_STREAM (8 * WORDS)
struct vc_inputs { uint8_t seed[SEED_LENGTH_BYTES]; uint8_t stream[XOF_STREAM]; };
#include "vc_inputs.h"
#include "xof_stub.h"
int main(void) {
    VC_GET_INPUTS();
    static rref_generator_mat_t R;
    uint8_t seed[SEED_LENGTH_BYTES];
    memcpy(seed, vc_in.seed, sizeof seed);
    generator_SF_seed_expand(&R, seed);
    VC_ASSERT(xof_inits == 1 && xof_finals == 1 && !xof_badseq && xof_kind == XOF_EXPECTED, "one XOF instance of the category's kind");
    VC_ASSERT(xof_recn == SEED_LENGTH_BYTES, "exactly the seed is absorbed");
    for (int i = 0; i < SEED_LENGTH_BYTES; i++) VC_ASSERT(xof_rec[i] == vc_in.seed[i], "the seed is absorbed");
    unsigned pos = 0;
    for (int i = 0; i < K; i++) {
        int got = 0;
        for (int w = 0; w < WORDS; w++) {
            if (got < NK) {
                uint64_t v = 0;
                for (int b = 0; b < 8; b++) v |= (uint64_t)vc_in.stream[(pos + b) % XOF_STREAM] << (8 * b);
                pos += 8;
                for (int k = 0; k < 9; k++) {
                    unsigned e = (v >> (7 * k)) & 127;
                    if (got < NK && e < 127) { VC_ASSERT(R.values[i][got] == e, "entry is the next in-range group of the stream"); got++; }
                }
            }
        }
    }
    VC_ASSERT(pos <= xof_pos, "the stream consumed covers the sample");
    for (int j = 0; j < NK; j++) VC_ASSERT(R.column_pos[j] == K + j, "identity first, sampled columns last");
    VC_REACH("end");
    return 0;
}
