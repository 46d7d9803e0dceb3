/* public code expansion at full size: the stream is symbolic everywhere; outside the window of words [WLO,WHI) of row
 * WROW its 7-bit groups are below 64 (in range), inside the window every bit is arbitrary */
#include "less_h.h"
#define PERROW ((NK + 8) / 9)
#define WORDS (K * PERROW + 2)
#define XOF_STREAM (8 * WORDS)
struct vc_inputs { uint8_t seed[SEED_LENGTH_BYTES]; uint8_t stream[XOF_STREAM]; };
#include "vc_inputs.h"
static uint8_t data[XOF_STREAM];
#define XOF_BYTE(i) data[i]
#include "xof_stub.h"
int main(void) {
    VC_GET_INPUTS();
    static rref_generator_mat_t R;
    uint8_t seed[SEED_LENGTH_BYTES];
    memcpy(seed, vc_in.seed, sizeof seed);
    uint64_t mask = 0;
    for (int k = 0; k < 9; k++) mask |= (uint64_t)63 << (7 * k);
    mask |= (uint64_t)1 << 63;
    for (int w = 0; w < WORDS; w++)
        for (int b = 0; b < 8; b++) {
            int inw = w >= WROW * PERROW + (WLO) && w < WROW * PERROW + (WHI);
            data[8 * w + b] = inw ? vc_in.stream[8 * w + b] : vc_in.stream[8 * w + b] & (uint8_t)(mask >> (8 * b));
        }
    generator_SF_seed_expand(&R, seed);
    VC_ASSERT(xof_inits == 1 && xof_finals == 1 && !xof_badseq && xof_kind == XOF_EXPECTED, "one XOF instance of the category's kind");
    VC_ASSERT(xof_recn == SEED_LENGTH_BYTES, "exactly the seed is absorbed");
    for (int i = 0; i < SEED_LENGTH_BYTES; i++) VC_ASSERT(xof_rec[i] == vc_in.seed[i], "the seed is absorbed");
    unsigned pos = 0;
    for (int i = 0; i < K; i++) {
        int got = 0;
        while (got < NK && pos < WORDS) {
            uint64_t v = 0;
            for (int b = 0; b < 8; b++) v |= (uint64_t)data[8 * pos + b] << (8 * b);
            pos++;
            for (int k = 0; k < 9 && got < NK; k++) {
                unsigned e = (v >> (7 * k)) & 127;
                if (e < 127) { VC_ASSERT(R.values[i][got] == e, "entry is the next in-range group of the stream"); got++; }
            }
        }
        VC_ASSERT(got == NK, "row complete");
    }
    for (int j = 0; j < NK; j++) VC_ASSERT(R.column_pos[j] == K + j, "identity first, sampled columns last");
    VC_REACH("end");
    return 0;
}
