/* every vector operation the optimized code uses, on pseudo-random bytes; built natively it prints the results, under
 * an engine it compares the engine's result with them */
#include <stdint.h>
#include <string.h>
#include <immintrin.h>
#ifdef PRINT
#include <stdio.h>
#endif
#define ROUNDS 4
#define OPS 32
static uint8_t out[ROUNDS * OPS * 32];
static uint64_t s = 88172645463325252ull;
static uint64_t rnd(void) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
static unsigned n;
static void put(__m256i v) { _mm256_storeu_si256((__m256i *)(out + 32 * n++), v); }
static void puth(__m128i v) { __m256i z = _mm256_setzero_si256(); uint8_t b[32]; memset(b, 0, 32); _mm_storeu_si128((__m128i *)b, v); (void)z; memcpy(out + 32 * n++, b, 32); }
static void all(void) {
    for (int r = 0; r < ROUNDS; r++) {
        uint8_t x[32], y[32], z[32];
        for (int i = 0; i < 32; i++) { x[i] = rnd(); y[i] = rnd(); z[i] = rnd() & 0x8f; if (r == 1) { x[i] |= 0x80; y[i] = i & 1 ? 0 : 255; } }
        n = r * OPS;
        __m256i a = _mm256_loadu_si256((__m256i *)x), b = _mm256_loadu_si256((__m256i *)y), c = _mm256_loadu_si256((__m256i *)z);
        __m128i ah = _mm_loadu_si128((__m128i *)x), bh = _mm_loadu_si128((__m128i *)y);
        put(_mm256_add_epi8(a, b)); put(_mm256_add_epi16(a, b)); put(_mm256_add_epi64(a, b));
        put(_mm256_sub_epi8(a, b)); put(_mm256_sub_epi16(a, b));
        put(_mm256_mullo_epi16(a, b)); put(_mm256_mulhi_epu16(a, b));
        put(_mm256_srai_epi16(a, 7)); put(_mm256_slli_epi16(a, 7)); put(_mm256_srli_epi16(a, 7));
        put(_mm256_and_si256(a, b)); put(_mm256_xor_si256(a, b));
        put(_mm256_set1_epi8(x[3])); put(_mm256_set1_epi16(0x1234));
        put(_mm256_unpacklo_epi8(a, b)); put(_mm256_unpackhi_epi8(a, b));
        put(_mm256_cvtepu8_epi16(ah));
        puth(_mm256_extracti128_si256(a, 0)); puth(_mm256_extracti128_si256(a, 1));
        put(_mm256_shuffle_epi8(a, c)); put(_mm256_permute2x128_si256(a, b, 0x20)); put(_mm256_permute2x128_si256(a, b, 0x31));
        put(_mm256_permute4x64_epi64(a, 0xd8));
        puth(_mm_srli_epi16(ah, 7)); puth(_mm_and_si128(ah, bh)); puth(_mm_add_epi8(ah, bh));
        put(_mm256_setzero_si256());
    }
}
#ifdef PRINT
int main(void) { all(); for (unsigned i = 0; i < sizeof out; i++) printf("%u,", out[i]); return 0; }
#else
static const uint8_t want[] = {
#include "want.h"
};
#include "../harness/vc.h"
int main(void) { all(); int ok = 1; for (unsigned i = 0; i < sizeof out; i++) { if (out[i] != want[i]) ok = 0; VC_ASSERT(out[i] == want[i], "engine result equals the processor's"); } (void)ok; VC_REACH("end"); return 0; }
#endif
