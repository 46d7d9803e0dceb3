/* Model of the x86 vector intrinsics used by the optimized implementation, written from the
 * Intel intrinsics guide; validated against the CPU by /verif/bin/validate_intrinsics (setup). */
#pragma once
#include <stdint.h>
#ifndef __GNUC__
#define __attribute__(x)
#endif
typedef struct { uint8_t b[32]; } __m256i;
typedef struct { uint8_t b[16]; } __m128i;
#define VC_L16(v, i) ((uint16_t)((uint16_t)(v).b[2 * (i)] | (uint16_t)((uint16_t)(v).b[2 * (i) + 1] << 8)))
#define VC_S16(v, i, x) do { uint16_t vc_x = (uint16_t)(x); (v).b[2 * (i)] = (uint8_t)vc_x; (v).b[2 * (i) + 1] = (uint8_t)(vc_x >> 8); } while (0)
static inline __m256i _mm256_loadu_si256(const __m256i *p) { return *p; }
static inline __m256i _mm256_load_si256(const __m256i *p) { return *p; }
static inline __m256i _mm256_lddqu_si256(const __m256i *p) { return *p; }
static inline __m128i _mm_loadu_si128(const __m128i *p) { return *p; }
static inline void _mm256_storeu_si256(__m256i *p, __m256i a) { *p = a; }
static inline void _mm256_store_si256(__m256i *p, __m256i a) { *p = a; }
static inline void _mm_storeu_si128(__m128i *p, __m128i a) { *p = a; }
static inline __m256i _mm256_setzero_si256(void) { __m256i r; for (int i = 0; i < 32; i++) r.b[i] = 0; return r; }
static inline __m256i _mm256_set1_epi8(char x) { __m256i r; for (int i = 0; i < 32; i++) r.b[i] = (uint8_t)x; return r; }
static inline __m256i _mm256_set1_epi16(short x) { __m256i r; for (int i = 0; i < 16; i++) VC_S16(r, i, x); return r; }
static inline __m256i _mm256_add_epi8(__m256i a, __m256i b) { __m256i r; for (int i = 0; i < 32; i++) r.b[i] = (uint8_t)(a.b[i] + b.b[i]); return r; }
static inline __m256i _mm256_sub_epi8(__m256i a, __m256i b) { __m256i r; for (int i = 0; i < 32; i++) r.b[i] = (uint8_t)(a.b[i] - b.b[i]); return r; }
static inline __m256i _mm256_cmpeq_epi8(__m256i a, __m256i b) { __m256i r; for (int i = 0; i < 32; i++) r.b[i] = a.b[i] == b.b[i] ? 255 : 0; return r; }
static inline __m256i _mm256_cmpgt_epi8(__m256i a, __m256i b) { __m256i r; for (int i = 0; i < 32; i++) r.b[i] = (int8_t)a.b[i] > (int8_t)b.b[i] ? 255 : 0; return r; }
static inline __m256i _mm256_min_epu8(__m256i a, __m256i b) { __m256i r; for (int i = 0; i < 32; i++) r.b[i] = a.b[i] < b.b[i] ? a.b[i] : b.b[i]; return r; }
static inline __m256i _mm256_max_epu8(__m256i a, __m256i b) { __m256i r; for (int i = 0; i < 32; i++) r.b[i] = a.b[i] > b.b[i] ? a.b[i] : b.b[i]; return r; }
static inline __m256i _mm256_and_si256(__m256i a, __m256i b) { __m256i r; for (int i = 0; i < 32; i++) r.b[i] = a.b[i] & b.b[i]; return r; }
static inline __m256i _mm256_or_si256(__m256i a, __m256i b) { __m256i r; for (int i = 0; i < 32; i++) r.b[i] = a.b[i] | b.b[i]; return r; }
static inline __m256i _mm256_xor_si256(__m256i a, __m256i b) { __m256i r; for (int i = 0; i < 32; i++) r.b[i] = a.b[i] ^ b.b[i]; return r; }
static inline __m256i _mm256_andnot_si256(__m256i a, __m256i b) { __m256i r; for (int i = 0; i < 32; i++) r.b[i] = (uint8_t)~a.b[i] & b.b[i]; return r; }
static inline __m256i _mm256_add_epi16(__m256i a, __m256i b) { __m256i r; for (int i = 0; i < 16; i++) VC_S16(r, i, VC_L16(a, i) + VC_L16(b, i)); return r; }
static inline __m256i _mm256_sub_epi16(__m256i a, __m256i b) { __m256i r; for (int i = 0; i < 16; i++) VC_S16(r, i, VC_L16(a, i) - VC_L16(b, i)); return r; }
static inline __m256i _mm256_mullo_epi16(__m256i a, __m256i b) { __m256i r; for (int i = 0; i < 16; i++) VC_S16(r, i, (uint32_t)VC_L16(a, i) * (uint32_t)VC_L16(b, i)); return r; }
static inline __m256i _mm256_mulhi_epu16(__m256i a, __m256i b) { __m256i r; for (int i = 0; i < 16; i++) VC_S16(r, i, ((uint32_t)VC_L16(a, i) * (uint32_t)VC_L16(b, i)) >> 16); return r; }
static inline __m256i _mm256_srai_epi16(__m256i a, int n) { __m256i r; for (int i = 0; i < 16; i++) VC_S16(r, i, ((int16_t)VC_L16(a, i)) >> (n > 15 ? 15 : n)); return r; }
static inline __m256i _mm256_srli_epi16(__m256i a, int n) { __m256i r; for (int i = 0; i < 16; i++) VC_S16(r, i, n > 15 ? 0 : VC_L16(a, i) >> n); return r; }
static inline __m256i _mm256_slli_epi16(__m256i a, int n) { __m256i r; for (int i = 0; i < 16; i++) VC_S16(r, i, n > 15 ? 0 : (uint32_t)VC_L16(a, i) << n); return r; }
static inline __m256i _mm256_cvtepu8_epi16(__m128i a) { __m256i r; for (int i = 0; i < 16; i++) { r.b[2 * i] = a.b[i]; r.b[2 * i + 1] = 0; } return r; }
static inline __m128i _mm256_extracti128_si256(__m256i a, int n) { __m128i r; for (int i = 0; i < 16; i++) r.b[i] = a.b[(n & 1) * 16 + i]; return r; }
static inline __m128i _mm256_castsi256_si128(__m256i a) { __m128i r; for (int i = 0; i < 16; i++) r.b[i] = a.b[i]; return r; }
static inline __m256i _mm256_shuffle_epi8(__m256i a, __m256i m) { __m256i r; for (int i = 0; i < 32; i++) r.b[i] = (m.b[i] & 0x80) ? 0 : a.b[(i & 16) + (m.b[i] & 15)]; return r; }
static inline __m256i _mm256_permute4x64_epi64(__m256i a, int c) { __m256i r; for (int q = 0; q < 4; q++) for (int i = 0; i < 8; i++) r.b[8 * q + i] = a.b[8 * ((c >> (2 * q)) & 3) + i]; return r; }
static inline __m256i _mm256_permute2x128_si256(__m256i a, __m256i b, int c) {
    __m256i r;
    for (int h = 0; h < 2; h++) {
        int s = (c >> (4 * h)) & 15;
        for (int i = 0; i < 16; i++) {
            uint8_t v = (s & 2) ? b.b[(s & 1) * 16 + i] : a.b[(s & 1) * 16 + i];
            r.b[16 * h + i] = (s & 8) ? 0 : v;
        }
    }
    return r;
}
static inline __m256i _mm256_unpacklo_epi8(__m256i a, __m256i b) { __m256i r; for (int h = 0; h < 2; h++) for (int i = 0; i < 8; i++) { r.b[16 * h + 2 * i] = a.b[16 * h + i]; r.b[16 * h + 2 * i + 1] = b.b[16 * h + i]; } return r; }
static inline __m256i _mm256_unpackhi_epi8(__m256i a, __m256i b) { __m256i r; for (int h = 0; h < 2; h++) for (int i = 0; i < 8; i++) { r.b[16 * h + 2 * i] = a.b[16 * h + 8 + i]; r.b[16 * h + 2 * i + 1] = b.b[16 * h + 8 + i]; } return r; }
static inline __m256i _mm256_packus_epi16(__m256i a, __m256i b) { __m256i r; for (int h = 0; h < 2; h++) for (int i = 0; i < 8; i++) { int16_t x = (int16_t)VC_L16(a, 8 * h + i), y = (int16_t)VC_L16(b, 8 * h + i); r.b[16 * h + i] = x < 0 ? 0 : x > 255 ? 255 : (uint8_t)x; r.b[16 * h + 8 + i] = y < 0 ? 0 : y > 255 ? 255 : (uint8_t)y; } return r; }
static inline int _mm256_movemask_epi8(__m256i a) { uint32_t r = 0; for (int i = 0; i < 32; i++) r |= (uint32_t)(a.b[i] >> 7) << i; return (int)r; }
static inline __m256i _mm256_add_epi64(__m256i a, __m256i b) {
    __m256i r;
    for (int q = 0; q < 4; q++) { unsigned c = 0; for (int i = 0; i < 8; i++) { c += (unsigned)a.b[8 * q + i] + b.b[8 * q + i]; r.b[8 * q + i] = (uint8_t)c; c >>= 8; } }
    return r;
}
static inline __m128i _mm_add_epi8(__m128i a, __m128i b) { __m128i r; for (int i = 0; i < 16; i++) r.b[i] = (uint8_t)(a.b[i] + b.b[i]); return r; }
static inline __m128i _mm_and_si128(__m128i a, __m128i b) { __m128i r; for (int i = 0; i < 16; i++) r.b[i] = a.b[i] & b.b[i]; return r; }
static inline __m128i _mm_srli_epi16(__m128i a, int n) { __m128i r; for (int i = 0; i < 8; i++) VC_S16(r, i, n > 15 ? 0 : VC_L16(a, i) >> n); return r; }
