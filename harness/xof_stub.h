/* stands in for the SHAKE functions of fips202.h (their bodies are cut): every output byte comes from a
 * symbolic stream, and what was absorbed is recorded. xof_kind: 128 / 256 as called. */
#pragma once
#include "fips202.h"
#ifndef XOF_STREAM
#error XOF_STREAM
#endif
#ifndef XOF_REC
#define XOF_REC 64
#endif
#ifndef XOF_BYTE
#define XOF_BYTE(i) vc_in.stream[i]
#endif
static uint8_t xof_rec[XOF_REC];
static unsigned xof_recn, xof_inits, xof_finals, xof_kind, xof_pos, xof_badseq;
static const void *xof_ctx;
static void xof_init(const void *c, unsigned k) { xof_ctx = c; xof_inits++; xof_kind = k; xof_recn = 0; xof_finals = 0; }
static void xof_absorb(const void *c, const uint8_t *in, size_t n) {
    if (c != xof_ctx || xof_finals) xof_badseq = 1;
    for (size_t i = 0; i < n; i++) { if (xof_recn < XOF_REC) xof_rec[xof_recn] = in[i]; xof_recn++; }
}
static void xof_final(const void *c) { if (c != xof_ctx || xof_finals) xof_badseq = 1; xof_finals++; }
static void xof_squeeze(const void *c, uint8_t *out, size_t n) {
    if (c != xof_ctx || xof_finals != 1) xof_badseq = 1;
    VC_ASSUME(xof_pos + n <= XOF_STREAM);           /* bound on the length of the stream consumed */
    for (size_t i = 0; i < n; i++) out[i] = XOF_BYTE(xof_pos + i);
    xof_pos += n;
}
#define XOF_DEF(b) \
    void shake##b##_inc_init(shake##b##incctx *s) { xof_init(s, b); } \
    void shake##b##_inc_absorb(shake##b##incctx *s, const uint8_t *in, size_t n) { xof_absorb(s, in, n); } \
    void shake##b##_inc_finalize(shake##b##incctx *s) { xof_final(s); } \
    void shake##b##_inc_squeeze(uint8_t *out, size_t n, shake##b##incctx *s) { xof_squeeze(s, out, n); }
XOF_DEF(128)
XOF_DEF(256)
#if defined(CATEGORY_1)
#define XOF_EXPECTED 128
#else
#define XOF_EXPECTED 256
#endif
