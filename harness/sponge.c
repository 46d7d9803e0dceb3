/* the hash functions around the permutation against the sponge construction of FIPS 202. The permutation's body
 * is cut: the k-th application returns an arbitrary k-th state, and the states it is applied to must be those of
 * the specification, so the result is the same whatever the permutation is. */
#include "less_h.h"
#include "fips202.h"
#include "keccakf1600.h"
#define CAT2(a, b) a##b
#define CAT1(a, b) CAT2(a, b)
#if FN == 128
#define R 168
#define DOM 0x1F
#define NAME shake128
#elif FN == 1256
#define R 136
#define DOM 0x1F
#define NAME shake256
#elif FN == 256
#define R 136
#define DOM 0x06
#define NAME sha3_256
#elif FN == 384
#define R 104
#define DOM 0x06
#define NAME sha3_384
#elif FN == 512
#define R 72
#define DOM 0x06
#define NAME sha3_512
#endif
#if DOM == 0x1F
#define XOF 1
#define OUT 0
#else
#define XOF 0
#define OUT (FN / 8)
#endif
#define F(x) CAT1(NAME, x)
#define MAXM (4 * R + 8)
#define MAXO (4 * R + 8)
#define PERMS 12
struct vc_inputs { uint8_t m[MAXM]; uint64_t f[PERMS][25]; uint32_t p; uint8_t junk; };
#include "vc_inputs.h"
static uint64_t seen[PERMS][25];
static unsigned calls;
void KeccakF1600_StatePermute(uint64_t *s) {
    VC_ASSERT(calls < PERMS, "number of permutations");
    if (calls >= PERMS) return;
    memcpy(seen[calls], s, 200);
    memcpy(s, vc_in.f[calls], 200);
    calls++;
}
/* the specification, byte by byte: compares the states and gives the output */
static int bad;
static unsigned scalls;
static uint8_t st[200];
static void sperm(void) {
    if (scalls < calls && scalls < PERMS) {
        for (int i = 0; i < 25; i++) {
            uint64_t v = 0;
            for (int k = 7; k >= 0; k--) v = v << 8 | st[8 * i + k];
            bad |= v != seen[scalls][i];
        }
        for (int i = 0; i < 25; i++) for (int k = 0; k < 8; k++) st[8 * i + k] = vc_in.f[scalls][i] >> (8 * k);
    } else bad = 1;
    scalls++;
}
static void spec(const uint8_t *m, unsigned mlen, uint8_t *out, unsigned outlen) {
    unsigned pos = 0;
    memset(st, 0, sizeof st);
    bad = scalls = 0;
    for (unsigned i = 0; i < mlen; i++) { st[pos++] ^= m[i]; if (pos == R) { sperm(); pos = 0; } }
    st[pos] ^= DOM;
    st[R - 1] ^= 0x80;
    pos = R;
    for (unsigned i = 0; i < outlen; i++) { if (pos == R) { sperm(); pos = 0; } out[i] = st[pos++]; }
}
static int eq(const uint8_t *x, const uint8_t *y, unsigned n) { int r = 1; for (unsigned i = 0; i < n; i++) r &= x[i] == y[i]; return r; }
static uint8_t want[MAXO + 8];
static void judge(const uint8_t *m, unsigned mlen, const uint8_t *got, unsigned outlen, int hashout, int exactcalls) {
    spec(m, mlen, want, outlen);
    if (!outlen) { VC_ASSERT(got[0] == vc_in.junk, "nothing is written behind the output"); return; }
    VC_ASSERT(!bad, "the permutation is applied to the states the standard prescribes");
    VC_ASSERT(eq(got, want, outlen), "output bytes are the standard's");
    VC_ASSERT(got[outlen] == vc_in.junk, "nothing is written behind the output");
    VC_ASSERT(eq(m, vc_in.m, mlen), "the message is left alone");
}
static uint8_t *buf(unsigned n) { uint8_t *b = malloc(n + 1); memset(b, vc_in.junk, n + 1); return b; }
static const unsigned lens[] = { 0, 1, 7, 8, 9, R - 2, R - 1, R, R + 1, 2 * R - 1, 2 * R, 2 * R + 1, 3 * R - 1, 3 * R + 3, 64 };
#define NL (sizeof lens / sizeof *lens)
#ifdef ONESHOT      /* message length and output length from a table */
#define CASES (NL * (XOF ? NL : 1))
static int body(unsigned p) {
    unsigned mlen = lens[p % NL], outlen = XOF ? lens[p / NL] : OUT;
    uint8_t *m = malloc(mlen ? mlen : 1), *o = buf(outlen);
    memcpy(m, vc_in.m, mlen);
    calls = 0;
#if XOF
    F()(o, outlen, m, mlen);
#else
    F()(o, m, mlen);
#endif
    judge(m, mlen, o, outlen, 0, 1);
    return 1;
}
#endif
#ifdef BLOCKS       /* one absorb, then whole blocks in two reads, cloned in between */
#define CASES (NL * 3)
static int body(unsigned p) {
    unsigned mlen = lens[p % NL], a = p / NL, b = 1 + p % 2;
    uint8_t *m = malloc(mlen ? mlen : 1), *o = buf((a + b) * R);
    memcpy(m, vc_in.m, mlen);
    calls = 0;
    F(ctx) c;
    memset(&c, vc_in.junk, sizeof c);
    F(_absorb)(&c, m, mlen);
    F(_squeezeblocks)(o, a, &c);
    F(_squeezeblocks)(o + a * R, b, &c);
    judge(m, mlen, o, (a + b) * R, 0, 1);
    return 1;
}
#endif
#if defined(SPLIT2) || defined(SPLIT3)
/* incremental interface: message in pieces, output in pieces; the context starts with arbitrary contents */
static int run(const unsigned *in, int ni, const unsigned *out, int no) {
    unsigned mlen = 0, outlen = 0, k = 0;
    for (int i = 0; i < ni; i++) mlen += in[i];
    for (int i = 0; i < no; i++) outlen += out[i];
    if (!XOF) outlen = OUT;
    uint8_t *m = malloc(mlen ? mlen : 1), *o = buf(outlen);
    memcpy(m, vc_in.m, mlen);
    calls = 0;
    F(incctx) c;
    memset(&c, vc_in.junk, sizeof c);
    F(_inc_init)(&c);
    for (int i = 0; i < ni; i++) { F(_inc_absorb)(&c, m + k, in[i]); k += in[i]; }
#if XOF
    F(_inc_finalize)(&c);
    k = 0;
    for (int i = 0; i < no; i++) { F(_inc_squeeze)(o + k, out[i], &c); k += out[i]; }
#else
    F(_inc_finalize)(o, &c);
#endif
    judge(m, mlen, o, outlen, 0, 0);
    return 1;
}
#endif
#ifdef SPLIT2       /* first piece: every length up to R; second piece: lengths around the block boundaries */
#define NB 9
#define CASES ((R + 1) * NB)
static unsigned other(unsigned a, unsigned k) {
    unsigned rest = R - a % R;
    switch (k) { case 0: return 0; case 1: return 1; case 2: return rest - 1; case 3: return rest; case 4: return rest + 1; case 5: return rest + R - 1; case 6: return rest + R; case 7: return R; default: return 2 * R + 1 - a / 2; }
}
static int body(unsigned p) {
    unsigned a = p / NB, in[2], out[2], d = (a * 5 + p % NB) % (R + 1);
    in[0] = a; in[1] = other(a, p % NB);
    out[0] = d; out[1] = other(d, (p + 3) % NB);
    return run(in, 2, out, 2);
}
#endif
#ifdef SPLIT3       /* four pieces in, four pieces out, lengths from a table */
static const unsigned cut[] = { 0, 1, 8, R - 1, R, R + 1, R / 2 };
#define NC 7
#define CASES (NC * NC * NC)
static int body(unsigned p) {
    unsigned in[4] = { cut[p % NC], cut[p / NC % NC], cut[p / NC / NC % NC], p % 3 };
    unsigned out[4] = { cut[p / NC % NC], cut[p / NC / NC % NC], cut[(p + 2) % NC], p % 2 };
    return run(in, 4, out, 4);
}
#endif
#ifdef CATEGORY     /* the functions the scheme uses by category */
#include "rng.h"
#define CASES NL
static int body(unsigned p) {
    unsigned mlen = lens[p];
    uint8_t *m = malloc(mlen ? mlen : 1);
    memcpy(m, vc_in.m, mlen);
    calls = 0;
#if XOF
    unsigned outlen = lens[(p * 7 + 3) % NL] + 1;
    uint8_t *o = buf(outlen);
    SHAKE_STATE_STRUCT c;
    initialize_csprng(&c, m, mlen);
    csprng_randombytes(o, 1, &c);
    csprng_randombytes(o + 1, outlen - 1, &c);
    judge(m, mlen, o, outlen, 0, 0);
    calls = 0;
    uint8_t *o2 = buf(outlen);
    initialize_csprng(&platform_csprng_state, m, mlen);
    randombytes(o2, outlen);
    judge(m, mlen, o2, outlen, 0, 0);
#else
    uint8_t *o = buf(HASH_DIGEST_LENGTH);
    _Static_assert(OUT == HASH_DIGEST_LENGTH, "digest length");
    LESS_SHA3_INC_CTX c;
    LESS_SHA3_INC_INIT(&c);
    LESS_SHA3_INC_ABSORB(&c, m, mlen / 2);
    LESS_SHA3_INC_ABSORB(&c, m + mlen / 2, mlen - mlen / 2);
    LESS_SHA3_INC_FINALIZE(o, &c);
    judge(m, mlen, o, OUT, 0, 0);
#endif
    return 1;
}
#endif
#ifndef FROM
#define FROM 0
#define STEP 1
#endif
static void go(unsigned p) {
    if (p >= CASES) return;
    if (vc_in.p == p) { body(p); VC_REACH("case"); }
    else go(p + STEP);
}
int main(void) {
    VC_GET_INPUTS();
    VC_ASSUME(vc_in.p < CASES && vc_in.p % STEP == FROM);
    go(FROM);
    return 0;
}
