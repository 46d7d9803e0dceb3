/* the NIST API around LESS_keygen / LESS_sign / LESS_verify (their bodies are cut): framing of messages and
 * signatures, lengths, results, and every access to caller memory. Buffers have exactly the size the API promises. */
#include "less_h.h"
#ifndef MLEN
#define MLEN 5
#endif
#define S SEED_LENGTH_BYTES
#define MAXN (SEED_TREE_MAX_PUBLISHED_BYTES / SEED_LENGTH_BYTES)
#define BYTES(n) (2u * HASH_DIGEST_LENGTH + MONO_ACTION_PACKEDBYTES * W + (n) * SEED_LENGTH_BYTES + 1u)
struct vc_inputs { uint8_t m[MLEN + 1], sig[sizeof(sign_t)], pk[sizeof(pubkey_t)], sk[sizeof(prikey_t)]; uint16_t p; uint8_t last; uint32_t ok, cnt; uint8_t junk[4]; };
#include "vc_inputs.h"
static int eq(const void *a, const void *b, size_t n) {
    const uint8_t *x = a, *y = b;
    int r = 1;
    for (size_t i = 0; i < n; i++) r &= x[i] == y[i];
    return r;
}
static unsigned signs, verifs, keygens;
static const uint8_t *xsm;      /* expected input of opening */
static const uint8_t *xpk;
static size_t xlen, xmlen;
static int argsok;
void LESS_keygen(prikey_t *SK, pubkey_t *PK) { keygens++; memcpy(SK, vc_in.sk, sizeof *SK); memcpy(PK, vc_in.pk, sizeof *PK); }
size_t LESS_sign(const prikey_t *SK, const char *const m, const uint64_t mlen, sign_t *sig) {
    signs++;
    argsok = eq(SK, vc_in.sk, sizeof *SK) & (mlen == MLEN);
    if (mlen == MLEN) argsok &= eq(m, vc_in.m, MLEN);
    memcpy(sig, vc_in.sig, sizeof(sign_t));
    return vc_in.cnt;
}
static unsigned xcount;
int LESS_verify_announced(const pubkey_t *const PK, const char *const m, const uint64_t mlen, const sign_t *const sig, const uint32_t *const n) {
    verifs++;
    argsok = (mlen == xmlen) & ((const uint8_t *)PK == xpk || eq(PK, vc_in.pk, sizeof *PK));
    if (mlen == xmlen) argsok &= eq(m, xsm, xmlen) & eq(sig, xsm + xmlen, xlen - xmlen);
    argsok &= n && *n == xcount;
    return vc_in.ok;
}
int LESS_verify(const pubkey_t *const PK, const char *const m, const uint64_t mlen, const sign_t *const sig) { return LESS_verify_announced(PK, m, mlen, sig, 0); }
_Static_assert(sizeof(sign_t) == BYTES(MAXN), "a signature with the maximum number of seeds fills the structure");
_Static_assert(CRYPTO_BYTES == sizeof(sign_t) && CRYPTO_SECRETKEYBYTES == sizeof(prikey_t) && CRYPTO_PUBLICKEYBYTES == sizeof(pubkey_t), "API sizes");
#ifdef OPEN
static const unsigned lens[] = { LENS };
#define NL (sizeof lens / sizeof *lens)
static const int lasts[] = { 0, 1, 2, MAXN / 2, MAXN - 1, MAXN, -1 };     /* -1: any larger one */
#define NC (sizeof lasts / sizeof *lasts)
#define CASES (NL * NC)
static int body(int p) {
    unsigned smlen = lens[p / NC];
    int big = lasts[p % NC] < 0;
    uint8_t last = big ? vc_in.last : lasts[p % NC];
    if (big) VC_ASSUME(vc_in.last > MAXN);
    uint8_t *sm = malloc(smlen ? smlen : 1), *sm0 = malloc(smlen ? smlen : 1), pk[sizeof(pubkey_t)];
    xpk = pk;
    for (unsigned i = 0; i < smlen; i++) sm0[i] = sm[i] = i < MLEN ? vc_in.m[i] : vc_in.sig[(i - MLEN) % sizeof vc_in.sig];
    if (smlen) sm0[smlen - 1] = sm[smlen - 1] = last;
    memcpy(pk, vc_in.pk, sizeof pk);
    int well = !big && smlen >= BYTES(0) && last <= MAXN && smlen >= BYTES(last);
    xmlen = well ? smlen - BYTES(last) : 0;
    xsm = sm0; xlen = smlen; xcount = last;
    unsigned long long molen = 77;
    uint8_t *mo = malloc(xmlen + 1);
    memset(mo, vc_in.junk[0], xmlen + 1);
    verifs = 0; argsok = 1;
    VC_ASSUME(vc_in.ok <= 1);
    int rc = crypto_sign_open(mo, &molen, sm, smlen, pk);
    if (well) {
        VC_ASSERT(verifs == 1 && argsok, "verification gets exactly the key, the message and the signature bytes");
        VC_ASSERT((rc == 0) == (vc_in.ok == 1) && (rc == 0 || rc == -1), "success exactly when verification succeeds");
        if (rc == 0) VC_ASSERT(molen == xmlen && eq(mo, sm0, xmlen), "opening returns exactly the message");
        VC_REACH("well-formed length");
    } else {
        VC_ASSERT(rc == -1, "too short input is rejected");
        VC_REACH("rejected length");
    }
    VC_ASSERT(mo[xmlen] == vc_in.junk[0], "nothing is written behind the message");
    VC_ASSERT(eq(sm, sm0, smlen) && (p % NC != 3 || eq(pk, vc_in.pk, sizeof pk)), "inputs are unchanged");
    return 1;
}
#else
#define CASES 1
static int body(int p) {
    static uint8_t pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES], m[MLEN + 1];
    uint8_t *sm = malloc(MLEN + CRYPTO_BYTES);
    unsigned long long smlen = 77;
    int rc = crypto_sign_keypair(pk, sk);
    VC_ASSERT(rc == 0 && keygens == 1 && eq(pk, vc_in.pk, sizeof pk) && eq(sk, vc_in.sk, sizeof sk), "key pair: public and secret part where the API says");
    memcpy(m, vc_in.m, MLEN);
    memset(sm, vc_in.junk[1], MLEN + CRYPTO_BYTES);
    VC_ASSUME(vc_in.cnt <= MAXN);
    rc = crypto_sign(sm, &smlen, m, MLEN, sk);
    VC_ASSERT(rc == 0 && signs == 1 && argsok, "signing gets exactly the key and the message");
    VC_ASSERT(smlen == MLEN + BYTES(vc_in.cnt), "reported length follows from the number of published seeds");
    VC_ASSERT(eq(sm, vc_in.m, MLEN), "the output starts with the message");
    VC_ASSERT(eq(sm + MLEN, vc_in.sig, sizeof(sign_t)), "then the signature");
    VC_ASSERT(eq(sk, vc_in.sk, sizeof sk) && eq(m, vc_in.m, MLEN), "inputs are unchanged");
    VC_REACH("signed");
    return 1;
}
#endif
static void go(int p) {
    if (p >= (int)CASES) return;
    if (vc_in.p == p) body(p);
    else go(p + 1);
}
int main(void) {
    VC_GET_INPUTS();
    VC_ASSUME(vc_in.p < CASES);
    go(0);
    return 0;
}
