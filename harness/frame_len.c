/* crypto_sign with a symbolic 64-bit message length: the message is only copied and handed on, so memcpy is
 * replaced by a recorder for it, and LESS_sign by an arbitrary result */
#undef memcpy
#undef memmove
#include "less_h.h"
#define S SEED_LENGTH_BYTES
#define MAXN (SEED_TREE_MAX_PUBLISHED_BYTES / SEED_LENGTH_BYTES)
#define BYTES(n) (2u * HASH_DIGEST_LENGTH + MONO_ACTION_PACKEDBYTES * W + (n) * SEED_LENGTH_BYTES + 1u)
struct vc_inputs { uint64_t mlen; uint32_t cnt; };
#include "vc_inputs.h"
static unsigned char sm[64], m[64];
static prikey_t sk;
static uint64_t copied;
static unsigned signs, argsok = 1, copiesok = 1;
void *vc_memcpy(void *dst, const void *src, size_t n) {
    if ((const unsigned char *)src == m + copied) { copiesok &= (unsigned char *)dst == sm + copied; copied += n; }
    else memcpy(dst, src, n);
    return dst;
}
void *vc_memmove(void *dst, const void *src, size_t n) { return vc_memcpy(dst, src, n); }
size_t LESS_sign(const prikey_t *SK, const char *const msg, const uint64_t mlen, sign_t *sig) {
    signs++;
    argsok &= SK == &sk;
    argsok &= (const unsigned char *)msg == m || (const unsigned char *)msg == sm;
    argsok &= mlen == vc_in.mlen;
    argsok &= (unsigned char *)sig == sm + vc_in.mlen;
    return vc_in.cnt;
}
int main(void) {
    unsigned long long smlen = 7;
    VC_GET_INPUTS();
    VC_ASSUME(vc_in.mlen > 0 && vc_in.mlen < (uint64_t)1 << 40 && vc_in.cnt <= MAXN);
    int rc = crypto_sign(sm, &smlen, m, vc_in.mlen, (const unsigned char *)&sk);
    VC_ASSERT(rc == 0 && signs == 1 && argsok, "signing gets the key, the whole message, and the place behind it for the signature");
    VC_ASSERT(copied == vc_in.mlen && copiesok, "the whole message is copied to the front of the output");
    VC_ASSERT(smlen == vc_in.mlen + BYTES(vc_in.cnt), "the reported length counts the message and the signature");
    VC_REACH("any length");
    return 0;
}
