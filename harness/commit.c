/* The real key generation, signing and verification over real linear algebra and real codecs: only hashing and
 * sampling are replaced, by a recorded transcript and by chosen values. Public code, secret and ephemeral
 * monomials: permutations are set (KIND), entries of the public code and scalings outside the columns that can
 * become pivots are symbolic. The commitment data hashed by the verifier must be the signer's.
 * REALLEX: normalisation and sorting are the real ones (first two rows of the code and all scalings set, all
 * further entries symbolic), the transcripts must agree byte for byte and the signature must be accepted.
 * otherwise: normalisation and sorting (C13) are cut and columns must be the same up to the known scaling. */
#include "less_h.h"
#include "fips202.h"
#define S SEED_LENGTH_BYTES
#define P PRIVATE_KEY_SEED_LENGTH_BYTES
#define H HASH_DIGEST_LENGTH
#ifndef KIND
#define KIND 1
#endif
#ifndef GAP
#define GAP 0
#endif
struct vc_inputs { FQ_ELEM a[K][NK], q[NK], s[NUM_KEYPAIRS - 1][NK]; uint8_t m; };
#include "vc_inputs.h"
/* ---- extendable output: bytes that name their position, in units of a private seed */
static struct { const void *c; unsigned pos; } X[4];
static unsigned xk;
static void xinit(const void *c) { for (int i = 0; i < 4; i++) if (X[i].c == c) { X[i].pos = 0; return; } X[xk % 4].c = c; X[xk % 4].pos = 0; xk++; }
static void xsq(const void *c, uint8_t *out, size_t n) {
    for (int i = 0; i < 4; i++) if (X[i].c == c) { for (size_t k = 0; k < n; k++) out[k] = (X[i].pos + k) / P; X[i].pos += n; return; }
    for (size_t k = 0; k < n; k++) out[k] = 0;
}
#define XDEF(b) \
    void shake##b##_inc_init(shake##b##incctx *s) { xinit(s); } \
    void shake##b##_inc_absorb(shake##b##incctx *s, const uint8_t *in, size_t n) { (void)s; (void)in; (void)n; } \
    void shake##b##_inc_finalize(shake##b##incctx *s) { (void)s; } \
    void shake##b##_inc_squeeze(uint8_t *out, size_t n, shake##b##incctx *s) { xsq(s, out, n); }
XDEF(128)
XDEF(256)
/* ---- hash: the transcript */
#define VS sizeof(normalized_IS_t)
#define TRMAX (T * VS + 1 + H)
static uint8_t tr[2][TRMAX];
static unsigned trn[2], tri;
static void ha(const uint8_t *in, size_t n) { for (size_t k = 0; k < n; k++) { if (trn[tri] < TRMAX) tr[tri][trn[tri]] = in[k]; trn[tri]++; } }
static void hf(uint8_t *out) { for (int k = 0; k < H; k++) out[k] = k; }
#define HDEF(b) \
    void sha3_##b##_inc_init(sha3_##b##incctx *s) { (void)s; trn[tri] = 0; } \
    void sha3_##b##_inc_absorb(sha3_##b##incctx *s, const uint8_t *in, size_t n) { (void)s; ha(in, n); } \
    void sha3_##b##_inc_finalize(uint8_t *out, sha3_##b##incctx *s) { (void)s; hf(out); }
HDEF(256)
HDEF(384)
HDEF(512)
static int chal(int i) { return i == 0 ? 0 : 1 + (i - 1) % (NUM_KEYPAIRS - 1); }
void expand_digest_to_fixed_weight(uint8_t out[T], const uint8_t d[H]) { for (int i = 0; i < T; i++) out[i] = chal(i); }
/* ---- the public code (I | A); columns C1, C2 of A can replace an identity column, C3 is a multiple of the first one */
#define C1 1
#define C2 4
#define C3 7
#define OUT1 3
#define OUT2 (K - 2)
static FQ_ELEM entry(int r, int c) {
    if (c == C3) return r == 0 ? 5 : 0;
    if (c == C1 || c == C2) return r < 2 ? 0 : 1 + (r * 29 + c * 13) % 126;
#ifdef REALLEX
    if (c == NK - 1) return r < 2 ? 0 : 1 + (r * 17) % 126;      /* one column without a first entry */
    if (r == 0) return 1 + (c * 31) % 126;
    if (r == 1) return (uint32_t)(1 + (c * 31) % 126) * (uint32_t)(1 + (c * 5 + 2) % 126) % 127;
#endif
    return vc_in.a[r][c];
}
void generator_SF_seed_expand(rref_generator_mat_t *res, const unsigned char seed[S]) {
    for (int i = 0; i < K; i++) for (int j = 0; j < NK; j++) res->values[i][j] = entry(i, j);
    for (int j = 0; j < NK; j++) res->column_pos[j] = K + j;
}
/* ---- monomials: order[pos] = the column of the public code that goes to position pos */
static int scr(int x, int n, int kind) { return kind == 0 ? x : kind == 1 ? n - 1 - x : (x * (n % 7 ? 7 : n % 5 ? 5 : 11) + 3) % n; }
static void orders(int *ord, int sub_out, int sub_in, int kind) {
    static int lead[N], rest[N];
    int nl = 0, nr = 0, n = 0, used[N];
    for (int i = 0; i < N; i++) used[i] = 0;
    for (int i = 2; i < K; i++) lead[nl++] = i == sub_out ? K + sub_in : i;
    ord[n++] = 0; used[0] = 1;
    if (GAP) { ord[n++] = K + C3; used[K + C3] = 1; }
    ord[n++] = 1; used[1] = 1;
    for (int i = 0; i < nl; i++) { int o = lead[scr(i, nl, kind)]; ord[n++] = o; used[o] = 1; }
    for (int i = 0; i < N; i++) if (!used[i]) rest[nr++] = i;
    for (int i = 0; i < nr; i++) ord[n++] = rest[scr(i, nr, kind)];
}
static int fixedcol(int o) { return o < K || o == K + C1 || o == K + C2 || o == K + C3; }
static FQ_ELEM coef(int o, const FQ_ELEM *sym, int salt) {
#ifdef REALLEX
    return 1 + (o * 43 + salt * 11) % 126;
#else
    return fixedcol(o) ? 1 + (o * 43 + salt * 11) % 126 : sym[o - K];
#endif
}
static int eph_kind(int r) { return (KIND + r) % 3; }
static int key_kind(int k) { return (KIND + k + 1) % 3; }
void monomial_mat_seed_expand_salt_rnd(monomial_t *res, const unsigned char seed[S], const unsigned char salt[H], const uint16_t round) {
    int ord[N];
    orders(ord, OUT1, C1, eph_kind(round));
    for (int p = 0; p < N; p++) { res->permutation[ord[p]] = p; res->coefficients[ord[p]] = coef(ord[p], vc_in.q, round); }
}
static void key_inv(monomial_t *res, int k) {
    int ord[N];
    orders(ord, k & 1 ? OUT1 : OUT2, C2, key_kind(k));
    for (int p = 0; p < N; p++) { res->permutation[p] = ord[p]; res->coefficients[p] = coef(ord[p], vc_in.s[k], 7 + k); }
}
void monomial_mat_seed_expand_prikey(monomial_t *res, const unsigned char seed[P]) { int k = seed[0]; key_inv(res, k < NUM_KEYPAIRS - 1 ? k : 0); }
#ifndef REALLEX
void lex_minimize(normalized_IS_t *V, POSITION_T dst, const generator_mat_t *const G, const POSITION_T col) { for (int i = 0; i < K; i++) V->values[i][dst] = G->values[i][col]; }
void lex_sort_cols(normalized_IS_t *V) { (void)V; }
#endif
static uint8_t pk[sizeof(pubkey_t)], sk[sizeof(prikey_t)], sm[1 + sizeof(sign_t)], mo[1 + sizeof(sign_t)], msg[2];
int main(void) {
    VC_GET_INPUTS();
    for (int i = 0; i < K; i++) for (int j = 0; j < NK; j++) VC_ASSUME(vc_in.a[i][j] < Q);
    for (int j = 0; j < NK; j++) {
        VC_ASSUME(vc_in.q[j] > 0 && vc_in.q[j] < Q);
        for (int k = 0; k < NUM_KEYPAIRS - 1; k++) VC_ASSUME(vc_in.s[k][j] > 0 && vc_in.s[k][j] < Q);
    }
    unsigned long long smlen = 0, molen = 0;
    crypto_sign_keypair(pk, sk);
    msg[0] = vc_in.m;
    tri = 0;
    int rc = crypto_sign(sm, &smlen, msg, 1, sk);
    VC_ASSERT(rc == 0, "signing succeeds");
    tri = 1;
    rc = crypto_sign_open(mo, &molen, sm, smlen, pk);
    VC_ASSERT(trn[0] == TRMAX && trn[1] == TRMAX, "both transcripts are complete");
    VC_ASSERT(rc == 0, "the signature is accepted");
#ifdef REALLEX
    for (unsigned k = 0; k < TRMAX; k++) VC_ASSERT(tr[0][k] == tr[1][k], "signer and verifier hash the same bytes");
#else
    for (int r = 0; r < T; r++) {
        normalized_IS_t *A = (normalized_IS_t *)(tr[0] + r * VS), *B = (normalized_IS_t *)(tr[1] + r * VS);
        if (!chal(r)) {
            for (int i = 0; i < K; i++) for (int j = 0; j < NK; j++) VC_ASSERT(A->values[i][j] == B->values[i][j], "unchallenged round: the same data");
            continue;
        }
        /* columns of both sides by the column of the public code they come from */
        int eo[N], ko[N], na = 0, nb = 0, ca[N], cb[N], kk = chal(r) - 1;
        static monomial_t Mi, M;
        orders(eo, OUT1, C1, eph_kind(r)); orders(ko, kk & 1 ? OUT1 : OUT2, C2, key_kind(kk));
        key_inv(&Mi, kk); monomial_mat_inv(&M, &Mi);
        int piv[N];
        for (int p = 0; p < N; p++) piv[eo[p]] = GAP ? p < K + 1 && p != 1 : p < K;
        for (int p = 0; p < N; p++) if (!piv[eo[p]]) ca[eo[p]] = na++;
        for (int p = 0; p < N; p++) if (!piv[ko[p]]) cb[ko[p]] = nb++;
        for (int o = 0; o < N; o++) if (!piv[o]) for (int i = 0; i < K; i++)
            VC_ASSERT(((uint32_t)A->values[i][ca[o]] * M.coefficients[o]) % Q == ((uint32_t)B->values[i][cb[o]] * coef(o, vc_in.q, r)) % Q, "challenged round: the same column up to its scaling");
    }
    for (unsigned k = T * VS; k < TRMAX; k++) VC_ASSERT(tr[0][k] == tr[1][k], "then the same message and salt");
#endif
    VC_REACH("end");
    return 0;
}
