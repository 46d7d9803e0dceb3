/* The real key generation, signing and verification (api level) run over ideal building blocks: seeds,
 * salts, messages, digests, key and signature bytes are symbolic, every challenge pattern of the bound is
 * explored. The building blocks (hashing, expansion, linear algebra, codecs) are decided by C02..C14; here
 * each of them is replaced by the weakest thing with the property those checks establish: an object carries
 * the complete description of how it was derived, and the two ways to obtain commitment data (from the
 * ephemeral monomial, or from a public matrix and a response) agree exactly when the public matrix belongs
 * to the private monomial the response was composed with.
 * modes: HONEST (keygen, sign, open), ARBITRARY (open on arbitrary bytes), MISCOUNT (wrong seed counts),
 * ANYLENGTH (sign and verify a message whose 64-bit length is symbolic; its bytes are never read by these functions) */
#include "less_h.h"
#include "fips202.h"
#define S SEED_LENGTH_BYTES
#define P PRIVATE_KEY_SEED_LENGTH_BYTES
#define H HASH_DIGEST_LENGTH
#ifndef MLEN
#define MLEN 3
#endif
#define NODES ((int)NUM_NODES_OF_SEED_TREE)
#define LEAVES ((int)NUM_LEAVES_OF_SEED_TREE)
#define SMMAX (MLEN + sizeof(sign_t))
struct vc_inputs {
    uint8_t rnd[4 * (P + S + S + H)], pstream[P * (NUM_KEYPAIRS - 1)], pother[P * (NUM_KEYPAIRS - 1)];
    uint8_t m[MLEN + 1], m2[MLEN + 1], digest[H], digest2[H], junk[16];
    uint16_t pat;
    uint64_t biglen;
    uint8_t pk[sizeof(pubkey_t)], sig[sizeof(sign_t)];
};
#include "vc_inputs.h"
static uint8_t fws[T];
static unsigned errors;                                 /* uses of a building block outside its contract */
#define CONTRACT(c) do { if (!(c)) errors++; } while (0)
static int eq(const void *a, const void *b, size_t n) {
    const uint8_t *x = a, *y = b;
    int r = 1;
    for (size_t i = 0; i < n; i++) r &= x[i] == y[i];
    return r;
}
/* record: tag | G0 seed S | code private seed P | code tag | response private seed P | response tag | ephemeral seed S | salt H | round 2 */
#define R_G0 1
#define R_CP (R_G0 + S)
#define R_CT (R_CP + P)
#define R_AP (R_CT + 1)
#define R_AT (R_AP + P)
#define R_ES (R_AT + 1)
#define R_SALT (R_ES + S)
#define R_RND (R_SALT + H)
#define R_PIV (R_RND + 2)
#define REC (R_PIV + 1)
#define HALF ((REC + 1) / 2)
_Static_assert(HALF + 2 <= K && REC <= N && REC <= MONO_ACTION_PACKEDBYTES && REC <= sizeof(monomial_action_IS_t), "sizes");

/* ---- extendable output function */
static struct { const void *ctx; uint8_t in[H + P + S + 8]; unsigned n, fin, pos; } X[3];
static unsigned xk, rndpos, draws;
static unsigned drawlen[16], drawoff[16];
static int xfind(const void *c) { for (unsigned i = 0; i < 3; i++) if (X[i].ctx == c) return i; return -1; }
static void xi(const void *c, int kind) {
    int i = xfind(c);
    if (i < 0) { i = xk++ % 3; }
#if defined(CATEGORY_1)
    CONTRACT(kind == 128);
#else
    CONTRACT(kind == 256);
#endif
    X[i].ctx = c; X[i].n = X[i].fin = X[i].pos = 0;
}
static void xa(const void *c, const uint8_t *in, size_t n) {
    int i = xfind(c);
    if (i < 0) { errors++; return; }
    CONTRACT(!X[i].fin);
    for (size_t k = 0; k < n; k++) { if (X[i].n < sizeof X[i].in) X[i].in[X[i].n] = in[k]; X[i].n++; }
}
static void xf(const void *c) { int i = xfind(c); if (i < 0) { errors++; return; } CONTRACT(!X[i].fin); X[i].fin = 1; }
static uint8_t skey[P];
static int have_skey;
static void children(const uint8_t *in, uint8_t *out) {   /* in: salt, seed */
    uint8_t f = 0;
    for (int k = 0; k < H; k++) f = (uint8_t)(f * 3 + in[k]);
    uint16_t v = in[H] | (uint16_t)(in[H + 1] << 8), l = 2 * v + 1, r = 2 * v + 2;
    memset(out, 0, 2 * S);
    out[0] = l; out[1] = (l >> 8) ^ f; out[S] = r; out[S + 1] = (r >> 8) ^ f;
}
static void xs(const void *c, uint8_t *out, size_t n) {
    if (c == (const void *)&platform_csprng_state) {
        if (draws < 16) { drawlen[draws] = n; drawoff[draws] = rndpos; }
        draws++;
        for (size_t k = 0; k < n; k++) { out[k] = rndpos < sizeof vc_in.rnd ? vc_in.rnd[rndpos] : 0; rndpos++; }
        CONTRACT(rndpos <= sizeof vc_in.rnd);
        return;
    }
    int i = xfind(c);
    if (i < 0) { errors++; return; }
    CONTRACT(X[i].fin == 1);
    if (X[i].n == H + S && n == 2 * S && X[i].pos == 0) { children(X[i].in, out); X[i].pos += n; return; }
    if (X[i].n == P) {
        if (!have_skey) { memcpy(skey, X[i].in, P); have_skey = 1; }
        int same = eq(skey, X[i].in, P);
        for (size_t k = 0; k < n; k++) {
            unsigned q = X[i].pos + k;
            CONTRACT(q < sizeof vc_in.pstream);
            out[k] = q < sizeof vc_in.pstream ? (same ? vc_in.pstream[q] : vc_in.pother[q]) : 0;
        }
        X[i].pos += n;
        return;
    }
    errors++;
}
#define XDEF(b) \
    void shake##b##_inc_init(shake##b##incctx *s) { xi(s, b); } \
    void shake##b##_inc_absorb(shake##b##incctx *s, const uint8_t *in, size_t n) { xa(s, in, n); } \
    void shake##b##_inc_finalize(shake##b##incctx *s) { xf(s); } \
    void shake##b##_inc_squeeze(uint8_t *out, size_t n, shake##b##incctx *s) { xs(s, out, n); }
XDEF(128)
XDEF(256)
/* ---- hash: the transcript is recorded */
#define TRMAX (T * sizeof(normalized_IS_t) + MLEN + 2 * H + 64)
static uint8_t tr[2][TRMAX];
static unsigned trn[2], tri, hinit, hfin, hkind;
static const void *hctx;
static const uint8_t *hout;
static void hi(const void *c, unsigned kind) { hctx = c; hinit++; hkind = kind; trn[tri] = 0; hfin = 0; }
#ifdef ANYLENGTH
static const uint8_t *bigm;
static uint64_t bigseen;                                /* bytes of the message absorbed so far, as one contiguous range */
static unsigned bigpos;
#endif
static void ha(const void *c, const uint8_t *in, size_t n) {
    CONTRACT(c == hctx && !hfin);
#ifdef ANYLENGTH
    if (in == bigm + bigseen) { if (!bigseen) bigpos = trn[tri]; CONTRACT(bigpos == trn[tri]); bigseen += n; return; }
#endif
    CONTRACT(trn[tri] + n <= TRMAX);
    if (trn[tri] + n <= TRMAX) memcpy(tr[tri] + trn[tri], in, n);
    trn[tri] += n;
}
static void hf(const void *c, uint8_t *out) { CONTRACT(c == hctx && !hfin); hfin++; memcpy(out, hout, H); CONTRACT(hkind == H * 8); }
#define HDEF(b) \
    void sha3_##b##_inc_init(sha3_##b##incctx *s) { hi(s, b); } \
    void sha3_##b##_inc_absorb(sha3_##b##incctx *s, const uint8_t *in, size_t n) { ha(s, in, n); } \
    void sha3_##b##_inc_finalize(uint8_t *out, sha3_##b##incctx *s) { hf(s, out); }
HDEF(256)
HDEF(384)
HDEF(512)
/* ---- challenge */
static uint8_t chal_in[H];
static unsigned chals;
void expand_digest_to_fixed_weight(uint8_t out[T], const uint8_t d[H]) {
    memcpy(chal_in, d, H);
    chals++;
    for (int i = 0; i < T; i++) { CONTRACT(out[i] == 0); out[i] = fws[i]; }  /* the real one fills a zeroed string */
}
/* ---- monomials */
static void mono(uint8_t *c, uint8_t tag) { memset(c, 0, REC); c[0] = tag; }
void monomial_mat_seed_expand_salt_rnd(monomial_t *res, const unsigned char seed[S], const unsigned char salt[H], const uint16_t round_index) {
    uint8_t *c = res->coefficients;
    mono(c, 'E');
    memcpy(c + R_ES, seed, S); memcpy(c + R_SALT, salt, H);
    c[R_RND] = round_index; c[R_RND + 1] = round_index >> 8;
}
void monomial_mat_seed_expand_prikey(monomial_t *res, const unsigned char seed[P]) { mono(res->coefficients, 'P'); memcpy(res->coefficients + R_AP, seed, P); }
void monomial_mat_inv(monomial_t *res, const monomial_t *const a) {
    uint8_t r[REC];
    memcpy(r, a->coefficients, REC);
    r[0] = r[0] == 'P' ? 'I' : r[0] == 'I' ? 'P' : '?';
    memcpy(res->coefficients, r, REC);
}
void monomial_compose_action(monomial_action_IS_t *out, const monomial_t *q, const monomial_action_IS_t *in) {
    uint8_t r[REC];
    memcpy(r, in->coefficients, REC);
    r[0] = in->coefficients[0] == 'A' && q->coefficients[0] == 'P' ? 'C' : '?';
    memcpy(r + R_AP, q->coefficients + R_AP, P);
    r[R_AT] = q->coefficients[0];
    memcpy(out->coefficients, r, REC);
}
void compress_monom_action(uint8_t *b, const monomial_action_IS_t *a) { memset(b, 0, MONO_ACTION_PACKEDBYTES); memcpy(b, a->coefficients, REC); }
void expand_to_monom_action(monomial_action_IS_t *a, const uint8_t *b) { memcpy(a->coefficients, b, REC); }
int is_monom_action_valid(const monomial_action_IS_t *const a) { return a->coefficients[0] == 'C'; }
/* ---- codes */
void generator_SF_seed_expand(rref_generator_mat_t *res, const unsigned char seed[S]) { mono(&res->values[0][0], 'g'); memcpy(&res->values[0][R_G0], seed, S); }
void generator_rref_expand(generator_mat_t *full, const rref_generator_mat_t *const c) { memcpy(full->values[0], c->values[0], REC); full->values[0][0] = c->values[0][0] == 'g' ? 'G' : '?'; }
void generator_monomial_mul(generator_mat_t *res, const generator_mat_t *const G, const monomial_t *const q) {
    uint8_t r[REC];
    memcpy(r, G->values[0], REC);
    r[0] = G->values[0][0] == 'G' ? 'M' : '?';
    r[R_CT] = q->coefficients[0];
    memcpy(r + R_CP, q->coefficients + R_AP, P);
    memcpy(res->values[0], r, REC);
}
static void acted(uint8_t *r, const uint8_t *code, const uint8_t *act) {
    memcpy(r, code, REC);
    r[0] = code[0] == 'R' && act[0] == 'C' ? 'X' : '?';
    memcpy(r + R_AP, act + R_AP, REC - R_AP);
}
static void reduced(uint8_t *r, int w) { r[0] = r[0] == 'M' ? 'R' : r[0] == 'X' ? 'x' : '?'; r[R_PIV] = 1 + w; }
static int pivot_of(int which, int col) { return which ? col >= N - K : (col % 2 == 0); }
_Static_assert(N == 2 * K, "N = 2K");
static unsigned rrefs;
int generator_RREF(generator_mat_t *G, uint8_t piv[]) {
    int w = rrefs++ & 1;
    reduced(G->values[0], w);
    for (int c = 0; c < N; c++) if (pivot_of(w, c)) piv[c] = 1;     /* like the real one: only sets ones */
    return 1;
}
void compress_rref(uint8_t *b, const generator_mat_t *const G, const uint8_t piv[N]) {
    memset(b, 0, RREF_MAT_PACKEDBYTES);
    memcpy(b, G->values[0], REC);
    int w = G->values[0][R_PIV] - 1, ok = 1;
    for (int c = 0; c < N; c++) ok &= piv[c] == pivot_of(w, c);
    CONTRACT(ok);
    if (!ok) b[0] = '?';
}
int expand_to_rref(generator_mat_t *full, const uint8_t *b) { memcpy(full->values[0], b, REC); return b[0] == 'R'; }
void apply_action_to_G(generator_mat_t *res, const generator_mat_t *G, const monomial_action_IS_t *a) {
    uint8_t r[REC];
    acted(r, G->values[0], a->coefficients);
    memcpy(res->values[0], r, REC);
}
static void final_V(normalized_IS_t *V, const uint8_t *rec) {
    uint8_t *v = &V->values[0][0];
    memset(v, 0x55, sizeof *V);
    memcpy(v, rec, REC);
}
/* commitment data of (code, response): the canonical one exactly when they belong together */
static void commit_of(uint8_t *r, int good) {
    int match = good & (r[0] == 'x') & (r[R_CT] == 'I') & (r[R_AT] == 'P') & eq(r + R_CP, r + R_AP, P);
    r[0] = match ? 'V' : 'W';
    uint8_t keep = match - 1;
    for (int k = R_CP; k < R_ES; k++) r[k] &= keep;
    r[R_PIV] = 0;
}
void lex_minimize(normalized_IS_t *V, POSITION_T dst, const generator_mat_t *const G, const POSITION_T col) {
    CONTRACT(dst < N - K && col < N);
    if (dst < N - K) {
        V->values[0][dst] = col & 255;
        V->values[1][dst] = col >> 8;
        for (int k = 0; k < HALF; k++) V->values[k + 2][dst] = (dst & 1) * HALF + k < REC ? G->values[0][(dst & 1) * HALF + k] : 0;
    }
}
void lex_sort_cols(normalized_IS_t *V) {
    uint8_t r[2 * HALF];
    int ok = 1, c = 0;
    for (int k = 0; k < HALF; k++) { r[k] = V->values[k + 2][0]; r[HALF + k] = V->values[k + 2][1]; }
    int w = r[R_PIV] - 1;
    static uint8_t seen[N];
    memset(seen, 0, sizeof seen);
    for (int d = 0; d < N - K; d++) { unsigned q = V->values[0][d] | V->values[1][d] << 8; if (q < N) seen[q]++; }
    for (c = 0; c < N; c++) ok &= seen[c] == !pivot_of(w, c);
    for (int d = 2; d < N - K; d++) for (int k = 0; k < HALF; k++) ok &= V->values[k + 2][d] == r[(d & 1) * HALF + k];
    commit_of(r, ok);
    final_V(V, r);
}
void prepare_digest_input(normalized_IS_t *V, monomial_action_IS_t *qbar, const generator_mat_t *const G, const monomial_t *const q) {
    uint8_t r[REC];
    CONTRACT(G->values[0][0] == 'G' && q->coefficients[0] == 'E');
    memcpy(r, q->coefficients, REC);
    memcpy(r + R_G0, G->values[0] + R_G0, S);
    r[0] = G->values[0][0] == 'G' && q->coefficients[0] == 'E' ? 'V' : '?';
    final_V(V, r);
    memcpy(qbar->coefficients, q->coefficients, REC);
    qbar->coefficients[0] = 'A';
}
/* ---- specification */
static uint8_t spec_tree[(2 * LEAVES - 1) * S];
static void spec_V(uint8_t *out, const uint8_t *rec) { memset(out, 0x55, sizeof(normalized_IS_t)); memcpy(out, rec, REC); }
static void spec_commit(uint8_t *rec, const uint8_t *g0, const uint8_t *seed, const uint8_t *salt, int round) {
    memset(rec, 0, REC);
    rec[0] = 'V';
    memcpy(rec + R_G0, g0, S); memcpy(rec + R_ES, seed, S); memcpy(rec + R_SALT, salt, H);
    rec[R_RND] = round; rec[R_RND + 1] = round >> 8;
}
#ifdef POSITIONS
/* real sizes: W challenged rounds at listed positions */
static int choose(int pat) {
    static const int pos[][W] = { POSITIONS };
    memset(fws, 0, sizeof fws);
    for (int i = 0; i < W; i++) fws[pos[pat][i]] = 1 + (pos[pat][i] + i) % (NUM_KEYPAIRS - 1);
    return 1;
}
#else
static int choose(int pat) {        /* pat-th challenge: which rounds, then which key each; 0 when out of range */
    int keys = 1, idx = pat, cnt = 0;
    for (int i = 0; i < W; i++) keys *= NUM_KEYPAIRS - 1;
    int set = idx / keys, kk = idx % keys;
    for (int mask = 0; mask < (1 << T); mask++) {
        int w = 0;
        for (int i = 0; i < T; i++) w += mask >> i & 1;
        if (w != W) continue;
        if (cnt++ == set) {
            for (int i = 0; i < T; i++) { if (mask >> i & 1) { fws[i] = 1 + kk % (NUM_KEYPAIRS - 1); kk /= NUM_KEYPAIRS - 1; } else fws[i] = 0; }
            return 1;
        }
    }
    return 0;
}
#endif
static int anc[2 * LEAVES - 1];
static int spec_paths(void) {       /* number of published seeds; anc marks challenged leaves and their ancestors */
    int n = 0;
    for (int i = 0; i < LEAVES; i++) anc[LEAVES - 1 + i] = i < T && fws[i] != 0;
    for (int i = LEAVES - 2; i >= 0; i--) anc[i] = anc[2 * i + 1] | anc[2 * i + 2];
    for (int i = 1; i < NODES; i++) n += !anc[i] && anc[(i - 1) / 2];
    return n;
}
static void reset(void) {
    memset(X, 0, sizeof X);
    xk = rndpos = draws = hinit = hfin = errors = chals = rrefs = tri = 0;
    have_skey = 0;
}
#ifdef HONEST
static const uint8_t *draw(unsigned from, unsigned to, unsigned len) {   /* the only draw of that length in [from,to) */
    const uint8_t *r = 0;
    for (unsigned i = from; i < to && i < 16; i++) if (drawlen[i] == len && !r) r = vc_in.rnd + drawoff[i];
    return r;
}
static uint8_t pk[sizeof(pubkey_t)], sk[sizeof(prikey_t)], pk0[sizeof(pubkey_t)], sk0[sizeof(prikey_t)];
static uint8_t sm[SMMAX], sm0[SMMAX], mo[SMMAX], msg[MLEN + 1];
static int body(int pat) {
    reset();
    if (!choose(pat)) return 0;
    unsigned long long smlen = 0, molen = 0;
    memset(pk, vc_in.junk[0], sizeof pk); memset(sk, vc_in.junk[1], sizeof sk);
    memset(sm, vc_in.junk[2], sizeof sm); memset(mo, vc_in.junk[3], sizeof mo);
    int rc = crypto_sign_keypair(pk, sk);
    unsigned kd = draws, kp = rndpos;
    const pubkey_t *PK = (const pubkey_t *)pk;
    const prikey_t *SK = (const prikey_t *)sk;
    const uint8_t *dsk = draw(0, kd, P), *dg0 = draw(0, kd, S);
#ifdef GROUP_KEYGEN
    VC_ASSERT(rc == 0, "key generation reports success");
    VC_ASSERT(kd == 2 && kp == P + S && dsk && dg0, "secret and public seeds are two separate fresh draws");
    VC_ASSERT(eq(SK->compressed_sk, dsk, P), "the secret seed is its own draw");
    VC_ASSERT(eq(SK->G_0_seed, dg0, S) && eq(PK->G_0_seed, dg0, S), "both keys hold the public code's seed");
    for (int i = 0; i < NUM_KEYPAIRS - 1; i++) {
        uint8_t r[REC];
        memset(r, 0, REC);
        r[0] = 'R'; memcpy(r + R_G0, dg0, S); memcpy(r + R_CP, vc_in.pstream + i * P, P); r[R_CT] = 'I';
        uint8_t g[REC];
        memcpy(g, PK->SF_G[i], REC);
        g[R_PIV] = 0;
        int z = 1;
        for (int k = REC; k < RREF_MAT_PACKEDBYTES; k++) z &= PK->SF_G[i][k] == 0;
        VC_ASSERT(eq(g, r, REC) && z, "key i is the encoded reduced form of the public code acted on by the inverse of secret monomial i");
    }
    VC_ASSERT(errors == 0, "building blocks used within their contracts");
#endif
    memcpy(pk0, pk, sizeof pk); memcpy(sk0, sk, sizeof sk);
    memcpy(msg, vc_in.m, MLEN);
    hout = vc_in.digest; tri = 0;
    rc = crypto_sign(sm, &smlen, msg, MLEN, sk);
    const sign_t *sig = (const sign_t *)(sm + MLEN);
    const uint8_t *des = draw(kd, draws, S), *dsalt = draw(kd, draws, H);
    int n = spec_paths();
    (void)des; (void)dsalt; (void)PK;
#ifdef GROUP_SIGN
    VC_ASSERT(rc == 0 && draws == kd + 2 && rndpos == kp + S + H && des && dsalt, "root seed and salt are separate fresh draws");
    VC_ASSERT(smlen == MLEN + LESS_CRYPTO_BYTES(n), "length follows from the number of published seeds");
    VC_ASSERT(eq(sm, vc_in.m, MLEN), "the signed message starts with the message");
    VC_ASSERT(eq(sig->tree_salt, dsalt, H), "salt");
    VC_ASSERT(eq(sig->digest, vc_in.digest, H), "digest");
    memcpy(spec_tree, des, S);
    for (int i = 0; i < LEAVES - 1; i++) { uint8_t in[H + S]; memcpy(in, dsalt, H); memcpy(in + H, spec_tree + i * S, S); children(in, spec_tree + (2 * i + 1) * S); }
    int j = 0;
    for (int i = 0; i < T; i++) {
        uint8_t r[REC];
        if (fws[i]) {
            spec_commit(r, dg0, spec_tree + (LEAVES - 1 + i) * S, dsalt, i);
            r[0] = 'C'; memset(r + R_G0, 0, S);
            memcpy(r + R_AP, vc_in.pstream + (fws[i] - 1) * P, P); r[R_AT] = 'P';
            VC_ASSERT(eq(sig->monom_actions[j], r, REC), "j-th response answers the j-th challenged round with that round's key");
            j++;
        }
    }
    j = 0;
    for (int i = 0; i < NODES; i++) if (i && !anc[i] && anc[(i - 1) / 2]) { VC_ASSERT(eq(sig->seed_storage + j * S, spec_tree + i * S, S), "published seeds are those of the maximal unchallenged subtrees"); j++; }
    VC_ASSERT(sm[smlen - 1] == n, "the last byte of the signature is the number of published seeds");
    /* transcript: every round, then the message, then the salt */
    static uint8_t v[sizeof(normalized_IS_t)];
    VC_ASSERT(hinit == 1 && hfin == 1 && trn[0] == T * sizeof v + MLEN + H, "transcript length");
    for (int i = 0; i < T; i++) {
        uint8_t r[REC];
        spec_commit(r, dg0, spec_tree + (LEAVES - 1 + i) * S, dsalt, i);
        spec_V(v, r);
        VC_ASSERT(eq(tr[0] + i * sizeof v, v, sizeof v), "round i's commitment is absorbed i-th");
    }
    VC_ASSERT(eq(tr[0] + T * sizeof v, vc_in.m, MLEN), "then the message");
    VC_ASSERT(eq(tr[0] + T * sizeof v + MLEN, dsalt, H), "then the salt");
    VC_ASSERT(chals == 1 && eq(chal_in, vc_in.digest, H), "the challenge is the digest's");
    VC_ASSERT(errors == 0, "building blocks used within their contracts");
#endif
#ifdef GROUP_REPEAT
    /* the same call again with other initial buffer contents and another signature in between */
    VC_ASSERT(eq(sk, sk0, sizeof sk) && eq(msg, vc_in.m, MLEN), "signing leaves its inputs unchanged");
    memcpy(sm0, sm, sizeof sm);
    static uint8_t smx[SMMAX], pk1[sizeof pk], sk1[sizeof sk], mx[MLEN + 1];
    unsigned long long l2 = 0, l3 = 0;
    unsigned sr = rndpos;
    memcpy(mx, vc_in.m2, MLEN);
    hout = vc_in.digest2; tri = 1;
    rndpos = kp;
    crypto_sign(smx, &l3, mx, MLEN, sk);                 /* unrelated call */
    crypto_sign_open(mo, &molen, smx, l3, pk);
    memset(smx, vc_in.junk[4], sizeof smx);
    hout = vc_in.digest; tri = 1;
    rndpos = kp; rrefs = 0; draws = 2;
    crypto_sign(smx, &l2, msg, MLEN, sk);
    VC_ASSERT(l2 == smlen && l2 <= sizeof smx && eq(smx, sm0, smlen), "every byte of the signed message is determined by key, message and randomness");
    memset(pk1, vc_in.junk[5], sizeof pk1); memset(sk1, vc_in.junk[6], sizeof sk1);
    rndpos = 0; rrefs = 0; draws = 0;
    crypto_sign_keypair(pk1, sk1);
    VC_ASSERT(eq(pk1, pk0, sizeof pk) && eq(sk1, sk0, sizeof sk), "every key byte is determined by the randomness");
    rndpos = sr;
    /* verification: two runs, outputs prefilled differently */
    hout = vc_in.digest; tri = 1;
    unsigned long long a = 0, b = 0;
    static uint8_t mo2[SMMAX];
    memset(mo2, vc_in.junk[7], sizeof mo2);
    int r1 = crypto_sign_open(mo, &a, sm, smlen, pk), r2 = crypto_sign_open(mo2, &b, sm, smlen, pk);
    VC_ASSERT(r1 == r2 && a == b && eq(mo, mo2, MLEN), "opening is repeatable");
    VC_ASSERT(eq(sm, sm0, smlen) && eq(pk, pk0, sizeof pk), "opening leaves its inputs unchanged");
    int clean = 1;
    for (unsigned k = MLEN; k < sizeof mo2; k++) clean &= mo2[k] == vc_in.junk[7];
    VC_ASSERT(clean, "opening writes nothing but the message");
#endif
#ifdef GROUP_OPEN
    memcpy(sm0, sm, sizeof sm);
    hout = vc_in.digest; tri = 1; trn[1] = 0; hinit = 0;
    rc = crypto_sign_open(mo, &molen, sm, smlen, pk);
    VC_ASSERT(trn[0] == trn[1] && eq(tr[0], tr[1], T * sizeof(normalized_IS_t) + MLEN + H), "signer and verifier hash the same data in the same order");
    VC_ASSERT(rc == 0, "an honest signature is accepted");
    VC_ASSERT(molen == MLEN && eq(mo, vc_in.m, MLEN), "opening returns the message");
    VC_ASSERT(errors == 0, "building blocks used within their contracts");
    hout = vc_in.digest2; tri = 1;
    rc = crypto_sign_open(mo, &molen, sm, smlen, pk);
    VC_ASSERT((rc == 0) == eq(vc_in.digest, vc_in.digest2, H), "accepted exactly when the whole digest matches");
#endif
    VC_REACH("end of a pattern");
    return 1;
}
#endif
#ifdef ARBITRARY
static uint8_t sm[MLEN + sizeof(sign_t)], pk[sizeof(pubkey_t)], mo[MLEN + sizeof(sign_t)];
static uint8_t tree[sizeof spec_tree];
static int body(int pat) {
    reset();
    if (!choose(pat)) return 0;
    int n = spec_paths();
    unsigned long long molen = 0, smlen = MLEN + LESS_CRYPTO_BYTES(n);
    memcpy(pk, vc_in.pk, sizeof pk);
    memcpy(sm, vc_in.m, MLEN);
    memcpy(sm + MLEN, vc_in.sig, sizeof(sign_t));
    sm[smlen - 1] = n;
    const sign_t *sig = (const sign_t *)(sm + MLEN);
    const pubkey_t *PK = (const pubkey_t *)pk;
    hout = vc_in.digest2; tri = 0;
    int rc = crypto_sign_open(mo, &molen, sm, smlen, pk);
    VC_ASSERT(rc == 0 || rc == -1, "result is success or failure");
    VC_ASSERT(chals == 1 && eq(chal_in, sig->digest, H), "the challenge is the one of the signature's digest");
    /* specification */
    int valid = 1, j = 0;
    for (int i = 0; i < T; i++) if (fws[i]) { valid &= PK->SF_G[fws[i] - 1][0] == 'R' && sig->monom_actions[j][0] == 'C'; j++; }
    if (valid) {
        VC_ASSERT(hinit == 1 && hfin == 1, "one hash computation");
        VC_ASSERT((rc == 0) == eq(vc_in.digest2, sig->digest, H), "accepted exactly when all bytes of the digest match");
        VC_ASSERT(molen == MLEN && eq(mo, vc_in.m, MLEN), "the message is returned");
        memset(tree, 0, sizeof tree);
        j = 0;
        for (int i = 0; i < NODES; i++) if (!anc[i]) {
            if (i && anc[(i - 1) / 2]) { memcpy(tree + i * S, sig->seed_storage + j * S, S); j++; }
            if (i < LEAVES - 1) { uint8_t in[H + S]; memcpy(in, sig->tree_salt, H); memcpy(in + H, tree + i * S, S); children(in, tree + (2 * i + 1) * S); }
        }
        static uint8_t v[sizeof(normalized_IS_t)];
        VC_ASSERT(trn[0] == T * sizeof v + MLEN + H, "transcript length");
        j = 0;
        for (int i = 0; i < T; i++) {
            uint8_t r[REC];
            if (!fws[i]) spec_commit(r, PK->G_0_seed, tree + (LEAVES - 1 + i) * S, sig->tree_salt, i);
            else {
                acted(r, PK->SF_G[fws[i] - 1], sig->monom_actions[j]);
                reduced(r, 0);
                commit_of(r, 1);
                j++;
            }
            spec_V(v, r);
            VC_ASSERT(eq(tr[0] + i * sizeof v, v, sizeof v), "round i's recomputed commitment is hashed i-th");
        }
        VC_ASSERT(eq(tr[0] + T * sizeof v, vc_in.m, MLEN), "then the message");
        VC_ASSERT(eq(tr[0] + T * sizeof v + MLEN, sig->tree_salt, H), "then the salt");
        VC_REACH("well-formed signature");
    } else {
        VC_ASSERT(rc == -1, "malformed response or key is rejected");
        VC_REACH("malformed signature");
    }
    VC_ASSERT(errors == 0, "building blocks used within their contracts");
    return 1;
}
#endif
#ifdef MISCOUNT     /* every announced seed count other than the one the challenge requires; buffers of exactly that size */
static uint8_t pk[sizeof(pubkey_t)];
static int body(int pat) {
    reset();
    if (!choose(pat)) return 0;
    int n = spec_paths(), max = MAX_PUBLISHED_SEEDS, good = 0;
    memcpy(pk, vc_in.pk, sizeof pk);
    for (int a = 0; a <= max; a++) {
#ifdef POSITIONS
        if (a != 0 && a != n - 1 && a != n + 1 && a != max) continue;
#endif
        if (a == n) continue;
        unsigned long long molen = 0, smlen = MLEN + LESS_CRYPTO_BYTES(a);
        uint8_t *sm = malloc(smlen), *mo = malloc(MLEN + 1);
        memcpy(sm, vc_in.m, MLEN);
        memcpy(sm + MLEN, vc_in.sig, smlen - MLEN);
        sm[smlen - 1] = a;
        hout = vc_in.digest2; tri = 0; reset();
        int rc = crypto_sign_open(mo, &molen, sm, smlen, pk);
        VC_ASSERT(rc == -1, "a signature announcing another number of seeds is rejected");
        good++;
    }
    VC_ASSERT(good > 0, "some other count exists");
    VC_REACH("end of a pattern");
    return 1;
}
#endif
#ifdef ANYLENGTH
static int body(int pat) {
    static prikey_t SK; static pubkey_t PK; static sign_t sig; static char m[8];
    reset();
    if (!choose(pat)) return 0;
    LESS_keygen(&SK, &PK);
    hout = vc_in.digest; tri = 0; bigm = (const uint8_t *)m; bigseen = 0; bigpos = -1;
    LESS_sign(&SK, m, vc_in.biglen, &sig);
    VC_ASSERT(bigseen == vc_in.biglen, "the signer hashes the whole message, whatever its length");
    VC_ASSERT(bigpos == T * sizeof(normalized_IS_t) && trn[0] == T * sizeof(normalized_IS_t) + H, "between the commitments and the salt");
    tri = 1; hinit = 0; bigseen = 0; bigpos = -1;
    int ok = LESS_verify(&PK, m, vc_in.biglen, &sig);
    VC_ASSERT(ok == 1 && bigseen == vc_in.biglen, "the verifier hashes the whole message, whatever its length");
    VC_ASSERT(bigpos == T * sizeof(normalized_IS_t) && trn[1] == trn[0], "between the commitments and the salt");
    VC_ASSERT(errors == 0, "building blocks used within their contracts");
    VC_REACH("any length");
    return 1;
}
#endif
static void go(int p) {
    if (p >= PATTERNS) return;
    if (vc_in.pat == p) body(p);
    else go(p + 1);
}
int main(void) {
    VC_GET_INPUTS();
#ifdef ANYLENGTH
    VC_ASSUME(vc_in.biglen > 0 && vc_in.biglen < (uint64_t)1 << 62);
#endif
    VC_ASSUME(vc_in.pat < PATTERNS);
    go(0);
    return 0;
}
