#include "less_h.h"
#include "fips202.h"
#define P2(p, v) do { (p)[0] = (uint8_t)(v); (p)[1] = (uint8_t)((v) >> 8); } while (0)
#define G2(p) ((uint16_t)((p)[0] | (p)[1] << 8))
static const uint8_t *s_p; static size_t s_n, s_pos, r_n; static uint8_t r_b[256];
void w_stream(const uint8_t *s, size_t n) { s_p = s; s_n = n; s_pos = 0; r_n = 0; memset(r_b, 0, sizeof r_b); }
unsigned w_used(uint8_t *rec, size_t n) { for (size_t i = 0; i < n && i < sizeof r_b; i++) rec[i] = r_b[i]; return (unsigned)r_n; }
#ifdef CUTXOF
static void ab(const uint8_t *in, size_t n) { for (size_t i = 0; i < n; i++) { if (r_n < sizeof r_b) r_b[r_n] = in[i]; r_n++; } }
static void sq(uint8_t *out, size_t n) { VC_ASSUME(s_pos + n <= s_n); for (size_t i = 0; i < n; i++) out[i] = s_p[s_pos + i]; s_pos += n; }
#define X(b) \
    void shake##b##_inc_init(shake##b##incctx *s) { (void)s; uint8_t k = b & 255; ab(&k, 1); } \
    void shake##b##_inc_absorb(shake##b##incctx *s, const uint8_t *in, size_t n) { (void)s; ab(in, n); } \
    void shake##b##_inc_finalize(shake##b##incctx *s) { (void)s; uint8_t k = 254; ab(&k, 1); } \
    void shake##b##_inc_squeeze(uint8_t *out, size_t n, shake##b##incctx *s) { (void)s; sq(out, n); }
X(128) X(256)
#endif
static void getG(generator_mat_t *G, const uint8_t *in) { memset(G, 0, sizeof *G); for (int i = 0; i < K; i++) for (int j = 0; j < N; j++) G->values[i][j] = in[i * N + j]; }
static void putG(const generator_mat_t *G, uint8_t *out) { for (int i = 0; i < K; i++) for (int j = 0; j < N; j++) out[i * N + j] = G->values[i][j]; }
static void getM(monomial_t *M, const uint8_t *in) { memset(M, 0, sizeof *M); for (int j = 0; j < N; j++) { M->coefficients[j] = in[j]; M->permutation[j] = G2(in + N + 2 * j); } }
static void putM(const monomial_t *M, uint8_t *out) { for (int j = 0; j < N; j++) { out[j] = M->coefficients[j]; P2(out + N + 2 * j, M->permutation[j]); } }
static void getA(monomial_action_IS_t *M, const uint8_t *in) { memset(M, 0, sizeof *M); for (int j = 0; j < K; j++) { M->coefficients[j] = in[j]; M->permutation[j] = G2(in + K + 2 * j); } }
static void putA(const monomial_action_IS_t *M, uint8_t *out) { for (int j = 0; j < K; j++) { out[j] = M->coefficients[j]; P2(out + K + 2 * j, M->permutation[j]); } }
void w_monmul(const uint8_t *in, uint8_t *out) { static generator_mat_t G, R; static monomial_t M; getG(&G, in); getM(&M, in + K * N); generator_monomial_mul(&R, &G, &M); putG(&R, out); }
void w_applyact(const uint8_t *in, uint8_t *out) { static generator_mat_t G, R; static monomial_action_IS_t A; getG(&G, in); getA(&A, in + K * N); apply_action_to_G(&R, &G, &A); putG(&R, out); }
void w_rref(const uint8_t *in, uint8_t *out) { static generator_mat_t G; uint8_t piv[NP]; memset(piv, 0, sizeof piv); getG(&G, in); out[0] = !!generator_RREF(&G, piv); if (out[0]) { for (int j = 0; j < N; j++) out[1 + j] = piv[j]; putG(&G, out + 1 + N); } }
void w_lexmin(const uint8_t *in, uint8_t *out) { static generator_mat_t G; static normalized_IS_t V; memset(&G, 0, sizeof G); memset(&V, 0, sizeof V); unsigned s = in[K] | in[K + 1] << 8, d = in[K + 2] | in[K + 3] << 8; for (int i = 0; i < K; i++) G.values[i][s] = in[i]; lex_minimize(&V, (POSITION_T)d, &G, (POSITION_T)s); for (int i = 0; i < K; i++) for (int j = 0; j < NK; j++) out[i * NK + j] = V.values[i][j]; }
void w_lexsort(const uint8_t *in, uint8_t *out) { static normalized_IS_t V; for (int i = 0; i < K; i++) for (int j = 0; j < NK; j++) V.values[i][j] = in[i * NK + j]; lex_sort_cols(&V); for (int i = 0; i < K; i++) for (int j = 0; j < NK; j++) out[i * NK + j] = V.values[i][j]; }
void w_packact(const uint8_t *in, uint8_t *out) { static monomial_action_IS_t A; getA(&A, in); compress_monom_action(out, &A); }
void w_unpackact(const uint8_t *in, uint8_t *out) { static monomial_action_IS_t A; memset(&A, 0, sizeof A); expand_to_monom_action(&A, in); putA(&A, out); }
void w_valid(const uint8_t *in, uint8_t *out) { static monomial_action_IS_t A; getA(&A, in); out[0] = !!is_monom_action_valid(&A); }
void w_packmat(const uint8_t *in, uint8_t *out) { static generator_mat_t G; uint8_t piv[NP]; memset(piv, 0, sizeof piv); getG(&G, in); for (int j = 0; j < N; j++) piv[j] = in[K * N + j]; compress_rref(out, &G, piv); }
void w_unpackmat(const uint8_t *in, uint8_t *out) { static generator_mat_t G; memset(&G, 0, sizeof G); out[0] = !!expand_to_rref(&G, in); if (out[0]) putG(&G, out + 1); }
void w_code(const uint8_t *in, uint8_t *out) { static rref_generator_mat_t R; static generator_mat_t G; memset(&R, 0, sizeof R); memset(&G, 0, sizeof G); generator_SF_seed_expand(&R, in); generator_rref_expand(&G, &R); putG(&G, out); }
void w_ephem(const uint8_t *in, uint8_t *out) { static monomial_t M; uint8_t seed[SEED_LENGTH_BYTES], salt[HASH_DIGEST_LENGTH]; memcpy(seed, in, sizeof seed); memcpy(salt, in + sizeof seed, sizeof salt); monomial_mat_seed_expand_salt_rnd(&M, seed, salt, G2(in + sizeof seed + sizeof salt)); putM(&M, out); }
void w_prikey(const uint8_t *in, uint8_t *out) { static monomial_t M; uint8_t seed[PRIVATE_KEY_SEED_LENGTH_BYTES]; memcpy(seed, in, sizeof seed); monomial_mat_seed_expand_prikey(&M, seed); putM(&M, out); }
void w_chal(const uint8_t *in, uint8_t *out) { uint8_t d[HASH_DIGEST_LENGTH], f[T] = {0}; memcpy(d, in, sizeof d); expand_digest_to_fixed_weight(f, d); memcpy(out, f, T); }
void w_inv(const uint8_t *in, uint8_t *out) { static monomial_t M, R; getM(&M, in); monomial_mat_inv(&R, &M); putM(&R, out); }
void w_mul(const uint8_t *in, uint8_t *out) { static monomial_t A, B, R; getM(&A, in); getM(&B, in + 3 * N); monomial_mat_mul(&R, &A, &B); putM(&R, out); }
void w_compose(const uint8_t *in, uint8_t *out) { static monomial_t A; static monomial_action_IS_t B, R; getM(&A, in); getA(&B, in + 3 * N); monomial_compose_action(&R, &A, &B); putA(&R, out); }
void w_digest(const uint8_t *in, uint8_t *out) { static generator_mat_t G; static monomial_t M; static normalized_IS_t V; static monomial_action_IS_t A; getG(&G, in); getM(&M, in + K * N); memset(&V, 0, sizeof V); memset(&A, 0, sizeof A); prepare_digest_input(&V, &A, &G, &M); for (int i = 0; i < K; i++) for (int j = 0; j < NK; j++) out[i * NK + j] = V.values[i][j]; putA(&A, out + K * NK); }
#define TS (NUM_NODES_OF_SEED_TREE * SEED_LENGTH_BYTES)
void w_tree(const uint8_t *in, uint8_t *out) { uint8_t root[SEED_LENGTH_BYTES], salt[HASH_DIGEST_LENGTH]; memcpy(root, in, sizeof root); memcpy(salt, in + sizeof root, sizeof salt); generate_seed_tree_from_root(out, root, salt); }
void w_path(const uint8_t *in, uint8_t *out) { uint8_t f[T]; memcpy(f, in + TS, T); uint32_t n = seed_tree_path(in, f, out + 2); P2(out, n); }
void w_rebuild(const uint8_t *in, uint8_t *out) { static uint8_t t[TS]; uint8_t salt[HASH_DIGEST_LENGTH], f[T]; memset(t, 0, TS); memcpy(salt, in + TS, sizeof salt); memcpy(f, in + TS + sizeof salt, T); uint32_t n = rebuild_seed_tree_leaves(t, f, in, salt); P2(out, n); for (int i = 0; i < T; i++) if (!f[i]) memcpy(out + 2 + i * SEED_LENGTH_BYTES, t + (NUM_LEAVES_OF_SEED_TREE - 1 + i) * SEED_LENGTH_BYTES, SEED_LENGTH_BYTES); }
