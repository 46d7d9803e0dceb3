/* seed tree with an ideal (injective) expansion: the value of a node names the node, so equal values mean
 * the same derivation. Challenge flags are symbolic in [WLO,WHI), BACKGROUND elsewhere. */
#include "less_h.h"
struct vc_inputs { uint8_t flag[T]; uint8_t salt[HASH_DIGEST_LENGTH]; uint8_t junk; };
#include "vc_inputs.h"
#ifndef WLO
#define WLO 0
#define WHI T
#endif
#ifndef BACKGROUND
#define BACKGROUND(i) 0
#endif
#define NODES ((int)NUM_NODES_OF_SEED_TREE)
#define LEAVES ((int)NUM_LEAVES_OF_SEED_TREE)
#define S SEED_LENGTH_BYTES
/* ideal expansion: seed value v (16 bit) -> children 2v+1, 2v+2 */
static uint8_t x_in[HASH_DIGEST_LENGTH + S + 4];
static unsigned x_n, x_bad, x_fin;
static const void *x_ctx;
static void xi(const void *c) { x_ctx = c; x_n = 0; x_fin = 0; }
static void xa(const void *c, const uint8_t *in, size_t n) {
    if (c != x_ctx || x_fin) x_bad = 1;
    for (size_t i = 0; i < n; i++) { if (x_n < sizeof x_in) x_in[x_n] = in[i]; x_n++; }
}
static void xf(const void *c) { if (c != x_ctx || x_fin) x_bad = 1; x_fin = 1; }
static void xs(const void *c, uint8_t *out, size_t n) {
    if (c != x_ctx || !x_fin || n != 2 * S || x_n != HASH_DIGEST_LENGTH + S) x_bad = 1;
    for (int i = 0; i < HASH_DIGEST_LENGTH; i++) if (x_in[i] != vc_in.salt[i]) x_bad = 1;
    uint16_t v = x_in[HASH_DIGEST_LENGTH] | (uint16_t)(x_in[HASH_DIGEST_LENGTH + 1] << 8), l = 2 * v + 1, r = 2 * v + 2;
    out[0] = l; out[1] = l >> 8; out[S] = r; out[S + 1] = r >> 8;
}
#define XDEF(b) \
    void shake##b##_inc_init(shake##b##incctx *s) { xi(s); } \
    void shake##b##_inc_absorb(shake##b##incctx *s, const uint8_t *in, size_t n) { xa(s, in, n); } \
    void shake##b##_inc_finalize(shake##b##incctx *s) { xf(s); } \
    void shake##b##_inc_squeeze(uint8_t *out, size_t n, shake##b##incctx *s) { xs(s, out, n); }
XDEF(128)
XDEF(256)
static unsigned node(const uint8_t *t, int i) { return t[i * S] | (unsigned)t[i * S + 1] << 8; }
int main(void) {
    VC_GET_INPUTS();
    static uint8_t tree[NUM_NODES_OF_SEED_TREE * S], tree2[NUM_NODES_OF_SEED_TREE * S];
    static uint8_t store[NUM_NODES_OF_SEED_TREE * S];
    uint8_t root[S] = {0}, salt[HASH_DIGEST_LENGTH], flags[T];
    memcpy(salt, vc_in.salt, sizeof salt);
    for (int i = 0; i < T; i++) {
        if (i >= WLO && i < WHI) { VC_ASSUME(vc_in.flag[i] < 2); flags[i] = vc_in.flag[i]; }
        else flags[i] = BACKGROUND(i);
    }
    /* the digest always selects W >= 1 rounds */
    int some = 0;
    for (int i = 0; i < T; i++) some |= flags[i];
    VC_ASSUME(some);
    generate_seed_tree_from_root(tree, root, salt);
    int gen = 1;
    for (int i = 0; i < NODES; i++) gen &= node(tree, i) == (unsigned)i;
    VC_ASSERT(gen && !x_bad, "node i's seed is derived along the path to node i, from the parent's seed and the salt only");
    unsigned n = seed_tree_path(tree, flags, store);
    unsigned m = rebuild_seed_tree_leaves(tree2, flags, store, salt);
    VC_ASSERT(n == m, "publisher and rebuilder agree on the number of seeds");
    VC_ASSERT(!x_bad, "rebuilding expands seed and salt only");
    int same = 1;
    for (int i = 0; i < T; i++) if (!flags[i]) same &= node(tree2, LEAVES - 1 + i) == node(tree, LEAVES - 1 + i);
    VC_ASSERT(same, "every unchallenged leaf is recovered");
    /* ancestors of challenged leaves */
    static uint8_t anc[NUM_NODES_OF_SEED_TREE];
    for (int i = 0; i < T; i++) anc[LEAVES - 1 + i] = flags[i];
    for (int i = LEAVES - 2; i >= 0; i--) anc[i] = anc[2 * i + 1] | anc[2 * i + 2];
    int secret = 1, expect = 0;
    for (int k = 0; k < NODES; k++) if (k < (int)n) { unsigned v = store[k * S] | (unsigned)store[k * S + 1] << 8; secret &= v < (unsigned)NODES && !anc[v < (unsigned)NODES ? v : 0]; }
    VC_ASSERT(secret, "no published seed is a challenged leaf or an ancestor of one");
    for (int i = 1; i < NODES; i++) expect += !anc[i] && anc[(i - 1) / 2];
    VC_ASSERT((int)n == expect, "exactly one seed per maximal unchallenged subtree");
    VC_REACH("end");
    return 0;
}
