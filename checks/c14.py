from common import *
LEVEL = "model_checking"
TECHNIQUE = "symbolic execution of the LLVM IR of key generation, signing and opening with the real linear algebra and codecs (symx with mod-127 polynomial normalisation), decided by rewriting and z3"
LEVEL_NOTE = "Real key generation, signing and opening with real row reduction, monomial algebra, codecs and normalisation; only hashing and sampling are replaced. Every coefficient of every monomial and every entry of the public code that keeps the chosen pivots is symbolic."
ASSUMPTIONS = ["reduced N, K with the published K mod 8 alignment of the codecs and the per-category index width; structured permutations and pivot patterns (contiguous and with gaps), T=3, W=2, three key pairs",
               "hashing and sampling are replaced by arbitrary values; C02-C06 decide the real ones",
               "REALLEX cases run the real column normalisation and sorting; the others compare the columns before it, C13 decides it on its own"]
COM = XOF + SHA3 + ["expand_digest_to_fixed_weight", "monomial_mat_seed_expand_salt_rnd", "monomial_mat_seed_expand_prikey", "generator_SF_seed_expand"]
PACK = {"1": ("((7*K+7)/8+K)", 255), "3": ("((7*K+7)/8+(9*K+7)/8)", 511), "5": ("((7*K+7)/8+(10*K+7)/8)", 1023)}
def commit(i, p, n, gap, reallex, kind, **kw):
    a, m = PACK[p[0]]
    return Instance("commit_N%d_kind%d_gap%d%s" % (n, kind, gap, "_lex" if reallex else ""), "commit.c", impl=i, param=p,
                    ov=dict(MONO_ACTION_PACKEDBYTES=a, MASK_N=m, N=n, K=n // 2, T=3, W=2, NUM_KEYPAIRS=3, SEED_TREE_MAX_PUBLISHED_BYTES="(%d)" % (SEEDLEN[p[0]] * worst_published(3, 2))),
                    d=dict(KIND=kind, GAP=gap, **(dict(REALLEX=1) if reallex else {})), remove=COM + ([] if reallex else ["lex_minimize", "lex_sort_cols"]),
                    engine="symx", mod127=True, qtimeout=60, memlimit_gb=8,
                    bounds="N=%d, K=%d, T=3, W=2, 3 key pairs; all coefficients and code entries; permutations of kind %d, %s" % (n, n // 2, kind, "pivots with gaps" if gap else "leading pivots"),
                    what="the verifier's commitment equals the signer's and the response is accepted", **kw)
SIZES = {"1": (28, 44, 60), "3": (16, 32, 48), "5": (20, 36, 52)}
BIGGER = {"1": 124, "3": 128, "5": 132}
OPT = {"1": 28, "3": 16}      # the vector field arithmetic leaves its operands unreduced: larger sizes are out of reach, C21 carries them
def instances(tier):
    L = []
    for p in ONE_PER_CAT:
        for k, n in enumerate((BIGGER[p[0]],) + SIZES[p[0]]):
            for gap in (0, 1):
                for lex in (0, 1):
                    for kind in (0, 1, 2):
                        if n < 100 or tier == "thorough" or (gap, lex, kind) == (1, 1, 2):
                            L.append(commit("ref", p, n, gap, lex, kind, timeout=300 if n < 100 else 800))
    for p, n in (("1B", OPT["1"]), ("3B", OPT["3"])):
        for gap in (0, 1):
            for kind in (0, 1, 2):
                L.append(commit("opt", p, n, gap, 1, kind, timeout=300))
    if tier == "thorough":
        L += [commit("ref", "1B", 252, gap, lex, 1, timeout=1500) for gap in (0, 1) for lex in (0, 1)]
    return L
