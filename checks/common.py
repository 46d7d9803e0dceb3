import os, sys
from engine import Instance, ALL, ONE_PER_CAT
XOF = [f"shake{b}_inc_{s}" for b in (128, 256) for s in ("init", "absorb", "finalize", "squeeze")]
SHA3 = [f"sha3_{b}_inc_{s}" for b in (256, 384, 512) for s in ("init", "absorb", "finalize")]
CAT = {"1": "1B", "3": "3B", "5": "5B"}
BOTH = ("ref", "opt")
BIG = {"1B": (252, 126), "1I": (252, 126), "1S": (252, 126), "3B": (400, 200), "3S": (400, 200), "5B": (548, 274), "5S": (548, 274)}
# ---- parameter sets and the ideal-building-block protocol harness (harness/proto.c)
TWK = {"1B": (247, 30, 2), "1I": (244, 20, 4), "1S": (198, 17, 8), "3B": (759, 33, 2), "3S": (895, 26, 3), "5B": (1352, 40, 2), "5S": (907, 37, 3)}
SEEDLEN = {"1": 16, "3": 24, "5": 32}
IDEAL = XOF + SHA3 + """expand_digest_to_fixed_weight monomial_mat_seed_expand_salt_rnd monomial_mat_seed_expand_prikey monomial_mat_inv
 monomial_compose_action compress_monom_action expand_to_monom_action is_monom_action_valid generator_SF_seed_expand generator_rref_expand
 generator_monomial_mul generator_RREF compress_rref expand_to_rref apply_action_to_G lex_minimize lex_sort_cols prepare_digest_input""".split()


def worst_published(T, W):
    """largest number of maximal unchallenged subtrees over all challenges of weight W (all patterns, small T only)"""
    from itertools import combinations
    L = 1 << T.bit_length()
    best = 0
    for c in combinations(range(T), W):
        anc = set()
        for x in c:
            i = L - 1 + x
            while i not in anc:
                anc.add(i)
                i = (i - 1) // 2 if i else 0
        best = max(best, sum(1 for i in range(1, 2 * L - 1) if i not in anc and (i - 1) // 2 in anc))
    return best


def spread(p, shift=0):
    t, w, _ = TWK[p]
    return [(shift + (i * (t - 1)) // (w - 1)) % t for i in range(w)]


def tail(p):
    t, w, _ = TWK[p]
    return list(range(t - w, t))


def proto(name, groups, impl, param, T=5, W=2, keys=3, mlen=3, positions=None, timeout=400, **k):
    from math import comb
    S = SEEDLEN[param[0]]
    rec = 1 + S + 2 * S + 1 + 2 * S + 1 + S + 2 * S + 2 + 1
    kk = (rec + 1) // 2 + 8
    ov = dict(N="(%d)" % (2 * kk), K="(%d)" % kk)
    d = dict(MLEN=mlen)
    if positions:
        d.update(PATTERNS=len(positions), POSITIONS=",".join("{" + ",".join(map(str, x)) + "}" for x in positions))
        b = "real T, W and key count; %d challenge patterns; message of %d bytes" % (len(positions), mlen)
    else:
        ov.update(T="(%d)" % T, W="(%d)" % W, NUM_KEYPAIRS="(%d)" % keys, SEED_TREE_MAX_PUBLISHED_BYTES="(%d)" % (S * worst_published(T, W)))
        d["PATTERNS"] = comb(T, W) * (keys - 1) ** W
        b = "T=%d, W=%d, %d key pairs, all %d challenges; message of %d bytes" % (T, W, keys, d["PATTERNS"], mlen)
    for g in groups:
        d[g] = 1
    return Instance(name, "proto.c", impl=impl, param=param, ov=ov, d=d, remove=IDEAL, engine="symx", timeout=timeout, qtimeout=20,
                    memlimit_gb=12, bounds=b + "; every key, randomness, message, salt, digest byte symbolic", **k)


IDEAL_NOTE = ("hashing, sampling, linear algebra and codecs are replaced by ideal operations carrying the full description of how "
              "their result was derived; C02-C14 and C17 decide that the real ones behave like that")
