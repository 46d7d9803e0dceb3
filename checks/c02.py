from common import *
LEVEL = "model_checking"
TECHNIQUE = "symbolic execution of the LLVM IR of the permutation and the sponge (symx); equality decided by canonical GF(2) rewriting and z3"
LEVEL_NOTE = "All 24 rounds on the fully symbolic 1600-bit state; the sponge for every message content at lengths around the block boundaries, whatever the permutation is."
ASSUMPTIONS = ["sponge cases: the permutation is an arbitrary function (its k-th application gives an arbitrary state); the permutation case decides what it is",
               "the unused assembly file KeccakP-1600-AVX2.s is not encoded: nothing calls it"]
PERM = ["KeccakF1600_StatePermute"]
FNS = (128, 1256, 256, 384, 512)
def sponge(i, p, fn, mode, f=None, step=None, **k):
    d = {"FN": fn, mode: 1}
    if step: d.update(FROM=f, STEP=step)
    return Instance("%s_%d%s" % (mode.lower(), fn, "" if f is None else "_%d" % f), "sponge.c", i, p, d=d, remove=PERM, engine="symx", qtimeout=20, timeout=400,
                    bounds="message and output lengths 0..4 blocks (the table in harness/sponge.c), every content", **k)
def instances(tier):
    L = []
    for i in BOTH:
        L.append(Instance("permutation", "keccakf.c", i, "1B", engine="symx", qtimeout=60, bounds="none: every state, all rounds", what="Keccak-f[1600] of FIPS 202"))
        for fn in FNS:
            L.append(sponge(i, "1B", fn, "ONESHOT", what="one-shot function is the standard's"))
        for fn in (128, 1256):
            L.append(sponge(i, "1B", fn, "BLOCKS", what="block interface is the standard's"))
        for fn, p in ((128, "1B"), (1256, "3B"), (1256, "5B"), (256, "1B"), (384, "3B"), (512, "5B")):
            L.append(sponge(i, p, fn, "CATEGORY", what="the category uses the prescribed function"))
    return L
