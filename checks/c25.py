from common import *
LEVEL = "model_checking"
TECHNIQUE = "self-composition: two symbolic runs of the real LLVM IR (symx) with different buffer contents and history, decided by z3"
LEVEL_NOTE = "Key generation, signing and opening give the same bytes whatever the buffers held and whatever was called before."
ASSUMPTIONS = [IDEAL_NOTE, "codecs: C09 and C10 decide that every encoded byte is determined by the encoded object"]
def instances(tier):
    L = []
    for i in BOTH:
        for p in ONE_PER_CAT:
            L.append(proto("repeat", ["HONEST", "GROUP_REPEAT"], i, p, what="outputs depend on arguments and randomness only; inputs unchanged"))
        for p in ("1B", "1S") if tier == "quick" else ALL:
            L.append(proto("repeat_real", ["HONEST", "GROUP_REPEAT"], i, p, positions=[spread(p)], what="real number of rounds", timeout=1200))
    return L
