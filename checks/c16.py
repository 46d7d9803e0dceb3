from common import *
LEVEL = "model_checking"
TECHNIQUE = "symbolic execution of the LLVM IR of opening (symx) on arbitrary signatures and keys over ideal building blocks, decided by z3"
LEVEL_NOTE = "Every byte of the signed message and the public key is symbolic; acceptance is equivalent to full digest equality and the hashed data is exactly the specified function of every input."
ASSUMPTIONS = [IDEAL_NOTE]
def instances(tier):
    L = []
    for i in BOTH:
        for p in ONE_PER_CAT:
            L.append(proto("open_any", ["ARBITRARY"], i, p, what="accepts exactly when the recomputed digest matches; transcript as specified"))
        for p in ONE_PER_CAT:
            L.append(proto("any_length", ["ANYLENGTH"], i, p, what="the message is hashed as a whole for every 64-bit length"))
        for p in ("1B", "1I", "1S"):
            L.append(proto("open_any_real", ["ARBITRARY"], i, p, positions=[spread(p), tail(p)], what="real number of rounds"))
        if tier == "thorough":
            for p in ("3B", "3S", "5S", "5B"):
                L.append(proto("open_any_real", ["ARBITRARY"], i, p, positions=[spread(p)], what="real number of rounds", timeout=1200, slots=2))
            L.append(proto("open_any", ["ARBITRARY"], i, "1B", T=9, W=3, keys=2, what="more rounds", timeout=1500))
    return L
