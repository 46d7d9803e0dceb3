from common import *
LEVEL = "model_checking"
TECHNIQUE = "symbolic execution of the LLVM IR of key generation (symx) over ideal building blocks, decided by z3"
LEVEL_NOTE = "Every randomness; key contents, derivation and separate draws."
ASSUMPTIONS = [IDEAL_NOTE]
def instances(tier):
    L = []
    for i in BOTH:
        for p in ALL:
            L.append(proto("keygen", ["HONEST", "GROUP_KEYGEN"], i, p, positions=[spread(p)] if p[0] == "1" else None, keys=TWK[p][2] if p[0] != "1" else 3,
                           what="keys are exactly the specified function of two separate draws"))
        for p in ("1S", "3S"):
            L.append(proto("keygen_k5", ["HONEST", "GROUP_KEYGEN"], i, p, T=3, W=1, keys=5, what="five key pairs"))
            L.append(proto("resign", ["HONEST", "GROUP_SIGN"], i, p, T=4, W=2, keys=4, what="signing re-derives the same secrets from the secret key"))
    return L
