from common import *
LEVEL = "model_checking"
TECHNIQUE = "symbolic execution of the LLVM IR of key generation, signing and opening (symx) over ideal building blocks, decided by z3"
LEVEL_NOTE = "Key generation, signing and opening run symbolically end to end; every challenge of the bound, every key, message and randomness."
ASSUMPTIONS = [IDEAL_NOTE]
def instances(tier):
    L = []
    for i in BOTH:
        for p in ONE_PER_CAT:
            L.append(proto("sign_content", ["HONEST", "GROUP_SIGN"], i, p, what="signature content and hashed transcript are exactly the specified ones"))
            L.append(proto("sign_open", ["HONEST", "GROUP_OPEN"], i, p, what="opening accepts and returns the message"))
        L.append(proto("sign_open_empty", ["HONEST", "GROUP_OPEN"], i, "1B", T=3, W=1, keys=2, mlen=0, what="empty message"))
        L.append(proto("sign_open_long", ["HONEST", "GROUP_OPEN"], i, "1B", T=3, W=1, keys=2, mlen=300, what="300-byte message"))
        L.append(proto("sign_open_64k", ["HONEST", "GROUP_OPEN"], i, "1B", T=3, W=1, keys=2, mlen=65541, what="message longer than 64 KiB"))
        L.append(proto("any_length", ["ANYLENGTH"], i, "1B", what="the message is hashed as a whole for every 64-bit length"))
        for p in ("1B", "1I", "1S"):
            L.append(proto("sign_content_real", ["HONEST", "GROUP_SIGN"], i, p, positions=[spread(p), tail(p)], what="real number of rounds"))
            L.append(proto("sign_open_real", ["HONEST", "GROUP_OPEN"], i, p, positions=[spread(p), tail(p)], what="real number of rounds"))
        for p in ("3S", "5S", "3B", "5B") if tier == "thorough" else ("3B",):
            L.append(proto("sign_content_real", ["HONEST", "GROUP_SIGN"], i, p, positions=[spread(p)], what="real number of rounds"))
            if tier == "thorough":
                L.append(proto("sign_open_real", ["HONEST", "GROUP_OPEN"], i, p, positions=[spread(p)], what="real number of rounds", timeout=900))
        if tier == "thorough":
            L.append(proto("sign_content", ["HONEST", "GROUP_SIGN"], i, "1B", T=9, W=3, keys=3, what="more rounds"))
            L.append(proto("sign_open", ["HONEST", "GROUP_OPEN"], i, "1B", T=9, W=3, keys=2, what="more rounds", timeout=1500))
    return L
