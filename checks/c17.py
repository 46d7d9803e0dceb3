from common import *
LEVEL = "model_checking"
TECHNIQUE = "symbolic execution of the LLVM IR of the validity check and of verification (symx, z3); CBMC for the full size in the thorough tier"
LEVEL_NOTE = "The validity predicate against its definition, exhaustively at N=20 and at real sizes around fixed patterns; verification rejects every response failing it."
ASSUMPTIONS = [IDEAL_NOTE + " (verification cases only)"]
def bgcase(i, p, b, sym="(K/2)"):
    return Instance("real%d" % b, "validact.c", i, p, d=dict(BACKGROUND=b, SYM=sym), engine="symx", qtimeout=100, timeout=500,
                    bounds="real size; all coefficients and 5 column indices symbolic, the others pattern %d" % b, what="accepted exactly when well formed")
def instances(tier):
    L = []
    for i in BOTH:
        for p in ONE_PER_CAT:
            L.append(Instance("small", "validact.c", i, p, ov=dict(N=20, K=10), engine="symx", qtimeout=100, bounds="N=20, K=10, all values", what="accepted exactly when well formed"))
            L.append(proto("reject", ["ARBITRARY"], i, p, T=3, W=1 if tier == "quick" else 2, keys=2, what="verification rejects a malformed response in any challenged round and no well-formed one"))
        L += [bgcase(i, "1B", 1), bgcase(i, "3B", 2)]
        L.append(bgcase(i, "5B", 1))
        L.append(proto("reject_real", ["ARBITRARY"], i, "1B", positions=[spread("1B")], what="verification rejects malformed responses, real number of rounds"))
        if tier == "thorough":
            L.append(Instance("validact_full", "validact.c", impl=i, param="1B", unwind=130, timeout=800, what="accepted exactly when well formed", bounds="real N=252, K=126, all values"))
            for p in ONE_PER_CAT:
                L.append(Instance("mid", "validact.c", i, p, ov=dict(N=32, K=16), engine="symx", qtimeout=100, bounds="N=32, K=16, all values", what="accepted exactly when well formed"))
                for b in (0, 1, 2):
                    L.append(bgcase(i, p, b, "(K/3)"))
    return L
