from common import *
LEVEL = "model_checking"
TECHNIQUE = "symbolic execution of the real LLVM IR with a symbolic XOF stream (symx), decided by z3"
LEVEL_NOTE = "Challenge expansion equals the specified rejection sampling for every digest and every stream of up to 5 draws."
ASSUMPTIONS = ["SHAKE output is an arbitrary byte stream (C02/C03 decide that it is the right one)"]
def ch(i, p, ov, draws, **k):
    return Instance("challenge_" + "_".join("%s%s" % x for x in ov.items()), "challenge.c", impl=i, param=p, ov=ov, d={"DRAWS": draws}, remove=XOF, engine="symx", timeout=k.pop("timeout", 300), qtimeout=60,
                    what="challenge == specified sampling", bounds=", ".join("%s=%s" % x for x in ov.items()) + ", other parameters real, up to %d draws" % draws, **k)
def instances(tier):
    L = []
    for i in BOTH:
        for p in ALL:
            L.append(ch(i, p, dict(W=2, T=9), 4))
            L.append(ch(i, p, dict(W=1), 2))
        for t in (8, 16, 17):
            L.append(ch(i, "1I", dict(W=2, T=t, NUM_KEYPAIRS=5), 3))
        if tier == "thorough":
            for p in ALL:
                L.append(ch(i, p, dict(W=3, T=9), 5, timeout=900))
                L.append(ch(i, p, dict(W=2), 3, timeout=900))
    return L
