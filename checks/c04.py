from common import *
LEVEL = "model_checking"
TECHNIQUE = "symbolic execution of the real LLVM IR with a symbolic XOF stream (symx), decided by range analysis and z3"
LEVEL_NOTE = "The code expansion equals the specified rejection sampling for every stream (small sizes), and at the real sizes for every in-range stream with an arbitrary window."
ASSUMPTIONS = ["SHAKE output is an arbitrary byte stream (C02/C03 decide that it is the right one)", "real sizes: 7-bit groups outside the window are below 64"]
def real(i, p, row, lo, hi, **k):
    return Instance("code_real_row%s_words%s-%s" % (row, lo, hi), "sample_code_real.c", i, p, d=dict(WROW="(%s)" % row, WLO="(%s)" % lo, WHI="(%s)" % hi), remove=XOF, engine="symx", timeout=400, qtimeout=60,
                    what="public code == accepted 7-bit groups in order", bounds="real N, K; words %s..%s of row %s arbitrary, all other groups < 64" % (lo, hi, row), **k)
def instances(tier):
    L = []
    for i in BOTH:
        for p in ONE_PER_CAT:
            L.append(Instance("sample_code", "sample_code.c", impl=i, param=p, ov=dict(N=5, K=2), d=dict(WORDS=2), remove=XOF, engine="symx", timeout=300, qtimeout=60,
                              what="public code == accepted 7-bit groups in order", bounds="N=5, K=2, stream of 2 words per row, every stream"))
            L.append(real(i, p, "0", 0, 0))
            if p == "1B" or tier == "thorough":
                L.append(real(i, p, "K-1", 0, 1))
            if p == "1B" or tier == "thorough":
                L.append(real(i, p, "K-1" if p == "1B" else "K-2", "PERROW-1", "PERROW"))
        L.append(Instance("sample_prikey", "sample_mono.c", impl=i, param="1B", ov=dict(N=4, K=2), d=dict(WORDS=2, PRIKEY=1), remove=XOF, engine="symx", timeout=300, qtimeout=60,
                          what="nonzero elements == accepted 7-bit groups plus one", bounds="N=4, every stream of 2 words"))
        if tier == "thorough":
            for p in ONE_PER_CAT:
                L.append(Instance("sample_code_N7", "sample_code.c", impl=i, param=p, ov=dict(N=7, K=2), d=dict(WORDS=3), remove=XOF, engine="symx", timeout=600, qtimeout=100,
                                  what="public code == accepted 7-bit groups in order", bounds="N=7, K=2, stream of 3 words per row, every stream"))
                L.append(real(i, p, "0", "PERROW-1", "PERROW"))
    return L
