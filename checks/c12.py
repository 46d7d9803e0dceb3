from common import *
LEVEL = "model_checking"
TECHNIQUE = "symbolic execution of the real LLVM IR (symx; modular canonical forms) and CBMC bounded model checking (SAT)"
LEVEL_NOTE = ("All matrices at tiny sizes; at sizes up to the real ones every matrix U*R, with R any echelon form of six pivot patterns (all free entries symbolic) and U "
              "from fixed families of invertible (and singular) matrices that force row exchanges.")
ASSUMPTIONS = ["entries are canonical", "above the tiny sizes the basis change U is one of the listed fixed matrices, the echelon form is arbitrary"]
def big(i, p, n, k, pat, u, deficient=0, **kw):
    d = dict(PATTERN=pat, UKIND=u)
    if deficient: d["DEFICIENT"] = deficient
    return Instance("rref_N%d_P%d_U%d%s" % (n, pat, u, "_deficient" if deficient else ""), "rrefbig.c", i, p, ov=dict(N=n, K=k) if (n, k) != BIG[p] else {}, d=d,
                    engine="symx", mod127=True, timeout=kw.pop("timeout", 300), qtimeout=20, memlimit_gb=kw.pop("memlimit_gb", 8),
                    what="dependent rows are refused" if deficient else "the unique reduced echelon form with exactly its pivots", bounds="N=%d, K=%d, pivot pattern %d, basis family %d, every echelon form" % (n, k, pat, u), **kw)
def instances(tier):
    L = [Instance("rref_K2_Q7", "rref.c", impl="ref", param="1B", ov=dict(N=4, K=2, Q=7), unwind=10, timeout=300, what="unique reduced echelon form", bounds="N=4, K=2, Q=7, all matrices")]
    for i in BOTH:
        for n, k, pat in ((9, 1, 0), (9, 1, 1), (7, 2, 0), (8, 3, 2)):
            L.append(Instance("rref_all_pivots_K%d_P%d" % (k, pat), "rrefbig.c", i, "1B", ov=dict(N=n, K=k), d=dict(PATTERN=pat, ALLPIVOTS=1), engine="symx", mod127=True, timeout=300, qtimeout=20,
                              memlimit_gb=12, what="unique reduced echelon form for every pivot value", bounds="N=%d, K=%d, all 126 pivot values, every echelon form" % (n, k)))
        if i == "ref": L.append(Instance("rref_K1", "rref.c", impl=i, param="1B", ov=dict(N=3, K=1), unwind=10, timeout=400, what="unique reduced echelon form", bounds="N=3, K=1, Q=127, all matrices"))
        for pat in range(6):
            for u in range(4):
                L.append(big(i, "1B", 20, 10, pat, u))
            L.append(big(i, ("1B", "3B", "5B")[pat % 3], 44, 22, pat, 2))
            L.append(big(i, "1B", 12, 6, pat, pat % 4, 3))
        L.append(big(i, "3B", 33, 16, 3, 3))
        L.append(big(i, "5B", 80, 40, 3, 2))
        L.append(big(i, "5B", 80, 40, 4, 1, 5))
        if tier == "thorough":
            for pat in range(6):
                L.append(big(i, "3B", 128, 64, pat, 2, memlimit_gb=12, slots=2))
            for pat in (0, 3):
                L.append(big(i, "1B", 252, 126, pat, 2, timeout=1500, memlimit_gb=20, slots=8 if i == "opt" else 4))
    return L
