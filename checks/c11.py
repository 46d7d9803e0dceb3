from common import *
LEVEL = "model_checking"
TECHNIQUE = "symbolic execution of the real monomial code at published sizes (LLVM bitcode to mod-127 terms, SMT), and CBMC with every permutation symbolic at N=4"
LEVEL_NOTE = "Group laws and actions: every coefficient at published sizes with a fixed permutation, and every permutation at small length."
ASSUMPTIONS = ["monomials are valid (C05)"]
def instances(tier):
    L = []
    th = tier == "thorough"
    for i in BOTH:
        L.append(Instance("mono_comp", "monalg.c", impl=i, param="1B", ov=dict(N=4, K=2), d=dict(CHECK_COMP=1), unwind=10, timeout=300, what="composition of an action with a monomial", bounds="N=4, K=2, every permutation"))
        L.append(Instance("applyact", "applyact.c", impl=i, param="1B", ov=dict(N=5, K=2), unwind=10, timeout=200, what="applying an action to a matrix", bounds="N=5, K=2, every choice of columns"))
        if th:
            L.append(Instance("mono_inv", "monalg.c", impl=i, param="1B", ov=dict(N=4, K=2), d=dict(CHECK_INV=1), unwind=10, timeout=400, what="inverse and identity", bounds="N=4, every permutation"))
        else:
            L.append(Instance("mono_inv_perm", "monalg.c", impl=i, param="1B", ov=dict(N=5, K=2), d=dict(CHECK_INV=1, PERMONLY=1), unwind=10, timeout=300, what="inverse and identity", bounds="N=5, every permutation, set coefficients"))
    L.append(Instance("mono_act", "monalg.c", impl="ref", param="1B", ov=dict(N=4, K=1, Q=7), d=dict(CHECK_ACT=1), unwind=10, timeout=300, what="acting twice == acting with the product", bounds="N=4, K=1, Q=7, every permutation"))
    for i in BOTH:
        for p in ONE_PER_CAT:
            for f in ((11, 13) if th else (11,)):
                kw = dict(impl=i, param=p, engine="symx", mod127=True, timeout=300, qtimeout=100, memlimit_gb=14, slots=2)
                L.append(Instance("real_inv_%d" % f, "monalg.c", d=dict(CHECK_INV=1, FIXED=f, SPARSE=1), what="inverse and identity", bounds="published N, permutation i -> %d*i+3 mod N, three coefficients symbolic" % f, **kw))
                L.append(Instance("real_comp_%d" % f, "monalg.c", d=dict(CHECK_COMP=1, FIXED=f), what="composition of an action with a monomial", bounds="published N and K, one permutation, every coefficient symbolic", **kw))
                d = dict(CHECK_ACT=1, FIXED=f)
                if i == "opt": d["NOLAW"] = 1
                L.append(Instance("real_act_%d" % f, "monalg.c", d=d, what="acting on a generator, product of monomials, acting twice", bounds="published N and K, one permutation, every matrix entry and coefficient symbolic", **kw))
                L.append(Instance("real_apply_%d" % f, "applyact.c", d=dict(FIXEDPERM=1), what="applying an action to a matrix", bounds="published N and K, one choice of columns, every entry and coefficient symbolic", **kw)) if f == 11 else None
    return L
