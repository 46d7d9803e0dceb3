from common import *
LEVEL = "model_checking"
TECHNIQUE = "symbolic execution of the real LLVM IR (symx; modular canonical forms and z3) and CBMC bounded model checking (SAT)"
LEVEL_NOTE = "Field operations for every operand at the real sizes of every category, every vector lane; column positions follow fixed patterns there and are symbolic at reduced sizes."
ASSUMPTIONS = ["matrix entries are canonical (< 127) and monomial coefficients are 1..126, which is what samplers and decoders produce"]
def instances(tier):
    L = []
    for i in BOTH:
        for p in ONE_PER_CAT:
            for rot in (5,) if tier == "quick" else (0, 1, 5, 32, 125):
                L.append(Instance("monmul_rot%d" % rot, "monmul.c", i, p, d=dict(ROT=rot), engine="symx", mod127=True, timeout=300, qtimeout=60, memlimit_gb=12, slots=2 if i == "opt" else 1,
                                  what="every column times its coefficient is the exact canonical product", bounds="real N, K; all entries and coefficients; positions rotated by %d" % rot))
            L.append(Instance("applyact_real", "applyact.c", i, p, d=dict(FIXEDPERM=1), engine="symx", mod127=True, timeout=300, qtimeout=60, memlimit_gb=12,
                              what="selected columns scaled exactly", bounds="real N, K; all entries and coefficients; fixed positions"))
            n = {"1": 126, "3": 200, "5": 274}[p[0]]
            for f in (0, n - 1, n) if tier == "quick" else (0, 1, 5, n // 2, n - 2, n - 1, n):
                L.append(Instance("lexmin_real_first%d" % f, "lexmin.c", i, p, d=dict(FIRST=f, SRC="(N-1)", DST="(N-K-1)"), engine="symx", qtimeout=100, timeout=400, memlimit_gb=8,
                                  what="inverse and scaling of a column are exact", bounds="real N, K; first nonzero entry in row %d" % f))
        L.append(Instance("applyact", "applyact.c", impl=i, param="1B", ov=dict(N=5, K=2), unwind=6, timeout=200,
                          what="apply_action_to_G: exact products, right columns", bounds="N=5, K=2, all positions"))
        L.append(Instance("mono_inv", "monalg.c", impl=i, param="1B", d=dict(CHECK_INV=1, FIXED=11, SPARSE=1), engine="symx", mod127=True, timeout=300, qtimeout=100, memlimit_gb=14, what="field inverse of every coefficient", bounds="published N, three coefficients symbolic"))
        for pat, u in ((0, 2), (3, 2)):
            L.append(Instance("rref_P%d_U%d" % (pat, u), "rrefbig.c", i, "1B", ov=dict(N=64, K=32), d=dict(PATTERN=pat, UKIND=u), engine="symx", mod127=True, timeout=300, qtimeout=20, memlimit_gb=8,
                              what="row operations are exact in every lane", bounds="N=64, K=32"))
    return L
