from common import *
LEVEL = "model_checking"
TECHNIQUE = "symbolic execution of the real normalisation and sort at published sizes (LLVM bitcode, z3; the sort path by path), and CBMC on small sizes"
LEVEL_NOTE = ("Normalisation: every column, with the first nonzero entry in each of a set of rows, at published sizes. Sort: every matrix with few columns, "
              "and at published sizes every value of one or two columns among set backgrounds (scattered, sorted, reversed, equal, alternating).")
ASSUMPTIONS = ["entries are canonical"]
def instances(tier):
    L = []
    th = tier == "thorough"
    for i in BOTH:
        L.append(Instance("lexmin", "lexmin.c", impl=i, param="1B", ov=dict(N=5, K=3), unwind=8, timeout=300, what="first nonzero entry scaled to one", bounds="K=3, every column and position"))
        L.append(Instance("lexsort_n5k2", "lexsort.c", impl=i, param="1B", ov=dict(N=5, K=2), engine="symx", paths=2, slots=2, timeout=300, qtimeout=60, memlimit_gb=8, what="columns sorted, permutation of the originals", bounds="3 columns of 2 entries, every matrix"))
        L.append(Instance("lexsort_n5k1", "lexsort.c", impl=i, param="1B", ov=dict(N=5, K=1), engine="symx", paths=2, slots=2, timeout=300, qtimeout=60, memlimit_gb=8, what="columns sorted, permutation of the originals", bounds="4 columns of 1 entry, every matrix"))
        if th:
            L.append(Instance("lexsort_n6k1", "lexsort.c", impl=i, param="1B", ov=dict(N=6, K=1), engine="symx", paths=4, slots=4, timeout=600, qtimeout=60, memlimit_gb=8, what="columns sorted, permutation of the originals", bounds="5 columns of 1 entry, every matrix"))
            L.append(Instance("lexsort_n6k2", "lexsort.c", impl=i, param="1B", ov=dict(N=6, K=2), engine="symx", paths=4, slots=4, timeout=800, qtimeout=60, memlimit_gb=8, what="columns sorted, permutation of the originals", bounds="4 columns of 2 entries, every matrix"))
        for p in ONE_PER_CAT:
            n = {"1": 126, "3": 200, "5": 274}[p[0]]
            for f in (0, n // 2, n - 1, n) if not th else (0, 1, 5, 31, 32, 63, 64, n // 2, n - 2, n - 1, n):
                L.append(Instance("lexmin_real_first%d" % f, "lexmin.c", i, p, d=dict(FIRST=f, SRC="(N/3)", DST="(N-K-1)"), engine="symx", qtimeout=100, timeout=400, memlimit_gb=8,
                                  what="first nonzero entry scaled to one", bounds="published sizes, first nonzero entry in row %d (%d: none)" % (f, n)))
            for r, bg, ns in ((0, 3, 1), (n - 1, 0, 1)) + (((1, 2, 1), (n // 2, 1, 1), (64, 4, 1), (2, 3, 2), (n - 2, 4, 2)) if p == "1B" else ()) + (((0, 5, 1), (n - 3, 0, 2), (3, 2, 2), (4, 1, 2)) if th and p == "1B" else ()):
                L.append(Instance("sort_real_row%d_bg%d_n%d" % (r, bg, ns), "lexsort_real.c", i, p, d=dict(ROW=r, BG=bg, NSYM=ns, SYM=5, STEP=n // 2 - 3), engine="symx", paths=1, timeout=400, qtimeout=60, memlimit_gb=8,
                                  what="columns sorted as whole columns, permutation of the originals", bounds="published sizes, columns equal above row %d, background %d, every value of %d column(s) there" % (r, bg, ns)))
    return L
