from c02 import *
from c02 import sponge
LEVEL = "model_checking"
TECHNIQUE = "symbolic execution of the LLVM IR of the incremental hashing interface (symx) over an arbitrary permutation, decided by z3"
LEVEL_NOTE = "Every split of one block into two pieces with the second ending around every block boundary, and four-piece splits from a table; output likewise."
ASSUMPTIONS = ["the permutation is an arbitrary function (its k-th application gives an arbitrary state)"]
def instances(tier):
    L = []
    for i in BOTH:
        for fn in FNS:
            n = 4 if fn in (128, 1256, 256) else 2
            for f in range(n):
                L.append(sponge(i, "1B", fn, "SPLIT2", f, n, what="two pieces give the one-shot result"))
            L.append(sponge(i, "1B", fn, "SPLIT3", what="four pieces give the one-shot result"))
            L.append(sponge(i, "1B", fn, "ONESHOT", what="one-shot and incremental interfaces agree (same specification)"))
    return L
