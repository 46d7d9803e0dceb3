from common import *
LEVEL = "model_checking"
TECHNIQUE = "symbolic execution of the real tree code (LLVM IR, symx) with an ideal expansion, decided by z3"
LEVEL_NOTE = "Publisher and rebuilder agree for every challenge pattern at small trees and, at the real number of rounds, for every pattern in windows over fixed backgrounds."
ASSUMPTIONS = ["node expansion is injective (names the node); the challenge selects at least one round", "real T: flags outside the window follow a fixed background"]
SD = dict(SEED_LENGTH_BYTES="(2)", HASH_DIGEST_LENGTH="(32)")
def tree(i, p, t, **k):
    return Instance("tree_T%d" % t, "seedtree_h.c", impl=i, param=p, ov=dict(SD, T=t), remove=XOF, engine="symx", timeout=k.pop("timeout", 300), qtimeout=60, memlimit_gb=12,
                    what="all challenge patterns", bounds="T=%d, all patterns" % t, **k)
def win(i, p, lo, hi, bg, **k):
    return Instance("real_T_window%s-%s_%s" % (lo, hi, bg.replace("(i)", "")), "seedtree_h.c", impl=i, param=p, ov=SD, d={"WLO": "(%s)" % lo, "WHI": "(%s)" % hi, "BACKGROUND(i)": "(%s)" % bg}, remove=XOF,
                    engine="symx", timeout=400, qtimeout=60, memlimit_gb=8, what="all patterns in a window", bounds="real T; flags %s..%s arbitrary, others %s" % (lo, hi, bg), **k)
def instances(tier):
    L = []
    for i in BOTH:
        for t in (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13) + ((16, 17) if tier == "thorough" else ()):
            L.append(tree(i, "1B", t))
        for t in (3, 5, 8):
            L += [tree(i, "3B", t), tree(i, "5B", t)]
        for p in ALL:
            L.append(win(i, p, "T-6", "T", "i%97==3"))
            L.append(win(i, p, "0", "4", "0"))
            if p != "5B" or tier == "thorough":
                L.append(win(i, p, "T/2-2", "T/2+4", "i%101==0"))
        L.append(win(i, "1B", "T-5", "T", "i%7==3"))
    return L
