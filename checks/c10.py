from common import *
LEVEL = "model_checking"
TECHNIQUE = "symbolic execution of the real codecs (LLVM IR, symx), decided by bit-level rewriting and z3"
LEVEL_NOTE = "Round trip for every matrix: all pivot patterns at reduced sizes of every bit alignment, and at the real sizes every entry with windows of arbitrary pivot flags over fixed patterns."
ASSUMPTIONS = ["reduced sizes keep N mod 8 of the category (4 for 1 and 5, 0 for 3), which the code relies on", "matrices are in reduced echelon form with canonical entries, as produced by row reduction"]
def pack(i, p, n, k, every=True, **kw):
    return Instance("pack_rref_N%d_K%d" % (n, k) + ("" if every else "_sym"), "pack_rref.c", impl=i, param=p, ov=dict(N=n, K=k), d=dict(ALLPATTERNS=1) if every else {}, engine="symx", qtimeout=60, timeout=300, memlimit_gb=12,
                    what="decode(encode(G)) == G", bounds="N=%d, K=%d, all pivot patterns, all entries" % (n, k), **kw)
def real(i, p, lo, hi, bg, **kw):
    return Instance("pack_real_%s-%s_%s" % (lo, hi, bg), "pack_rref.c", impl=i, param=p, d={"WLO": "(%s)" % lo, "WHI": "(%s)" % hi, "BACKGROUND(j)": "(%s)" % bg}, engine="symx", qtimeout=60, timeout=400, memlimit_gb=12,
                    slots=2, what="decode(encode(G)) == G", bounds="real N, K; pivot flags %s..%s arbitrary, others %s; all entries" % (lo, hi, bg), **kw)
def instances(tier):
    L = []
    for i in BOTH:
        L.append(pack(i, "1B", 4, 2, False))
        for p, n, k in (("1B", 4, 1), ("1B", 4, 3), ("3B", 8, 3), ("3B", 8, 5), ("5B", 12, 4), ("1B", 12, 6), ("5B", 12, 9), ("1B", 12, 2)):
            L.append(pack(i, p, n, k))
        for p in ONE_PER_CAT:
            for bg in ("j<K", "j%2", "j>=N-K", "j<K-1||j==N-1") if tier == "quick" else ("j<K", "j%2", "j>=N-K", "j<K-1||j==N-1", "j%2==0", "j!=0&&j<=K", "(j/8)%2==0?j<4*(K/4)||j-(K%4)<4*(K/4):j<0") [:6]:
                L.append(real(i, p, "0", "0", bg))
        for n, k, p in ((8, 2, "3B"), (8, 4, "3B"), (12, 6, "1B"), (12, 3, "5B")):
            L.append(Instance("expand_any_N%d_K%d" % (n, k), "expand_any.c", impl=i, param=p, ov=dict(N=n, K=k), d=dict(ALLPATTERNS=1), engine="symx", qtimeout=60, timeout=300, memlimit_gb=8,
                              what="decoder accepts canonical encodings only", bounds="N=%d, K=%d, all bytes" % (n, k)))
        L.append(Instance("compact", "compact.c", impl=i, param="1B", ov=dict(N=8, K=4), engine="symx", qtimeout=60, timeout=300, what="compact/expand are inverse", bounds="N=8, K=4, all pivot patterns"))
        if tier == "thorough":
            L += [pack(i, "5B", 12, p) for p in (1, 3, 5, 7, 11)] + [pack(i, "3B", 16, 5)]
            L.append(real(i, "1B", "K-2", "K+3", "j<K-2||j==K+5||j==N-1"))
    return L
