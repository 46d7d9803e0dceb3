from common import *
LEVEL = "model_checking"
TECHNIQUE = "symbolic execution of the real LLVM IR with a symbolic XOF stream (symx), decided by range analysis and z3"
LEVEL_NOTE = "Monomials expanded from a seed equal the specified sampling and shuffle for every seed, salt and round; every stream at small sizes, windows of arbitrary bits and draws at the real sizes."
ASSUMPTIONS = ["SHAKE output is an arbitrary byte stream (C02/C03 decide that it is the right one)", "real sizes: coefficient groups outside the window are below 64, shuffle draws other than two are fixed patterns"]
def small(i, p, n, pk, words=2, **k):
    d = dict(WORDS=words)
    if pk: d["PRIKEY"] = 1
    return Instance(("sample_prikey_N%d" if pk else "sample_ephemeral_N%d") % n, "sample_mono.c", impl=i, param=p, ov=dict(N=n, K=n // 2), d=d, remove=XOF, engine="symx",
                    timeout=500, qtimeout=100, what="monomial == specified sampling; binds seed/salt/round", bounds="N=%d, every stream (%d words of coefficients)" % (n, words), **k)
def real(i, p, lo, hi, da, db, bg, pk=0, **k):
    d = dict(WLO="(%s)" % lo, WHI="(%s)" % hi, DA="(%s)" % da, DB="(%s)" % db, DRAWBG=bg)
    if pk: d["PRIKEY"] = 1
    return Instance("mono_real%s_words%s-%s_draws%s,%s_bg%d" % ("_prikey" if pk else "", lo, hi, da, db, bg), "sample_mono_real.c", i, p, d=d, remove=XOF, engine="symx", timeout=600, qtimeout=60,
                    what="monomial == specified sampling; binds seed/salt/round", bounds="real N; coefficient words %s..%s and draws %s, %s arbitrary" % (lo, hi, da, db), **k)
def instances(tier):
    L = []
    for i in BOTH:
        for p in ONE_PER_CAT:
            for pk in (0, 1):
                if tier == "thorough" or (p == "1B" and not pk) or (p == "3B" and pk):
                    L.append(small(i, p, 4, pk))
                L.append(real(i, p, 0, 0, "0", 100000, 1, pk))
                L.append(real(i, p, 0, 0, "N-2", "N-3", 0, pk))
                if p == "1B": L.append(real(i, p, 0, 0, "N/2", 100000, 1, pk))
        L.append(real(i, "1B", "CW-1", "CW", 100000, 100000, 2))
        L.append(real(i, "1B", 0, 1, 100000, 100000, 2, 1))
        if tier == "thorough":
            for p in ONE_PER_CAT:
                for pk in (0, 1):
                    L.append(small(i, p, 6, pk))
                    L.append(real(i, p, "CW-1", "CW", 100000, 100000, 2, pk))
                    L.append(real(i, p, "CW-2", "CW", 100000, 100000, 2, pk))
                    L.append(real(i, p, 0, 1, 100000, 100000, 2, pk))
                    L.append(real(i, p, 0, 0, "1", "N-5", 1, pk))
    return L
