from common import *
LEVEL = "model_checking"
TECHNIQUE = "both implementations linked into one symbolic program (LLVM IR, symx) and run on the same symbolic input; outputs compared by modular canonical forms and z3"
LEVEL_NOTE = "Every function both implementations define is run in both on one symbolic input and must give the same bytes."
ASSUMPTIONS = ["arguments are what the scheme passes: canonical entries, nonzero coefficients, permutations", "the random stream is arbitrary and the same for both (C02, C03)"]
def eq(fn, p, inlen, outlen, stream=0, ov={}, fixed=None, tag="", rm=(), b="", **k):
    d = dict(FN=fn, INLEN="(%s)" % inlen, OUTLEN="(%s)" % outlen, STREAM="(%s)" % stream)
    if fixed: d["FIXED"] = fixed
    if rm: d["CUTXOF"] = 1
    k.setdefault("qtimeout", 60)
    return Instance(fn + tag, "equiv.c", "ref", p, ov=ov, d=d, stubs=("equiv_w.c",), impl2="opt", harness2="equiv_w.c", remove=rm, engine="symx",
                    bounds=b, what="reference == optimized: " + fn, timeout=k.pop("timeout", 400), **k)
def instances(tier):
    L = []
    for p in ALL if tier == "thorough" else ONE_PER_CAT:
        L.append(eq("packact", p, "3*K", "MONO_ACTION_PACKEDBYTES", b="real size, all actions"))
        L.append(eq("unpackact", p, "MONO_ACTION_PACKEDBYTES", "3*K", b="real size, all bytes"))
    for p in ONE_PER_CAT:
        S, P, H = "SEED_LENGTH_BYTES", "PRIVATE_KEY_SEED_LENGTH_BYTES", "HASH_DIGEST_LENGTH"
        L.append(eq("code", p, S, "K*N", 24, dict(N=5, K=2), rm=XOF, b="N=5, K=2, stream of 3 words"))
        L.append(eq("ephem", p, S + "+" + H + "+2", "3*N", 32, dict(N=4, K=2), rm=XOF, b="N=4"))
        L.append(eq("prikey", p, P, "3*N", 32, dict(N=4, K=2), rm=XOF, b="N=4"))
        L.append(eq("chal", p, H, "T", 6, dict(W=2, T=9), rm=XOF, b="T=9, W=2, 3 draws"))
        L.append(eq("chal", p, H, "T", 4, dict(W=1), rm=XOF, tag="_T", b="real T, W=1, 2 draws"))
        L.append(eq("tree", p, S + "+" + H, "NUM_NODES_OF_SEED_TREE*SEED_LENGTH_BYTES", 16 * 64, dict(T=9), rm=XOF, b="T=9"))
        n = "real size, fixed positions, every entry and coefficient"
        L.append(eq("monmul", p, "K*N+3*N", "K*N", fixed=11, mod127=True, b=n, memlimit_gb=12, slots=2))
        L.append(eq("applyact", p, "K*N+3*K", "K*N", fixed=11, mod127=True, b=n, memlimit_gb=12, slots=2))
        for f in (1, 4):
            L.append(eq("lexmin", p, "K+4", "K*NK", fixed=f, tag="_%d" % f, b="real size, first nonzero entry in row %d" % (f - 1)))
        L.append(eq("lexmin", p, "K+4", "K*NK", fixed="(K)", tag="_last", b="real size, first nonzero entry in the last row"))
        L.append(eq("lexmin", p, "K+4", "K*NK", fixed="(K+1)", tag="_zero", b="real size, zero column"))
        L.append(eq("rref", p, "K*N", "1+N+K*N", ov=dict(N=60, K=30), mod127=True, b="N=60, K=30; first K columns fixed, all others symbolic", memlimit_gb=12))
        L.append(eq("packmat", p, "K*N+N", "RREF_MAT_PACKEDBYTES", ov=dict(N=20, K=10), b="N=20, K=10"))
        L.append(eq("unpackmat", p, "RREF_MAT_PACKEDBYTES", "1+K*N", ov=dict(N=12, K=6), b="N=12, K=6"))
        L.append(eq("inv", p, "3*N", "3*N", fixed=11, b="real size, fixed positions, every coefficient"))
        L.append(eq("mul", p, "6*N", "3*N", fixed=11, mod127=True, b="real size, fixed positions, every coefficient"))
        L.append(eq("compose", p, "3*N+3*K", "3*K", fixed=11, mod127=True, b="real size, fixed positions, every coefficient"))
        TT = "NUM_NODES_OF_SEED_TREE*SEED_LENGTH_BYTES"
        L.append(eq("path", p, TT + "+T", "2+T*SEED_LENGTH_BYTES", 0, dict(T=5), b="T=5, all challenges"))
        L.append(eq("rebuild", p, TT + "+" + H + "+T", "2+T*SEED_LENGTH_BYTES", 16 * 64, dict(T=5), rm=XOF, b="T=5, all challenges"))
    return L
