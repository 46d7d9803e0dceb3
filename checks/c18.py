from common import *
LEVEL = "model_checking"
TECHNIQUE = "symbolic execution of the LLVM IR of the signing API (symx) with exactly sized buffers, decided by z3"
LEVEL_NOTE = "The signing interface itself at real sizes, over arbitrary key, message, signature bytes, seed counts and selected lengths."
ASSUMPTIONS = ["frame cases: LESS_keygen, LESS_sign and LESS_verify are replaced by arbitrary results; C15, C16 and C19 decide what the real ones do", IDEAL_NOTE]
CUT = ["LESS_keygen", "LESS_sign", "LESS_verify", "LESS_verify_announced"]
def instances(tier):
    L = []
    for i in BOTH:
        for p in ALL if tier == "thorough" else ONE_PER_CAT:
            for m in (0, 5) if tier == "quick" else (0, 1, 5, 64):
                L.append(Instance("sign%d" % m, "frame.c", i, p, d=dict(MLEN=m), remove=CUT, engine="symx", qtimeout=30,
                                  bounds="real sizes, message of %d bytes, every number of published seeds" % m, what="signing frame"))
            L.append(Instance("sign_any_length", "frame_len.c", i, p, ov=dict(memcpy="vc_memcpy", memmove="vc_memmove"), remove=["LESS_sign"], srcs=["sign.c"], engine="symx", qtimeout=30,
                              bounds="every message length below 2^40", what="signing frame for a symbolic length"))
            lens = ["0", "1", "BYTES(0)-1", "BYTES(0)", "BYTES(0)+1", "BYTES(1)+3", "BYTES(MAXN)-1", "BYTES(MAXN)", "BYTES(MAXN)+7"]
            if tier == "thorough":
                lens += ["BYTES(0)/2", "BYTES(2)-1", "BYTES(MAXN/2)+1", "BYTES(MAXN)+300", "BYTES(255)", "BYTES(256)+9"]
            L.append(Instance("open", "frame.c", i, p, d=dict(OPEN=1, LENS=",".join(lens)), remove=CUT, engine="symx", qtimeout=30, timeout=600,
                              bounds="real sizes, lengths %s, announced counts 0, 1, 2, MAX/2, MAX-1, MAX and every larger byte" % " ".join(lens), what="opening frame"))
            L.append(proto("miscount", ["MISCOUNT"], i, p, what="announced seed count must be the required one"))
        for p in ("1B", "1S") if tier == "quick" else ALL:
            L.append(proto("miscount_real", ["MISCOUNT"], i, p, positions=[spread(p), tail(p)], what="announced seed count must be the required one"))
    return L
