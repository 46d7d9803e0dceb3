from common import *
LEVEL = "model_checking"
TECHNIQUE = "CBMC bounded model checking of the real encoder/decoder at full size (SAT)"
LEVEL_NOTE = ("For every action (all K coefficients < Q and all K positions < N symbolic) at the real sizes of all seven parameter "
              "sets and both implementations: decode(encode(a)) == a, no byte outside the declared length is written and every byte is "
              "determined by the action. Sizes are the real ones, so there is no bound beyond the parameter sets.")
ASSUMPTIONS = ["coefficients < Q and positions < N, which is what signing produces"]
def instances(tier):
    return [Instance("pack_action", "pack_action.c", impl=i, param=p, unwind=1000, timeout=200, validate=(p == "1B"),
                     what="encode/decode round-trip, in-bounds, no stale bits", bounds="real N, K; no reduction")
            for i in ("ref", "opt") for p in ALL]
