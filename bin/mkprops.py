#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for ids, titles and statements)."""
import json, os
R = "Reference_Implementation/"; O = "Optimized_Implementation/common/"; A = "Optimized_Implementation/avx2/"
def both(*fs): return [R + f for f in fs] + [O + f for f in fs]
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

prop("C01", "Arithmetic modulo 127 is exact and canonical for all operands",
 "Every multiplication, reduction and inversion over the prime field with 127 elements, scalar and vectorised, in both implementations returns the mathematically exact result in canonical form 0..126 for every operand the scheme can produce, including zero and the largest operands. A column scaled by a monomial coefficient is the element-wise product for every column position of every parameter set.",
 ["inputs", "configurations"], "all operand pairs, every vector lane and column position, both implementations",
 "The tests multiply a few random matrices and never compare with independently computed products; a wrong value for one rare operand (0x7f as zero, 126*126) is consistent on both sides of sign/verify or simply not sampled.",
 both("include/fq_arith.h", "lib/codes.c") + [A + "include/macro.h"],
 [("scalar reduction, inversion by Fermat exponentiation", R + "include/fq_arith.h"), ("vector multiplication and 8/16-bit reductions", A + "include/macro.h")],
 ["entries of generator matrices after scaling by a monomial"])
prop("C02", "Hash functions compute FIPS 202 exactly",
 "The permutation is Keccak-f[1600] on every 1600-bit state, and SHAKE128, SHAKE256, SHA3-256, SHA3-384 and SHA3-512 apply it with the FIPS 202 rates, padding and domain bytes for every message and every output length. The hash and the extendable-output function selected for each security category are the ones the specification prescribes.",
 ["inputs", "configurations"], "all states; all message contents, message lengths and output lengths",
 "There is no known-answer test in the suite: every test uses the hash on both sides, so any self-consistent change of the permutation, padding or rate passes.",
 both("lib/keccakf1600.c", "lib/fips202.c", "include/fips202.h", "include/sha3.h"),
 [("24-round permutation", R + "lib/keccakf1600.c"), ("sponge absorb, pad and squeeze", R + "lib/fips202.c")],
 ["digest bytes, XOF output bytes"])
prop("C03", "Incremental hashing does not depend on how data is chunked",
 "Absorbing a message in any sequence of pieces and squeezing the output in any sequence of reads gives the same bytes as absorbing it and reading it at once, for every split, including empty pieces and pieces that end exactly on a block boundary. One-shot and incremental interfaces of the same function agree on every input.",
 ["inputs", "histories"], "all chunkings of the input, all read patterns of the output, all lengths around block boundaries",
 "Tests call the hash with the same fixed chunk sizes for signing and verification, so the result only has to be self-consistent.",
 both("lib/fips202.c", "include/rng.h", "include/sha3.h"),
 [("count of absorbed/unread bytes carried in the state", R + "lib/fips202.c")], ["digest bytes, XOF output bytes"],
 [("position word", "bytes absorbed since, or left unread from, the last permutation", R + "lib/fips202.c")])
prop("C04", "Field elements and the public code are sampled exactly from the stream",
 "Random field elements are exactly the in-range groups of bits of the random stream, in stream order and with every out-of-range group rejected, so results are always canonical, nonzero where required, and uniform given a uniform stream. The public generator matrix expanded from a seed is the systematic matrix whose non-identity part is that sample, the same in both implementations.",
 ["inputs", "histories"], "all stream contents including runs of rejections and any number of requested elements",
 "Sampling feeds both parties, so biased, misordered or out-of-range samples remain consistent in sign/verify tests; rejection runs are rare.",
 both("include/fq_arith.h", "lib/codes.c"),
 [("masked bit groups with rejection", R + "include/fq_arith.h"), ("systematic-form expansion", R + "lib/codes.c")],
 ["expanded matrix entries and column positions"])
prop("C05", "Expanded monomials are valid and bound to seed, salt and round",
 "Every monomial matrix expanded from a seed has nonzero canonical coefficients and a permutation that hits each position exactly once, computed by the specified shuffle of the stream. An ephemeral monomial is a function of exactly its seed, the salt and its full round index, and a private monomial of exactly its private seed, so different rounds or salts never share their stream.",
 ["inputs", "configurations"], "all stream contents, all seeds, salts and round indices, all parameter sets",
 "A non-uniform or truncated index, or a shuffle missing a position, still gives matching signer and verifier results.",
 both("lib/monomial.c"),
 [("salted seed expansion", R + "lib/monomial.c"), ("Fisher-Yates shuffle", R + "lib/monomial.c")],
 ["coefficients and permutation of the expanded monomial; bytes fed to the XOF"])
prop("C06", "The challenge is a fixed-weight string determined by the whole digest",
 "For every digest the expanded challenge has exactly W nonzero entries among T, each nonzero entry names an existing key pair, and it is the result of the specified rejection sampling on the stream seeded by the entire digest. Challenge expansion always leaves every position and key index reachable.",
 ["inputs", "configurations"], "all stream contents, all parameter sets",
 "Tests derive the challenge on both sides with the same code; an unreachable position, an out-of-range key index or ignored digest bytes never fails them.",
 both("lib/utils.c", "include/utils.h"),
 [("rejection sampling of position and key index", R + "lib/utils.c")], ["challenge string"])
prop("C07", "Seed tree: verifier recovers exactly the unchallenged leaves",
 "For every challenge pattern the published seeds let the verifier recompute every unchallenged round seed exactly as the signer had it, publisher and rebuilder agree on the number and order of the seeds used, and no published seed is a challenged leaf or an ancestor of one. Each node's children depend on that node's seed and the salt only.",
 ["inputs", "configurations"], "all challenge patterns over all T rounds, all seeds and salts, all parameter sets",
 "Random challenges sample a negligible part of the pattern space and never test secrecy of challenged leaves.",
 both("lib/seedtree.c", "include/seedtree.h"),
 [("flag tree marking nodes with a challenged descendant", R + "lib/seedtree.c"), ("path extraction and rebuild", R + "lib/seedtree.c")],
 ["published seed sequence, rebuilt leaves"])
prop("C08", "The published seeds always fit the declared signature size",
 "For every challenge of the parameter set's weight, the number of published seeds never exceeds the declared maximum, so a signature always fits its declared maximum size, and a signature publishing any number of seeds up to that maximum is accepted. The seed count stored in one byte is never truncated.",
 ["inputs", "configurations"], "all weight-W challenge patterns, each parameter set",
 "The worst case is a measure-zero set of challenge patterns that random signing never produces.",
 both("lib/seedtree.c", "lib/sign.c", "lib/LESS.c", "include/parameters.h", "include/LESS.h") + ["Utilities/Parameter_Generation_Scripts/seed_tree_param_computer.py"],
 [("per-set seed tree bound", R + "include/parameters.h"), ("bound check when opening", R + "lib/sign.c")],
 ["signature length, acceptance of boundary-size signatures"])
prop("C09", "Encoding of the response matrices round-trips at every position",
 "Decoding the encoding of any valid monomial action returns exactly that action for every permutation index and coefficient at every position, the encoding occupies exactly its declared number of bytes, and every byte is determined by the action alone.",
 ["inputs", "configurations"], "all actions (all K positions, all index and coefficient values), all parameter sets, any previous buffer contents",
 "Tests encode a few random actions; a bit lost at one position for one rare value needs that value at that position.",
 both("lib/monomial.c", "include/parameters.h"),
 [("bit packing of permutation and coefficients", R + "lib/monomial.c")], ["encoded bytes, decoded action"])
prop("C10", "Encoding of public matrices round-trips for every pivot pattern",
 "Decoding the encoding of any matrix in reduced echelon form returns exactly that matrix, whatever the pivot positions and entries, the encoding occupies exactly its declared size with every data bit determined by the matrix, and the compact and full representations convert into each other without loss.",
 ["inputs", "configurations"], "all pivot patterns and all entries at every position, all parameter sets, any previous buffer contents",
 "Random matrices almost always have the first K columns as pivots, so other pivot patterns are essentially never tested.",
 both("lib/codes.c", "include/parameters.h"),
 [("pivot flags and 7-bit packing", R + "lib/codes.c"), ("compact form with column positions", R + "lib/codes.c")],
 ["encoded bytes, decoded matrix"])
prop("C11", "Monomials form a group acting faithfully on codes",
 "For all monomials, multiplication, inverse and identity satisfy the group laws, the product of two monomials acts on a matrix as the two actions in sequence, and composing a response action with a secret monomial selects the same columns with the same scalings as acting with both in sequence. Every column of the matrix is moved and scaled as the monomial says.",
 ["inputs", "configurations"], "all permutations and coefficients up to the stated sizes, all matrices",
 "Tests check a handful of random triples at one size and not the composition of compressed actions.",
 both("lib/monomial.c", "lib/codes.c"),
 [("product, inverse, composition", R + "lib/monomial.c"), ("column scaling and placement", R + "lib/codes.c")],
 ["permutation and coefficients; matrix columns"])
prop("C12", "Row reduction yields the unique reduced echelon form",
 "For every matrix with canonical entries, row reduction succeeds exactly when the matrix has full rank, and then returns the unique reduced row-echelon form spanning the same code together with the exact set of pivot columns. The result does not depend on the basis chosen for the code.",
 ["inputs", "configurations"], "all matrices up to the stated dimensions, including rank-deficient ones and those whose pivots are not the first columns",
 "Random matrices have their first K columns invertible with overwhelming probability: row swaps, skipped columns and failures are hardly exercised.",
 both("lib/codes.c") + [A + "include/macro.h"],
 [("Gauss-Jordan elimination", R + "lib/codes.c"), ("table-driven vector elimination", O + "lib/codes.c")],
 ["reduced matrix, pivot flags, return value"])
prop("C13", "Commitment columns are put in a unique canonical order and scaling",
 "Each non-pivot column is scaled so that its first nonzero entry is one, with an all-zero column left unchanged, and the columns are sorted into lexicographic order as a permutation of the originals. Two matrices whose columns agree up to nonzero scaling and order therefore give identical commitment data.",
 ["inputs"], "all column contents including equal, zero and late-differing columns, all orders, up to the stated sizes",
 "Random columns differ in the first entries and are never equal or zero, so ties and late differences are untested.",
 both("lib/codes.c"),
 [("lexicographic minimisation", R + "lib/codes.c"), ("quicksort on columns", R + "lib/codes.c")],
 ["data absorbed into the signature digest"])
prop("C14", "Signer and verifier derive the same commitment for every secret",
 "For every public code, secret monomial and ephemeral monomial, the commitment data the signer computes from the public code equals what the verifier computes from the public key and the encoded response, whenever the public key is the one belonging to that secret. The verifier's response check accepts every response an honest signer can produce.",
 ["inputs"], "all codes, secret and ephemeral monomials up to the stated sizes, including codes whose information set is not the first columns",
 "Tests sample random instances, where pivots are nearly always the first columns and degenerate columns do not occur.",
 both("lib/codes.c", "lib/monomial.c", "lib/LESS.c"),
 [("signer side commitment", R + "lib/codes.c"), ("verifier side action and reduction", R + "lib/LESS.c")],
 ["data absorbed into the digest on both sides"])
prop("C15", "Every honestly generated signature verifies",
 "For every key pair, message of any length, and randomness, and every challenge the digest can produce, verification of the signature under the matching public key accepts, with the signer and the verifier absorbing the same per-round data in the same order followed by the same message and salt. The signature contains one response per challenged round and the seeds for all others, and nothing else derived from secrets.",
 ["inputs", "histories", "configurations"], "all challenge patterns, messages and randomness, every parameter set's round count",
 "Tests sign a few random messages of one length: specific challenge patterns, round indices beyond a byte and other message lengths are not covered.",
 both("lib/LESS.c", "lib/sign.c"),
 [("signing loop", R + "lib/LESS.c"), ("verification loop", R + "lib/LESS.c")], ["verification result; transcript absorbed by the hash"])
prop("C16", "Verification accepts only if the recomputed digest matches in full",
 "Verification accepts exactly when the digest recomputed from the message, the salt and all T rounds in order equals the signature's digest in every byte. Every byte of the message, the salt, the digest, every response, every used seed and the public key enters what is hashed or compared, for every round.",
 ["inputs", "configurations"], "all messages, signatures and keys; every round, every byte of the digest and message",
 "The tests only verify valid signatures; a verifier that skips a round, truncates the comparison or ignores the message passes them.",
 both("lib/LESS.c", "lib/sign.c"),
 [("recomputation of the transcript", R + "lib/LESS.c"), ("full-length comparison", R + "lib/LESS.c")], ["verification result; transcript absorbed by the hash"])
prop("C17", "Malformed responses are never accepted",
 "A response is treated as valid exactly when every coefficient is a nonzero field element, every column index names an existing column, and no column is named twice; a signature containing any other response in any challenged round is rejected. Well-formed responses are never refused.",
 ["inputs", "configurations"], "all decoded response values at every position, all parameter sets",
 "No test feeds an invalid response to the verifier.",
 both("lib/monomial.c", "lib/LESS.c"),
 [("validity predicate", R + "lib/monomial.c"), ("early rejection", R + "lib/LESS.c")], ["predicate result; verification result"])
prop("C18", "The signing API frames messages and signatures exactly",
 "Signing outputs the message followed by a signature whose length is determined by the number of published seeds, never writing beyond the reported length's maximum, and opening returns exactly that message and its length and reports success exactly when verification of precisely those bytes succeeds. Input that is too short, or whose announced seed count is not the one its challenge requires, is rejected without reading or writing outside the buffers.",
 ["inputs", "configurations"], "all message lengths and contents, all received byte strings of any length, all announced seed counts",
 "Tests only open signatures they just produced with one message length.",
 both("lib/sign.c", "lib/LESS.c", "include/api.h", "include/LESS.h"),
 [("length computation and copying", R + "lib/sign.c")], ["sm, smlen, m, mlen, return value"])
prop("C19", "Key generation publishes exactly the secret's codes",
 "For every randomness, the public key consists of the public code's seed and, for each secret monomial, the encoded reduced form of the public code acted on by that monomial, so that signing with the secret key re-derives the same secrets. Secret and public values come from separate fresh random draws, and the public key depends on the secret only through those codes.",
 ["inputs", "configurations"], "all randomness, every key pair index of every parameter set",
 "Tests use the key pair end to end; wrong but consistent derivations, or re-use of one random draw, pass.",
 both("lib/LESS.c"),
 [("key generation loop", R + "lib/LESS.c")], ["public and secret key bytes; bytes drawn from the random source"])
prop("C20", "Processing arbitrary keys and signatures is memory-safe and terminates",
 "For every byte string offered as a signed message or public key, opening terminates and never accesses memory outside its inputs, outputs and own storage. Every parsing and reduction step is safe on any value the decoders can produce.",
 ["inputs", "configurations"], "all decoded matrices and actions, all seed counts, all lengths",
 "Tests only use well-formed keys and signatures; malformed ones drive the decoders and loops outside the ranges honest data reach.",
 both("lib/sign.c", "lib/LESS.c", "lib/codes.c", "lib/monomial.c", "lib/seedtree.c"),
 [("length and validity checks before use", R + "lib/sign.c"), ("loop bounds from the parameter set", R + "lib/codes.c")], ["memory accesses"])
prop("C21", "Reference and optimized implementations compute the same functions",
 "For every input, the reference and the optimized implementation produce identical results for scaling, row reduction, normalisation, encodings, sampling and challenge expansion, so that keys and signatures of one are valid and identical under the other.",
 ["inputs", "configurations"], "all canonical inputs up to the stated sizes",
 "No test compares the two implementations.",
 both("lib/codes.c", "lib/monomial.c", "include/fq_arith.h") + [A + "include/macro.h"],
 [("portable loops", R + "lib/codes.c"), ("vector kernels", O + "lib/codes.c")], ["outputs of corresponding operations"])
prop("C22", "The test-vector generator follows the NIST DRBG",
 "Given the block cipher, the deterministic generator used for known-answer files follows the CTR_DRBG specification for every seed, personalisation string and request length, with the 128-bit counter carrying across all its bytes, and the seed expander enforces its length limits and output order for every sequence of requests.",
 ["inputs", "histories"], "all states, counters (including carries), request lengths and sequences",
 "Counter carries across bytes need long runs; tests never compare with the NIST definition.",
 [R + "lib/nist/KAT_NIST_rng.c", O + "lib/nist/KAT_NIST_rng.c", "Utilities/KAT_Generation"],
 [("counter increment and update", "Utilities/KAT_Generation"), ("seed expander buffer", "Utilities/KAT_Generation")], ["generated bytes, return codes, state"])
prop("C23", "Hex files of known answers are parsed and printed faithfully",
 "The known-answer file helpers locate a marker only where it occurs, convert any even or odd number of hexadecimal digits of either case into the bytes they denote at the end of the target buffer, and print byte strings as the hexadecimal text that parses back to them, for every content and length.",
 ["inputs"], "all byte contents and lengths up to the stated bound, all file contents",
 "The tests read files they generated themselves with fixed lengths.",
 ["Utilities/KAT_Generation"],
 [("marker search, hex conversion", "Utilities/KAT_Generation")], ["parsed bytes, printed text"])
prop("C24", "The seed tree parameter tool reports the true worst case",
 "For every number of rounds and every challenge weight, the maximum number of published seeds reported by the parameter tool is at least the true maximum over all challenge patterns, so that sizes derived from it are never too small.",
 ["inputs", "configurations"], "all round counts and weights up to the stated bound",
 "The tool has no tests, and the maximum is over exponentially many patterns.",
 ["Utilities/Parameter_Generation_Scripts/seed_tree_param_computer.py", R + "include/parameters.h"],
 [("worst-case formula", "Utilities/Parameter_Generation_Scripts/seed_tree_param_computer.py")], ["reported size"])
prop("C25", "Outputs contain no stale memory and operations are repeatable",
 "Keys, signatures and verification results are functions of their arguments and the random source alone: no output byte within the reported length depends on earlier contents of memory, on previous calls, or on buffer contents supplied by the caller. Inputs such as keys, messages and signatures are left unchanged.",
 ["inputs", "histories"], "all previous memory contents, all inputs",
 "Tests run on freshly zeroed memory and never repeat an operation with different garbage in its buffers.",
 both("lib/LESS.c", "lib/sign.c", "lib/codes.c", "lib/monomial.c"),
 [("initialisation of locals and output buffers", R + "lib/LESS.c")], ["output bytes"])
prop("C26", "Benchmark statistics are accurate",
 "The benchmarking tools report the true mean and deviation of the measured cycle counts, for any measured sequence.",
 ["inputs"], "all measured sequences",
 "Reported figures are printed, not checked.",
 [R + "lib/bench", O + "lib/bench", "Utilities/Benchmarking"],
 [("Welford accumulation", "Utilities/Benchmarking")], ["printed statistics"])
prop("C27", "Secret-dependent comparison of digests takes constant time",
 "The final digest comparison and the normalisation of secret columns execute the same sequence of operations whatever the data.",
 ["inputs"], "all digests and columns of a given size",
 "Timing is not tested.",
 both("lib/LESS.c", "lib/codes.c"),
 [("branch-free accumulation", R + "lib/LESS.c")], ["sequence of executed branches and memory addresses"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
