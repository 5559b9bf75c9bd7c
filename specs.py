"""Which harness binaries decide which property, and how they are built and run."""


import os
HERE = os.path.dirname(os.path.abspath(__file__))


def parts(name, src, n, **kw):
    return [dict(name=f"{name}{k}", src=src, defs=[f"PART={k}", f"PARTS={n}"] + kw.get("defs", []),
                 **{k2: v for k2, v in kw.items() if k2 != "defs"}) for k in range(n)]


def fuzz(prop, src, unit, part=None, n=None, seconds=90):
    """Coverage-guided search (libFuzzer): the bytes are the choices of one subproperty; a failure replays in the plain unit."""
    return dict(name=f"fuzz-{prop}" + ("" if part is None else f"-{part}"), src=src, cxx="clang++", optional=True, opt=["-O1"], omp=False, fuzz=True, prop=prop,
                flags=["-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all"], defs=["PBT_FUZZ"] + ([] if part is None else [f"PART={part}", f"PARTS={n}"]),
                runs={"quick": 0, "thorough": 100000000}, seconds={"quick": 0, "thorough": seconds}, replay_unit=unit, tiers=("thorough",))


def big(src):
    """A few cases on rings of the size of real deployments."""
    return [dict(name="big", src=src, defs=["BIG"], opt=["-O2"], omp=True, threads=2, shards=1)]


O2 = ["-O2"]
SPECS = {}

SPECS["C01"] = dict(
    rule="Sequences of 1-10 operations (+=, -=, *=, *=u64, negate, =, copy-construct, remove_clutter) on three residues modulo "
         "2^LOGQ for 252 values of LOGQ (1..200 and limb borders up to 3072), operands drawn from carry- and sign-shaped values, "
         "any register may be both operands; after each step all registers are compared with GMP. Non-trivial: a wrap modulo Q, "
         "a self-operand, or more than 3 steps; every ring-law triple.",
    units=parts("zq", "c01.cpp", 4, opt=O2, omp=False, shards=2)
          + [fuzz("zq_ops", "c01.cpp", f"zq{k}", k, 4) for k in range(4)],
)

SPECS["C02"] = dict(
    rule="One value per side for 438 (from, to) pairs of moduli (all pairs of 28 sizes 1..320 plus the sizes of the bootstrapping "
         "chain), drawn from sign-, limb-border- and rounding-shaped values (exact ties, one off a tie, wrap at the top), outputs "
         "pre-filled with garbage; resize, shift_left, shift_right, RS and mod_raise against GMP, on Z_Q, R_Q and R_Q_square. "
         "Non-trivial: both values non-zero (scalars); the two components differ (pairs).",
    units=parts("shift", "c02.cpp", 8, opt=O2, omp=False, shards=1)
          + [fuzz("zq_modulus_change", "c02.cpp", f"shift{k}", k, 8, 60) for k in range(8)],
)

SPECS["C03"] = dict(
    rule="Values of 200 sizes LOGQ = 1..136 and up to 2900 bits, sign-, limb- and power-of-ten-shaped, with leading zeros in the "
         "text; fr_str, to_str, what print_* writes to stdout, is_bigger_than_halfQ, max_valid_digit (non-negative values) and "
         "operator double against GMP. Non-trivial: text of two or more digits; numbers that are negative or longer than 53 bits.",
    units=parts("conv", "c03.cpp", 4, opt=O2, omp=False, shards=2)
          + [fuzz(p, "c03.cpp", f"conv{k}", k, 4, 45) for k in range(4) for p in ("zq_text", "zq_numbers")],
)

SPECS["C04"] = dict(
    rule="Operands drawn from word borders, multiples of the modulus and random words (reduced and unreduced), moduli 2..2^64-1; "
         "mod, mul_, add_mod, sub_mod, mul_mod, pow_mod, inv_mod (prime moduli), bitReverse, log against GMP; all operand pairs "
         "below 2q for q = 2..61. Non-trivial: operands (exponents) above 1; a word that its reversal changes.",
    units=[dict(name="mod", src="c04.cpp", opt=O2, omp=False, shards=8)]
          + [fuzz(p, "c04.cpp", "mod") for p in ("mod_ops", "pow_mod", "inv_mod")],
)
SPECS["C05"] = dict(
    rule="50 (L, LOGQ) shapes with L = 1..97 distinct primes of 12..64 bits drawn anew, three values and three residue vectors each "
         "(multiples of a modulus, around 0 and half the product, residues equal to q, unreduced residues); icrt and crt against "
         "GMP. Non-trivial: value and residue vector both non-zero.",
    units=parts("crt", "c05.cpp", 4, opt=O2, omp=False, shards=2)
          + [fuzz("crt", "c05.cpp", f"crt{k}", k, 4) for k in range(4)],
)
SPECS["C06"] = dict(
    rule="Transform sizes N = 2..2^17, a prime q = 1 mod 2N of N+2..64 bits drawn anew (or one of the library's), two vectors "
         "(monomials, all q-1, reduced, and words above q); ntt outputs against evaluation at the points read off ntt(X), intt "
         "against ntt in both orders, products against the negacyclic schoolbook sum (all coefficients for N <= 64, 6 random "
         "ones above). Non-trivial: a has two or more non-zero coefficients.",
    units=[dict(name="ntt", src="c06.cpp", opt=O2, omp=False, shards=8)]
          + [fuzz("ntt", "c06.cpp", "ntt", seconds=240)],
)
SPECS["C07"] = dict(
    rule="73 (LOGQ, N) shapes, LOGQ = 1..2900, N = 2..2^17, operands monomial, sparse, constant, dense, limb-shaped or of largest "
         "magnitude; ring product (also of an operand with itself), ternary product, pair times polynomial, integer product, "
         "each against GMP convolution (all coefficients for N <= 64, 8-15 above, the ternary product everywhere against the "
         "ring product), run with two OpenMP threads. Non-trivial: more than one non-zero coefficient on some side.",
    units=parts("prod", "c07.cpp", 8, opt=O2, omp=True, threads=2, shards=1),
)
SPECS["C08"] = dict(
    rule="Sequences of 1-8 operations (+=, -=, *= word, =, copy-construct, setzero, addition between components) on three polynomials "
         "or three pairs, 34 (LOGQ, N) shapes, any register may be both operands; all registers are compared with a list-of-integers "
         "model after every step. Non-trivial: more than one step (pairs: and the two components differ).",
    units=parts("module", "c08.cpp", 4, opt=O2, omp=False, shards=2),
)
SPECS["C09"] = dict(
    rule="Ring sizes 2^2..2^17; vectors zero, single, constant, largest, sparse, of wide dynamic range or dense, magnitudes 2^-60..2^60; "
         "fft, ifft, dft, idft and the versions without reordering against direct evaluation in long double (all slots up to N = 512, "
         "9 above), both compositions everywhere, and random columns of the product of the sparse layers. Non-trivial: two or more "
         "non-zero inputs; a column other than 0.",
    units=[dict(name="dft", src="c09.cpp", opt=O2, omp=False, shards=8)],
)
SPECS["C10"] = dict(
    rule="31 (LOGQ, ring size) shapes, LOGQ = 8..2900, ring 2^2..2^16, scales 1..2^62 (powers of two and not), slots zero, single, "
         "constant, largest, sparse, wide-range, dense, bounded so that scaled coefficients fit the word and the modulus; encode "
         "against rounding of the inverse embedding (long double), decode and decode_log of arbitrary residues below 2^990 against "
         "evaluation, round trip within N/2 rounding units, sums, differences and products of encodings. Non-trivial: two or more "
         "non-zero coefficients; every product.",
    units=parts("codec", "c10.cpp", 8, opt=O2, omp=False, shards=1),
)
SPECS["C11"] = dict(
    rule="Matrices of 16 (N, S) shapes with integer or quarter entries (every sum exact), offsets consecutive, random, symmetric or "
         "repeated, diagonals marked zero, unmarked zero, sparse or full; sequences of 1-8 operations (set_element, +=, -=, *=, "
         "transpose, negate, =) on three matrices, real and complex products, dense product, RemoveClutter, all matrix-vector forms "
         "against dense arithmetic; zero marks must be sound. Non-trivial: more than one step; every product.",
    units=[dict(name="diag", src="c11.cpp", opt=O2, omp=False, shards=8)]
          + [fuzz("diagonals", "c11.cpp", "diag", seconds=240)],
)
SPECS["C12"] = dict(
    rule="25 (LOGQ, ring size) shapes up to 2^16, rotation amounts 0, near the number of slots, beyond a full turn and random; rot and "
         "conj on polynomials and on integer keys against substitution of X^(5^r) and X^-1, composition, outputs pre-filled with "
         "garbage; rotated and conjugated slots; products. Non-trivial: non-zero polynomial and an amount that is no full turn; "
         "every product.",
    units=parts("auto", "c12.cpp", 4, opt=O2, omp=False, shards=2),
)
SPECS["C14"] = dict(
    rule="28 (LOGQ, ring size) shapes, keys of weight 0..N, plaintexts of every shape of C07; keygen weight and entries; fresh "
         "ciphertexts and arbitrary ones decrypted by the library and by the schoolbook sum; noise of each coefficient at most 8; "
         "messages at scales 2^1..2^60 come back within 8.5 N / scale. Non-trivial: key and plaintext both non-zero.",
    units=parts("enc", "c14.cpp", 8, opt=O2, omp=True, threads=2, shards=1),
)
SPECS["C16"] = dict(
    rule="28 (LOGQ, ring size) shapes of rings 2^2..2^8 and three of 2^11..2^13, LOGQ = 20..1450, keys of weight 0..64 (sources of coefficients up to 40 too), arbitrary "
         "ciphertexts; switching, rotation, conjugation and relinearisation keys decrypt to their source with noise at most 8; "
         "ks, rot_ct, conj and Mul (also of a ciphertext with itself) agree with the schoolbook decryption up to the noise of the "
         "key in use and one rounding per component. Non-trivial: key and second component non-zero, amount no full turn.",
    units=parts("switch", "c16.cpp", 8, opt=O2, omp=True, threads=2, shards=1) + big("c16.cpp"),
)
SPECS["C18"] = dict(
    rule="15 (LOGQ, ring size, scale, diagonals) shapes of rings 2^2..2^8 and three of 2^10..2^13, scales 2^20..2^60; diagonals zero and marked, one part marked, "
         "repeated offsets, offset 0, largest entries; ciphertexts with generated masks of small plaintexts, keys of weight 0..40; transforms with "
         "generated and with given keys, dense, serial (1-4 layers) and grouped by 1-4, compared slot by slot in long double with a worst-case "
         "bound. Non-trivial: the largest slot is more than 16 times the error bound.",
    units=parts("lt", "c18.cpp", 8, opt=["-O1"], omp=True, threads=2, shards=1) + parts("dense", "c18.cpp", 4, opt=["-O1"], defs=["DENSE"], omp=True, threads=2, shards=1, must_build=True) + big("c18.cpp"),
)
SPECS["C13"] = dict(
    rule="14 (LOGQ, ring size, diagonals) shapes of rings 2^2..2^9 and three of 2^11..2^15, scales 1..2^60 (powers of two and not), plaintexts of any size that fits; products with "
         "message diagonals and with sparse matrices (any offsets, marked and repeated diagonals) against the slotwise map within the rounding "
         "of the diagonals; root mean square error of random products within 0.6..1.5 of the predicted law. Non-trivial: the largest slot is more "
         "than 16 times the error bound; every statistical case.",
    units=parts("ptmat", "c13.cpp", 4, opt=["-O1"], omp=False, shards=2) + big("c13.cpp"),
)
SPECS["C19"] = dict(
    rule="20 (degree, LOGQ, ring size, scale) shapes of rings 2^2..2^8 and three of 2^11..2^14, degrees 3..127, scales 2^30..2^60; coefficient vectors of either sign, zero, single, largest, sparse, dense, "
         "converted from a Chebyshev series or drawn directly; real slots in [-1,1] and small complex ones, keys of weight 0..24; every slot against the series in "
         "long double with a worst-case error recursion; basis conversion for 4..512 coefficients at 6 points. Non-trivial: a slot value above 16 times its error bound; "
         "two or more non-zero coefficients.",
    units=parts("poly", "c19.cpp", 10, opt=["-O1"], omp=True, threads=2, shards=1) + big("c19.cpp"),
)
SPECS["C20"] = dict(
    rule="8 (LOGQ, ring size, scale) shapes of rings 2^2..2^5 and two of 2^8 and 2^10, scales 2^40..2^60, keys of weight 0..16; slots I + deviation with I all zero, "
         "all at one end, at both ends or spread over -23..23, deviations up to 2^-3..2^-26 zero, single, constant, largest, sparse, wide-range or dense; keys generated "
         "or given; every slot against its distance to the nearest integer within the error of the sine and arcsine series and a worst-case noise "
         "recursion. Non-trivial: a deviation above 8 times the bound.",
    units=parts("evalmod", "c20.cpp", 8, opt=["-O1"], omp=True, threads=2, shards=1) + big("c20.cpp"),
)
SPECS["C21"] = dict(
    rule="17 (LOGQ, ring size, matrix scale, grouping) shapes of rings 2^2..2^9 and two of 2^10 and 2^11, groupings 1-4, scales 2^20..2^60; plaintexts of every "
         "polynomial shape up to 64 bits, generated masks, keys of weight 0..40; coefficients to slots (both halves), slots to coefficients (complex slots, "
         "also of the same ciphertext twice) and the round trip, slot by slot with a worst-case bound that does not depend on the layers' order. Non-trivial: "
         "the largest slot is more than 16 times the error bound.",
    units=parts("slots", "c21.cpp", 9, opt=["-O1"], omp=True, threads=2, shards=1) + big("c21.cpp"),
)
SPECS["C15"] = dict(
    rule="20 (LOGQ, ring size) shapes, LOGQ = 5..850, rings 2^3..2^11 (switching keys 10..1700), batches of 40 to 2000 calls: the same message again and again, encryptions, switching keys and "
         "key generation in generated orders, keys of any weight; every bit position, coefficient, call, pair of neighbouring bits, coefficients and calls, both components, "
         "signs, magnitudes and correlations of the noise, positions and signs of keys within 8 standard deviations; full limbs never repeat. Non-trivial: at least 3000 sampled coefficients, or keys.",
    units=parts("random", "c15.cpp", 8, opt=["-O2"], omp=False, shards=1),
)
SPECS["C17"] = dict(
    rule="13 chains of two to four moduli (32..1450 bits, steps equal and uneven, rings 2^2..2^12), three registers per level; sequences of 3-14 generated operations: encryption, sum, "
         "difference, product (also squares), product with plaintexts and integers, rotation, conjugation, rescaling and smaller modulus over one or two levels, outputs that overwrite older "
         "registers or operands; after every operation the decryption equals the exact plaintext polynomial within the accumulated bound, operands unchanged; at the end all registers, and "
         "decoded slots against slotwise complex arithmetic. Non-trivial: a register after at least one product whose slots are above 16 times the bound.",
    units=parts("circuit", "c17.cpp", 13, opt=["-O1"], omp=True, threads=1, shards=1),
)
SPECS["C22"] = dict(
    rule="26 (old LOGQ, new LOGQ, ring size) shapes, 10..1450 bits, moduli on both sides of limb borders, rings 2^2..2^12, keys of weight 0..N; fresh and arbitrary ciphertexts and ones "
         "aligned with the key so that the multiple of the old modulus is as large as it gets; schoolbook decryption before and after, congruence and bound, output pre-filled with garbage. "
         "Non-trivial: key and second component non-zero.",
    units=parts("raise", "c22.cpp", 4, opt=["-O1"], omp=True, threads=2, shards=2),
)
SPECS["C23"] = dict(
    rule="11 (ring size, grouping, LOGq, matrix scales, final modulus) shapes, rings 2^2..2^9, LOGq = 50..60, CoeffToSlot at 50..60 bits, StC at 30..55 bits, LOGQ up to 1450; messages at scale 2^(LOGq-14)..2^(LOGq-9), "
         "plaintext polynomials of every shape, ciphertexts aligned with the key so that the multiple of q is as large as it gets, keys of weight 0..42; the whole chain from raising the modulus "
         "on, result against the old plaintext within the worst-case error of all parts, and decoded. Non-trivial: a multiple of q was removed and the largest slot is above 16 times the bound.",
    units=parts("boot", "c23.cpp", 11, opt=["-O1"], defs=[], omp=True, threads=2, shards=1),
)
SPECS["C24"] = dict(
    rule="11 (ring size, grouping, LOGq, matrix scales, final modulus) shapes, rings 2^2..2^9, LOGq = 50..60, CoeffToSlot matrices at 20..50 bits, StC at 50..60 bits, LOGQ up to 1450; messages at scale 2^(LOGq-14)..2^(LOGq-9), "
         "plaintext polynomials of every shape, ciphertexts aligned with the key so that the multiple of q is as large as it gets, keys of weight 0..42; the whole chain from raising the modulus "
         "on, result against the old plaintext within the worst-case error of all parts, and decoded. Non-trivial: a multiple of q was removed and the largest slot is above 16 times the bound.",
    units=parts("bootround", "c23.cpp", 11, opt=["-O1"], defs=['EVALROUND'], omp=True, threads=2, shards=1),
)
SPECS["C27"] = dict(
    rule="rings 2^2..2^14, magnitudes 2^-30..2^30, scales 1..2^61 (powers of two and not), entries zero, single, constant, largest, sparse, wide-range, dense, integer; messages: sum, "
         "difference, product, norms, aggregation; plaintexts: sum, difference, negacyclic product, norms, rotations up to several turns; encoding with and without rounding, also against the exact "
         "ring, decoding; slotwise products and rotations; long double references, operands unchanged, outputs pre-filled. Non-trivial: operands not zero.",
    units=[dict(name="model", src="c27.cpp", opt=["-O1"], omp=False, shards=8)],
)
SPECS["C28"] = dict(
    rule="8 (LOGQ, ring size) shapes, LOGQ = 60..850, rings 2^5..2^9, and 6 shapes of CoeffToSlot and SlotToCoeff (rings 2^4..2^9, groupings 1-4); random messages, plaintexts, ciphertexts and keys of generated "
         "weight, batches of about 400 to 4000 errors: rounding in encoding (exact ring and floating-point model), its product with 1-6 rotated plaintexts, products with a random matrix, rescaling, fresh noise, "
         "switching, rotation, conjugation, relinearisation, the multiple of q after raising the modulus, the largest coefficient, the two linear transforms of bootstrapping. Root mean square within sampling error "
         "(8 standard deviations) of the predicted one, or not above it where the prediction is an upper estimate; mean zero. Non-trivial: every case.",
    units=parts("laws", "c28.cpp", 7, opt=["-O1"], omp=True, threads=1, shards=1),
)


def program(name, path, define, **kw):
    """A program of /repo/src/experiment inside the harness; optional, because a tree may reorganise its programs."""
    repo = os.environ.get("EVALROUND_REPO", "/repo")
    return dict(name=name, src="c29.cpp", opt=kw.pop("opt", ["-O1"]), omp=True, threads=2, shards=kw.pop("shards", 1), optional=True, defs=[f'PROG="{repo}/src/experiment/{path}"', define], **kw)


SPECS["C23"]["units"].append(program("program-conventional", "section4/proposal.cpp", "PROPOSAL=1", shards=4))
SPECS["C24"]["units"].append(program("program-proposed", "section4/proposal.cpp", "PROPOSAL=2", shards=4))
SPECS["C29"] = dict(
    rule="The ten programs of src/experiment, compiled into the harness, run on shapes (rings 2^3..2^12, groupings 1-6, matrix scales 2^22..2^60) and seeds of the generator's choice; each printed number against an independent "
         "formula (constants, expected values, bounds, modulus consumed) or, where it is a measurement, recomputed exactly from what the program encoded and decoded and within sampling error of the law or below the bound it illustrates; the set-up functions (messages, matrices, largest error) against "
         "their definitions and, for random ones, the uniform distribution within 8 standard deviations. Non-trivial: every case.",
    units=[dict(name="setup", src="c29.cpp", opt=["-O1"], omp=True, shards=2),
           program("lemma1", "section3/lemma_conv_error.cpp", "LEMMA=1"), program("lemma2", "section3/lemma_conv_sum_error.cpp", "LEMMA=2"),
           program("single", "section3/theorem_single_matmul_error.cpp", "SINGLE", shards=2), program("serial", "section3/theorem_serial_matmul_error.cpp", "SERIAL", shards=2),
           program("cts", "section3/theorem_cts_error.cpp", "CTS", shards=3), program("supnorm", "section4/example_sup_norm.cpp", "SUP", shards=3), program("design", "section4/design_delta_tilde.cpp", "DESIGN"),
           program("lattigo", "section4/design_delta_tilde_lattigo.cpp", "LATTIGO", opt=["-O0"]), program("bevalmod", "section4/measure_b_evalmod.cpp", "BEVALMOD"), program("conventional", "section4/proposal.cpp", "PROPOSAL=1", shards=4), program("proposed", "section4/proposal.cpp", "PROPOSAL=2", shards=4)],
)
SPECS["C30"] = dict(
    rule="Requests of 17 kinds on sparse matrices (sum, difference, setting an element, complex product, dropping diagonals, homomorphic and plaintext products; rings 2..16, 1-6 diagonals) and 22 (layers, group size) "
         "combinations of grouped transforms, CoeffToSlot and SlotToCoeff, half of them inconsistent in one place (one diagonal, one layer, the group size); each in a process of its own: an inconsistent request must end "
         "it by abort, exception or exit status, a consistent one must not. Non-trivial: inconsistent requests.",
    units=[dict(name="requests", src="c30.cpp", opt=["-O1"], omp=True, threads=1, shards=4, scale={"quick": "5/1"})],
)
SPECS["C25"] = dict(
    rule="Jobs: 27 operations (products, keys, encryption, switching, rotation, rescaling, encoding, transforms, CoeffToSlot, SlotToCoeff, EvalMod, polynomials, matrices, floating-point model) on 13 (LOGQ, ring, "
         "scale) shapes and generated inputs. Sequences of 2-8 jobs (one in twelve: 20-150) in one process, 1-8 OpenMP threads (1-33 with a runtime of our own that runs teams in parallel or one member at a time in a generated order), "
         "outputs, stack and heap filled with one of five patterns beforehand; every result against the digest from a process of its own with one thread and zeroed memory; jobs under ThreadSanitizer. "
         "Non-trivial: some job has more than one thread; a parallel region ran.",
    units=parts("threads", "c25.cpp", 3, opt=["-O1"], omp=True, shards=2, scale={"quick": "1/8", "thorough": "1/2"})
          + parts("order", "c25.cpp", 3, opt=["-O1"], omp=True, shards=3, defs=["SHIM"], scale={"quick": "1/6", "thorough": "1/1"})
          + parts("races", "c25.cpp", 3, opt=["-O1"], omp=True, shards=1, defs=["SHIM", "RACES"], flags=["-fsanitize=thread"]),
)


def sanitized():
    """Every harness again under AddressSanitizer with UndefinedBehaviorSanitizer, and under MemorySanitizer."""
    asan = dict(opt=["-O0"], flags=["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"], omp=True, threads=2)
    msan = dict(cxx="clang++", optional=True, opt=["-O0"], omp=False, flags=["-fsanitize=memory", f"-fsanitize-ignorelist={HERE}/harness/msan.ignore"])
    jobs = dict(msan, flags=["-fsanitize=memory", f"-fsanitize-ignorelist={HERE}/harness/msan_jobs.ignore"])
    us = []
    # Shapes of the quick tier (indices into the table of the harness): small and word-sized moduli, one limb more, large rings.
    z1 = [0, 1, 2, 6, 30, 31, 32, 59, 62, 63, 64, 65, 94, 95, 96, 119, 125, 126, 127, 128, 129, 190, 191, 192, 199] + list(range(200, 254, 2)) + [203, 211, 217, 223, 243, 245]
    z3 = [0, 1, 2, 8, 30, 31, 32, 33, 61, 62, 63, 64, 65, 66, 94, 95, 96, 126, 127, 128, 129] + [136 + i for i in range(0, 54, 4)] + [145, 154, 157, 164, 171, 180]
    sel = {"c01": z1, "c03": z3, "c05": [2, 10, 13, 15, 19, 22, 26, 29, 31, 38, 41, 45, 47, 1], "c07": [0, 8, 16, 18, 24, 25, 32, 48, 56, 64, 72],
           "c10": [0, 5, 10, 12, 22, 25], "c12": [1, 4, 6, 9, 11, 16, 20, 22], "c13": [0, 1, 4, 7, 12], "c18": [1, 3, 6], "c19": [0, 5, 16], "c21": [4, 7, 9], "c22": [0, 2, 4, 8, 10, 12, 16, 20, 24]}
    # source, parts the quick tier uses (of), parts in the thorough tier, fraction of the cases
    for src, q, n, num in [("c01", 0, 4, 60), ("c02", 2, 8, 40), ("c03", 0, 4, 20), ("c04", 1, 1, 60), ("c05", 0, 4, 10), ("c06", 1, 1, 30),
                           ("c07", 0, 8, 10), ("c08", 1, 4, 20), ("c09", 1, 1, 20), ("c10", 0, 8, 5), ("c11", 1, 1, 10), ("c12", 0, 4, 20),
                           ("c13", 0, 4, 5), ("c14", 1, 8, 5), ("c15", 1, 8, 10), ("c16", 1, 8, 10), ("c17", 1, 13, 5), ("c18", 0, 8, 5), ("c19", 0, 10, 5),
                           ("c20", 1, 8, 5), ("c21", 0, 9, 5), ("c22", 0, 4, 10), ("c23", 0, 11, 10), ("c27", 1, 1, 20)]:
        for k in range(n) if src not in sel else ["sel"] + list(range(n)):
            tiers = ("quick",) if k == "sel" else ("quick", "thorough") if k < q else ("thorough",)
            kw = dict(src=f"{src}.cpp", shards=1, tiers=tiers, scale={"quick": f"1/{num}", "thorough": "1/%d" % (10 * num)})
            d = ["SEL=" + ",".join(map(str, sel[src])), "PART=0", f"PARTS={n}", "SANITIZE"] if k == "sel" else [f"PART={k}", f"PARTS={n}", "SANITIZE"] if n > 1 else ["SANITIZE"]
            us.append(dict(asan, name=f"asan-{src}-{k}", defs=d, **kw))
            if src not in ("c18", "c21", "c23"):  # clang rejects the zero-length arrays that unused groupings of small rings declare
                us.append(dict(msan, name=f"msan-{src}-{k}", defs=d, **kw))
    for k in range(3):
        d = [f"PART={k}", "PARTS=3", "MEMORY", "SANITIZE"]
        us.append(dict(asan, name=f"asan-jobs-{k}", src="c25.cpp", defs=d, shards=1))
        us.append(dict(jobs, name=f"msan-jobs-{k}", src="c25.cpp", defs=d, shards=1))
    return us


SPECS["C26"] = dict(
    rule="The generators and shapes of the harnesses of the other properties, plus the jobs of C25 on exactly sized heap blocks, run under AddressSanitizer and UndefinedBehaviorSanitizer (gcc, -O0, two threads) "
         "and, with uninitialised outputs and the results checked to be defined, under MemorySanitizer (clang); only the sanitizers judge. Non-trivial: as in the property whose generator it is.",
    units=sanitized(),
)

# The generators cost little next to the build: what the quick tier repeats of its counts.
for _p, _k in dict(C01=4, C02=4, C03=10, C04=10, C05=10, C06=4, C08=10, C09=2, C10=6, C11=10, C12=6, C13=3, C16=5, C19=3, C20=2, C21=2, C22=10, C27=10).items():
    for _u in SPECS[_p]["units"]:
        if not _u.get("fuzz") and _u["name"] != "big":
            _u["scale"] = {"quick": f"{_k}/1", "thorough": "1/1"}
