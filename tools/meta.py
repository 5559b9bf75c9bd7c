#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from the table below and specs.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from specs import SPECS

A = "include/HEAAN/"
P = []


def prop(id, title, statement, over, text, why, files, mech, note):
    P.append((id, title, statement, over, text, why, files, mech, note))


prop("C01", "Multi-precision integers are exact arithmetic modulo 2^LOGQ",
     "For every modulus size and every sequence of additions, subtractions, products, word products, negations and copies of big "
     "integers modulo 2^LOGQ, each value afterwards equals the mathematical result reduced into [0, 2^LOGQ). This also holds when "
     "an operand and the destination are the same object.",
     ["inputs", "histories", "configurations"], "all moduli sizes, all operand values, all operation sequences, with and without aliasing",
     "The tests add a few values of one size; carries across several limbs, clutter above the top bit and aliasing depend on rare limb patterns.",
     [A + "arith/Z_Q.h"], [("limb loops with carries, clutter removal", A + "arith/Z_Q.h")],
     "Model-based random search against GMP; no exhaustive bound.")
prop("C02", "Changing the modulus keeps signed values, or rounds them to nearest",
     "Enlarging a modulus keeps the centred value of every integer, polynomial and ciphertext; shrinking it reduces; shifting left "
     "multiplies exactly by the power of two; shifting right (rescaling) yields the centred value divided by the ratio of the moduli and "
     "rounded to a nearest integer, wrapped into the target modulus. The source is unchanged, and what the destination held before is irrelevant.",
     ["inputs", "configurations"], "all pairs of moduli sizes, all values, both polynomial components, any previous contents of the destination",
     "The tests rescale along one chain of moduli with random values; sign extension, limb borders and rounding ties need special values and sizes.",
     [A + "arith/Z_Q.h", A + "arith/R_Q.h", A + "arith/R_Q_square.h", A + "core.h"],
     [("resize, shift_left, shift_right", A + "arith/Z_Q.h"), ("RS", A + "core.h")],
     "Random search over 438 pairs of moduli against GMP. At an exact tie either neighbour is accepted.")
prop("C03", "Integers read, print and convert to numbers exactly",
     "A string of decimal digits is read as that integer modulo 2^LOGQ; printing an integer gives the decimal text of its value in [0, 2^LOGQ), which reads back to it, and signed printing of polynomials the text of each centred value; "
     "the sign test says whether the value is above half the modulus; conversion to floating point is the centred value within rounding.",
     ["inputs", "configurations"], "all moduli sizes and all values (texts up to 520 digits)",
     "No test reads or prints more than a few sample values and none compares the text; errors appear at limb borders, at half the modulus and for long numbers.",
     [A + "arith/Z_Q.h"], [("fr_str, to_str, print, is_bigger_than_halfQ, operator double", A + "arith/Z_Q.h")],
     "Random search against GMP.")
prop("C04", "Word-sized modular arithmetic is exact for every modulus",
     "For all 64-bit words a and b and every modulus q >= 2 of at most 64 bits, modular reduction, sum, difference, product and power give the mathematical "
     "result in [0, q) also for unreduced operands, the 128-bit product is exact, inverses modulo a prime multiply to one, and bit reversal is the involution on indices of the given width.",
     ["inputs"], "all 64-bit words as operands and exponents, all moduli",
     "The one test samples a handful of products; overflow at 2^63..2^64 and unreduced operands are not reached.",
     [A + "arith/conv/mod.h", "include/util/util.h"], [("mod, mul_, add_mod, sub_mod, mul_mod, pow_mod, inv_mod", A + "arith/conv/mod.h"), ("bitReverse", "include/util/util.h")],
     "Random search against GMP, plus all operand pairs below 2q for q = 2..61.")
prop("C05", "Residue decomposition and reconstruction are exact and inverse",
     "Decomposing an integer over distinct primes gives its centred value modulo each prime, and reconstructing from any residues (also "
     "unreduced ones) gives the unique integer of least absolute value modulo the product of the primes, reduced modulo 2^LOGQ. Values of absolute value below half the "
     "product of the primes survive decomposition and reconstruction.",
     ["inputs", "configurations"], "all moduli sizes, all sets of distinct primes, all values and residue vectors",
     "The test reconstructs random values for one shape; the decision between positive and negative representatives and unreduced or single-limb values is rare.",
     [A + "arith/conv/crt.h"], [("CRT tables, icrt, crt", A + "arith/conv/crt.h")],
     "Random search against GMP.  The reconstruction is only compared away from exactly half the product.")
prop("C06", "The number-theoretic transform is an exact invertible negacyclic transform",
     "For every power-of-two size and every suitable prime, the forward transform evaluates a polynomial at all the odd powers of a primitive 2N-th root of unity, the backward "
     "transform is its inverse, and pointwise products correspond to products modulo X^N+1. Inputs may be any 64-bit words; outputs are below the prime.",
     ["inputs", "configurations"], "all sizes, primes up to 64 bits, all coefficient vectors of 64-bit words",
     "The test does one round trip of one vector; an error in one butterfly at one size, or for unreduced input, is invisible to it.",
     [A + "arith/conv/ntt.h"], [("NTT tables, ntt, intt", A + "arith/conv/ntt.h")],
     "Random search against evaluation and schoolbook products.")
prop("C07", "Polynomial products are the exact negacyclic product",
     "The product of two polynomials modulo X^N+1 and modulo 2^LOGQ, of a small-integer polynomial and a polynomial, of a ciphertext and a polynomial, and of two integer polynomials, "
     "equals the schoolbook product, for every modulus size and ring size, also when both operands are the same object and whatever is computed before or in parallel threads.",
     ["inputs", "configurations"], "all modulus and ring sizes the code compiles for, all coefficients (products of extreme magnitude included)",
     "The tests multiply random polynomials of one or two shapes and only print; the number of primes needed and the sign of reconstructed coefficients matter only for extreme operands.",
     [A + "arith/conv.h", A + "arith/conv/conv.h", A + "arith/R_Q_square.h"], [("CRT + NTT convolution, cached primes", A + "arith/conv/conv.h"), ("conv", A + "arith/conv.h")],
     "Random search against GMP convolution, shapes LOGQ 1..2900, N 2..2^17.")
prop("C08", "Polynomials and ciphertext pairs form a module over the integers mod 2^LOGQ",
     "Every sequence of additions, subtractions, word products, copies and resets of polynomials and of pairs of polynomials gives coefficientwise the mathematical result reduced modulo 2^LOGQ; "
     "objects other than the destination are unchanged, and an object may be both operand and destination.",
     ["inputs", "histories", "configurations"], "all modulus and ring sizes, all operation sequences over several objects, with aliasing",
     "Tests use these operations only inside long pipelines whose output is not compared.",
     [A + "arith/R_Q.h", A + "arith/R_Q_square.h"], [("operators", A + "arith/R_Q.h")],
     "Model-based random search against lists of integers.")
prop("C09", "The canonical embedding and its inverse are the mathematical transforms",
     "For every ring size and every real input, the slots computed from coefficients (fast, slow and without reordering) equal evaluation at the roots of unity "
     "in the order of powers of five, the inverse direction equals the inverse embedding, and the sparse layers multiply to the same transform, all within floating-point rounding.",
     ["inputs", "configurations"], "all ring sizes 2^2..2^17, all finite inputs within the floating-point range used",
     "The test compares two vectors by eye at one size; twiddle, order and sign errors show only in some slots or sizes.",
     [A + "matrix/DFT.h", "include/util/util.h"], [("splitU0NR layers, fft, ifft, dft, idft", A + "matrix/DFT.h")],
     "Random search against long-double evaluation with an explicit rounding bound.")
prop("C10", "Encoding and decoding lose at most the rounding of coefficients",
     "Encoding slots at a scale rounds each coefficient of the scaled inverse embedding to nearest, as a residue modulo 2^LOGQ, and decoding any polynomial gives the exact embedding of its "
     "centred coefficients divided by the scale, within floating-point rounding. A message comes back within N/(2*scale), and sums and products of encodings decode to slotwise sums and products.",
     ["inputs", "configurations"], "all messages whose scaled coefficients fit a word and the modulus, all scales, modulus and ring sizes; decoding of all residues below 2^990",
     "The tests print a round trip for one scale; signs, large residues over several limbs and scales that are no power of two are not reached.",
     [A + "endecode.h", "include/impl/plaintext.h"], [("encode, decode, decode_log", A + "endecode.h")],
     "Random search against long-double evaluation.")
prop("C11", "Sparse diagonal matrices behave as the dense matrices they represent",
     "Every sequence of element updates, sums, differences, scalings, transpositions, negations, copies and products of sparse diagonal matrices represents the result of the dense operation, "
     "diagonals marked zero are zero, and every form of matrix-vector product equals the dense product.",
     ["inputs", "histories", "configurations"], "all offsets in [0,N), any number of diagonals, all zero marks, all operation sequences",
     "The one comparison in the tests is disabled; wrap-around of offsets, repeated offsets and zero marks appear only in special combinations.",
     [A + "matrix/matrix.h", "include/impl/message.h", A + "linear_transform.h"], [("SparseDiagonal, MatMul, RemoveClutter", A + "matrix/matrix.h"), ("matrix_vector_product", "include/impl/message.h")],
     "Model-based random search; entries are dyadic so that every comparison is exact.")
prop("C12", "Rotation and conjugation of polynomials are the ring automorphisms on the slots",
     "Rotating a polynomial or an integer key by r substitutes X^(5^r) and moves every slot by r places; conjugating substitutes X^-1 and conjugates every slot. They compose additively modulo the number of slots, "
     "respect sums and products, and leave the input unchanged.",
     ["inputs", "configurations"], "all ring and modulus sizes, all polynomials and keys, all amounts including beyond a full turn",
     "Tests rotate by the few amounts the bootstrapping uses and do not compare the outcome.",
     [A + "linear_transform.h"], [("rot, conj", A + "linear_transform.h")],
     "Random search against exact substitution.")
prop("C13", "Plaintext matrix-vector products equal the slotwise linear map",
     "Applying a matrix given by its diagonals to an encoded vector by rotations and products yields the encoding (at the product scale) of the exact matrix-vector product within the error explained by rounding each encoded diagonal, "
     "and for random inputs this error follows the predicted statistical law. The same products of unencoded messages are exact within floating-point rounding.",
     ["inputs", "configurations"], "all vectors and diagonals that fit the modulus, all scales, ring and modulus sizes, all offsets of sparse matrices",
     "The experiments print error estimates for one fixed shape and no test checks them.",
     ["include/impl/plaintext.h", "include/impl/message.h", A + "linear_transform.h", A + "endecode.h"], [("matrix_vector_product on plaintexts", "include/impl/plaintext.h")],
     "Random search; worst-case bound per slot, plus a wide window on the error's standard deviation.")
prop("C14", "Decryption inverts encryption up to noise of at most 8 per coefficient",
     "Generated keys are ternary with exactly the requested number of non-zero coefficients; decrypting a fresh encryption of any polynomial under any key returns it with each coefficient off by at most 8; decrypting any pair "
     "returns exactly c0 + c1*s. A message at any scale comes back within 8.5*N/scale.",
     ["inputs", "configurations"], "all plaintexts, keys of any weight, modulus and ring sizes, all seeds of the generator",
     "Tests print decoded messages for one key and shape; nothing is compared.",
     [A + "core.h"], [("keygen, enc, dec", A + "core.h")],
     "Random search against a reference decryption.")
prop("C15", "Ciphertexts and keys are freshly and fully randomised",
     "The public component of every ciphertext and switching key is uniform over all residues (every bit unbiased, components and calls independent), the noise takes both signs and all magnitudes up to 8, keys have no preferred position or "
     "sign, and encrypting the same message twice gives unrelated ciphertexts.",
     ["inputs", "histories"], "all messages and moduli sizes, over the randomness of the library's generator",
     "Decryption works with any mask, also with a constant or zero one, so no functional test can notice missing randomness.",
     [A + "core.h", "include/util/util.h"], [("rand_uint64", "include/util/util.h"), ("enc, keygen, swkgen", A + "core.h")],
     "Statistical tests with thresholds at more than 7 standard deviations over the library's deterministic generator; no cryptographic claim.")
prop("C16", "Key switching, rotation, conjugation and product add only bounded noise",
     "Switching any ciphertext to another key preserves its decryption up to the switching noise; rotating, conjugating or multiplying any ciphertexts decrypts to the rotated, conjugated or multiplied decryptions up to the noise of the key used, divided by the "
     "modulus, and one rounding per component. Switching keys decrypt to their source scaled by the modulus, with noise at most 8.",
     ["inputs", "configurations"], "all ciphertexts (fresh or not), keys of weight 0..64, rotation amounts, modulus and ring sizes",
     "Tests run a single multiplication and print; wrong lifts, moduli or keys that only disturb low-order bits or rare coefficients go unseen.",
     [A + "core.h", A + "linear_transform.h"], [("swkgen, ks, Mul", A + "core.h"), ("rot_ct, conj", A + "linear_transform.h")],
     "Random search; the permitted deviation is computed exactly from the key noise of the case.")
prop("C17", "Every homomorphic circuit decrypts to the circuit applied to the plaintexts",
     "For every sequence of ciphertext additions, subtractions, products, plaintext and integer products, rotations, conjugations and rescalings down the modulus chain, each ciphertext decrypts to the same circuit applied to the plaintexts, within an error bound "
     "that follows from fresh noise, key noise and rounding, and decodes to the slotwise result.",
     ["histories", "inputs", "configurations"], "all operation sequences over several ciphertexts, all messages that fit, several modulus chains and rings",
     "Tests run one operation at a time; interactions between operations, levels and reused outputs appear only in sequences.",
     [A + "core.h", A + "linear_transform.h", A + "arith/R_Q_square.h"], [("all ciphertext operations", A + "core.h")],
     "Stateful random search against an exact polynomial model with a tracked worst-case error.")
prop("C18", "Homomorphic linear transforms apply their matrix to the encrypted slots",
     "Each form of homomorphic linear transform (dense, sparse with given or generated rotation keys, serial, and grouped by 1 to 4) decrypts to the exact product of its matrices with the encrypted slots at the documented scale, within the error explained by diagonal rounding and key switching, "
     "for all offsets and zero marks.",
     ["inputs", "configurations"], "all matrices and messages that fit, all offsets and zero marks, number of layers and groupings",
     "The test prints transforms of one matrix family; zero diagonals, the offset zero with given keys and the dense form are never run.",
     [A + "linear_transform.h", A + "matrix/matrix.h"], [("linear_transform, serial_ and groupedN_serial_linear_transform", A + "linear_transform.h")],
     "Random search with a worst-case error bound per slot.")
prop("C19", "Homomorphic polynomial evaluation computes the Chebyshev series it is given",
     "For every degree 3, 7, 15, 31, 63 and 127 and every coefficient vector of either sign, evaluating the converted Chebyshev series on a ciphertext with slots in [-1,1] decrypts to the value of the series in every slot, at the input's scale, within the accumulated rounding error. The basis conversion preserves the polynomial.",
     ["inputs", "configurations"], "all Chebyshev coefficients and slots within range, all supported degrees, scales and rings",
     "No test evaluates a polynomial except through one fixed sine approximation of degree 31.",
     [A + "poly.h"], [("convert_frc_tou, eval_poly_deg*", A + "poly.h")],
     "Random search with an error bound that follows the recursion.")
prop("C20", "Homomorphic modular reduction returns the fractional part of each slot",
     "For every ciphertext whose slots are integers of absolute value below the supported bound plus a small deviation, the modular reduction decrypts to the deviation, within the error of the sine and arcsine approximation plus evaluation noise, in every slot and at the same scale.",
     ["inputs", "configurations"], "all integers in the supported range, all small deviations, several scales and rings",
     "The test prints one slot pattern with positive integers and one deviation.",
     [A + "bootstrap.h", A + "poly.h"], [("EvalMod", A + "bootstrap.h")],
     "Random search with the analytic error of the approximation.")
prop("C21", "Coefficients move to slots and back",
     "Moving coefficients to slots gives two ciphertexts whose slots are the lower and the upper half of the plaintext's coefficients in bit-reversed order; moving slots to coefficients is the inverse; both hold for every message, ring size and grouping, at the documented scale and within the precision of the encoded matrices.",
     ["inputs", "configurations"], "all messages that fit, ring sizes, groupings and matrix scales",
     "The test prints the two directions for one ring size and grouping.",
     [A + "bootstrap.h", A + "matrix/DFT.h", A + "linear_transform.h"], [("CoeffToSlot, SlotToCoeff", A + "bootstrap.h")],
     "Random search with a worst-case error bound.")
prop("C22", "Raising the modulus keeps the plaintext modulo the old modulus",
     "Raising a ciphertext to a larger modulus yields a ciphertext that decrypts to the old plaintext plus a multiple of the old modulus, and every coefficient of that multiple is bounded by half the key weight plus one.",
     ["inputs", "configurations"], "all ciphertexts, keys of any weight, pairs of moduli and ring sizes",
     "Tests raise one fresh ciphertext in the middle of bootstrapping; the bound and the congruence are not compared.",
     [A + "bootstrap.h", A + "arith/R_Q_square.h"], [("mod_raise", A + "bootstrap.h")],
     "Random search, exact comparison.")
prop("C23", "Conventional bootstrapping refreshes any ciphertext to a larger modulus",
     "For every message of bounded size, raising the modulus, moving coefficients to slots, reducing modulo q and moving back yields a ciphertext of a larger modulus that decrypts to the same message within the predicted precision.",
     ["inputs", "configurations"], "all messages with slots bounded by one, sparse keys, several rings, groupings and scales",
     "The test runs one message and prints the error without judging it.",
     [A + "bootstrap.h", "src/test/bootstrap_test.cpp"], [("mod_raise, CoeffToSlot, EvalMod, SlotToCoeff", A + "bootstrap.h")],
     "Random search on small rings with a precision bound from measured and analytic error terms.")
prop("C24", "EvalRound bootstrapping is correct even with a low-precision CoeffToSlot",
     "Subtracting the homomorphically rounded multiple of q from the raised ciphertext yields a ciphertext of a larger modulus that decrypts to the same message within the predicted precision, also when the coefficient-to-slot matrices are encoded with few bits.",
     ["inputs", "configurations"], "all messages with slots bounded by one, sparse keys, several rings and matrix scales down to the lowest usable one",
     "The test runs one message and prints the error without judging it.",
     [A + "bootstrap.h", "src/test/evalqI_test.cpp", "src/test/end_to_end_test.cpp"], [("mod_raise, CoeffToSlot, EvalMod, SlotToCoeff", A + "bootstrap.h")],
     "Random search on small rings with a precision bound from measured and analytic error terms.")
prop("C25", "Results do not depend on threads, earlier calls or stale outputs",
     "For the same inputs and random seed, every operation gives bit-identical results for any number of threads, whatever was computed before in the process (including other ring and modulus sizes), and whatever the output objects held.",
     ["schedules", "histories", "configurations"], "1 to 8 threads, all call orders of operations of several shapes, all previous contents of outputs",
     "Each test runs one computation once with one thread count; caches and shared buffers misbehave only under particular orders or schedules.",
     [A + "arith/conv/conv.h", A + "arith/conv.h", A + "bootstrap.h", A + "matrix/DFT.h"], [("static tables and OpenMP loops", A + "arith/conv/conv.h")],
     "Random call histories and thread counts, compared with a first run in a fresh process.")
prop("C26", "No operation reads or writes outside its objects or relies on undefined values",
     "Within the documented ranges, no operation accesses memory out of bounds, reads uninitialised memory, or executes undefined arithmetic, for any input, modulus size and ring size.",
     ["inputs", "histories", "configurations"], "the inputs, histories and configurations of the other properties",
     "Undefined behaviour rarely changes the printed output of a test and depends on sizes that the tests do not use.",
     [A + "arith/Z_Q.h", A + "arith/conv.h", A + "core.h", A + "linear_transform.h", A + "matrix/matrix.h"], [("fixed-size arrays and limb loops", A + "arith/Z_Q.h")],
     "The other harnesses' generators run under address, undefined-behaviour and memory sanitizers.")
prop("C27", "The floating-point plaintext model mirrors the exact ring",
     "The floating-point messages and plaintexts used for error analysis follow the ring exactly: slotwise sum, difference, product, norms and aggregation; encoding with and without rounding, decoding, negacyclic product and rotation equal their definitions within floating-point rounding.",
     ["inputs", "configurations"], "all finite inputs within range, all ring sizes, scales and rotation amounts",
     "The experiments print statistics computed with these functions and nothing compares them.",
     ["include/impl/simple_plaintext.h", "include/impl/message.h"], [("SimplePlaintext and Message functions", "include/impl/simple_plaintext.h")],
     "Random search against definitions in long double.")

prop("C28", "Errors on random inputs follow the predicted statistical laws",
     "On random inputs the errors are centred and their root mean square is the one the analysis predicts: sqrt(1/12) per coefficient for encoding, sqrt(K N/12) |pt| for K products with rounded encodings, sqrt((h+1)/12) for "
     "rescaling and for the multiple of q after raising the modulus under a key of weight h, sqrt(204/9) for fresh noise; switching and the transforms of bootstrapping add at most the predicted error. Coefficients of random "
     "messages stay within a small multiple of their root mean square.",
     ["inputs", "configurations"], "random messages, ciphertexts and keys over ring sizes, moduli, scales and key weights",
     "The experiments print measured beside predicted values for a human to compare, for one or two ring sizes; a lost bit of precision or a biased rounding passes every test.",
     ["src/experiment/section3/lemma_conv_error.cpp", "src/experiment/section3/theorem_cts_error.cpp", "src/experiment/section4/example_sup_norm.cpp", A + "endecode.h", A + "core.h", A + "arith/Z_Q.h", A + "bootstrap.h"],
     [("encode", A + "endecode.h"), ("RS, enc, ks, Mul", A + "core.h"), ("shift_right", A + "arith/Z_Q.h"), ("mod_raise, CoeffToSlot, SlotToCoeff", A + "bootstrap.h"), ("SimplePlaintext", "include/impl/simple_plaintext.h")],
     "Statistics over generated batches with limits at 8 standard deviations of the sampling error.")

prop("C29", "The experiment programs report the quantities they are defined to measure",
     "For every seed and admissible ring size, grouping and matrix scale, the programs of the experiments print the constants, expected values, bounds and consumed modulus that the analysis defines; what they measure agrees with the "
     "predicted laws and bounds, and both bootstrapping programs return the message within the precision of their parameters. The messages and matrices they start from are the defined ones, random ones uniform and independent.",
     ["inputs", "configurations"], "random seeds, ring sizes, groupings and matrix scales of every program",
     "The programs are no tests: nobody compares what they print, and their random streams differ in each run.",
     ["src/experiment/section3/", "src/experiment/section4/", "include/experiment/setup.h", "include/impl/message.h"],
     [("conventional_bootstrap_test, proposed_bootstrap_test", "src/experiment/section4/proposal.cpp"), ("measure_* programs", "src/experiment/section3/"), ("set_test_message, set_random_message, set_test_matrix, set_test_U0_matrix, print_max_error", "include/experiment/setup.h")],
     "Each printed number against a formula of our own; measurements within 8 standard deviations or below 16 times what the shape leaves.")

prop("C30", "Inconsistent requests end the program instead of giving wrong results",
     "Adding or subtracting sparse matrices of different diagonals, setting an element on no diagonal, multiplying or homomorphically applying (with generated keys) matrices whose real and imaginary parts have different diagonals, dropping a nonzero diagonal, and grouping layers by a number that does not divide theirs or is not 1 to 4 end the program, wherever in the request the inconsistency lies. Consistent requests of these kinds are never refused.",
     ["inputs", "configurations"], "all matrices, diagonals, positions of the inconsistency, numbers of layers and group sizes",
     "The tests make consistent requests only.",
     ["include/HEAAN/matrix/matrix.h", "include/HEAAN/linear_transform.h", "include/HEAAN/bootstrap.h", "include/impl/plaintext.h"],
     [("SparseDiagonal, MatMul, RemoveClutter", "include/HEAAN/matrix/matrix.h"), ("linear_transform, grouped_serial_linear_transform", "include/HEAAN/linear_transform.h"), ("matrix_vector_product", "include/impl/plaintext.h")],
     "Each request in a process of its own; a crash other than a deliberate end is a violation too.")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for id, title, st, over, text, why, files, mech, note in P:
        if len(title) > 80:
            sys.exit(f"title of {id}: {len(title)}")
        f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}) + "\n")

TECH = {}
m = {"version": 1, "setup_cmd": "python3 run.py --build-all --tier quick", "checks": [], "not_applicable": []}
for id, *_, note in P:
    if id in SPECS:
        m["checks"].append({"property": id, "quick_cmd": f"python3 run.py {id} --tier quick", "thorough_cmd": f"python3 run.py {id} --tier thorough",
                            "evidence_file": f"evidence/{id}.json", "technique": SPECS[id].get("technique", "property-based testing (generated cases, explicit oracle, internal shrinking)"),
                            "level": "exploration", "level_note": note})
    else:
        m["not_applicable"].append({"property": id, "reason": "The check of this property is still being built; nothing is claimed for it yet."})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
