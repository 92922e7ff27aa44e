#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

prop("C01", "The pairing is bilinear, non-degenerate and of order r",
 "For every G1 point P, G2 point Q of the prime-order groups and all integers a, b, the pairing of aP with bQ equals the pairing of P with Q raised to a*b, whatever chain of group operations produced the points. The pairing of two non-zero points is never 1 and always has order exactly r; the pairing with the point at infinity on either side is 1.",
 ["inputs", "histories"], "all points of G1 and G2 (any history of additions, doublings, negations, scalar multiplications), all integer multipliers, infinity in any representation, every supported curve",
 "bn.cpp and sample.cpp check a handful of fixed a, b on the one generator pair; a pairing that fails for some sign, some point order in the loop, or for points reached by a longer history passes them.",
 ["include/bn.h", "src/zm2.cpp"],
 [("optimal ate Miller loop with signed digits", "include/bn.h opt_atePairing"), ("final exponentiation", "include/bn.h Fp12T::final_exp"), ("group law feeding it", "include/bn.h ecop::ECAdd/ECDouble/ScalarMult")],
 ["opt_atePairing(Fp12&, Ec2, Ec1)", "ecop", "power(Fp12, n)"],
 [("siTbl/useNAF", "signed digits of the Miller loop count", "include/bn.h ParamT"), ("T", "running twist point of the loop", "include/bn.h opt_atePairing")])

prop("C02", "The pairing value is the specified optimal ate value on points as sets",
 "For every curve the library supports, the pairing equals the reduced optimal ate pairing of its documented parameters as an independent implementation computes it. The value depends only on the two points denoted: it is the same for every projective representation of the inputs and it does not change the points the caller passed.",
 ["inputs", "configurations"], "all point pairs, all Jacobian representations (X:Y:Z) of each, every supported curve and code-generation mode",
 "The tests compare one pinned value per curve and only with affine inputs; the wrong value at other points, or a wrong treatment of a non-trivial Z, is not exercised.",
 ["include/bn.h", "src/zm2.cpp"],
 [("line evaluation and sparse multiplication", "include/bn.h Fp6T::pointDblLineEval/pointAddLineEval, Fp12T::Dbl::mul_Fp2_024"), ("normalisation of the inputs", "include/bn.h ecop::NormalizeJac, EcT::normalize"), ("twist Frobenius", "include/bn.h ecop::FrobEndOnTwist_*")],
 ["opt_atePairing", "opt_atePairingJac"])

prop("C03", "Split and precomputed pairings agree with the one-shot pairing",
 "Precomputing the line coefficients of a G2 point once and evaluating them later at any G1 point, followed by the final exponentiation, gives exactly the one-shot pairing, the point at infinity included; evaluating two precomputed points together gives exactly the product of the two pairings. Precomputed coefficients can be reused any number of times, for any G1 points and in any order, and computing or using them leaves their inputs unchanged.",
 ["inputs", "histories"], "all point pairs and quadruples, any order of precomputation, reuse and pairing calls, normalised and unnormalised G2 inputs",
 "bn.cpp exercises each entry point once with the generators and compares a product of two; reuse histories, unnormalised inputs and non-generator points are not reached.",
 ["include/bn.h"],
 [("coefficient stream", "include/bn.h components::precomputeG2"), ("single and double evaluation", "include/bn.h components::millerLoop/millerLoop2")],
 ["components::precomputeG2", "components::millerLoop", "components::millerLoop2", "Fp12::final_exp"],
 [("Qcoeff", "line coefficients in loop order", "include/bn.h components")])

prop("C04", "Base field arithmetic is exact and canonical on every element",
 "For all elements of the base field, addition, subtraction, negation, multiplication, squaring, halving, quartering, comparison and conversion from and to integers give exactly the result of integer arithmetic modulo p. Every result is the unique representative below p, so equal values always compare equal.",
 ["inputs", "configurations"], "all operand values (in particular those that force every carry, borrow and final-subtraction boundary), all code-generation modes and curves",
 "The tests use some random and a few fixed operands; a lost carry or a wrong final subtraction needs operands with probability around 2^-64, which sampling cannot meet.",
 ["include/zm2.h", "src/zm2.cpp"],
 [("generated Montgomery arithmetic", "src/zm2.cpp PairingCode::gen_*"), ("conversion to and from Montgomery form", "include/zm2.h Fp::set/get"), ("halving tables", "src/zm2.cpp Fp::setTablesForDiv")],
 ["Fp::add/sub/neg/mul/square/divBy2/divBy4/compare/get/set"],
 [("modulus tables", "multiples of p for the fast reduction", "src/zm2.cpp s_pTbl")])

prop("C05", "Inversion and square roots are correct for every field element",
 "For every non-zero element of the base field and of each extension field, the inverse multiplies back to one and division is multiplication by it. The base-field square root returns a root exactly when the element is a square and reports failure otherwise.",
 ["inputs", "configurations"], "all non-zero elements, including units of subfields, powers of two, and elements with extreme inversion loop counts; all modes and curves",
 "Tests invert small integers and a few random elements; the inversion loop has data-dependent length and table-driven correction that only unusual elements stress.",
 ["include/zm2.h", "src/zm2.cpp", "include/bn.h"],
 [("almost inverse with power-of-two correction table", "include/zm2.h Fp::inv, src/zm2.cpp preInv"), ("norm-based inverses", "include/bn.h Fp2T/Fp6T/Fp12T::inverse"), ("p = 3 mod 4 exponent", "include/zm2.h Fp::squareRoot")],
 ["Fp::inv", "Fp::squareRoot", "Fp2/Fp6/Fp12::inverse", "operator/"])

prop("C06", "Unreduced double-width arithmetic is exact within its stated ranges",
 "Products, sums, differences, negations and Montgomery reductions of double-width values agree with integer arithmetic modulo p at every operand in their permitted range, for the base field and for each extension that postpones reduction. A value that is congruent to the right one but escapes the range the next step requires counts as wrong.",
 ["inputs", "configurations"], "all double-width operands in range, with every carry, borrow and conditional correction pattern; all modes and curves",
 "No test reaches these boundaries: the operands that trigger a conditional correction sit in windows a random operand practically never hits.",
 ["include/zm2.h", "include/bn.h", "src/zm2.cpp"],
 [("generated double-width code", "src/zm2.cpp gen_FpDbl_*, gen_Fp2Dbl_*, gen_Fp6Dbl_mul"), ("lazy-reduction templates", "include/bn.h Fp2T::Dbl, Fp6T::Dbl, Fp12T::Dbl")],
 ["Fp::Dbl", "Fp2::Dbl", "Fp6::Dbl", "Fp12::Dbl"],
 [("pN table", "multiples of p shifted by the word size of the field", "src/zm2.cpp s_pNTbl")])

prop("C07", "Quadratic extension arithmetic is the field it claims to be",
 "For all elements of the quadratic extension, every arithmetic operation, including squaring, multiplication by the sextic non-residue, by base-field factors and by the imaginary unit, halving and quartering, gives the reduced result defined by u*u = -1.",
 ["inputs", "configurations"], "all operand pairs including coordinates at 0, 1, p-1, and the limb boundaries, and those where the non-residue multiplication needs its largest correction; all modes and curves",
 "Tests use a few small and random operands; the curve-dependent non-residue code corrects a multi-bit quotient, whose boundaries are not sampled.",
 ["include/bn.h", "src/zm2.cpp"],
 [("generated extension code", "src/zm2.cpp gen_Fp2_*"), ("template code", "include/bn.h Fp2T")],
 ["Fp2::add/sub/neg/mul/square/mul_xi/mul_Fp_0/mul_Fp_1/divBy2/divBy4"])

prop("C08", "Degree 6 and 12 tower arithmetic is the field it claims to be",
 "For all elements of the sextic and the twelfth-degree extension, addition, subtraction, negation, multiplication, squaring, inversion, equality and powering agree with polynomial arithmetic in the documented tower. The multiplications specialised to sparse operands agree with the general multiplication on the same operands.",
 ["inputs", "configurations"], "all element pairs, including those with zero, one and maximal coefficients in any combination and sparse elements; all modes and curves",
 "Tests check identities on a handful of dense elements; errors confined to one coefficient pattern or one reduction boundary pass.",
 ["include/bn.h", "src/zm2.cpp"],
 [("tower templates", "include/bn.h Fp6T, Fp12T"), ("generated tower code", "src/zm2.cpp gen_Fp6*_, gen_Fp12_*"), ("sparse products", "include/bn.h Fp12T::Dbl::mul_Fp2_024*")],
 ["Fp6", "Fp12", "power"])

prop("C09", "Frobenius, cyclotomic shortcuts and final exponentiation are exact",
 "The Frobenius maps equal raising to p, p^2 and p^3 for every element; the fast squaring, compressed squaring with decompression, and fixed-exponent powering agree with ordinary squaring and powering on every element of the subgroup they are specified for, including the identity and elements with vanishing compressed coordinates. The final exponentiation equals raising to its one fixed multiple of (p^12-1)/r for every non-zero element.",
 ["inputs", "configurations"], "all elements of the twelfth-degree field for Frobenius and final exponentiation, all elements of the cyclotomic subgroup for the shortcuts, every chain length of compressed squarings; all modes and curves",
 "Tests run the shortcuts on one pairing value; the exceptional branches (vanishing denominators in decompression) are never taken.",
 ["include/bn.h", "src/zm2.cpp"],
 [("Frobenius constants", "include/bn.h ParamT::gammar*"), ("compressed squaring", "include/bn.h CompressT"), ("final exponentiation chain", "include/bn.h Fp12T::final_exp, pow_neg_t/pow_z")],
 ["Fp12::Frobenius*", "Fp12::sqru", "Compress", "Fp12::final_exp", "Fp12::mapToCyclo"])

prop("C10", "Curve point operations implement the group law on every representation",
 "In both curve groups, addition, subtraction, doubling and negation form the abelian group of the curve for all points on it: equal, opposite and infinite operands included, for every projective representation of each operand. Normalisation, equality, zero test and on-curve test depend only on the point denoted.",
 ["inputs", "histories"], "all points and all (X:Y:Z) representations, infinity with any leftover X and Y, all operation sequences",
 "Tests add and double the generator a few times; coincidence branches with unequal representations, and operations continued from a leftover infinity, are not all reached.",
 ["include/bn.h"],
 [("Jacobian formulas and their exceptional branches", "include/bn.h ecop::ECAdd/ECDouble"), ("lazy normalisation", "include/bn.h EcT::normalize, operator=="), ("on-curve tests", "include/bn.h ecop::isOn*")],
 ["Ec1/Ec2 operators", "ecop::*"],
 [("p[3]", "mutable Jacobian coordinates", "include/bn.h EcT")])

prop("C11", "Scalar multiplication and powering are right for every integer exponent",
 "Multiplying a curve point by an integer k gives the k-fold sum, and raising a field element to a non-negative integer k gives the k-fold product, for every k and every integer type the interface accepts. Zero, one, negative multipliers, the group order and its neighbours, and word-boundary values are included.",
 ["inputs"], "all scalars of machine-integer, library big-integer and GMP type, all points and elements, any aliasing of result and operand",
 "Tests multiply by a few small and random positive scalars; word boundaries, negative values and multi-word sign or length edge cases are not covered for each integer type.",
 ["include/bn.h", "include/zm.h"],
 [("MSB-first binary ladder over words", "include/bn.h ecop::ScalarMult"), ("integer access traits", "include/zm.h util::IntTag, include/bn.h IntTag<mpz_class>"), ("LSB-first powering", "include/zm.h mie::power")],
 ["EcT::mul, operator*", "mie::power", "ecop::ScalarMult"])

prop("C12", "Big integers behave like mathematical integers",
 "For all unsigned and signed big integers within the fixed capacity (counted in limbs: for a product those of both operands together), the sum, difference, product, quotient and remainder, shifts, comparison, bit length, bit test and sign agree with mathematical integers, with division rounding towards minus infinity for signed values. Division by zero is reported, not computed.",
 ["inputs", "histories"], "all operand sizes and values up to the capacity, every sign combination, every shift count, all operation sequences",
 "test_zm uses fixed examples and random values; the quotient estimation by floating point, the carry chains and the size normalisation have rare cases that samples miss.",
 ["include/zm.h", "src/zm.cpp"],
 [("quotient estimation", "include/zm.h VuintT::div, GetApp"), ("generated limb loops", "src/zm.cpp"), ("sign handling", "include/zm.h VsintT")],
 ["Vuint", "Vsint"],
 [("size_", "normalised limb count", "include/zm.h FixedBuffer")])

prop("C13", "Integers modulo m form the ring Z/m for any modulus set",
 "After any modulus m has been set, values constructed from integers or text and all sums, differences, negations, products, powers and quotients by units equal arithmetic modulo m and stay below m. A later change of the modulus takes full effect for values made afterwards.",
 ["inputs", "histories"], "all moduli and residues up to the capacity (complete for small moduli), all sequences of operations and modulus changes",
 "test_zm uses one small modulus exhaustively for a few operations and one large one with samples.",
 ["include/zm.h"],
 [("modular class", "include/zm.h ZmZ"), ("extended Euclid", "include/zm.h ZmZ::inv")],
 ["ZmZ"], [("m_", "static modulus", "include/zm.h ZmZ")])

prop("C14", "Text output reads back as the same value, in every base and type",
 "Every integer, field element and curve point written as text reads back as the same value, in decimal and hexadecimal, at any size and through both stream and string interfaces, leaving the stream positioned after what was consumed. The text itself is the standard positional notation of the value.",
 ["inputs", "configurations"], "all values of each serialisable type, both bases, values whose text has leading zero groups, sequences of several values on one stream",
 "Tests print and parse a few values; inner groups with leading zeros and multi-value streams are reached by chance only.",
 ["include/zm.h", "include/zm2.h", "include/bn.h"],
 [("decimal and hexadecimal conversion", "include/zm.h VuintT::toString/set"), ("stream operators", "include/zm2.h, include/bn.h")],
 ["operator<<, operator>>", "toString, set(string)"])

prop("C15", "Malformed text and invalid points are refused, never misread",
 "Text that is not the notation of a value is refused with an error instead of being read as some value, and constructing a point with verification refuses exactly the coordinates that are not on the curve. Refused input leaves the process usable.",
 ["inputs"], "all short strings over the relevant characters and all single-character corruptions of valid texts, for every parser; coordinate triples near and far from the curve",
 "Tests feed two bad strings to one parser.",
 ["include/zm.h", "include/zm2.h", "include/bn.h"],
 [("digit validation", "include/zm.h VuintT::set(string), getDigits"), ("point verification", "include/bn.h EcT::set, isValid"), ("composite parsers", "include/bn.h operator>>")],
 ["set(string)", "operator>>", "EcT constructors"])

prop("C16", "Results never depend on operand aliasing and inputs are never altered",
 "For every operation at every level, letting the result be the same object as any of the operands, the operands the same as each other, a scalar factor a component of the element it multiplies, or the values given to a setter parts of the object it sets, gives the same result as with distinct objects, except where the interface requires a distinct result (the library asserts it there). Operands that are not the result keep their value, and nothing outside the result is written.",
 ["programs", "inputs"], "all aliasing patterns of every operation at every level of the tower, the curve groups and the big integers, on operands covering the conditional corrections; all modes",
 "Tests use out-of-place calls and a few in-place ones; an operation that reads an operand after writing the result fails only for specific sharing patterns.",
 ["include/zm.h", "include/zm2.h", "include/bn.h", "src/zm2.cpp", "src/zm.cpp"],
 [("local temporaries and copy-on-alias", "include/bn.h, include/zm.h VuintT::mul/div"), ("register and stack discipline of generated code", "src/zm2.cpp")],
 ["every public operation"])

prop("C17", "Every configuration and initialisation history gives the same mathematics",
 "Initialisation may be repeated, with any supported curve, code-generation mode and processor-feature choice, in any order, and after each one every operation behaves as for a process initialised only that way; all modes give bit-identical results. Derived parameters are those of the selected curve, and parameters that are not supported are refused.",
 ["configurations", "histories"], "all sequences of initialisations over curves x modes x processor features, followed by operations of every kind; parameter tuples next to the supported ones",
 "Each test program initialises once per process in one or two modes.",
 ["include/bn.h", "src/zm2.cpp", "src/zm.cpp"],
 [("one-time code generation", "src/zm2.cpp Fp::setModulo"), ("parameter derivation", "include/bn.h ParamT::init"), ("table derivation", "src/zm2.cpp setTablesForDiv")],
 ["Param::init", "Param values"],
 [("function pointers", "operations bound at first initialisation", "src/zm2.cpp"), ("tables of p", "generated-code constants", "src/zm2.cpp s_pTbl")])

prop("C18", "Operations on separate or read-only objects are independent across threads",
 "After initialisation, threads that work on their own objects, or only read shared ones, get exactly the results they would get alone, for every interleaving. Explicitly normalising a point counts as writing it.",
 ["schedules"], "all interleavings of two threads' operations of every kind, on disjoint objects and on shared operands that are only read",
 "No test uses threads; a hidden shared scratch value is wrong only in a narrow window.",
 ["include/bn.h", "include/zm2.h", "src/zm2.cpp"],
 [("temporaries on the caller's stack", "include/bn.h, src/zm2.cpp"), ("read-only constant tables after initialisation", "src/zm2.cpp s_data")],
 ["all operations"], [("mutable coordinates", "normalisation of a point that is only read", "include/bn.h EcT")])

prop("C19", "The scripting-language wrapper objects have value semantics",
 "Sequences of operations on the exported integer-modulo-p, field, point and pairing-value objects produce the same values as the mathematical operations they name; negative integers included. Copying an object makes it independent, operations on one object never change the value of another (component accessors, which expose a part of their parent, excepted), and text written by an object reads back as an equal one; text that is not a number is refused.",
 ["histories", "inputs"], "all operation sequences up to a depth over a small pool of wrapper objects, including self-operands and the point at infinity",
 "java_api.cpp and the Java test run one fixed script.",
 ["java/bn254_if.hpp"],
 [("wrapper classes", "java/bn254_if.hpp")],
 ["Mpz, Fp, Fp2, Fp12, Ec1, Ec2 of the wrapper"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))
