#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Field arithmetic is exact modular arithmetic",
  "For each of the six prime fields and all canonical operands, addition, subtraction, negation, multiplication, squaring, doubling, tripling and the small-multiple shortcuts return the canonical representative of the mathematical result modulo the field order. No such operation panics, overflows or leaves an element outside the canonical range.",
  ["inputs"], "all pairs of canonical field elements of every field (about 2^508 to 2^754 pairs each)",
  "The arithmetic tests compare against BigUint on about 20 random and corner inputs per field; carries, borrows and the final conditional subtraction are wrong only on thin slices of the input space.",
  ["src/field/monty.rs", "src/bigint/bigint_arithmetic.rs", "src/field/field.rs", "src/field/bls12_377_base.rs", "src/field/bls12_377_scalar.rs", "src/field/tweedledee_base.rs", "src/field/tweedledum_base.rs", "src/field/pallas_base.rs", "src/field/vesta_base.rs"],
  [("MontyRepr::monty_add/sub/neg/multiply/square", "src/field/monty.rs"), ("montgomery_multiply of the BLS fields", "src/field/bls12_377_*.rs"), ("operator impls and Field::double/triple/quadruple", "src/field/*.rs")],
  ["Add/Sub/Mul/Neg operators, Field::square/double/triple/cube"])
p("C02", "Inversion and division are exact",
  "Every nonzero field element has an inverse whose product with it is one, zero reports that it has no inverse, division multiplies by the inverse, and inversion terminates without panicking on every element. Batch inversion of any list of nonzero elements, of any length, returns the elementwise inverses in order.",
  ["inputs"], "all field elements; all lists of nonzero elements of any length including empty",
  "Inversion is tested on a few random elements and one small batch; the binary inversion loop runs hundreds of data-dependent iterations and batch inversion is a whole-list argument.",
  ["src/bigint/bigint_inverse.rs", "src/field/field.rs", "src/field/monty.rs"],
  [("nonzero_multiplicative_inverse", "src/bigint/bigint_inverse.rs"), ("monty_inverse / multiplicative_inverse", "src/field/*.rs"), ("Field::batch_multiplicative_inverse", "src/field/field.rs")],
  ["Field::multiplicative_inverse, Field::batch_multiplicative_inverse, Div"])
p("C03", "Canonical encodings are faithful and reject out-of-range",
  "Converting a field element to limbs, 32-bit words, bytes, bits or a big integer and back yields the same element, and each encoding denotes the canonical integer below the order. Decoding accepts exactly the encodings of integers below the order and reports an error otherwise, and conversions between two fields preserve the integer or fail.",
  ["inputs"], "all field elements; all limb/word/byte strings of the canonical width",
  "Tests round-trip a handful of elements and never feed the boundary order-1 / order / order+1 encodings for every field and width.",
  ["src/field/field.rs", "src/field/monty.rs", "src/conversions.rs", "src/field/bls12_377_base.rs", "src/field/bls12_377_scalar.rs", "src/field/tweedledee_base.rs", "src/field/tweedledum_base.rs", "src/field/pallas_base.rs", "src/field/vesta_base.rs"],
  [("to_canonical_*/from_canonical_* family", "src/field/field.rs"), ("from_monty / to_monty", "src/field/monty.rs"), ("is_valid_canonical_u64", "src/field/*.rs"), ("field_to_biguint / biguint_to_field", "src/conversions.rs")],
  ["Field::to_canonical_*_vec / from_canonical_*_vec / try_convert, biguint conversions"])
p("C04", "Field and curve parameters are mutually consistent",
  "For every field the declared order is prime, the small named constants, the multiplicative generator, the two-adicity data and the permutation exponent all have their advertised algebraic meaning. For every curve the declared generator lies on the declared equation and has the order of the declared scalar field, and where a fast endomorphism is declared its base-field and scalar constants agree on the curve.",
  ["configurations"], "all six fields and all five curves, every declared constant",
  "Only a few of the constants are exercised by tests, and a wrong rarely-used constant (a cofactor, a subgroup exponent, R^3) passes everything that does not hit it.",
  ["src/field/bls12_377_base.rs", "src/field/bls12_377_scalar.rs", "src/field/tweedledee_base.rs", "src/field/tweedledum_base.rs", "src/field/pallas_base.rs", "src/field/vesta_base.rs", "src/curve/bls12_377_curve.rs", "src/curve/tweedledee_curve.rs", "src/curve/tweedledum_curve.rs", "src/curve/pallas_curve.rs", "src/curve/vesta_curve.rs"],
  [("associated constants of Field and MontyRepr", "src/field/*.rs"), ("associated constants of Curve and HaloCurve", "src/curve/*.rs")],
  ["Field::*, Curve::*, HaloCurve::* associated constants"])
p("C05", "Exponentiation and root extraction are exact",
  "Raising to a power, for every base and every non-negative exponent of any size, equals repeated multiplication, and extracting a k-th root for the advertised exponents inverts it. The residue test is true exactly for squares, and the square root of a square is a root of it while a non-square reports none.",
  ["inputs"], "all field elements and all exponents",
  "Tests raise a few elements to a few small powers; the loops over exponent bits and the Tonelli-Shanks loop depend on the whole exponent or element.",
  ["src/field/field.rs"],
  [("Field::exp / exp_u32 / exp_usize / kth_root_u32", "src/field/field.rs"), ("Field::is_quadratic_residue / square_root", "src/field/field.rs")],
  ["Field::exp*, Field::kth_root*, Field::square_root, Field::is_quadratic_residue"])
p("C06", "Field ordering is the order of canonical integers",
  "Comparing two elements of a field gives the same answer as comparing their canonical integers, so the ordering is total, antisymmetric and transitive and agrees with equality. The reported bit length is the bit length of the canonical integer.",
  ["inputs"], "all pairs of canonical elements",
  "Elements are stored in Montgomery form, so an implementation that compares representations passes most random tests of sorting; no test compares order with integers exhaustively.",
  ["src/field/field.rs", "src/field/tweedledee_base.rs", "src/bigint/bigint_arithmetic.rs"],
  [("Ord::cmp / cmp_helper", "src/field/*.rs"), ("cmp on limb arrays", "src/bigint/bigint_arithmetic.rs"), ("Field::num_bits", "src/field/field.rs")],
  ["Ord for each field type, Field::num_bits"])
p("C07", "Curve operations implement the elliptic-curve group law",
  "For all points of the declared curves, including the identity, equal points, opposite points and mixed representations, addition, doubling and negation return the point given by the elliptic-curve group law, and the result is on the curve. No exceptional case panics or yields an invalid point.",
  ["inputs"], "all pairs of points in affine and projective form with arbitrary projective scaling",
  "Tests add a few multiples of the generator, mostly with Z=1; the exceptional branches depend on coincidences between coordinates that random tests never hit.",
  ["src/curve/curve.rs", "src/curve/curve_adds.rs"],
  [("Add impls for affine/projective/mixed", "src/curve/curve_adds.rs"), ("AffinePoint::double, ProjectivePoint::double, Neg, Sub", "src/curve/curve.rs")],
  ["+, -, double on AffinePoint and ProjectivePoint"])
p("C08", "Point representations agree",
  "Converting a point between affine and projective form, singly or in a batch of any length, preserves the point, and the identity maps to the identity. Equality of projective points is equality of the points they denote regardless of scaling, and the validity predicates accept exactly the identity and the points satisfying the curve equation.",
  ["inputs"], "all points, all scalings, all batch lengths and positions of identities in a batch",
  "Existing tests use few points with small scalings; batches mixing identities and ordinary points are barely sampled.",
  ["src/curve/curve.rs"],
  [("to_affine / to_projective / batch_to_affine / batch_to_projective", "src/curve/curve.rs"), ("PartialEq for points", "src/curve/curve.rs"), ("is_valid", "src/curve/curve.rs")],
  ["ProjectivePoint::to_affine, batch_to_affine, ==, is_valid"])
p("C09", "Batched affine summation equals sequential group addition",
  "Summing any list of affine points, or any list of lists, with the best, pairwise or batched-inversion strategy yields the group sum of the same points, for every length and for every mix of identities, repeated points and opposite points.",
  ["inputs"], "all lists and lists of lists of curve points",
  "Tests sum a few short lists; the pairwise strategy has five interacting special cases per pair, at every tree level.",
  ["src/curve/curve_summations.rs"],
  [("affine_summation_best / affine_multisummation_best / pairwise / batch_inversion", "src/curve/curve_summations.rs")],
  ["affine_summation_*, affine_multisummation_*"])
p("C10", "Scalar and multi-scalar multiplication compute the group sum",
  "Multiplying a point by any scalar, through the operator, through precomputed tables, or through multi-scalar multiplication of any length and window size, sequential or parallel, equals the sum of that many copies of each point.",
  ["inputs", "configurations"], "all scalars, points, lengths and window sizes",
  "Tests use one or two window sizes and a few scalars; digit boundaries, zero digits and the top window depend on the scalar and window size together.",
  ["src/curve/curve_multiplication.rs", "src/curve/curve_msm.rs"],
  [("Mul for CurveScalar, mul_precompute / mul_with_precomputation", "src/curve/curve_multiplication.rs"), ("msm_precompute / msm_execute / msm_execute_parallel / to_digits", "src/curve/curve_msm.rs")],
  ["CurveScalar * point, msm_execute, msm_execute_parallel, msm_parallel"])
p("C11", "Endomorphism multiplication matches its integer meaning",
  "For every bit string of even length and every point, the fast endomorphism multiplication returns the point multiplied by the scalar that the library's companion encoding assigns to those bits, on every curve that declares an endomorphism.",
  ["inputs"], "all bit strings of even length and all points of each endomorphism curve",
  "Tests compare both sides on one random scalar; the four-way digit choice and the accumulation order need all digits in all positions.",
  ["src/plonk_util.rs", "src/curve/curve.rs", "src/curve/tweedledee_curve.rs", "src/curve/tweedledum_curve.rs"],
  [("halo_n / halo_n_mul", "src/plonk_util.rs"), ("HaloCurve::endomorphism, ZETA, ZETA_SCALAR", "src/curve/*.rs")],
  ["halo_n, halo_n_mul"])
p("C12", "FFT and inverse FFT compute evaluation and interpolation",
  "For every coefficient vector whose length is a power of two, and for padded shorter ones, the forward transform returns the evaluations at successive powers of the declared root of unity, and the inverse transform returns the unique coefficients with those evaluations.",
  ["inputs"], "all vectors of every power-of-two length",
  "Tests check one size against naive evaluation; an error in a butterfly, twiddle index or bit reversal at another level or size is invisible.",
  ["src/fft.rs"],
  [("fft_precompute / fft_with_precomputation* / ifft_with_precomputation* / coset variants", "src/fft.rs"), ("reverse_index_bits / reverse_bits", "src/fft.rs")],
  ["fft*, ifft*, coset_fft, coset_ifft"])
p("C13", "Polynomial arithmetic obeys the polynomial ring laws",
  "Addition, subtraction, scaling, multiplication, evaluation, trimming, padding, equality and degree of polynomials agree with the algebra of polynomials regardless of trailing zero coefficients. Dividing any polynomial by any nonzero polynomial returns quotient and remainder with a = b*q + r and deg r < deg b, by every provided division method.",
  ["inputs"], "all polynomials, any lengths, with or without trailing zeros, including zero and constants",
  "Tests divide a few random polynomials of fixed degrees; zero, constant, exactly divisible and padded operands behave differently.",
  ["src/polynomial.rs", "src/plonk_util.rs"],
  [("Polynomial ops, polynomial_division, polynomial_long_division, inv_mod_xn", "src/polynomial.rs"), ("scale_polynomials / sum_polynomials / polynomial_degree", "src/plonk_util.rs")],
  ["Polynomial::*"])
p("C14", "Vanishing, Lagrange and power-combination helpers are exact",
  "Dividing a multiple of the vanishing polynomial of a power-of-two subgroup returns the exact quotient, and evaluating the vanishing polynomial and the Lagrange basis polynomials returns their mathematical values at every point, inside or outside the subgroup. Reducing a list with powers returns the sum of its i-th element times the i-th power, for every length.",
  ["inputs"], "all polynomials, subgroup sizes, points and list lengths",
  "Tests check one size and random points; points inside the domain and short lists take different paths.",
  ["src/plonk_util.rs", "src/polynomial.rs", "plookup/src/plookup.rs"],
  [("Polynomial::divide_by_z_h", "src/polynomial.rs"), ("eval_zero_poly / eval_l_1 / powers / reduce_with_powers", "src/plonk_util.rs"), ("eval_l_i", "plookup/src/plookup.rs")],
  ["divide_by_z_h, eval_zero_poly, eval_l_1, eval_l_i, powers, reduce_with_powers"])
p("C15", "Fiat-Shamir challenges bind the whole transcript",
  "Every challenge is a sponge output that depends on all elements observed so far in order, a new observation invalidates buffered outputs, and consecutive challenges without new observations are successive fresh sponge outputs rather than repeats. The in-circuit challenger performs the same sequence of absorptions, permutations and squeezes as the native one on every history of calls.",
  ["histories"], "all sequences of observations and challenge requests of any length",
  "Tests run one fixed sequence of observations and compare native with recursive; they do not request consecutive challenges across buffer boundaries.",
  ["src/plonk_challenger.rs"],
  [("Challenger::observe_element/get_challenge/absorb_buffered_inputs", "src/plonk_challenger.rs"), ("RecursiveChallenger", "src/plonk_challenger.rs")],
  ["Challenger, RecursiveChallenger"],
  [("sponge_state/input_buffer/output_buffer", "duplex sponge state", "src/plonk_challenger.rs")])
p("C16", "Rescue permutation and sponge follow the declared construction",
  "The permutation applies, for the security-determined number of rounds, inverse power map, MDS matrix and round constants and then the power map, MDS matrix and round constants to the whole state; the MDS matrix is the declared Cauchy matrix and every square submatrix relation it relies on holds. The sponge absorbs inputs of any length at the declared rate and returns the requested number of outputs.",
  ["inputs"], "all states, widths, input lengths and output lengths",
  "No test states what the permutation must be; tests only use it as a black box.",
  ["src/rescue.rs", "src/mds.rs"],
  [("rescue_permutation / rescue_sponge / rescue_hash_*", "src/rescue.rs"), ("mds_matrix / MdsMatrix::get", "src/mds.rs")],
  ["rescue_permutation, rescue_hash_n_to_1, rescue_hash_n_to_2, rescue_hash_n_to_3"])
p("C17", "In-circuit gate evaluation equals native gate evaluation",
  "For every gate type and every assignment of constants and local, right and below wire values, the constraint values computed natively and those computed by the recursive (in-circuit) evaluation are equal, one by one and in the same order. The combined, filtered constraint vector over all gate types also agrees.",
  ["inputs"], "all field values for all constants and wires of all gate types",
  "The gate tests check degree on random polynomials; nothing compares the two evaluations.",
  ["src/gates/mod.rs", "src/gates/arithmetic.rs", "src/gates/base_4_sum.rs", "src/gates/buffer.rs", "src/gates/constant.rs", "src/gates/curve_add.rs", "src/gates/curve_dbl.rs", "src/gates/curve_endo.rs", "src/gates/public_input.rs", "src/gates/rescue_a.rs", "src/gates/rescue_b.rs"],
  [("Gate::evaluate_unfiltered / evaluate_unfiltered_recursively", "src/gates/*.rs"), ("evaluate_all_constraints / evaluate_all_constraints_recursively", "src/gates/mod.rs")],
  ["evaluate_all_constraints, evaluate_all_constraints_recursively"], hook="crate-private gate evaluation")
p("C18", "Gate constraints enforce exactly the intended relation",
  "Whenever all constraints of a gate vanish, the wires satisfy the relation the gate stands for: multiply-add, curve addition with optional bit, curve doubling, one endomorphism step, base-4 limbs and their weighted sum, one Rescue half-round, constants, buffering of accumulators and public-input routing. No wire assignment outside the relation satisfies the constraints.",
  ["inputs"], "all wire and constant values of all gate types",
  "Tests only run honest witnesses; soundness is a statement about every dishonest assignment.",
  ["src/gates/arithmetic.rs", "src/gates/base_4_sum.rs", "src/gates/buffer.rs", "src/gates/constant.rs", "src/gates/curve_add.rs", "src/gates/curve_dbl.rs", "src/gates/curve_endo.rs", "src/gates/public_input.rs", "src/gates/rescue_a.rs", "src/gates/rescue_b.rs"],
  [("Gate::evaluate_unfiltered", "src/gates/*.rs")], ["constraint evaluation of each gate"], hook="crate-private gate evaluation")
p("C19", "Gate witness generators satisfy their own constraints",
  "For every gate type and all valid input wire values, the values produced by the gate's witness generator make every constraint of that gate vanish, and each generator declares every wire it reads as a dependency.",
  ["inputs"], "all valid input wire values of all gate types",
  "Only circuits used in integration tests generate witnesses, with a few random inputs; some gate types are never generated in tests.",
  ["src/gates/arithmetic.rs", "src/gates/base_4_sum.rs", "src/gates/constant.rs", "src/gates/curve_add.rs", "src/gates/curve_dbl.rs", "src/gates/curve_endo.rs", "src/gates/public_input.rs", "src/gates/rescue_a.rs", "src/gates/rescue_b.rs"],
  [("WitnessGenerator::generate / dependencies per gate", "src/gates/*.rs")], ["WitnessGenerator for each gate"], hook="crate-private gate evaluation")
p("C20", "Gate selection activates exactly one gate type",
  "The binary selector prefixes of the gate types form a prefix-free set that fits in the constant wires, so on the constants configured for one gate type the filter of that type is nonzero and the filters of all other types are zero. The filtered constraints therefore equal the active gate's constraints and the degree and constant budgets are respected.",
  ["inputs", "configurations"], "all gate types, all 0/1 prefix assignments and all configured constants",
  "Tests check the total degree on samples; a clashing prefix only matters for a row whose constants happen to match two gates.",
  ["src/gates/mod.rs", "src/plonk.rs", "src/circuit_builder.rs"],
  [("Gate::PREFIX / evaluate_prefix_filter / evaluate_filtered", "src/gates/mod.rs"), ("add_gate prefix padding", "src/circuit_builder.rs")],
  ["evaluate_prefix_filter, add_gate"], hook="crate-private gate evaluation")
p("C21", "Copy constraints and the sigma permutation describe the same partition",
  "After any sequence of target additions and copy constraints, two targets are in the same class exactly when they are connected by copies, and the wire permutation is a bijection whose cycles are exactly these classes restricted to wires.",
  ["histories", "inputs"], "all sequences of add and merge operations in any order, with repetitions",
  "Tests merge two or three targets once; chains, repeated merges and merges of already merged classes are the interesting histories.",
  ["src/partition.rs", "src/circuit_builder.rs"],
  [("Partitions::add/merge/contains, TargetPartitions::to_wire_partitions, WirePartitions::to_sigma", "src/partition.rs")],
  ["TargetPartitions, WirePartitions"], [("partitions/indices", "classes and inverse index", "src/partition.rs")], hook="crate-private partitions")
p("C22", "Public inputs are routed injectively to their gates",
  "Each public input index is assigned its own wire of its own public-input gate row, the mapping from indices to wires is injective and matches the one the verifier uses, and reading public inputs from a witness or substituting them into it uses the same positions in the same order.",
  ["inputs", "configurations"], "all numbers of public inputs and all indices",
  "Tests use a few public inputs that fit in one or two gates.",
  ["src/target.rs", "src/plonk.rs", "src/verifier.rs", "src/witness.rs", "src/circuit_builder.rs", "src/gates/public_input.rs"],
  [("PublicInput::original_wire", "src/target.rs"), ("route_public_inputs / append_public_input_gates", "src/circuit_builder.rs"), ("get_public_inputs", "src/plonk.rs"), ("public_inputs_to_wires_vec / public_inputs_to_polynomial", "src/verifier.rs"), ("replace_public_inputs", "src/witness.rs")],
  ["Circuit::get_public_inputs, verify_proof public inputs"], hook="crate-private routing functions")
p("C23", "Witness storage is consistent and detects conflicts",
  "A partial witness returns for each target the value last consistently assigned to it, reports membership exactly for assigned targets, and merging or reassigning conflicting values through its setters fails (in builds with debug assertions) rather than silently overwriting. Witness generation fills every target of a copy class, public inputs included, with one common value and runs each generator whose dependencies become known once, and only after all of them are known.",
  ["histories", "inputs"], "all sequences of assignments and extensions; all circuits and generator orders",
  "Tests never assign conflicting values and exercise only a few generator orders.",
  ["src/witness.rs", "src/plonk.rs"],
  [("PartialWitness set_*/get_*/extend", "src/witness.rs"), ("Circuit::generate_partial_witness / generate_witness", "src/plonk.rs")],
  ["PartialWitness, Circuit::generate_witness"])
p("C24", "Serialization round-trips and consumes exactly its own bytes",
  "Writing any field element, point, vector or proof component and reading it back returns an equal value and consumes exactly the bytes that were written, so that consecutive values in one stream stay aligned. Reading a non-canonical element, an off-curve or non-decompressible point, an invalid flag or a truncated stream reports an error instead of returning a value.",
  ["inputs"], "all values including the identity point, empty vectors and both signs of y; all malformed byte strings",
  "Tests round-trip a few random points; the identity, sign bits, concatenated streams and malformed inputs are not covered.",
  ["src/serialization.rs"],
  [("ToBytes/FromBytes impls", "src/serialization.rs"), ("serde impls through bytes", "src/serialization.rs")],
  ["ToBytes::write, FromBytes::read"])
p("C25", "Polynomial commitments are blinded multi-scalar sums",
  "Committing to coefficients returns the sum of coefficient-weighted generators plus the reported randomness times the blinding generator, batch commitment equals individual commitments, and unblinded commitments use zero randomness. Conversion to affine and batch conversion keep the committed point and randomness.",
  ["inputs"], "all coefficient lists, generator sets and randomness",
  "Tests commit to one or two polynomials and never separate the blinding term from the sum.",
  ["src/poly_commit.rs", "src/plonk_util.rs"],
  [("PolynomialCommitment::coeffs_to_commitment / coeffs_vec_to_commitments / batch_to_affine", "src/poly_commit.rs"), ("pedersen_hash / pedersen_commit", "src/plonk_util.rs")],
  ["PolynomialCommitment::*"])
p("C26", "The inner-product-argument check is the protocol equation",
  "The opening verifier accepts exactly when the final Schnorr equation holds for the commitment folded with all left and right points and squared or inverse-squared challenges, so altering any point, scalar, challenge or opening value in a way that changes the equation is rejected. Openings produced by the prover for honest polynomials satisfy it.",
  ["inputs"], "all proofs, challenges and commitments",
  "Tests verify honest proofs and one or two tampered ones; they do not show that each component enters the equation.",
  ["src/halo.rs", "src/plonk_util.rs", "src/verifier.rs"],
  [("batch_opening_proof / verify_ipa", "src/halo.rs"), ("verify_all_ipas", "src/verifier.rs")],
  ["verify_ipa, batch_opening_proof"])
p("C27", "The verifier accepts only proofs that pass every check",
  "Proof verification succeeds only if all points and shapes are valid, the public inputs match the key, every transcript challenge is derived from the proof, the quotient opening equals the combined constraint evaluation divided by the vanishing polynomial, and every inner-product opening and requested old-proof check passes. If any one of these conditions fails the verifier does not return success.",
  ["inputs"], "all proofs, public inputs and verification keys",
  "Tests verify honest proofs; each individual check could be dropped or weakened without any test failing.",
  ["src/verifier.rs", "src/plonk_proof.rs"],
  [("verify_proof / check_proof_parameters / eval_vanishing / verify_all_ipas / verify_old_proof_evaluation", "src/verifier.rs"), ("Proof::get_challenges", "src/plonk_proof.rs")],
  ["verify_proof"], hook="crate-private verifier steps")
p("C28", "Circuit arithmetic gadgets constrain the stated function",
  "Each arithmetic circuit-builder gadget (add, subtract, multiply, multiply-add, negate, divide, invert, square, cube, exponentiation by constants, sums and products of lists, selection, boolean operations, zero and equality tests) adds constraints that force its output to equal the stated function of its inputs, and its generators produce witnesses satisfying them.",
  ["inputs", "programs"], "all input values of every gadget, all constant exponents and list lengths",
  "Tests build a few circuits with fixed values and honest witnesses, so an under-constrained output is never noticed.",
  ["src/circuit_builder.rs", "src/circuit_ordering.rs", "src/target.rs"],
  [("CircuitBuilder arithmetic methods", "src/circuit_builder.rs")], ["CircuitBuilder::*"])
p("C29", "Decomposition gadgets constrain bits, dibits and roots",
  "Binary splitting, joining, base-4 range assertion and deterministic square root gadgets force every bit to be binary, every base-4 digit to be in range and the weighted sum to equal the input for every admitted length, and their generators produce satisfying witnesses.",
  ["inputs", "configurations"], "all inputs and all lengths",
  "Only one or two lengths are tested with honest values.",
  ["src/circuit_builder.rs", "src/gates/base_4_sum.rs"],
  [("split_binary / join_binary / assert_dibit_length / deterministic_square_root", "src/circuit_builder.rs")],
  ["CircuitBuilder::split_binary, assert_dibit_length, deterministic_square_root"])
p("C30", "Big-integer and foreign-field gadgets compute integer results",
  "The big-integer gadgets for constants, addition, multiplication, comparison, division with remainder and foreign-field arithmetic force their outputs to be the integer (or modular) results of the inputs, with declared bounds that are never exceeded.",
  ["inputs"], "all operands of any number of limbs",
  "Tests run a few small operands.",
  ["src/circuit_bigint.rs", "src/circuit_foreign_field.rs", "src/circuit_ordering.rs"],
  [("bigint_add_many / bigint_mul / bigint_div_rem / bigint_cmp", "src/circuit_bigint.rs"), ("foreign_field_*", "src/circuit_foreign_field.rs")],
  ["CircuitBuilder::bigint_*"])
p("C31", "Curve gadgets route the group operation they name",
  "In-circuit point addition, subtraction, doubling, negation, validity assertion and scalar multiplication (also by the endomorphism) connect gates so that the output wires hold the named group operation of the input points for all non-exceptional inputs.",
  ["inputs"], "all non-exceptional input points and scalars",
  "Tests run one instance of each with honest witnesses.",
  ["src/circuit_curve.rs"],
  [("curve_add / curve_double / curve_neg / curve_sub / curve_assert_valid / curve_msm / curve_msm_endo", "src/circuit_curve.rs")],
  ["CircuitBuilder::curve_*"])
p("C32", "Plookup verification enforces the lookup relation",
  "The lookup verifier recomputes the table commitment, re-derives every challenge from the proof, and accepts only if the quotient opening equals the batched vanishing terms and the openings verify; the prover's grand product, sorting and vanishing terms satisfy these for every nonempty list of table elements (the table not being all zero, whose unblinded commitment the transcript cannot absorb, and every opened value fitting both fields).",
  ["inputs"], "all tables, lookups and proofs",
  "Tests prove a couple of small tables.",
  ["plookup/src/plookup.rs", "plookup/src/verifier.rs", "plookup/src/proof.rs", "plookup/src/table.rs", "plookup/src/openings.rs"],
  [("prove / grand_polynomial / vanishing_polynomial / verify", "plookup/src/*.rs")], ["plookup prove/verify"])
p("C33", "Hash-to-curve returns valid, deterministic points",
  "Hashing any integer or field element to a curve terminates with a non-identity point satisfying the curve equation, and the same input always gives the same point; distinct counters never share the same preimage.",
  ["inputs"], "all integers and base-field elements",
  "Tests hash a few values.",
  ["src/hash_to_curve.rs"],
  [("hash_base_field_to_curve / blake_hash_base_field_to_curve / hash_usize_to_curve", "src/hash_to_curve.rs")], ["hash_*_to_curve"])
p("C34", "The permutation polynomial accumulates the copy-constraint product",
  "The permutation accumulator starts at one and each step multiplies by the product over routed wires of (value + beta*shifted point + gamma) over (value + beta*sigma + gamma), for every circuit size, so that it returns to one exactly when the grand product over all wires is one.",
  ["inputs"], "all witnesses, sigma tables, challenges and circuit sizes",
  "Tests only use it through whole honest proofs.",
  ["src/plonk_util.rs", "src/verifier.rs"],
  [("permutation_polynomial", "src/plonk_util.rs"), ("permutation term of the vanishing polynomial", "src/verifier.rs"), ("get_subgroup_shift", "src/plonk_util.rs")],
  ["permutation_polynomial, get_subgroup_shift"], hook="crate-private functions")
p("C35", "Halo folding vectors and their evaluation agree",
  "For every list of challenges, the folded generator coefficients expand the product over all challenges of (inverse challenge + challenge times the matching power), and the succinct evaluation at any point, natively and in circuit, equals the evaluation of that coefficient vector as a polynomial.",
  ["inputs"], "all challenge lists of any length and all points",
  "Tests compare the two on one size with random challenges.",
  ["src/plonk_util.rs", "src/plonk_recursion.rs"],
  [("halo_s / halo_g", "src/plonk_util.rs"), ("halo_g_recursive", "src/plonk_recursion.rs")], ["halo_s, halo_g"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
