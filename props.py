# The one table behind properties.jsonl and MANIFEST.json (written by gen.py).
HOOK_COMMITS = ["f20f9beb2fa3f4997b55ea09edd00163e3f88669", "fc8a46e5f4ef5943f51c8751de7ebdeb918d2657"]
NOT_APPLICABLE = []
PROPS = []
REF = "online reference-model monitor on the real code (differential runtime oracle, hostile generated inputs)"
NOTE = ("Held on the executions driven (counts, distinct cases and samples are in the evidence file), not proved. "
        "Trusts the oracle named in DESIGN.md and the inputs' generator; a crash or endless loop of the code is an observed verdict. ")

def P(id, title, statement, over, quant, why, files, mech, technique=REF, note="", **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why,
                      files=files, mech=mech, technique=technique, level_note=NOTE + note, **kw))

P("P01", "Prime-field add, sub, mul, square, double, negate are exact mod p",
  "For every pair of elements of either bn254 prime field (scalar field and base field), each arithmetic operator, in every by-value, by-reference and assigning form, returns the representative of the mathematically exact result modulo the field's prime. Identities, sums and products over iterators and arbitrary chains of operations agree with integer arithmetic as well.",
  "inputs histories", "all pairs of field elements (2^508), all operator spellings, all operation sequences",
  "the tests try random elements, which hit a carry or final-subtraction boundary with probability about 2^-64; only chosen limb patterns reach them",
  ["bn254/src/fr.rs", "bn254/src/fq.rs", "zkstd/src/macros/field.rs", "zkstd/src/macros/field/ring.rs", "zkstd/src/macros/field/group.rs", "zkstd/src/arithmetic/limbs/bits_256/normal.rs"],
  [("Montgomery multiplication, squaring and modular add/sub over four limbs", "zkstd/src/arithmetic/limbs/bits_256"), ("operator macros", "zkstd/src/macros/field")])
P("P02", "Field inversion, division, powers, square roots and roots of unity",
  "For every element of either prime field: inversion fails exactly on zero and otherwise yields the multiplicative inverse; exponentiation by any exponent equals repeated multiplication; a square root is returned exactly for squares and squares back to its argument. The published two-adic root of unity has exactly the advertised order.",
  "inputs", "all field elements and all 256-bit exponents",
  "the tests sample a few random elements and never non-residues, zero or boundary exponents together",
  ["bn254/src/fr.rs", "bn254/src/fq.rs", "zkstd/src/macros/field.rs", "zkstd/src/arithmetic/limbs/bits_256/normal.rs"],
  [("binary/Fermat inversion and square-and-multiply", "zkstd/src/arithmetic/limbs/bits_256/normal.rs"), ("square root by exponentiation", "bn254/src/fr.rs, bn254/src/fq.rs")])
P("P03", "Field encodings, bits, digits, conversions and ordering are faithful",
  "Every byte, bit, signed-digit, integer, wide and SCALE representation of a prime-field element denotes the value of that element, decoding inverts encoding, and strings that denote no element are refused (wide inputs are reduced). Equality, ordering and sign follow the represented integer, and conversion between the two fields preserves it.",
  "inputs", "all field elements, all 32-byte and 64-byte strings, all 64-bit integers",
  "round trips on random values cannot distinguish a wrong canonical form, and never present the modulus, its multiples or values just around them",
  ["bn254/src/fr.rs", "bn254/src/fq.rs", "bn254/src/fqn.rs", "zkstd/src/arithmetic/limbs/bits_256/represent.rs", "zkstd/src/macros/field.rs"],
  [("to/from bytes and wide reduction", "zkstd/src/arithmetic/limbs/bits_256/represent.rs"), ("bit and NAF recoding", "zkstd/src/arithmetic/limbs/bits_256")])
P("P04", "The ff-compatible interface denotes the same field as the native one",
  "Arithmetic, powers, inversion, square roots, byte representations and published constants reached through the ff-compatible field types agree with integer arithmetic modulo the same primes, and fail (instead of answering) exactly where the interface says so: inverse of zero, root of a non-square, non-canonical representation.",
  "inputs", "all elements and all 32-byte representations of both fields",
  "no existing test drives the compatibility layer beyond compiling it",
  ["bn254/src/ff_compat.rs", "bn254/src/fqn.rs"],
  [("ff::Field / ff::PrimeField implementations", "bn254/src/ff_compat.rs")])
P("P05", "Generic 256- and 384-bit limb arithmetic is exact for any odd modulus",
  "For every admissible odd modulus and every reduced operands, the public multi-limb routines (add, sub, double, negate, multiply, square, Montgomery conversion, power, inversion, bit and digit recoding) return the exact residue. This includes 384-bit moduli that no curve in the repository uses.",
  "inputs configurations", "all odd moduli leaving the top bit free, all reduced operands, 4 and 6 limbs",
  "the tests use one modulus with small constants, so lost carries between limbs never show",
  ["zkstd/src/arithmetic/limbs/bits_256/normal.rs", "zkstd/src/arithmetic/limbs/bits_384/normal.rs", "zkstd/src/arithmetic/limbs/bits_384/represent.rs", "zkstd/src/arithmetic/utils.rs"],
  [("schoolbook products with Montgomery reduction", "zkstd/src/arithmetic/limbs")])
P("P06", "Extension-field tower arithmetic equals polynomial arithmetic",
  "For every elements of the quadratic, sextic and dodecic extensions, addition, multiplication (dense and sparse), squaring, inversion, conjugation, Frobenius maps, powers and square roots agree with arithmetic in the quotient polynomial ring over the base field, in every operator form.",
  "inputs", "all elements of the three extension fields, all exponents",
  "the tests check a couple of identities on random elements, which a consistently wrong coefficient or a wrong by-reference operator satisfies",
  ["bn254/src/fqn.rs", "zkstd/src/macros/extension_field.rs", "zkstd/src/macros/extension_field/field.rs", "zkstd/src/macros/extension_field/group.rs", "zkstd/src/macros/extension_field/ring.rs", "bn254/src/params.rs"],
  [("Karatsuba products and Frobenius coefficients", "bn254/src/fqn.rs, bn254/src/params.rs")])
P("P07", "Weierstrass curve addition, doubling and negation obey the group law",
  "On G1, G2 and Grumpkin, for every pair of valid points in every affine/projective combination and with every projective representative, addition, subtraction, doubling, negation and iterated sums return the point given by the chord-and-tangent law, including equal, opposite and identity operands.",
  "inputs histories", "all pairs of curve points and all their projective representatives",
  "the tests add random points: coincidences (equal, opposite, identity, mixed representatives) have probability zero",
  ["zkstd/src/arithmetic/points/weierstrass.rs", "zkstd/src/macros/curve.rs", "zkstd/src/macros/curve/weierstrass.rs", "zkstd/src/macros/curve/weierstrass/group.rs", "bn254/src/g1.rs", "bn254/src/g2.rs", "grumpkin/src/curve.rs"],
  [("complete addition formulas and mixed addition", "zkstd/src/arithmetic/points/weierstrass.rs"), ("operator macros", "zkstd/src/macros/curve")])
P("P08", "Scalar multiplication is the exact module action on every curve",
  "For every scalar and every point of G1, G2 and Grumpkin, multiplication in every operator form equals the sum of that many copies of the point, respects addition of scalars and points, and maps to the identity exactly when the scalar is a multiple of the order of the point. Random points are on the curve and in the group.",
  "inputs", "all scalars (2^254) and points",
  "tests use a few small or random scalars; zero, order-1 and dense or sparse digit patterns are not among them",
  ["zkstd/src/traits/curve.rs", "zkstd/src/macros/curve.rs", "zkstd/src/macros/curve/weierstrass/group.rs", "zkstd/src/arithmetic/limbs/bits_256/represent.rs", "bn254/src/g1.rs", "bn254/src/g2.rs", "grumpkin/src/curve.rs"],
  [("double-and-add over the NAF of the scalar", "zkstd/src/macros/curve.rs")])
P("P09", "Point validity, equality, conversion and encoding are sound",
  "The on-curve predicate of G1, G2 and Grumpkin accepts exactly the points satisfying the curve equation plus the identity; equality identifies exactly the representatives of one point; affine/projective conversions, batch normalisation, raw-byte and SCALE encodings preserve the point; decoding yields the encoded point.",
  "inputs", "all coordinate tuples, all points and representatives, all encodings",
  "the tests evaluate the predicate on valid points only and compare points of one representative",
  ["zkstd/src/macros/curve/weierstrass.rs", "zkstd/src/macros/curve.rs", "bn254/src/g1.rs", "bn254/src/g2.rs", "grumpkin/src/curve.rs"],
  [("is_on_curve, PartialEq and From conversions", "zkstd/src/macros/curve")])
P("P10", "Twisted Edwards curves: group law, validity, scalars and conversion",
  "For curves built from the public twisted-Edwards interface, all additions, doublings, scalar multiplications, equality, validity and conversions agree with the affine Edwards law for every pair of points and every extended representative.",
  "inputs histories", "all pairs of points, representatives and scalars of Jubjub, the curve the repository's own test builds from the interface",
  "the tests exercise random points only, never off-curve coordinates, torsion points or degenerate representatives",
  ["zkstd/src/arithmetic/points/edwards.rs", "zkstd/src/macros/curve/edwards.rs", "zkstd/src/macros/curve/edwards/group.rs", "zkstd/src/traits/curve/edwards.rs"],
  [("extended-coordinate formulas", "zkstd/src/arithmetic/points/edwards.rs")])
P("P11", "The pairing is the bilinear, non-degenerate optimal ate pairing",
  "For every G1 point and every G2 subgroup point the pairing equals the optimal ate pairing of bn254; it is bilinear, maps exactly the pairs containing the identity to one, and a multi-pairing equals the product of its pairings for every number and order of pairs. Target-group operations follow the group of its values.",
  "inputs", "all pairs of points, all scalars, all multisets of pairs",
  "tests check a few bilinearity identities, which any fixed power of a wrong pairing also satisfies",
  ["bn254/src/pairing.rs", "bn254/src/gt.rs", "bn254/src/g2.rs", "bn254/src/params.rs", "bn254/src/fqn.rs"],
  [("Miller loop with line coefficients", "bn254/src/pairing.rs, bn254/src/g2.rs"), ("final exponentiation", "bn254/src/fqn.rs")])
P("P12", "Subgroup membership is decided exactly",
  "For every point of the twist curve, the membership test accepts exactly the points whose order divides the group order; every point of G1 is a member; random points and generators are members.",
  "inputs", "all points of both curves, including those outside the prime-order subgroup and of small order",
  "tests only ever construct subgroup members, so a test that accepts too much cannot fail",
  ["bn254/src/g2.rs", "bn254/src/g1.rs", "zkstd/src/macros/curve"],
  [("endomorphism-based is_torsion_free", "bn254/src/g2.rs")])
GADV = "adversarial-witness runtime monitor: recorded constraint system of the real gadget, witness forged by deviate-and-repair, judged by a reference model"
P("P13", "A constraint system is satisfied exactly when every stated relation holds",
  "For every circuit built from variables, public inputs and linear/multiplicative relations, satisfaction is reported exactly when each relation is true of the assigned values, whatever the number, order and mixture of variables and relations. One false relation anywhere makes the system unsatisfied; every variable keeps the value it was given.",
  "inputs histories", "all programs of allocations, operators and equality relations, all values",
  "the tests build a handful of small satisfied circuits; false relations in chosen places and mixed wires are not among them",
  ["zkstd/src/r1cs.rs", "zkstd/src/r1cs/wire.rs", "zkstd/src/matrix.rs", "zkstd/src/matrix/row.rs", "zkstd/src/matrix/vector.rs", "zkstd/src/circuit/gadget/field.rs"],
  [("R1cs::constrain and is_sat", "zkstd/src/r1cs.rs"), ("sparse evaluation", "zkstd/src/matrix")])
P("P14", "Sparse rows, matrices and vectors are exact linear algebra, also after encoding",
  "For every sparse rows, sparse matrices and dense vectors, addition, subtraction, negation, scaling, evaluation, matrix-vector products, element-wise products and their operator forms equal linear algebra over the field, and SCALE encodings decode to the same object.",
  "inputs", "all matrices and vectors, including repeated, cancelling and absent entries and empty rows",
  "the tests reach this code only through satisfied circuits, where a dropped cancelling term does not show",
  ["zkstd/src/matrix.rs", "zkstd/src/matrix/row.rs", "zkstd/src/matrix/vector.rs", "zkstd/src/r1cs/wire.rs"],
  [("merging of coefficients", "zkstd/src/matrix/row.rs"), ("products", "zkstd/src/matrix.rs, zkstd/src/matrix/vector.rs")])
P("P15", "Circuit gadgets compute their function and are complete",
  "For every input, each field, binary and curve-point gadget yields the value of the function it names, and the circuit it builds is satisfied by honest values exactly when the relation it states (equality, range, public input) is true. No input makes a gadget panic.",
  "inputs", "all field elements, bits, ranges and points given to the gadgets",
  "the tests feed each gadget a few random values; boundaries, zero and coincidences decide most of the branches",
  ["zkstd/src/circuit/gadget/field.rs", "zkstd/src/circuit/gadget/binary.rs", "zkstd/src/circuit/gadget/curve.rs"],
  [("arithmetic, bit decomposition, comparison and selection gadgets", "zkstd/src/circuit/gadget/field.rs"), ("point gadgets", "zkstd/src/circuit/gadget/curve.rs")])
P("P16", "Circuit gadgets are sound: no satisfying witness gives a wrong result",
  "For fixed inputs of a gadget, no assignment of its internal and output variables satisfies the constraints the gadget emitted unless the outputs have the value of the function it names (and stated relations are true). A dishonest prover choosing every unfixed variable gains nothing.",
  "inputs", "all assignments of the gadget's free variables, all inputs",
  "tests only run the honest assignment, for which a missing constraint makes no difference",
  ["zkstd/src/circuit/gadget/field.rs", "zkstd/src/circuit/gadget/binary.rs", "zkstd/src/circuit/gadget/curve.rs", "zkstd/src/r1cs.rs"],
  [("constraints emitted by each gadget", "zkstd/src/circuit/gadget")], technique=GADV,
  note="The adversary deviates from the honest witness at one or several variables and repairs what the constraints determine; soundness holes needing non-local solutions may escape it. ")
P("P17", "A circuit's constraint system depends on its structure, never on values",
  "For every gadget and structure parameter, building the circuit from different values gives identical constraint matrices, variable counts and public input counts, so that keys made from one instance serve every other.",
  "inputs", "all pairs of value assignments of one circuit",
  "tests build each circuit from one set of values",
  ["zkstd/src/circuit/gadget/field.rs", "zkstd/src/circuit/gadget/binary.rs", "zkstd/src/circuit/gadget/curve.rs", "zkstd/src/r1cs.rs"],
  [("gadget control flow", "zkstd/src/circuit/gadget")])
G16F = ["groth16/src/prover.rs", "groth16/src/verifier.rs", "groth16/src/zksnark.rs", "groth16/src/fft.rs", "groth16/src/msm.rs", "groth16/src/poly.rs", "zkstd/src/r1cs.rs"]
P("P18", "Groth16 completeness: every true statement is proven and accepted",
  "For every circuit, every satisfying assignment and every randomness of setup and prover, Groth16 key generation and proving succeed and the verifier accepts the proof for its public inputs. This holds for every number of constraints, variables, public inputs and unused wires, without panic.",
  "inputs", "all circuits and satisfying assignments, all setup and proving randomness",
  "the tests prove two or three fixed circuits whose sizes avoid the boundaries of the evaluation domain",
  G16F, [("key generation", "groth16/src/zksnark.rs"), ("proof creation", "groth16/src/prover.rs"), ("verification", "groth16/src/verifier.rs")])
P("P19", "Groth16 soundness: only a true statement's own proof is accepted",
  "For every circuit, the Groth16 verifier rejects proofs made from unsatisfying assignments, proofs presented with any other or any different number of public inputs, proofs under another key and proofs whose elements were altered, swapped or negated. It decides exactly the Groth16 pairing equation.",
  "inputs", "all circuits, false witnesses, public input vectors and proof elements",
  "the tests verify honest proofs and at most one wrong input",
  G16F, [("verification equation", "groth16/src/verifier.rs"), ("binding of public inputs", "groth16/src/prover.rs, zkstd/src/r1cs.rs")],
  technique="adversarial runtime monitor: dishonest provers and proof mutators driven against the real verifier, judged by the Groth16 equation evaluated independently")
P("P20", "Groth16 parameters are exactly the reference string of the circuit",
  "For every circuit and every setup randomness, all elements of the Groth16 proving and verification keys equal the reference string computed from the circuit's QAP and the trapdoor: right element, right position, right count, right group, for every variable including public and unused ones. The five secrets are drawn independently, each from enough randomness.",
  "inputs", "all circuits, all trapdoors",
  "the tests see the key only through accepted proofs, which a key with extra or weakened elements also gives",
  ["groth16/src/zksnark.rs", "groth16/src/fft.rs", "groth16/src/poly.rs"],
  [("evaluation of the QAP at the trapdoor", "groth16/src/zksnark.rs")],
  technique="differential runtime oracle: trapdoor recovered from the seeded generator, reference string recomputed by slow QAP interpolation")
P("P21", "Groth16 proofs are blinded by fresh randomness in all three elements",
  "For every circuit and witness, a Groth16 proof equals the specified one for the blinding values drawn from the generator: all three elements vary with both blinding factors, two proofs of one statement share no element, and a proof reveals nothing that distinguishes witnesses of one statement under equal total exponents.",
  "inputs", "all circuits, witnesses and blinding values",
  "tests check that a proof verifies, which an unblinded proof also does",
  ["groth16/src/prover.rs", "groth16/src/msm.rs"],
  [("blinding with r and s", "groth16/src/prover.rs")],
  technique="differential runtime oracle: blinding values recovered from the seeded generator, proof exponents recomputed from the trapdoor")
P("P22", "FFT and polynomial arithmetic are exact for every size",
  "For every size and input of the evaluation domain, the transforms, coset transforms and their inverses equal direct evaluation and interpolation; they invert one another; the vanishing polynomial and division by it are exact on the coset; polynomial operators equal coefficientwise and pointwise algebra for operands of any lengths.",
  "inputs", "all polynomials, lengths and domain sizes",
  "the tests transform random full-length vectors of a few sizes",
  ["groth16/src/fft.rs", "groth16/src/poly.rs"],
  [("radix-2 transforms", "groth16/src/fft.rs"), ("operators on coefficients and values", "groth16/src/poly.rs")])
P("P23", "Multi-scalar multiplication equals the sum of the single products",
  "For every list of points and scalars on G1 and G2 the multi-scalar multiplication equals the sum of the individual scalar multiplications, whatever the length, the order, repeated, opposite or identity points, and zero, small, dense or maximal scalars.",
  "inputs", "all lists of points and scalars",
  "the tests compare one or two random lists, which never produce bucket collisions of equal or opposite points",
  ["groth16/src/msm.rs", "zkstd/src/macros/curve.rs"],
  [("windowed bucket method", "groth16/src/msm.rs")])

P("P24", "Results do not depend on threads, schedules, other work or the std feature",
  "For every input, multi-scalar multiplication, transforms, Groth16 setup and proving give the same result for every number of worker threads, every schedule, idle or shared pools, calls from inside or outside a pool and many calls at once, as the sequential build without the std feature. They terminate and have no data races.",
  "schedules configurations inputs", "all schedules of the parallel loops over 1 to 16 threads, with and without std",
  "the tests run each parallel routine once in the default pool; the sequential variant of the code is never run",
  ["groth16/src/msm.rs", "groth16/src/fft.rs", "groth16/src/prover.rs", "groth16/src/zksnark.rs"],
  [("parallel bucket accumulation", "groth16/src/msm.rs"), ("parallel halves of a transform", "groth16/src/fft.rs")],
  technique="race detection and schedule stress: thread sanitizer with an instrumented standard library, and results compared over pools, disturbed workers, concurrent calls and the sequential build",
  note="Schedules are those the scheduler and injected naps bring about. ")

NV = "nova/src/"
def N(*f): return [NV + x for x in f]
P("P25", "Folding keeps truth: the fold is satisfied exactly when its parts are",
  "For every relation, running instance and new instance, prover and verifier compute the same folded instance, its witness opens its commitments, and it satisfies the relaxed relation exactly when both parts satisfy theirs (except with negligible probability over the challenge). The challenge depends on everything the verifier is given.",
  "inputs histories", "all relations, all pairs of instances and witnesses true and false, all lengths of folding",
  "the tests fold one small true circuit several times; a false part, a cross term of a different shape or a weak challenge is never seen",
  N("prover.rs", "verifier.rs", "proof.rs", "relaxed_r1cs.rs", "relaxed_r1cs/instance.rs", "relaxed_r1cs/witness.rs", "hash.rs", "pedersen.rs"),
  [("cross term and fold of the witness", "nova/src/prover.rs, nova/src/relaxed_r1cs.rs"), ("fold of the instance and Fiat-Shamir challenge", "nova/src/verifier.rs, nova/src/hash.rs")],
  technique="differential and adversarial runtime monitor: folds recomputed over big integers, commitments opened through known logarithms, dishonest instances offered to the real folding prover and verifier")
P("P26", "Incremental computation yields the iterates and every step is accepted",
  "For every pair of step functions, initial values and number of steps, proving never panics, the claimed values are the iterates of the functions, and the proof of every step, made from public parameters of those functions, is accepted by the verifier.",
  "inputs histories", "all step functions and initial values, all numbers of steps",
  "the tests run one function from one initial value for a few steps",
  N("ivc.rs", "circuit/augmented.rs", "circuit/nifs.rs", "circuit/transcript.rs", "prover.rs", "verifier.rs", "proof.rs", "function.rs", "gadget/relaxed_instance.rs", "gadget/instance.rs", "gadget/big_nat.rs"),
  [("prove_step over the cycle of curves", "nova/src/ivc.rs"), ("step circuit", "nova/src/circuit/augmented.rs")],
  technique="online trace monitor: every step of real runs compared with the iterates of the functions and verified")
P("P27", "A recursive proof is accepted only for the computation it was made for",
  "The verifier of recursive proofs rejects every proof whose step number, values, running or new instances, witnesses or commitments were altered, exchanged with another step's or run's, or invented, and every proof presented under other public parameters. It never panics on a decoded proof.",
  "inputs", "all alterations of a proof, all invented proofs and parameters",
  "the tests verify honest proofs only",
  N("proof.rs", "ivc.rs", "relaxed_r1cs.rs", "relaxed_r1cs/instance.rs", "hash.rs", "pedersen.rs"),
  [("hash, satisfaction and opening checks", "nova/src/proof.rs")],
  technique="adversarial runtime monitor: altered, mixed and forged proofs offered to the real verifier; consistent forgeries rebuilt with every outer hash correct")
P("P28", "Proofs, parameters, keys and relations survive encoding; nothing else decodes",
  "For every recursive proof, public parameters, commitment key, relation, instance and witness, and for every tower element and point prepared for pairings, decoding its SCALE encoding gives an equal value and consumes it exactly. Truncated encodings are refused with an error, altered ones are refused or decode to a value that re-encodes consistently, and no input makes a decoder panic.",
  "inputs", "all values of the encodable types, all byte strings",
  "one test round-trips one proof; malformed encodings are never presented",
  ["nova/src/proof.rs", "nova/src/ivc.rs", "nova/src/pedersen.rs", "nova/src/relaxed_r1cs.rs", "nova/src/relaxed_r1cs/instance.rs", "nova/src/relaxed_r1cs/witness.rs", "zkstd/src/matrix.rs", "zkstd/src/matrix/row.rs", "zkstd/src/matrix/vector.rs", "bn254/src/g2.rs", "bn254/src/fqn.rs"],
  [("derived and hand-written SCALE codecs", "nova/src/ivc.rs, nova/src/proof.rs, zkstd/src/matrix, bn254/src/g2.rs")])
P("P29", "Hash and transcript are one function, outside and inside circuits",
  "For every sequence of inputs, the MiMC hash, the folding transcript and the hash of an instance equal their specification, the circuit versions constrain exactly the same values on either curve of the cycle, and inputs that differ as specified tuples give different digests.",
  "inputs", "all sequences of field elements, points and instances",
  "the tests compare circuit and native hash on one random input; identical mistakes in both, or one seldom input, do not show",
  N("hash.rs", "hash/helper.rs", "gadget/mimc.rs", "circuit/transcript.rs", "gadget/relaxed_instance.rs", "relaxed_r1cs/instance.rs"),
  [("MiMC rounds and sponge", "nova/src/hash.rs, nova/src/gadget/mimc.rs"), ("absorption of points and instances", "nova/src/circuit/transcript.rs, nova/src/relaxed_r1cs/instance.rs")])
P("P30", "Big-integer gadgets compute modulo a foreign order, and cannot be cheated",
  "For every operands, the circuit big integers (conversion, limbs, grouping, addition, multiplication, reduction, modular multiplication and equality) have the value integer arithmetic gives, are satisfied by honest values, and no assignment of their free variables satisfies the constraints with another value.",
  "inputs", "all operands below 2^256, all limb patterns and carries, all witnesses",
  "the tests multiply a few random operands honestly; carries at the boundary and dishonest witnesses are never tried",
  N("gadget/big_nat.rs", "gadget/relaxed_instance.rs"),
  [("limb arithmetic with carries", "nova/src/gadget/big_nat.rs")], technique=GADV,
  note="The adversary proposes values for undetermined variables and propagates the constraints; holes needing other solutions may escape it. ")
P("P31", "Commitments are the sums they should be and keys cover their witnesses",
  "For every key and vector the Pedersen commitment is the sum of the products of element and generator, whatever the length up to that of the key; it is additive; a key holds distinct generators on the curve, as many as asked for, each drawn on its own so that none follows from others; and the keys that setup makes have a generator for every element of every witness and error.",
  "inputs configurations", "all keys and vectors, all step functions of setup",
  "the tests commit only inside whole computations, where an ignored element does not show",
  N("pedersen.rs", "ivc.rs", "prover.rs"),
  [("Pedersen commitment", "nova/src/pedersen.rs"), ("length of the keys", "nova/src/ivc.rs")])
P("P32", "The step circuit folds, hashes and steps as specified and refuses the rest",
  "For every curve of the cycle, step function and state, the step circuit is satisfied by honest inputs and outputs the specified hash and fold. It is unsatisfied when the incoming hash, step counter, initial or current values, running instance or commitment disagree with it, also for the base case, and its constraints do not depend on values.",
  "inputs histories", "all states of a computation and all inconsistent ones",
  "the tests build the circuit once on the honest path and check satisfaction",
  N("circuit/augmented.rs", "circuit/nifs.rs", "circuit/transcript.rs", "gadget/relaxed_instance.rs", "gadget/instance.rs", "ivc.rs", "function.rs"),
  [("augmented circuit", "nova/src/circuit/augmented.rs"), ("fold in the circuit", "nova/src/circuit/nifs.rs, nova/src/gadget/relaxed_instance.rs")], technique=GADV)
P("P33", "The pallet accepts exactly valid recursive proofs from signed origins",
  "For every sequence of dispatched calls, the pallet's verify succeeds exactly when the origin is signed and the recursive proof sent is valid under the public parameters sent with it; unsigned and root origins, altered proofs and parameters of another computation are refused with an error; no call depends on earlier ones. The API for other pallets decides alike.",
  "histories inputs", "all sequences of calls, origins, proofs and parameters",
  "the pallet's single test dispatches one honest proof from one signed origin and needs crates that are not always at hand",
  ["pallet/nova/src/lib.rs", "pallet/nova/src/traits.rs", "pallet/nova/src/types.rs", "nova/src/proof.rs"], [("dispatchable and IvcVerifier", "pallet/nova/src/lib.rs")],
  technique="runtime monitor of dispatched calls: the pallet's own sources compiled against stand-ins for Substrate, driven with honest and hostile calls",
  note="Stand-ins replace frame-support and frame-system, so that runtime, storage and weights are not observed. ")
P("P34", "No undefined behaviour; results do not depend on checks or compiler",
  "For every input, public operations of all crates read and write only memory they own, keep the contracts of unsafe operations, and do not rely on integer overflow: they give the same verdicts and values in a build with overflow checks, debug assertions and sanitizers, made by another compiler, as in the plain release build.",
  "inputs configurations", "all inputs of the public operations, release and checked builds",
  "the tests run in one build profile without sanitizers",
  ["zkstd/src/arithmetic", "zkstd/src/macros", "zkstd/src/matrix", "zkstd/src/circuit/gadget", "bn254/src", "grumpkin/src", "groth16/src", "nova/src"],
  [("limb arithmetic, indexing and shifts", "zkstd/src/arithmetic, groth16/src/msm.rs, groth16/src/fft.rs"), ("decoders", "nova/src, zkstd/src/matrix")],
  technique="sanitizers: the other monitors' workloads in an AddressSanitizer build with overflow checks and debug assertions by a newer compiler, its verdicts compared with the plain build's")
