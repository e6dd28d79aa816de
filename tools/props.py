"""The properties: text, anchors, and (for those not claimed) the reason."""

CLAIMED = {
'C01': dict(
  title='Z/p arithmetic is exact, canonical and pure',
  statement='For every prime p, an element of Z/p built from any integer, element or byte string holds the representative in [0,p) of that value, and sums, differences, products and negations of elements (mixed with ints on either side too) equal integer arithmetic modulo p. Two elements, or an element and an int, compare equal exactly when they agree modulo p, and no operation alters its operands. Encoding to bytes and decoding gives back the same element.',
  forall='every prime modulus, every pair of integers (negative and larger than p included), every byte string, every expression built from the operators',
  why='Tests try a handful of small elements of a few fields; carries past p, negative operands, large byte strings and mixed operand types are unsampled.',
  files=['starks/modp.py', 'starks/numbertype.py'],
  mech=[('Z/p element class', 'starks/modp.py:IntegersModP'), ('operand coercion and reflected operators', 'starks/numbertype.py:typecheck,DomainElement')]),
'C02': dict(
  title='Inverses, division and powers in Z/p are exact',
  statement='For every prime p, each nonzero element times its inverse is one, a/b times b is a for every nonzero b, and x**n for n >= 0 is the n-fold product. Inverting or dividing by zero raises an error and never yields a value.',
  forall='every prime modulus, every element, every exponent n >= 0',
  why='Tests invert a few elements of small fields; the Euclidean recursion and the exponent bit patterns vary with every input.',
  files=['starks/modp.py', 'starks/numbertype.py', 'starks/euclidean.py'],
  mech=[('inverse by extended Euclid', 'starks/modp.py:IntegerModP.inverse'), ('square and multiply', 'starks/numbertype.py:DomainElement.__pow__,powmod'), ('division', 'starks/numbertype.py:FieldElement.__truediv__')]),
'C03': dict(
  title='gcd and extended Euclid return a greatest common divisor with Bezout factors',
  statement='For every pair of integers, and every pair of polynomials over a field, the extended algorithm returns (x, y, d) with x*a + y*b = d, where d divides both arguments and every common divisor divides d; the plain gcd agrees with it up to a unit.',
  forall='every pair of integers and every pair of polynomials over Z/p',
  why='Tests use a few pairs; the recursion takes a different path for every quotient sequence, and zero arguments and exact multiples are edge cases.',
  files=['starks/euclidean.py'],
  mech=[('gcd', 'starks/euclidean.py:gcd'), ('extended algorithm', 'starks/euclidean.py:extended_euclidean_algorithm')]),
'C04': dict(
  title='Univariate polynomials form a commutative ring and evaluate correctly',
  statement='For every coefficient ring Z/p, sums, differences, products, negations and powers of polynomials (mixed with constants on either side too) have exactly the coefficients of the mathematical result, never keep a leading zero, compare equal exactly when all coefficients agree, and leave their operands unchanged. Evaluating at a point, or composing with a polynomial, gives the mathematical value. Encoding to bytes and decoding gives back the same polynomial.',
  forall='every list of coefficients of either operand, every exponent, every evaluation point',
  why='Tests use fixed polynomials; cancellation of leading terms, coefficients that vanish modulo p, the zero polynomial and mixed operands depend on the values.',
  files=['starks/polynomial.py', 'starks/numbertype.py'],
  mech=[('polynomial class', 'starks/polynomial.py:polynomials_over'), ('normalisation', 'starks/polynomial.py:strip')]),
'C05': dict(
  title='Polynomial division gives quotient and remainder, and gcds divide',
  statement='For every polynomial f and every nonzero g over a field, division returns q and r with f = q*g + r and r of smaller degree than g, so dividing a product by a factor is exact; dividing by the zero polynomial is refused. The modular power f.powmod(n, g) is the remainder of f**n for every n >= 0. The gcd of two polynomials divides both and is divided by every common factor.',
  forall='every dividend and every nonzero divisor over Z/p',
  why='Tests divide a few fixed polynomials; the loop depends on which leading coefficients cancel.',
  files=['starks/polynomial.py', 'starks/euclidean.py', 'starks/numbertype.py'],
  mech=[('long division', 'starks/polynomial.py:Polynomial.__divmod__,__truediv__,__mod__'), ('Euclid', 'starks/euclidean.py'), ('modular power', 'starks/numbertype.py:DomainElement.powmod')]),
'C06': dict(
  title='Extension fields F_{p^m} obey the field axioms',
  statement='For every irreducible modulus of degree m over Z/p, sums, differences, products, negations and powers of elements (mixed with base-field constants too) are the remainders of the polynomial results modulo that polynomial, equality is equality of residues, operands are not altered, and every nonzero element times its inverse is one while zero has no inverse. Every element to the power p^m is itself. Encoding to bytes and decoding gives back the same element, and different elements have different encodings.',
  forall='every element, or pair of elements, of the field; every exponent',
  why='Tests use a few elements of small fields; reduction paths and inverse recursion depend on the coefficients.',
  files=['starks/finitefield.py', 'starks/polynomial.py', 'starks/euclidean.py'],
  mech=[('field class', 'starks/finitefield.py:FiniteField'), ('reduction', 'starks/finitefield.py:Fq.__init__,__mul__'), ('inverse', 'starks/finitefield.py:Fq.inverse')]),
'C07': dict(
  title='Irreducibility and primitivity tests decide exactly; generators obey them',
  statement='A polynomial over Z/p is declared irreducible exactly when its degree is at least one and it has no factor of smaller positive degree, and declared primitive exactly when x generates the multiplicative group modulo it. The generators return a monic polynomial of the requested degree with the requested property for every outcome of the random source, and a field built without a modulus has a primitive one.',
  forall='every polynomial of bounded degree, every outcome of the random source',
  why='Tests try a few known polynomials and whatever the random source happened to return.',
  files=['starks/poly_utils.py', 'starks/finitefield.py'],
  mech=[('irreducibility test', 'starks/poly_utils.py:is_irreducible'), ('primitivity test', 'starks/poly_utils.py:is_primitive'), ('generators', 'starks/poly_utils.py:generate_irreducible_polynomial,generate_primitive_polynomial'), ('monic test', 'starks/poly_utils.py:is_monic')]),
'C08': dict(
  title='Interpolation, vanishing polynomials and batch inversion are exact',
  statement='For every set of distinct abscissae and every values, each interpolation routine (general, two-point, four-point and batched four-point) returns the polynomial of degree below the number of points that takes those values, so a polynomial is recovered from its values. The vanishing polynomial of a list of roots is monic, of degree their number, and its value at t is the product of (t - root). Batch inversion maps every nonzero value to its inverse and zero to zero, in order, and does not alter its input.',
  forall='every choice of distinct abscissae, every ordinates, every list of roots or values',
  why='Tests use a few fixed point sets; zeros among the inputs, and their position, change the running products.',
  files=['starks/poly_utils.py'],
  mech=[('interpolation', 'starks/poly_utils.py:lagrange_interp,lagrange_interp_2,lagrange_interp_4,multi_interp_4'), ('vanishing polynomial', 'starks/poly_utils.py:zpoly'), ('batch inversion', 'starks/poly_utils.py:multi_inv')]),
'C09': dict(
  title='The number-theoretic transform is evaluation, and its inverse interpolation',
  statement='For every root of unity of order n = 2^k (or 3*2^k) and every polynomial of at most n coefficients, the transform lists the values at the powers of the root in order, and the inverse transform returns the polynomial of degree below n with the given values (missing ones count as zero), so the two are mutually inverse. Multiplication through the transform gives the coefficients of the product modulo x^n - 1. Inputs are not altered.',
  forall='every coefficient vector or value vector of length up to n',
  why='Tests transform a few fixed vectors; padding of short inputs and the butterfly order matter for every vector.',
  files=['starks/fft.py'],
  mech=[('transform', 'starks/fft.py:NonBinaryFFT,fft_1d,_fft,_simple_ft'), ('product', 'starks/fft.py:mul_polys')]),
'C10': dict(
  title='Merkle commitments: honest branches verify, and bind index and leaf',
  statement='For every list of leaves of one size whose number is a power of two (at least four) and every index, the branch made for that index verifies against the root and yields the committed leaf, whole, as bytes or as the number they encode. Under a collision-free hash, any branch of the right length that verifies for an index yields the committed leaf of exactly that index, any altered branch is refused, one that divides neighbouring leaves elsewhere too, and two lists of leaves have the same root only if they are equal.',
  forall='every leaf content, every index, every claimed branch, at every byte position',
  why='Tests check the honest branch and one or two corruptions of fixed leaves; soundness quantifies over all forged branches.',
  files=['starks/merkle_tree.py'],
  mech=[('tree', 'starks/merkle_tree.py:merkelize'), ('branch', 'starks/merkle_tree.py:mk_branch,verify_branch'), ('leaf order', 'starks/merkle_tree.py:permute4,get_index_in_permuted')]),
'C11': dict(
  title='Packed Merkle leaves commit every polynomial value and unpack to it',
  statement='For every set of evaluations of several polynomials of one dimension (or several), opening any index of the tree built from them and unpacking the leaf gives, in order, the encodings of exactly the committed values at that index. Different evaluations give different roots, and under a collision-free hash an accepted opening never unpacks to another value.',
  forall='every table of evaluations, every index, every claimed branch',
  why='Tests use one fixed table; slicing of the packed leaf depends on the number of polynomials and their dimension.',
  files=['starks/merkle_tree.py'],
  mech=[('packing', 'starks/merkle_tree.py:merkelize_polynomial_evaluations'), ('unpacking', 'starks/merkle_tree.py:unpack_merkle_leaf')]),
'C12': dict(
  title='Proof compression is lossless',
  statement='For every list of Merkle branches, and every low-degree proof of the shape the prover makes, decompressing the compressed form gives back exactly the original, whatever entries repeat and whatever bytes they hold. The reported length is the number of bytes of the compressed form, and repeated entries are stored once.',
  forall='every content of the entries and every pattern of equal entries, within bounded shapes',
  why='Tests compress one or two fixed proofs; back references depend on which entries coincide.',
  files=['starks/compression.py'],
  mech=[('branches', 'starks/compression.py:compress_branches,decompress_branches,bin_length'), ('low-degree proofs', 'starks/compression.py:compress_fri,decompress_fri')]),
'C13': dict(
  title='Query sampling stays in range and skips excluded multiples; helpers are exact',
  statement='For every entropy string, the sampled indices are exactly as many as requested, all lie in [0, modulus), never are a multiple of the excluded number, depend only on the arguments, and use successive four-byte words so that every allowed index is reachable; asking for more keeps the earlier ones, and words beyond the given entropy are fresh ones, from the hash of the last 32 bytes. The helpers are exact too: the power-of-two test, the cycle of powers of a field element, and the MiMC iteration.',
  forall='every entropy string, modulus below 2^24, count and excluded multiple; every field element and input',
  why='Tests sample one seed; the range and exclusion arithmetic must hold for every digest.',
  files=['starks/utils.py'],
  mech=[('sampling', 'starks/utils.py:get_pseudorandom_indices'), ('power of two', 'starks/utils.py:is_a_power_of_2'), ('power cycle', 'starks/utils.py:get_power_cycle'), ('MiMC', 'starks/utils.py:mimc')]),
'C14': dict(
  title='Multivariate polynomials form a commutative ring and evaluate correctly',
  statement='For every number of variables, sums, differences, products, negations and powers of multivariate polynomials (mixed with constants on either side too) have exactly the coefficients of the mathematical result, store no zero coefficient, compare equal exactly when all coefficients agree, and leave their operands unchanged. Evaluation at any point, or substitution of polynomials, gives the mathematical value and respects sums and products; points of the wrong dimension are refused. The degree is the largest total degree, and the generated variables evaluate to the coordinates.',
  forall='every coefficient assignment over bounded monomial sets, every evaluation point',
  why='Tests use a few fixed polynomials; cancellation and coefficients that vanish modulo p depend on values.',
  files=['starks/multivariate_polynomial.py', 'starks/utils.py'],
  mech=[('ring', 'starks/multivariate_polynomial.py:multivariates_over'), ('monomial products', 'starks/multivariate_polynomial.py:add_power_tuples'), ('variables', 'starks/utils.py:generate_Xi_s')]),
'C15': dict(
  title='Converting between univariate, multivariate polynomials and functions is exact',
  statement='Lifting a univariate polynomial into one of several variables, and projecting a polynomial that uses one variable only, keeps its coefficients and its values. Over every small finite field the delta function of a point is one at that point and zero at all others, and the polynomial built from a function table takes the values of the table at every point.',
  forall='every coefficient, every point, every function table over the listed fields',
  why='Tests convert one or two fixed polynomials and functions over one field; a function table has q^(q^n) instances.',
  files=['starks/multivariate_polynomial.py', 'starks/poly_utils.py'],
  mech=[('lifting', 'starks/poly_utils.py:make_multivar'), ('projection', 'starks/poly_utils.py:project_to_univariate'), ('function to polynomial', 'starks/poly_utils.py:construct_multivariate_coefficients,construct_multivariate_dirac_delta')]),
'C16': dict(
  title='An AIR instance accepts exactly the traces that follow the transition',
  statement='The computational trace starts with the input and every later state is the step polynomials applied to the one before; the output is its last state and the witness is the trace, register by register. The constraint polynomials vanish at a pair of states exactly when the second is the image of the first, and the circuit holds for a trace exactly when every transition does. The boundary constraints fix every register of the input.',
  forall='every input, every step coefficient, every pair of rows written into the trace',
  why='Tests build one or two instances with fixed inputs and never check a wrong trace.',
  files=['starks/air.py', 'starks/utils.py'],
  mech=[('trace', 'starks/air.py:get_computational_trace'), ('constraints', 'starks/air.py:AIR.generate_constraint_polynomials'), ('circuit', 'starks/air.py:AIR.generate_monotone_circuit'), ('boundary', 'starks/air.py:AIR.generate_boundary_constraints')]),
'C17': dict(
  title='Affine spaces list their points; vanishing polynomials vanish exactly there',
  statement='An affine space given by a basis and a shift lists shift plus every combination of the basis exactly once each, has as many points as its length says, and contains exactly these. The vanishing polynomial of an affine space is zero at its points and at no other element of the field, by either construction, and has as many roots as points.',
  forall='every basis coefficient and every shift over the listed fields, every field element',
  why='Tests use one fixed basis without a shift; dependence of the basis and the shift change which elements are roots.',
  files=['starks/reedsolomon.py', 'starks/poly_utils.py'],
  mech=[('space', 'starks/reedsolomon.py:AffineSpace'), ('vanishing polynomial', 'starks/poly_utils.py:construct_affine_vanishing_polynomial'), ('Moore construction', 'starks/poly_utils.py:construct_affine_vanishing_polynomial_Moore')]),
'C18': dict(
  title='STARK completeness: an honest proof of a computation is accepted',
  statement='For every computation (any polynomial step, width and power-of-two length) and every input, the proof the prover makes is accepted by the verifier for the computation, its input and its output. Repeated proving gives proofs that are also accepted.',
  forall='every input of computations of bounded shape, at the challenges of one fixed oracle instance',
  why='Tests prove three fixed runs; a prover that fails for a zero output, a zero register or a cancelling coefficient passes them.',
  files=['starks/stark.py', 'starks/fri.py', 'starks/merkle_tree.py', 'starks/fft.py', 'starks/utils.py'],
  mech=[('prover', 'starks/stark.py:STARK.mk_proof'), ('verifier', 'starks/stark.py:STARK.verify_proof'), ('trace, constraint, remainder and boundary polynomials', 'starks/stark.py:construct_computation_polynomial,construct_constraint_polynomial,construct_remainder_polynomials,construct_boundary_polynomials')]),
'C19': dict(
  title='STARK soundness: false statements and altered proofs are rejected',
  statement='A trace with any wrong entry, an honest proof shown for another input, output or computation, columns that do not satisfy the transition, boundary or linear-combination relations, openings from another depth of the tree, and an honest proof with any part replaced by something else are all rejected by the verifier. The positions that are checked and the weights of the combination are determined by the commitments.',
  forall='every nonzero deviation of one entry, coefficient or part, every input, at the challenges of one fixed oracle instance',
  why='Tests verify honest proofs only; soundness quantifies over all the proofs a cheating prover could send.',
  files=['starks/stark.py', 'starks/fri.py', 'starks/merkle_tree.py', 'starks/utils.py'],
  mech=[('verifier', 'starks/stark.py:STARK.verify_proof,verify_proof_at_position'), ('spot checks', 'starks/utils.py:get_pseudorandom_indices'), ('low-degree test', 'starks/fri.py')]),
'C20': dict(
  title='Low-degree proofs: accepted for low degree, rejected above the bound',
  statement='The FRI proof made for a polynomial below the degree bound is accepted. A codeword that no polynomial below the bound passes through (at the positions that count) has no accepted proof, and neither has a proof with a column that does not belong to the committed values, with a branch that ends elsewhere than in a leaf or opens a part of one, or with any altered part.',
  forall='every codeword over 8 to 32 points, every coefficient and deviation over 128 points, at the challenges of fixed oracle instances',
  why='Tests prove two fixed polynomials; acceptance must fail for every codeword off the code.',
  files=['starks/fri.py', 'starks/merkle_tree.py', 'starks/poly_utils.py', 'starks/utils.py'],
  mech=[('prover', 'starks/fri.py:SmoothSubgroupFRI.generate_proximity_proof'), ('verifier', 'starks/fri.py:SmoothSubgroupFRI.verify_proximity_proof')]),
'C21': dict(
  title='Floating-point numbers over binary fields combine as the documented values',
  statement='An element of a binary field read as an integer orders as that integer does, and its bit list, binary string and power helpers agree with it. The product, quotient, sum, power and constructor of the floating-point numbers give significand, exponent, zero flag and sign of the documented formulas, and leave their operands unchanged.',
  forall='every pair of operands (significand, exponent, zero flag, sign) over two binary fields',
  why='Tests compare the zero flag of a few fixed operations only.',
  files=['starks/floatingpoint.py', 'starks/finitefield.py'],
  mech=[('floating point', 'starks/floatingpoint.py:FloatingPoint'), ('binary helpers', 'starks/finitefield.py:num_to_binary_list_pow,add_binary_nums,Fq.LT,Fq.two_pow')]),
'C22': dict(
  title='Commitments open to the committed value, and to that value only',
  statement='A bit or integer commitment opens: the revealed secret verifies against the commitment and decodes to what was committed, and an integer that does not fit is refused. Every bit of an integer has a secret of its own. An opening is accepted exactly when every one of its bits maps to the commitment, none missing and none added, and no two accepted openings of one commitment show different values.',
  forall='every committed value, every random secret, every opening presented',
  why='Tests commit to a few values and present honest openings only.',
  files=['misc/commitment.py'],
  mech=[('bit commitment', 'misc/commitment.py:BBSBitCommitmentScheme,BBSBitCommitmentVerifier'), ('integer commitment', 'misc/commitment.py:BBSIntCommitmentScheme,BBSIntCommitmentVerifier')]),
'C23': dict(
  title='Graph-isomorphism proofs: complete, sound, and simulatable',
  statement='With an isomorphism, every round is accepted whatever the random choices. The verifier accepts a map exactly when it is one-to-one and takes the copy to the chosen graph, so a copy for which both answers are accepted gives an isomorphism; conviction needs every one of enough rounds accepted. The copy is a uniformly random renaming, and the simulator makes accepted transcripts without an isomorphism.',
  forall='every graph up to the bound, every isomorphism, every map presented, every outcome of the random source',
  over=['inputs', 'schedules'],
  why='Tests run the honest protocol a few times; soundness quantifies over all maps and graphs.',
  files=['misc/zero_knowledge.py'],
  mech=[('prover', 'misc/zero_knowledge.py:ZKProver'), ('verifier', 'misc/zero_knowledge.py:ZKVerifier.accepts'), ('simulator', 'misc/zero_knowledge.py:simulate_protocol'), ('rounds', 'misc/zero_knowledge.py:convince_beyond_doubt')]),
'C24': dict(
  title='3-colouring proofs: complete, sound, and revealing one random pair',
  statement='With a proper colouring every edge asked for is accepted. The verifier accepts exactly when the openings, two and no more, open the commitments of both ends to different colours among three, so for a graph without a colouring some edge is refused. Only edges are opened, with fresh secrets, and the colours shown are each ordered pair of different colours equally often.',
  forall='every colouring, every edge, every commitment and opening presented, every outcome of the random source',
  over=['inputs', 'schedules'],
  why='Tests run honest commitments of one graph; they never present a wrong opening.',
  files=['misc/zkp_3_coloring.py', 'misc/commitment.py'],
  mech=[('prover', 'misc/zkp_3_coloring.py:ZK3ColProver'), ('verifier', 'misc/zkp_3_coloring.py:ZK3ColVerifier'), ('round', 'misc/zkp_3_coloring.py:run_protocol')]),
'C25': dict(
  title='Primality testing never rejects a prime and is exact about witnesses',
  statement='A prime is accepted whatever the random bases; a number is rejected exactly when some base drawn is a witness against it, and an accepted one has passed every round. Decomposition and parity are exact. The generator squares modulo a product of two primes congruent to 3 modulo 4, drawn one after the other, whatever the random source returned.',
  forall='every candidate up to 48 and every sequence of bases; every argument of the helpers up to 12 bits',
  why='Tests run the generator on whatever primes the random source happened to give.',
  files=['misc/primality.py', 'misc/blum_blum_shub.py'],
  mech=[('Miller-Rabin', 'misc/primality.py:probablyPrime,isWitness,decompose'), ('generator', 'misc/blum_blum_shub.py:blum_blum_shub,find_good_prime,good_prime,parity')]),
'C26': dict(
  title='Blockchain: blocks link, history is immutable, the longest valid chain wins',
  statement='After every sequence of operations the blocks are numbered in order, hold exactly the transactions pending when they were made, in order, and name the hash of the block before; earlier blocks never change. A chain is valid exactly when every link and every proof of work is, so no block that others build on can be altered, left out, repeated or exchanged. Consensus adopts a longest strictly longer valid chain of the network if there is one and otherwise keeps its own.',
  forall='every sequence of operations, every altered field, every answer of the network, within bounded lengths',
  over=['inputs', 'histories', 'schedules'],
  why='Tests construct an empty chain only.',
  files=['misc/blockchain.py', 'misc/run_blockchain.py'],
  mech=[('bookkeeping', 'misc/blockchain.py:Blockchain.new_block,new_transaction'), ('validity', 'misc/blockchain.py:Blockchain.valid_chain,valid_proof,hash'), ('consensus', 'misc/blockchain.py:Blockchain.resolve_conflicts'), ('endpoints', 'misc/run_blockchain.py')]),
'C27': dict(
  title='Fractions over Z/p form a field isomorphic to Z/p',
  statement='For every prime p, sums, differences, products, quotients, negations, inverses and powers of fractions (mixed with integers too) equal the mathematical fraction, two fractions are equal exactly when cross products agree modulo p, and dividing by zero is refused. Numerator and denominator stay below p, operands are unchanged, and encoding to bytes and decoding gives back an equal fraction.',
  forall='every numerator and every denominator that does not vanish, for the listed primes',
  why='Tests use a few fixed fractions; cancellation by the gcd depends on every operand.',
  files=['starks/rationals_modp.py', 'starks/euclidean.py', 'starks/numbertype.py'],
  mech=[('fractions', 'starks/rationals_modp.py:RationalsModP')]),
'C28': dict(
  title='Fields and rings built twice are the same type, different ones are not',
  statement='A memoized function returns for every call what the function returns for these arguments, given by position or by name, the same object for the same call, and computes it once. So constructing a field or ring again gives the same type, constructing one with another modulus, degree, number of variables or base gives a different one, and an error is not remembered.',
  forall='every sequence of calls with arguments from a small range',
  over=['inputs', 'histories'],
  why='Tests construct each field once; a stale cache entry shows only after another construction.',
  files=['starks/numbertype.py', 'starks/modp.py', 'starks/finitefield.py', 'starks/polynomial.py', 'starks/multivariate_polynomial.py'],
  mech=[('cache', 'starks/numbertype.py:memoize'), ('cached constructors', 'IntegersModP, FiniteField, polynomials_over, multivariates_over, RationalsModP')]),
'C29': dict(
  title='The polynomials of a STARK encode exactly the computation',
  statement='For every witness the trace polynomials have degree below the number of steps and take its values at the powers of the root; a constraint polynomial at x is the trace at g*x minus the step applied to the trace at x; its quotient times the polynomial that vanishes on every step but the last gives it back, and is refused exactly when a constraint fails at one of them. Boundary polynomial times its vanishing polynomial plus the line through input and output is the trace. The combination is linear in every polynomial, each of which counts, with weights that depend on the commitment and the position only.',
  forall='every witness, every evaluation point, every constraint polynomial, every commitment, within bounded lengths',
  why='The tests of these functions are commented out, or check lengths only; a wrong quotient or weight shows for particular witnesses.',
  files=['starks/stark.py', 'starks/fft.py', 'starks/poly_utils.py', 'starks/polynomial.py'],
  mech=[('trace, constraint, remainder, boundary polynomials', 'starks/stark.py:construct_*_polynomials'), ('combination', 'starks/stark.py:compute_pseudorandom_linear_combination'), ('weights', 'starks/stark.py:get_pseudorandom_ks')]),
'C30': dict(
  title='Gaussian elimination solves every nonsingular system',
  statement='For every nonsingular square system over a finite field (entries given as field elements or constant polynomials) the solver returns the solution: substituting it into the equations gives the right-hand side.',
  forall='every coefficient and right-hand side of systems of bounded size',
  why='Tests solve one or two fixed systems; which pivots vanish depends on the entries.',
  files=['starks/poly_utils.py'],
  mech=[('elimination', 'starks/poly_utils.py:gauss')]),
'C31': dict(
  title='Taylor expansion and subspace tools of the binary-field transform are exact',
  statement='The Taylor expansion at x^2+x of a binary polynomial of at most n terms gives linear parts, one per power of x^2+x below the next power of two, that recombine to exactly that polynomial. The subspace selected from an affine space is spanned by exactly its first basis vectors, contains as many points as they generate, and the space itself is unchanged. Evaluating a polynomial on a space lists its value at every point, in the order of the space.',
  forall='every binary polynomial, every basis, every polynomial over the field, within bounded sizes',
  why='Tests expand one short polynomial and check types; the splitting of the parts depends on the number of terms.',
  files=['starks/fft.py', 'starks/fri.py', 'starks/reedsolomon.py'],
  mech=[('expansion', 'starks/fft.py:Additive_FFT.Taylor_Expansion'), ('subspace', 'starks/fri.py:select_subspace'), ('values', 'starks/fri.py:eval_on_subspace')]),
}

DECLINED = {
'C32': dict(
  title='The low-degree test over affine subspaces is complete and sound',
  statement='A proof made for a polynomial below the bound over an affine subspace of a binary field is accepted, and a codeword far from the code has none.',
  forall='every codeword',
  why='Acceptance must fail for every codeword off the code.',
  files=['starks/fri.py'],
  mech=[('affine FRI', 'starks/fri.py:AffineSubspaceFRI')],
  reason='AffineSubspaceFRI is a placeholder: commit overwrites its table with a single value and builds no Merkle tree, query compares values with randomly drawn positions, so nothing is committed that a proof could be held to; the parts that work (subspaces, values on them) are C31'),
'C33': dict(
  title='The additive transform over binary fields is evaluation',
  statement='The transform over an affine subspace of a binary field lists the values of the polynomial at its points, and its inverse interpolates.',
  forall='every coefficient vector',
  why='Every coefficient vector counts.',
  files=['starks/fft.py'],
  mech=[('additive transform', 'starks/fft.py:Additive_FFT'), ('binary transform', 'starks/fft.py:BinaryFFT')],
  reason='Additive_FFT.adfft leaves out the constant term and forms its twisted polynomial inside the field instead of over it, its inverse fails unless the points coincide, and BinaryFFT raises NotImplementedError: the code does not compute the transform and the tests fix only the types of its results, so there is no behaviour to keep; its Taylor expansion, which works, is C31'),
'C34': dict(
  title='Multivariate division gives quotient and remainder',
  statement='Dividing a multivariate polynomial by others gives quotients and a remainder that recombine to the dividend.',
  forall='every dividend and divisor',
  why='Which monomials cancel depends on the coefficients.',
  files=['starks/multivariate_polynomial.py'],
  mech=[('division', 'starks/multivariate_polynomial.py:MultiVarPolynomial.__truediv__,__mod__')],
  reason='the code prints both polynomials to text and hands them to sympy, whose parser and Groebner code are not within reach of the symbolic executor (tens of thousands of lines with C-level dispatch); everything else of the class is C14'),
'C35': dict(
  title='APR witnesses and low-degree-extension reduction are exact',
  statement='A witness of an AIR instance, reduced to an algebraic placement and routing instance, satisfies the reduced constraints exactly when the trace follows the transition, and the interactive reduction to Reed-Solomon membership accepts exactly then.',
  forall='every witness and every outcome of the random source',
  why='Acceptance must fail for every wrong witness.',
  files=['starks/apr.py', 'starks/ali.py', 'starks/reedsolomon.py'],
  mech=[('reduction', 'starks/apr.py:APR'), ('interactive reduction', 'starks/ali.py:ALI')],
  reason='APR needs a field of characteristic 2 and traces of 511 steps with a primitive element of that field, its witness code and the whole of ALI call placeholders (draw_random_interpolant returns 0, ReedSolomonCode.draw_random_sample is not implemented), so there is no behaviour to decide; the parts that work (AIR, affine spaces, vanishing polynomials, function-to-polynomial) are C15, C16 and C17'),
}
