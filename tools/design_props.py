"""Per property: what is made symbolic, the oracle, and why the verdict reaches what a test cannot."""

HOW = {
'C01': ('The class IntegersModP(p) is built by the real factory; operands are symbolic integers over several multiples of p on both sides of zero, '
        'or symbolic byte strings, wrapped by the real constructor and combined by the real operators (int on either side too).',
        'Integer arithmetic on the raw inputs, reduced once at the end; for sequences of operations, the expression evaluated over the integers.'),
'C02': ('Inverse by the real extended Euclid: for small p a symbolic element, every quotient sequence becomes a path; for large p windows around the points where '
        'quotient sequences change. Powers: concrete exponents over symbolic bases (normal forms), symbolic exponents over concrete bases.',
        'x * inverse(x) = 1; (a/b)*b = a; the n-fold product; an exception for zero.'),
'C03': ('Symbolic pairs; every Euclidean run is one path. Common divisors are symbolic too (multiples of a symbolic g).',
        'Bezout identity, divisibility by multiplication back, and divisibility of d by every g that divides both.'),
'C04': ('Coefficient lists are symbolic ring elements, leading ones that vanish included, so that the length of every intermediate result is symbolic and decided by path.',
        'Schoolbook convolution and Horner evaluation over the raw integers, written in the harness; canonical form (no leading zero).'),
'C05': ('Symbolic dividend and divisor; the division loop forks on which leading coefficients cancel. Modular powers by the real square-and-multiply.',
        'f = q g + r with deg r < deg g; exactness of products; the power reduced by schoolbook division.'),
'C06': ('Elements of F_{p^m} with symbolic coefficients and a fixed irreducible modulus; inverses by the real polynomial Euclid.',
        'Polynomial arithmetic reduced by the modulus in the harness; x x^-1 = 1; x^(q) = x.'),
'C07': ('Symbolic coefficients into the tests; generators with the random source stubbed by symbolic draws, number of attempts bounded.',
        'Exhaustive definition: no factorisation into lower-degree monics (a table computed by brute force in the harness for the small fields), order of x by stepping.'),
'C08': ('Symbolic abscissae (assumed distinct) and ordinates; the routines run with real field inversion for small p, inverse-as-unknown for large p.',
        'Values of the returned polynomial at every abscissa, degree bound, uniqueness by recovering a symbolic polynomial; products of (t - root).'),
'C09': ('Symbolic coefficient and value vectors through the real recursion, every supported order up to 16 (and larger orders with few unknowns).',
        'Evaluation at the powers of the root; mutual inverse; schoolbook cyclic convolution.'),
'C10': ('Leaves, claimed branches, roots and indices are symbolic byte strings and integers; blake2s is an uninterpreted collision-free function, so a forged branch is a free choice of 32-byte strings that may be digests of anything.',
        'The committed list itself: an accepted branch opens the leaf of that index.'),
'C11': ('Symbolic tables of field values packed, committed, opened and unpacked by the real functions.',
        'The committed table, encoded by to_bytes.'),
'C12': ('Entries of branches are symbolic byte strings; equality of entries is decided by path, so every pattern of repetitions is covered.',
        'Decompress(compress(x)) == x, length of the compressed form, number of stored entries.'),
'C13': ('Entropy is symbolic bytes (the digest extends it as an uninterpreted function); indices are compared with the documented arithmetic and the quantified facts: range, exclusion, prefix, reachability.',
        'The definition on four-byte words; reachability is a satisfiability query for each allowed index.'),
'C14': ('Coefficients of fixed monomial sets are symbolic, zeros included, so the set of stored monomials is decided by path.',
        'A dictionary of exponents multiplied out over the integers in the harness; evaluation at symbolic points.'),
'C15': ('Symbolic coefficients, points and function tables (a table is a vector of symbolic field elements read by a lookup function).',
        'The table itself, at every point of the domain; one/zero for delta functions.'),
'C16': ('Symbolic inputs and step coefficients; arbitrary pairs of rows are written into a real instance and its real circuit is evaluated.',
        'The transition applied directly; circuit true iff every written transition holds.'),
'C17': ('Symbolic basis and shift; listed points and roots are compared for every element of the field.',
        'Linear combinations computed in the harness; membership iff root.'),
'C18': ('The whole prover and the whole verifier run symbolically on a symbolic input (FFT, Merkle trees, FRI, spot checks), with the hash as one fixed oracle instance.',
        'The verifier returns True, or raises no assertion: every assertion on the path becomes a query for all inputs.'),
'C19': ('A cheating prover is the real prover with one column, entry or part replaced by an arbitrary value (a symbolic nonzero deviation), or an honest proof presented for another statement; the real verifier decides.',
        'Rejection on every path: acceptance must be infeasible for every nonzero deviation.'),
'C20': ('Direct proofs: all committed values symbolic; the verifier accepts iff the interpolation conditions hold, compared with existence of a low-degree polynomial computed by Lagrange in the harness. Layered proofs: symbolic coefficients and deviations at fixed challenges.',
        'Reed-Solomon membership; rejection of every altered part.'),
'C21': ('Symbolic significand, exponent, zero flag and sign over two binary fields.',
        'The documented formulas, on integers.'),
'C22': ('Symbolic secrets, values and openings over the real schemes with concrete one-way permutations.',
        'Acceptance iff every bit maps to the commitment; equality of decoded values of two accepted openings.'),
'C23': ('Symbolic graphs, isomorphisms, maps; every random draw is symbolic, so schedules of the two-party protocol are covered.',
        'Existence of the bijection taking one edge set to the other, spelled out in the harness.'),
'C24': ('Symbolic colourings, challenges, openings; random draws symbolic.',
        'Both ends opened to different colours among three; counting of draws for the distribution.'),
'C25': ('Symbolic candidates and symbolic random bases.',
        'Definition of witness by direct modular powers; a table of primes computed in the harness.'),
'C26': ('Sequences of operations with symbolic arguments, chains with one symbolic change, neighbours with symbolic answers (HTTP stub), clock stub; the hash of a block is an uninterpreted function of its JSON text.',
        'A list kept in the harness; validity recomputed from the definition; longest strictly longer valid chain.'),
'C27': ('Symbolic numerators and denominators (unreduced ones too) through the real constructors and operators.',
        'Cross products over the integers modulo p.'),
'C28': ('Sequences of calls with symbolic arguments through the real decorator; real constructors with symbolic choice among parameters.',
        'The undecorated function, identity of repeated results.'),
'C29': ('Symbolic witnesses, evaluation points and polynomials through the real construct_* functions and the combination.',
        'The defining identities of the trace, constraint, quotient and boundary polynomials; linearity.'),
'C30': ('Symbolic matrices and right-hand sides; pivoting forks on which entries vanish.',
        'Substitution into the equations; nonsingularity by the determinant.'),
'C31': ('Symbolic coefficients, basis vectors and shifts through the real Taylor_Expansion, select_subspace and eval_on_subspace; the recursion splits on which leading coefficients vanish.',
       'Horner evaluation of the parts at x^2+x over Z/2; the listed points and Horner evaluation at each.'),
}
