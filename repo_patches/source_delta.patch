From f67640fbf39f2b3933069d4d4f88eb2e576c2428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:28 +0000
Subject: [PATCH 01/31] fix: key the memoize cache on keyword values, not only
 their names

FiniteField(p, m, polynomialModulus=f) returned the field built for the first
modulus ever passed by keyword.  Field elements and polynomials get the
__hash__ their __eq__ had removed, so that they can be part of the key.
---
 starks/modp.py       | 3 +++
 starks/numbertype.py | 2 +-
 starks/polynomial.py | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/starks/modp.py b/starks/modp.py
index 17babff..d66bb25 100644
--- a/starks/modp.py
+++ b/starks/modp.py
@@ -63,6 +63,9 @@ def IntegersModP(p):
     def __ne__(self, other):
       return isinstance(other, IntegerModP) is False or self.n != other.n
 
+    def __hash__(self):
+      return hash(self.n)
+
     @typecheck
     def __divmod__(self, divisor):
       q, r = divmod(self.n, divisor.n)
diff --git a/starks/numbertype.py b/starks/numbertype.py
index dac40bf..bb113ad 100644
--- a/starks/numbertype.py
+++ b/starks/numbertype.py
@@ -13,7 +13,7 @@ def memoize(f):
   cache = {}
 
   def memoizedFunction(*args, **kwargs):
-    argTuple = args + tuple(kwargs)
+    argTuple = args + tuple(sorted(kwargs.items()))
     if argTuple not in cache:
       cache[argTuple] = f(*args, **kwargs)
     return cache[argTuple]
diff --git a/starks/polynomial.py b/starks/polynomial.py
index 4f224eb..8f9e1b8 100644
--- a/starks/polynomial.py
+++ b/starks/polynomial.py
@@ -105,6 +105,9 @@ def polynomials_over(ring=fractions.Fraction):
       return self.degree() != other.degree() or any(
           [x != y for (x, y) in zip(self, other)])
 
+    def __hash__(self):
+      return hash(tuple(self.coefficients))
+
     @typecheck
     def __add__(self, other):
       new_coefficients = [
-- 
2.43.0


From dd6d0fd21cb011e39950bfe0f80f5c330a12835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:34 +0000
Subject: [PATCH 02/31] fix: reduce a Z/p element built from bytes modulo p

---
 starks/modp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/modp.py b/starks/modp.py
index d66bb25..9c7f0d0 100644
--- a/starks/modp.py
+++ b/starks/modp.py
@@ -31,7 +31,7 @@ def IntegersModP(p):
     def __init__(self, n):
       try:
         if isinstance(n, bytes):
-          self.n = int.from_bytes(n, 'big')
+          self.n = int.from_bytes(n, 'big') % IntegerModP.p
         else:
           self.n = int(n) % IntegerModP.p
       except:
-- 
2.43.0


From 2413046fec4c21e44716f669fe6bb831f5809a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:44 +0000
Subject: [PATCH 03/31] fix: serialise polynomials and extension field elements

Polynomial.to_bytes returned nothing, and an extension field element built
from bytes was not reduced modulo the field's modulus.
---
 starks/finitefield.py | 3 +--
 starks/polynomial.py  | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/starks/finitefield.py b/starks/finitefield.py
index 9e8e609..86300b4 100644
--- a/starks/finitefield.py
+++ b/starks/finitefield.py
@@ -77,7 +77,7 @@ def FiniteField(p, m, polynomialModulus=None):
 
     def __init__(self, poly):
       if isinstance(poly, bytes):
-        self.poly = Polynomial(poly)
+        self.poly = Polynomial(poly) % polynomialModulus
       elif type(poly) is Fq:
         self.poly = poly.poly
       elif type(poly) is int or type(poly) is Zp:
@@ -145,7 +145,6 @@ def FiniteField(p, m, polynomialModulus=None):
 
       return Fq(x) * Fq(d.coefficients[0].inverse())
 
-    # TODO(rbharath): This function is broken!!
     def to_bytes(self):
       return self.poly.to_bytes()
 
diff --git a/starks/polynomial.py b/starks/polynomial.py
index 8f9e1b8..2b1ce4a 100644
--- a/starks/polynomial.py
+++ b/starks/polynomial.py
@@ -167,7 +167,7 @@ def polynomials_over(ring=fractions.Fraction):
       return y
 
     def to_bytes(self):
-      coeff_bytes = [coeff.to_bytes(32, 'big') for coeff in self.coefficients]
+      return b''.join([coeff.to_bytes() for coeff in self.coefficients])
 
 
   def Zero():
-- 
2.43.0


From f5bed77657392a602ad0ab5e73b4de998a337497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 04/31] fix: RationalModP.__ne__ named a class that does not
 exist

---
 starks/rationals_modp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/rationals_modp.py b/starks/rationals_modp.py
index 6e547a1..269196d 100644
--- a/starks/rationals_modp.py
+++ b/starks/rationals_modp.py
@@ -78,7 +78,7 @@ def RationalsModP(p):
 
     @typecheck
     def __ne__(self, other):
-      return isinstance(other, IntegerModP) is False or (
+      return isinstance(other, RationalModP) is False or (
           (self.m * other.n) % RationalModP.p != (other.m * self.n) % RationalModP.p)
 
     # TODO(rbharath): This should be possible to implement. Think more about it.
-- 
2.43.0


From 4bec9896bb7923c47fc20c52fe6069b7d3a644b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 05/31] fix: multi_inv maps zero to zero

Field elements have no truth value of their own, so the test for zero never
fired and the entry of a zero came out as one.
---
 starks/poly_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 99694ac..4c3eae3 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -314,7 +314,7 @@ def multi_inv(field, values):
   inv = 1 / partials[-1]
   outputs = [0] * len(values)
   for i in range(len(values), 0, -1):
-    outputs[i - 1] = partials[i - 1] * inv if values[i - 1] else 0
+    outputs[i - 1] = partials[i - 1] * inv if values[i - 1] != 0 else 0
     if values[i-1] != 0:
       inv = inv * values[i - 1]
   return outputs
-- 
2.43.0


From 8678a48ed198a8d7152f3d054b6b4df3dbc1bae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 06/31] fix: is_irreducible accepted constants

---
 starks/poly_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 4c3eae3..3c5707c 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -165,6 +165,10 @@ def is_irreducible(polynomial: Poly, p: int) -> bool:
     raise TypeError("Given a polynomial that's not over %s, but instead %r" %
                     (ZmodP.__name__, polynomial.ring.__name__))
 
+  # units and zero are not irreducible
+  if polynomial.degree() < 1:
+    return False
+
   poly = polynomials_over(ZmodP).factory
   x = poly([0, 1])
   power_term = x
-- 
2.43.0


From 0cfd154d9f6966087aa9fd31ce370d172cff46b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 07/31] fix: is_primitive accepted the polynomial x

---
 starks/poly_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 3c5707c..72f22c4 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -234,6 +234,9 @@ def is_primitive(irred_poly: Poly, modulus: int, degree: int) -> bool:
   Zp = IntegersModP(modulus)
   polysOver = polynomials_over(Zp)
   x = polysOver([0, 1])
+  # x is irreducible, but its root is zero
+  if x % irred_poly == 0:
+    return False
   # This is 1 right?
   one = polysOver([1])
   for i, factor in enumerate(prime_factors):
-- 
2.43.0


From 12675efea4f4ad3872623875a379b1ca0b32ee96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:18 +0000
Subject: [PATCH 08/31] fix: mul_polys returned the product times the transform
 length

---
 starks/fft.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starks/fft.py b/starks/fft.py
index 11a19d9..a8859ff 100644
--- a/starks/fft.py
+++ b/starks/fft.py
@@ -342,4 +342,6 @@ def mul_polys(a: List[FieldElement], b: List[FieldElement], root_of_unity: Field
     b = b + [0] * (len(rootz) - len(b) - 1)
   x1 = _fft(a, rootz[:-1])
   x2 = _fft(b, rootz[:-1])
-  return _fft([(v1 * v2) for v1, v2 in zip(x1, x2)], rootz[:0:-1])
+  # The inverse transform carries a factor of its length
+  invlen = 1 / root_of_unity.__class__(len(rootz) - 1)
+  return [(x * invlen) for x in _fft([(v1 * v2) for v1, v2 in zip(x1, x2)], rootz[:0:-1])]
-- 
2.43.0


From 7ee9a06875e8425f1e210856f2f9b7eae303011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:34 +0000
Subject: [PATCH 09/31] fix: cast coefficients of a multivariate polynomial
 into its ring

Plain ints were kept as they were, so that 3*X + 4*X over Z/7 was not zero.
---
 starks/multivariate_polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/multivariate_polynomial.py b/starks/multivariate_polynomial.py
index 44096e1..154c84d 100644
--- a/starks/multivariate_polynomial.py
+++ b/starks/multivariate_polynomial.py
@@ -82,8 +82,8 @@ def multivariates_over(ring: Field, num_vars: int) -> MultiVarPoly:
       elif isinstance(c, ring):
         self.coefficients = {(0,)*num_vars: c}
       elif isinstance(c, dict):
-        coefficients = remove_zero_coefficients(c)
-        self.coefficients = c
+        self.coefficients = {monomial: coeff if isinstance(coeff, ring) else ring(coeff)
+                             for monomial, coeff in c.items()}
       elif isinstance(c, int):
         self.coefficients = {(0,)*num_vars: ring(c)}
       else:
-- 
2.43.0


From 37b0d4e5b0fd1a71fea550717343c17c1913341b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 10/31] fix: construct_multivariate_coefficients summed over
 the wrong vectors

The sum ranges over F_q^n; the loop took vectors of length m (the degree of
the extension) over the prime field, whatever n was.
---
 starks/poly_utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 72f22c4..4a4d731 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -297,10 +297,13 @@ def construct_multivariate_coefficients(field: Field, step_fn: Callable, n:int)
     m = 1
   else:
     raise ValueError
-  # Iterate over field indices
-  field_indices = itertools.product(*[range(p) for _ in range(m)])
-  for index in field_indices:
-    index = [field(ind) for ind in list(index)]
+  # Iterate over all vectors of n field elements
+  if m == 1:
+    elements = [field(i) for i in range(p)]
+  else:
+    elements = [field(list(coeffs)) for coeffs in itertools.product(range(p), repeat=m)]
+  for index in itertools.product(elements, repeat=n):
+    index = list(index)
     term = construct_multivariate_dirac_delta(field, index, n)
     poly += step_fn(index) * term
   return poly
-- 
2.43.0


From 85bdbffa955819867a978ae962cff29f067d2996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 11/31] fix: an integer commitment could be opened with bits
 missing

---
 misc/commitment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misc/commitment.py b/misc/commitment.py
index 9f39539..2605432 100644
--- a/misc/commitment.py
+++ b/misc/commitment.py
@@ -106,6 +106,9 @@ class BBSIntCommitmentVerifier(object):
     ]
 
   def verify(self, secrets, bitCommitments):
+    # zip would pass over bits that are missing on either side
+    if not len(secrets) == len(bitCommitments) == len(self.verifiers):
+      return False
     return all(
         bitVerifier.verify(secret, commitment)
         for (bitVerifier, secret,
-- 
2.43.0


From 89009645d9686c8e56b506b6c90bde4cf9e134db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 12/31] fix: the graph isomorphism verifier accepted maps that
 merge vertices

---
 misc/zero_knowledge.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/misc/zero_knowledge.py b/misc/zero_knowledge.py
index 48143e1..4b1cfce 100644
--- a/misc/zero_knowledge.py
+++ b/misc/zero_knowledge.py
@@ -131,6 +131,11 @@ class ZKVerifier(object):
     graph_to_check = [self.G1, self.G2][choice - 1]
     f = isomorphism
 
+    # An isomorphism maps distinct vertices to distinct vertices
+    vertices = set(v for e in H for v in e)
+    if len(set(f(v) for v in vertices)) != len(vertices):
+      return False
+
     # The correctness of this check depends on python list comparison being
     # done with == since each graph is a list of tuples.
     is_valid_isomorphism = (graph_to_check == apply_isomorphism(H, f))
-- 
2.43.0


From 4eb9fffb6eb1741c5fd8d83fdcd431ffbe0b638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 13/31] fix: the 3-colouring verifier accepted a fourth colour

---
 misc/zkp_3_coloring.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/misc/zkp_3_coloring.py b/misc/zkp_3_coloring.py
index 0fd2419..2902440 100644
--- a/misc/zkp_3_coloring.py
+++ b/misc/zkp_3_coloring.py
@@ -78,11 +78,17 @@ class ZK3ColVerifier(object):
   def accepts(self, revealed):
     revealed_colors = []
 
+    if len(revealed) != len(self.chosen_edge):
+      return False
+
     for (w, bitSecrets) in zip(self.chosen_edge, revealed):
       trueColor = self.verifier.decode(bitSecrets, self.committed_coloring[w])
       revealed_colors.append(trueColor)
       if not self.verifier.verify(bitSecrets, self.committed_coloring[w]):
         return False
+      # two bits could also name a fourth colour
+      if trueColor not in (0, 1, 2):
+        return False
 
     return revealed_colors[0] != revealed_colors[1]
 
-- 
2.43.0


From 0dfbbb900cc34c09d26db80a9d146bce4bd54092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 14/31] fix: consensus trusted the chain length a neighbour
 claimed

---
 misc/blockchain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index a65ec7e..d36be84 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -84,8 +84,9 @@ class Blockchain:
       response = requests.get(f'http://{node}/chain')
 
       if response.status_code == 200:
-        length = response.json()['length']
         chain = response.json()['chain']
+        # the length a neighbour claims is not evidence
+        length = len(chain)
 
         # Check if the length is longer and the chain is valid
         if length > max_length and self.valid_chain(chain):
-- 
2.43.0


From 1d379cd39fee60ce64bfaf039f3ede59496e10ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 15/31] fix: the simulated transcript carried the inverse of
 its witness

---
 misc/zero_knowledge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misc/zero_knowledge.py b/misc/zero_knowledge.py
index 4b1cfce..9f18f50 100644
--- a/misc/zero_knowledge.py
+++ b/misc/zero_knowledge.py
@@ -187,7 +187,8 @@ def simulate_protocol(G1, G2):
   pi = make_permutation_function(isomorphism)
   H = apply_isomorphism(G, pi)
 
-  return H, choice, pi
+  # the witness of a transcript maps H back to the chosen graph
+  return H, choice, make_inverse_permutation_function(isomorphism)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 3c00a5685a82c46314703450b1ae71ddd5be9a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:20 +0000
Subject: [PATCH 16/31] fix: the Moore construction of an affine vanishing
 polynomial

It returned the kernel as a plain polynomial, which does not vanish on the
space, failed for dimension two and more, and ignored the shift.
---
 starks/poly_utils.py | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 4a4d731..7411627 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -72,29 +72,30 @@ def construct_affine_vanishing_polynomial(field: Field, aff: AffineSpace) -> Pol
 def construct_affine_vanishing_polynomial_Moore(field: Field, aff: AffineSpace) -> Poly:
   """Constructs a polynomial which vanishes over a given affine space."""
   # pick a basis a_1, ..., a_d for the space
-  b = aff.basis
+  b = [field(elt) for elt in aff.basis]
+  d = len(b)
+  p = int(field.p)
   #construct Moore matrix with d+1 colums, The Moore matrix has successive powers of the Frobenius automorphism applied to its columns
-  Moore = []
-  for i in range(len(b)):
-    temp_l = []
-    temp_l.append(b[i])
-    for j in range(len(b)):
-      # I consider 2 for the pow because of binary finite field, 
-      temp_l.append(temp_l[0]**(2**(j+1)))
-    Moore.append(temp_l)
-  print(Moore)
+  Moore = [[elt**(p**j) for j in range(d+1)] for elt in b]
   # compute Moore's nonzero kernel element by using gaussian elimination
-  kernel = gauss(Moore, len(b), field)
+  kernel = gauss([list(row) for row in Moore], d, field)
   # testing the output of gaussian elimination (this part can be removed because of its overhead)
-  for i in range(len(b)):
-    temp = Moore[i][0] * kernel[0]
-    for j in range(len(b)-1):
-      temp = temp + Moore[i][j+1] * kernel[j+1]
-    assert temp == Moore[i][len(b)]
-
-  # constructing the polynomial where kernel is the vector of coefficients
+  for i in range(d):
+    temp = field(0)
+    for j in range(d):
+      temp = temp + Moore[i][j] * kernel[j]
+    assert temp == Moore[i][d]
+
+  # The kernel holds the coefficients of the linearized polynomial
+  # x^(p^d) - sum_j kernel[j] x^(p^j), which vanishes over the linear span.
+  coefficients = [field(0)] * (p**d + 1)
+  for j in range(d):
+    coefficients[p**j] = -kernel[j]
+  coefficients[p**d] = field(1)
   polysOver = polynomials_over(field).factory
-  return polysOver(kernel)
+  # Being additive, it takes a constant value over the shifted space.
+  coefficients[0] = -polysOver(coefficients)(field(aff.shift))
+  return polysOver(coefficients)
 
 def gauss(M, row, field):
   for i in range(row):
@@ -137,6 +138,9 @@ def gauss(M, row, field):
 
 # compute whether a is bigger than b or not where a and b both are polynomials
 def max(a, b):
+  if not isinstance(a, Poly):
+    # Elements of a field: anything is a better pivot than zero
+    return 1 if b == 0 and a != 0 else 0
   aD = a.degree()
   bD = b.degree()
   if aD > bD:
-- 
2.43.0


From fa316c72f36c2efada34270a7db9203e9c427374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:22 +0000
Subject: [PATCH 17/31] fix: stark.py imported a class that does not exist

The proof system could not be imported since the FRI for smooth subgroups
was commented out; restore it and import it under its name.
---
 starks/fri.py   | 382 ++++++++++++++++++++++++------------------------
 starks/stark.py |   6 +-
 2 files changed, 194 insertions(+), 194 deletions(-)

diff --git a/starks/fri.py b/starks/fri.py
index 339ddc1..8ca7b7a 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -173,194 +173,194 @@ class AffineSubspaceFRI(object):
                              security_factor:int = 40) -> bool:
     raise NotImplementedError
 
-#class SmoothSubgroupFRI(object):
-#  """Implements Fast Reed Solomon Interactive Oracle Protocol
-#
-#  This class implements the FRI for a smooth multiplicative
-#  subgroup of a finite field. Recall that such a subgroup is
-#  of size 2^n and is a subgroup of the cyclic group of nonzero
-#  elements of the finite field.
-#
-#  # TODO(rbharath): Swap this to work with a FourierPolynomial instead of a regular polynomial. Will be more efficient.
-#  """
-#  def __init__(self, field):
-#    self.field = field
-#
-#  def generate_proximity_proof(self,
-#                               f: Poly,
-#                               root_of_unity: FieldElement,
-#                               maxdeg_plus_1: int,
-#                               exclude_multiples_of:int = 0,
-#                               fri_spot_check_security_factor:int = 40) -> List[bytes]:
-#    """
-#    Generate an FRI proof that the polynomial that has the
-#    specified values at successive powers of the specified root
-#    of unity has a degree lower than maxdeg_plus_1
-#
-#    We use maxdeg+1 instead of maxdeg because it's more
-#    mathematically convenient in this case.
-#
-#    Note that if values is a n-degree polynomial, root_of_unity
-#    should be a n-th root of unity.
-#    """
-#    print("Generating proof. Degree %d" % maxdeg_plus_1)
-#    fft_solver = NonBinaryFFT(self.field, root_of_unity)
-#    values = fft_solver.fft(f)
-#    # If the degree we are checking for is less than or equal
-#    # to 32, use the polynomial directly as a proof
-#    # TODO(rbharath): Why does this make sense?
-#    if maxdeg_plus_1 <= 16:
-#      print('Produced FRI proof')
-#      return [[x.to_bytes() for x in values]]
-#
-#    # Calculate the set of x coordinates
-#    xs = get_power_cycle(root_of_unity, self.field)
-#
-#    assert len(values) == len(xs)
-#
-#    # Put the values into a Merkle tree. This is the root that
-#    # the proof will be checked against. Note this is a list of
-#    # length 2*len(values) storing the complete merkle tree.
-#    m = merkelize(values)
-#
-#    # Select a pseudo-random x coordinate
-#    # This is the merkle-root of the polynomial.
-#    #special_x = int.from_bytes(m[1], 'big') % modulus
-#    special_x = self.field(m[1])
-#
-#    # Calculate the "column" at that x coordinate (see
-#    # https://vitalik.ca/general/2017/11/22/starks_part_2.html)
-#    # We calculate the column by Lagrange-interpolating each
-#    # row, and not directly from the polynomial, as this is more
-#    # efficient
-#    quarter_len = len(xs) // 4
-#    x_polys = multi_interp_4(self.field,
-#        [[xs[i + quarter_len * j] for j in range(4)] for i in range(quarter_len)],
-#        [[values[i + quarter_len * j]
-#          for j in range(4)]
-#        for i in range(quarter_len)])
-#    column = [p(special_x) for p in x_polys]
-#    m2 = merkelize(column)
-#
-#    # Pseudo-randomly select y indices to sample
-#    ys = get_pseudorandom_indices(
-#        m2[1], len(column), fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
-#
-#    # Compute the Merkle branches for the values in the
-#    # polynomial and the column
-#    branches = []
-#    for y in ys:
-#      branches.append([mk_branch(m2, y)] +
-#                      [mk_branch(m, y + (len(xs) // 4) * j) for j in range(4)])
-#
-#    o = [m2[1], branches]
-#
-#    # Recurse...
-#    # Swapping the root of unity to get new polynomial
-#    fft_solver = NonBinaryFFT(self.field, root_of_unity**4)
-#    column_poly = fft_solver.inv_fft(column)
-#    return [o] + self.generate_proximity_proof(
-#        column_poly,
-#        root_of_unity**4,
-#        maxdeg_plus_1 // 4,
-#        exclude_multiples_of=exclude_multiples_of)
-#
-#  def verify_proximity_proof(self,
-#                             proof: List[bytes],
-#                             merkle_root: bytes,
-#                             root_of_unity: FieldElement,
-#                             maxdeg_plus_1: int,
-#                             exclude_multiples_of:int = 0,
-#                             fri_spot_check_security_factor:int = 40) -> bool:
-#    """Verifies proximity of this function to this RS code."""
-#    # Calculate which root of unity we're working with
-#    testval = root_of_unity
-#    # roudeg is the power of the root of unity
-#    roudeg = 1
-#    while testval != 1:
-#      roudeg *= 2
-#      testval = (testval * testval)
-#
-#    # Powers of the given root of unity 1, p, p**2, p**3 such that p**4 = 1
-#    quartic_roots_of_unity = [
-#        1,
-#        root_of_unity**(roudeg // 4),
-#        root_of_unity**(roudeg // 2),
-#        root_of_unity**(roudeg * 3 // 4)
-#    ]
-#
-#    # Verify the recursive components of the proof
-#    for prf in proof[:-1]:
-#      root2, branches = prf
-#      print('Verifying degree <= %d' % maxdeg_plus_1)
-#
-#      # Calculate the pseudo-random x coordinate
-#      special_x = self.field(merkle_root)
-#
-#      # Calculate the pseudo-randomly sampled y indices
-#      ys = get_pseudorandom_indices(
-#          root2, roudeg // 4, fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
-#
-#      # For each y coordinate, get the x coordinates on the row,
-#      # the values on the row, and the value at that y from the
-#      # column
-#      xcoords = []
-#      rows = []
-#      columnvals = []
-#      for i, y in enumerate(ys):
-#        # The x coordinates from the polynomial
-#        x1 = root_of_unity**y
-#        xcoords.append(
-#            [(quartic_roots_of_unity[j] * x1) for j in range(4)])
-#
-#        # The values from the original polynomial
-#        row = [
-#            verify_branch(
-#                merkle_root, y + (roudeg // 4) * j, prf, output_as_int=True)
-#            for j, prf in zip(range(4), branches[i][1:])
-#        ]
-#        rows.append(row)
-#
-#        columnvals.append(
-#            verify_branch(root2, y, branches[i][0], output_as_int=True))
-#
-#      # Verify for each selected y coordinate that the four
-#      # points from the polynomial and the one point from the
-#      # column that are on that y coordinate are on the same deg
-#      # < 4 polynomial
-#      polys = multi_interp_4(self.field, xcoords, rows)
-#
-#      for p, c in zip(polys, columnvals):
-#        assert p(special_x) == c
-#
-#      # Update constants to check the next proof
-#      merkle_root = root2
-#      root_of_unity = root_of_unity**4
-#      maxdeg_plus_1 //= 4
-#      roudeg //= 4
-#
-#    # Verify the direct components of the proof
-#    data = [int.from_bytes(x, 'big') for x in proof[-1]]
-#    print('Verifying degree <= %d' % maxdeg_plus_1)
-#    assert maxdeg_plus_1 <= 16
-#
-#    # Check the Merkle root matches up
-#    mtree = merkelize(data)
-#    assert mtree[1] == merkle_root
-#
-#    # Check the degree of the data
-#    #powers = get_power_cycle(root_of_unity, modulus)
-#    powers = get_power_cycle(root_of_unity, self.field)
-#    if exclude_multiples_of:
-#      pts = [x for x in range(len(data)) if x % exclude_multiples_of]
-#    else:
-#      pts = range(len(data))
-#
-#    poly = lagrange_interp(self.field,
-#            [powers[x] for x in pts[:maxdeg_plus_1]],
-#            [data[x] for x in pts[:maxdeg_plus_1]])
-#    for x in pts[maxdeg_plus_1:]:
-#      assert poly(powers[x]) == data[x]
-#
-#    print('FRI proof verified')
-#    return True
+class SmoothSubgroupFRI(object):
+  """Implements Fast Reed Solomon Interactive Oracle Protocol
+
+  This class implements the FRI for a smooth multiplicative
+  subgroup of a finite field. Recall that such a subgroup is
+  of size 2^n and is a subgroup of the cyclic group of nonzero
+  elements of the finite field.
+
+  # TODO(rbharath): Swap this to work with a FourierPolynomial instead of a regular polynomial. Will be more efficient.
+  """
+  def __init__(self, field):
+    self.field = field
+
+  def generate_proximity_proof(self,
+                               f: Poly,
+                               root_of_unity: FieldElement,
+                               maxdeg_plus_1: int,
+                               exclude_multiples_of:int = 0,
+                               fri_spot_check_security_factor:int = 40) -> List[bytes]:
+    """
+    Generate an FRI proof that the polynomial that has the
+    specified values at successive powers of the specified root
+    of unity has a degree lower than maxdeg_plus_1
+
+    We use maxdeg+1 instead of maxdeg because it's more
+    mathematically convenient in this case.
+
+    Note that if values is a n-degree polynomial, root_of_unity
+    should be a n-th root of unity.
+    """
+    print("Generating proof. Degree %d" % maxdeg_plus_1)
+    fft_solver = NonBinaryFFT(self.field, root_of_unity)
+    values = fft_solver.fft(f)
+    # If the degree we are checking for is less than or equal
+    # to 32, use the polynomial directly as a proof
+    # TODO(rbharath): Why does this make sense?
+    if maxdeg_plus_1 <= 16:
+      print('Produced FRI proof')
+      return [[x.to_bytes() for x in values]]
+
+    # Calculate the set of x coordinates
+    xs = get_power_cycle(root_of_unity, self.field)
+
+    assert len(values) == len(xs)
+
+    # Put the values into a Merkle tree. This is the root that
+    # the proof will be checked against. Note this is a list of
+    # length 2*len(values) storing the complete merkle tree.
+    m = merkelize(values)
+
+    # Select a pseudo-random x coordinate
+    # This is the merkle-root of the polynomial.
+    #special_x = int.from_bytes(m[1], 'big') % modulus
+    special_x = self.field(m[1])
+
+    # Calculate the "column" at that x coordinate (see
+    # https://vitalik.ca/general/2017/11/22/starks_part_2.html)
+    # We calculate the column by Lagrange-interpolating each
+    # row, and not directly from the polynomial, as this is more
+    # efficient
+    quarter_len = len(xs) // 4
+    x_polys = multi_interp_4(self.field,
+        [[xs[i + quarter_len * j] for j in range(4)] for i in range(quarter_len)],
+        [[values[i + quarter_len * j]
+          for j in range(4)]
+        for i in range(quarter_len)])
+    column = [p(special_x) for p in x_polys]
+    m2 = merkelize(column)
+
+    # Pseudo-randomly select y indices to sample
+    ys = get_pseudorandom_indices(
+        m2[1], len(column), fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
+
+    # Compute the Merkle branches for the values in the
+    # polynomial and the column
+    branches = []
+    for y in ys:
+      branches.append([mk_branch(m2, y)] +
+                      [mk_branch(m, y + (len(xs) // 4) * j) for j in range(4)])
+
+    o = [m2[1], branches]
+
+    # Recurse...
+    # Swapping the root of unity to get new polynomial
+    fft_solver = NonBinaryFFT(self.field, root_of_unity**4)
+    column_poly = fft_solver.inv_fft(column)
+    return [o] + self.generate_proximity_proof(
+        column_poly,
+        root_of_unity**4,
+        maxdeg_plus_1 // 4,
+        exclude_multiples_of=exclude_multiples_of)
+
+  def verify_proximity_proof(self,
+                             proof: List[bytes],
+                             merkle_root: bytes,
+                             root_of_unity: FieldElement,
+                             maxdeg_plus_1: int,
+                             exclude_multiples_of:int = 0,
+                             fri_spot_check_security_factor:int = 40) -> bool:
+    """Verifies proximity of this function to this RS code."""
+    # Calculate which root of unity we're working with
+    testval = root_of_unity
+    # roudeg is the power of the root of unity
+    roudeg = 1
+    while testval != 1:
+      roudeg *= 2
+      testval = (testval * testval)
+
+    # Powers of the given root of unity 1, p, p**2, p**3 such that p**4 = 1
+    quartic_roots_of_unity = [
+        1,
+        root_of_unity**(roudeg // 4),
+        root_of_unity**(roudeg // 2),
+        root_of_unity**(roudeg * 3 // 4)
+    ]
+
+    # Verify the recursive components of the proof
+    for prf in proof[:-1]:
+      root2, branches = prf
+      print('Verifying degree <= %d' % maxdeg_plus_1)
+
+      # Calculate the pseudo-random x coordinate
+      special_x = self.field(merkle_root)
+
+      # Calculate the pseudo-randomly sampled y indices
+      ys = get_pseudorandom_indices(
+          root2, roudeg // 4, fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
+
+      # For each y coordinate, get the x coordinates on the row,
+      # the values on the row, and the value at that y from the
+      # column
+      xcoords = []
+      rows = []
+      columnvals = []
+      for i, y in enumerate(ys):
+        # The x coordinates from the polynomial
+        x1 = root_of_unity**y
+        xcoords.append(
+            [(quartic_roots_of_unity[j] * x1) for j in range(4)])
+
+        # The values from the original polynomial
+        row = [
+            verify_branch(
+                merkle_root, y + (roudeg // 4) * j, prf, output_as_int=True)
+            for j, prf in zip(range(4), branches[i][1:])
+        ]
+        rows.append(row)
+
+        columnvals.append(
+            verify_branch(root2, y, branches[i][0], output_as_int=True))
+
+      # Verify for each selected y coordinate that the four
+      # points from the polynomial and the one point from the
+      # column that are on that y coordinate are on the same deg
+      # < 4 polynomial
+      polys = multi_interp_4(self.field, xcoords, rows)
+
+      for p, c in zip(polys, columnvals):
+        assert p(special_x) == c
+
+      # Update constants to check the next proof
+      merkle_root = root2
+      root_of_unity = root_of_unity**4
+      maxdeg_plus_1 //= 4
+      roudeg //= 4
+
+    # Verify the direct components of the proof
+    data = [int.from_bytes(x, 'big') for x in proof[-1]]
+    print('Verifying degree <= %d' % maxdeg_plus_1)
+    assert maxdeg_plus_1 <= 16
+
+    # Check the Merkle root matches up
+    mtree = merkelize(data)
+    assert mtree[1] == merkle_root
+
+    # Check the degree of the data
+    #powers = get_power_cycle(root_of_unity, modulus)
+    powers = get_power_cycle(root_of_unity, self.field)
+    if exclude_multiples_of:
+      pts = [x for x in range(len(data)) if x % exclude_multiples_of]
+    else:
+      pts = range(len(data))
+
+    poly = lagrange_interp(self.field,
+            [powers[x] for x in pts[:maxdeg_plus_1]],
+            [data[x] for x in pts[:maxdeg_plus_1]])
+    for x in pts[maxdeg_plus_1:]:
+      assert poly(powers[x]) == data[x]
+
+    print('FRI proof verified')
+    return True
diff --git a/starks/stark.py b/starks/stark.py
index 9b54365..82d8086 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -10,7 +10,7 @@ from starks.merkle_tree import unpack_merkle_leaf
 from starks.polynomial import polynomials_over
 from starks.poly_utils import lagrange_interp_2
 from starks.fft import NonBinaryFFT
-from starks.fri import FRI
+from starks.fri import SmoothSubgroupFRI
 from starks.utils import generate_Xi_s
 from starks.utils import get_power_cycle
 from starks.utils import is_a_power_of_2
@@ -264,7 +264,7 @@ class STARK(object):
 
     branches = self.compute_merkle_spot_checks(mtree, l_mtree)
 
-    fri = FRI(self.field)
+    fri = SmoothSubgroupFRI(self.field)
     # Return the Merkle roots of P and D, the spot check Merkle
     # proofs, and low-degree proofs of P and D
     o = [
@@ -294,7 +294,7 @@ class STARK(object):
     m_root, l_root, branches, fri_proof = proof
 
     # Verifies the low-degree proofs
-    fri = FRI(self.field)
+    fri = SmoothSubgroupFRI(self.field)
     assert fri.verify_proximity_proof(
         fri_proof,
         l_root,
-- 
2.43.0


From 144c40a86dd01dab162bfac8481f6d757a721157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:16 +0000
Subject: [PATCH 18/31] fix: the verifier did not tie the low-degree proof to
 the trace

The check that the committed linear combination agrees with the opened trace,
remainder and boundary values was commented out, so an unrelated low-degree
polynomial was accepted.
---
 starks/stark.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index 82d8086..0d756ae 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -371,14 +371,16 @@ class STARK(object):
       interpolant = lagrange_interp_2(field, [1, self.last_step_position], [input_value, output_dim])
       assert (p_of_x[dim] - b_of_x[dim] * zeropoly2(x) - interpolant(x)) == 0
 
-    # TODO(rbharath): I'm commenting this out for now, but I think commenting
-    # out this check breaks security guarantees!! To fix this, we need a way
-    # of getting the dimensionwise l's, which might necessitate passing more
-    # merkle branches into the original proof. Will refactor in a subsequent
-    # PR.
-    # Check correctness of the linear combination
-    #assert (l_of_x - d_of_x - k1 * p_of_x - k2 * p_of_x * x_to_the_steps -
-    #        k3 * b_of_x - k4 * b_of_x * x_to_the_steps) % modulus == 0
+    # Check correctness of the linear combination. The factor is the last of
+    # the powers in compute_pseudorandom_linear_combination
+    factor = (self.G2**self.steps)**(self.precision - 1)
+    l_ks = get_pseudorandom_ks(m_root, width)
+    l_expected = field(0)
+    for dim in range(width):
+      l_dim = (d_of_x[dim] + p_of_x[dim] * k1 + p_of_x[dim] * k2 * factor +
+               b_of_x[dim] * k3 + b_of_x[dim] * k4 * factor)
+      l_expected = l_expected + l_dim + l_dim * l_ks[dim] * factor
+    assert field(l_of_x) == l_expected
 
 
   # TODO(rbharath): This method is poorly structured since it
-- 
2.43.0


From 13bea9694888bb44c0620abc3c31897f8928262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:41 +0000
Subject: [PATCH 19/31] fix: proofs failed when the output of a computation is
 zero

The input and output values went through a polynomial, which drops trailing
zeros, before they were interpolated.
---
 starks/stark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index 0d756ae..ab24236 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -92,8 +92,8 @@ def construct_boundary_polynomials(trace_polys: List[Poly], witness: List[List],
     constraint = boundary[dim]
     (_, _, input_value) = constraint
     output_dim = witness[dim][-1]
-    interpolant = lagrange_interp_2(field, polysOver([1, last_step_position]),
-        polysOver([input_value, output_dim]))
+    interpolant = lagrange_interp_2(field, [field(1), last_step_position],
+        [field(input_value), field(output_dim)])
     interpolants.append(interpolant)
   # B = (P - I) / Z2
   b_polys = []
-- 
2.43.0


From dc6f907dd4d464f56c9a521a8400f1e4911dd8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:51 +0000
Subject: [PATCH 20/31] fix: the low-degree verifier accepted inner nodes of a
 tree as values

---
 starks/fri.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/starks/fri.py b/starks/fri.py
index 8ca7b7a..66baf2f 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -308,6 +308,10 @@ class SmoothSubgroupFRI(object):
       rows = []
       columnvals = []
       for i, y in enumerate(ys):
+        # A shorter branch would open an inner node of a tree as a value
+        assert 2**len(branches[i][0]) == 2 * (roudeg // 4)
+        assert all(2**len(prf) == 2 * roudeg for prf in branches[i][1:])
+
         # The x coordinates from the polynomial
         x1 = root_of_unity**y
         xcoords.append(
@@ -344,7 +348,9 @@ class SmoothSubgroupFRI(object):
     print('Verifying degree <= %d' % maxdeg_plus_1)
     assert maxdeg_plus_1 <= 16
 
-    # Check the Merkle root matches up
+    # Check the Merkle root matches up. The number of values has to be checked
+    # as the nodes of an inner level of the tree have the same root
+    assert len(data) == roudeg
     mtree = merkelize(data)
     assert mtree[1] == merkle_root
 
-- 
2.43.0


From 3b49f060d3b3dd7b1ea697dbd6011063e10fd4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:41 +0000
Subject: [PATCH 21/31] fix: subtracting a floating point number negated it in
 place

---
 starks/floatingpoint.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starks/floatingpoint.py b/starks/floatingpoint.py
index ef137f0..a95b72f 100644
--- a/starks/floatingpoint.py
+++ b/starks/floatingpoint.py
@@ -127,8 +127,7 @@ def FloatingPoint(field):
     @typecheck
     def __sub__(self, other):
       # subtraction is implemented based on addition
-      other.s = other.s ^ 1
-      output = self + other
+      output = self + Fp(other.v, other.p, other.z, other.s ^ 1)
       return output
 
     #this is division operation of two floating point numbers in binary finite field representation
-- 
2.43.0


From baec66ac57543468fd8daac2ca3e87ffa47816e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:41 +0000
Subject: [PATCH 22/31] fix: the exponent of a floating point product ignored
 the second factor

---
 starks/floatingpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/floatingpoint.py b/starks/floatingpoint.py
index a95b72f..c21964a 100644
--- a/starks/floatingpoint.py
+++ b/starks/floatingpoint.py
@@ -190,7 +190,7 @@ def FloatingPoint(field):
         p_c = field(polysOver([0]))
       else:
         p_c = self.p + other.p
-        p_c = p_c + num_to_binary_list(self.v.poly.degree() + self.v.poly.degree() - (self.v.m - 1))
+        p_c = p_c + num_to_binary_list(self.v.poly.degree() + other.v.poly.degree() - (self.v.m - 1))
  
       output = Fp(v_c, p_c, z_c, s_c)
       return output
-- 
2.43.0


From e1e9b4de21c249c0da5f2292a03667b06e3c1f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:41 +0000
Subject: [PATCH 23/31] fix: two_pow was wrong for exponents of three bits and
 more

---
 starks/finitefield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/finitefield.py b/starks/finitefield.py
index 86300b4..0d3bf9a 100644
--- a/starks/finitefield.py
+++ b/starks/finitefield.py
@@ -154,7 +154,7 @@ def FiniteField(p, m, polynomialModulus=None):
 
       for i in range(self.poly.degree()+1):
         if str(self.poly.coefficients[i])[0] == '1':
-          l = num_to_binary_list_pow(i+1)
+          l = num_to_binary_list_pow(2**i)
           num = num * Fq(l)
 
       return num
-- 
2.43.0


From b0f04da954fa2306fb3ef991e35df7c3dfc48fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:41 +0000
Subject: [PATCH 24/31] fix: committing to an integer that is too long dropped
 its low bits

---
 misc/commitment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misc/commitment.py b/misc/commitment.py
index 2605432..a4bd98a 100644
--- a/misc/commitment.py
+++ b/misc/commitment.py
@@ -87,6 +87,9 @@ class BBSIntCommitmentScheme(CommitmentScheme):
     # first pad bits to desired length
     integer = bin(integer)[2:].zfill(len(self.schemes))
     bits = [int(bit) for bit in integer]
+    # zip would drop the low bits of a longer integer
+    if len(bits) > len(self.schemes):
+      raise ValueError('The integer has more than %d bits' % len(self.schemes))
     return [scheme.commit(bit) for scheme, bit in zip(self.schemes, bits)]
 
 
-- 
2.43.0


From 18066fa26273a17be77a69c225590dc4a581769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:48 +0000
Subject: [PATCH 25/31] fix: run_blockchain.py used names it did not import

---
 misc/run_blockchain.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/misc/run_blockchain.py b/misc/run_blockchain.py
index 6c2182b..e849506 100644
--- a/misc/run_blockchain.py
+++ b/misc/run_blockchain.py
@@ -1,3 +1,9 @@
+from uuid import uuid4
+
+from flask import Flask, jsonify, request
+
+from blockchain import Blockchain
+
 # Instantiate the Node
 app = Flask(__name__)
 
-- 
2.43.0


From 40c591b350fd16075a88f40263c2e2bde854aa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:55 +0000
Subject: [PATCH 26/31] fix: powmod did not reduce for exponents 0 and 1

---
 starks/numbertype.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/numbertype.py b/starks/numbertype.py
index bb113ad..7399ccd 100644
--- a/starks/numbertype.py
+++ b/starks/numbertype.py
@@ -88,8 +88,8 @@ class DomainElement(object):
     if type(n) is not int:
       raise TypeError
 
-    Q = self
-    R = self if n & 1 else self.__class__(1)
+    Q = self % modulus
+    R = Q if n & 1 else self.__class__(1) % modulus
 
     i = 2
     while i <= n:
-- 
2.43.0


From 8425f06eb96a2939ba9de5c7b05f04ef44ffa660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:34 +0000
Subject: [PATCH 27/31] fix: verify_branch accepted any part of two
 neighbouring leaves as the leaf

---
 starks/merkle_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starks/merkle_tree.py b/starks/merkle_tree.py
index 39f07ef..4e34b7b 100644
--- a/starks/merkle_tree.py
+++ b/starks/merkle_tree.py
@@ -75,6 +75,8 @@ def verify_branch(root, index, proof, output_as_int=False):
   # But I think it's OK since we're only doing parity checks
   #index += 2**len(proof)
   index += 2**len(proof) // 2
+  # The hash of two leaves does not tell where the first one ends
+  assert all(len(sibling) == len(proof[0]) for sibling in proof[1:2])
   v = proof[0]
   for p in proof[1:]:
     if index % 2:
-- 
2.43.0


From 891a1fc84afbe7b72b46306c5efb3f6975b547c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:34 +0000
Subject: [PATCH 28/31] fix: the later rounds of a low-degree proof ignored the
 number of spot checks

---
 starks/fri.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starks/fri.py b/starks/fri.py
index 66baf2f..96a3e96 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -263,7 +263,8 @@ class SmoothSubgroupFRI(object):
         column_poly,
         root_of_unity**4,
         maxdeg_plus_1 // 4,
-        exclude_multiples_of=exclude_multiples_of)
+        exclude_multiples_of=exclude_multiples_of,
+        fri_spot_check_security_factor=fri_spot_check_security_factor)
 
   def verify_proximity_proof(self,
                              proof: List[bytes],
-- 
2.43.0


From 535434f7e545670d24679ffd418b34f891de4195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:34 +0000
Subject: [PATCH 29/31] fix: the STARK verifier accepted branches of any length

---
 starks/stark.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starks/stark.py b/starks/stark.py
index ab24236..36e5f7a 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -323,6 +323,9 @@ class STARK(object):
     polysOver = polynomials_over(field).factory
     k1, k2, k3, k4 = ks
     m_root, l_root, branches, fri_proof = proof
+    # A branch of another length leads to another place of the tree
+    assert all(2**len(branch) == 2 * self.precision
+               for branch in branches[i * 3:i * 3 + 3])
     x = self.G2**pos
     x_to_the_steps = x**self.steps
     # Recall m is the merkle tree of the raw polynomials, and l
-- 
2.43.0


From a382f7b4e743a8feade8b4d14f2e1ec4484ae954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:34 +0000
Subject: [PATCH 30/31] fix: proofs held 80 spot checks whatever number the
 verifier asks for

---
 starks/stark.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starks/stark.py b/starks/stark.py
index 36e5f7a..6e0f44a 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -262,7 +262,8 @@ class STARK(object):
     l_evaluations = self.fft_solver.fft(l_poly)
     l_mtree = merkelize(l_evaluations)
 
-    branches = self.compute_merkle_spot_checks(mtree, l_mtree)
+    branches = self.compute_merkle_spot_checks(
+        mtree, l_mtree, samples=self.spot_check_security_factor)
 
     fri = SmoothSubgroupFRI(self.field)
     # Return the Merkle roots of P and D, the spot check Merkle
-- 
2.43.0


From 43ba73b9d9adcf7a24fc266c46edb62108825fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:02 +0000
Subject: [PATCH 31/31] fix: the Taylor expansion failed for more than four
 terms

---
 starks/fft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/fft.py b/starks/fft.py
index a8859ff..6216979 100644
--- a/starks/fft.py
+++ b/starks/fft.py
@@ -89,8 +89,8 @@ class Additive_FFT(FFT):
     g1 = h+f_twoK*f2
 
     # recursive part
-    V1 = self.Taylor_Expansion(g0, n/2)
-    V2 = self.Taylor_Expansion(g1, n/2)
+    V1 = self.Taylor_Expansion(g0, 2**(k+1))
+    V2 = self.Taylor_Expansion(g1, 2**(k+1))
 
     return V1, V2
 
-- 
2.43.0

