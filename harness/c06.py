"""C06  extension fields F_{p^m}."""
from engine.runner import Case
from harness.common import seq  # noqa
from harness.common import sparse

BIG = 2**256 - 2**32 * 351 + 1
# monic irreducible moduli, constant term first
MODULI = {(2, 2): [1, 1, 1], (2, 3): [1, 1, 0, 1], (2, 4): [1, 1, 0, 0, 1], (2, 5): [1, 0, 1, 0, 0, 1],
          (2, 8): [1, 1, 0, 1, 1, 0, 0, 0, 1], (3, 2): [2, 1, 1], (3, 3): [1, 2, 0, 1], (5, 2): [2, 0, 1],
          (7, 2): [1, 0, 1], (31, 2): [1, 0, 1], (257, 2): [254, 0, 1], (BIG, 2): [BIG - 7, 0, 1],
          (2, 17): [1, 0, 0, 1] + [0] * 13 + [1], (2, 12): [1] + [0] * 8 + [1, 0, 0, 1], (3, 5): [1, 0, 0, 0, 2, 1],
          (7, 4): [1, 0, 0, 1, 1], (5, 3): [1, 0, 1, 1], (257, 4): [254, 0, 0, 0, 1], (BIG, 4): [BIG - 7, 0, 0, 0, 1]}
LARGE = [(2, 12), (3, 5), (7, 4), (5, 3), (257, 4), (BIG, 4)]
BOUNDS = {
    'quick': 'fields of order 4,8,16,32,256,9,27,25,49,257^2,(2^256-2^32*351+1)^2 with a fixed irreducible modulus; every '
             'element (order 256: no products); inverses in all but orders 27 and 256; exponents 0..6 (0..3 in large fields), q-1 and q for orders up to 25; '
             'with one or two unknown coefficients also orders 2^12, 3^5, 7^4, 5^3, 257^4, (2^256-2^32*351+1)^4 and exponents up to 255; augmented assignments',
    'thorough': 'additionally orders 2^17 and 31^2; inverses up to order 256; exponents to 20'}
OUTSIDE = 'other degrees and moduli'
ASSUMPTIONS = ['the moduli listed are irreducible',
               'for p > 64 the inverse of a symbolic element of Z/p is an element i with x*i = 1 (decided in C02)']


def _field(env, p, m):
  F = env.field(p)
  P = env.get('polynomial', 'polynomials_over')(F)
  return env.get('finitefield', 'FiniteField')(p, m, P(MODULI[p, m])), F, P


def _reduce(cs, p, m):
  """remainder of an integer coefficient list modulo the field's modulus"""
  mod = MODULI[p, m]
  cs = list(cs) + [0] * m
  for i in range(len(cs) - 1, m - 1, -1):
    c = cs[i]
    for j in range(m):
      cs[i - m + j] = cs[i - m + j] - c * mod[j]
    cs[i] = 0
  return cs[:m]


def _mul(a, b):
  out = [0] * (len(a) + len(b) - 1)
  for i, x in enumerate(a):
    for j, y in enumerate(b):
      out[i + j] = out[i + j] + x * y
  return out


def _is(env, x, want, p, m):
  cs = [int(c) for c in x.poly]
  w = list(want) + [0] * (m - len(want))
  return env.all([len(cs) <= m] + [(cs[i] if i < len(cs) else 0) == w[i] % p for i in range(m)])


def ring(env, p, m):
  Fq, F, P = _field(env, p, m)
  a, b = env.ints('a', m, 0, p - 1), env.ints('b', m, 0, p - 1)
  x, y = Fq(a), Fq(b)
  for label, h, want in (('element', x, a), ('sum', x + y, [u + v for u, v in zip(a, b)]),
                         ('difference', x - y, [u - v for u, v in zip(a, b)]),
                         ('negation', -x, [-u for u in a]),
                         ('product', x * y, _reduce(_mul(a, b), p, m))):
    env.check(type(h) is Fq, label + ' is an element')
    env.check(_is(env, h, want, p, m), label)
  same = env.all([u == v for u, v in zip(a, b)])
  env.check(env.iff(x == y, same), 'equal')
  env.check(env.iff(x != y, env.not_(same)), 'not equal')
  env.check(_is(env, x, a, p, m), 'operand unchanged')


def augmented(env, p, m):
  """an augmented assignment changes the name only, not the element it referred to"""
  Fq, F, P = _field(env, p, m)
  a, b = env.ints('a', m, 0, p - 1), env.ints('b', m, 0, p - 1)
  x, y = Fq(a), Fq(b)
  s = d = t = x
  s += y
  d -= y
  t *= y
  env.check(_is(env, s, [u + v for u, v in zip(a, b)], p, m), '+=')
  env.check(_is(env, d, [u - v for u, v in zip(a, b)], p, m), '-=')
  env.check(_is(env, t, _reduce(_mul(a, b), p, m), p, m), '*=')
  env.check(env.all([_is(env, x, a, p, m), _is(env, y, b, p, m)]), 'operands unchanged')
  f = P(a)
  z = Fq(f)
  z += y
  env.check(env.all([int(c) == (a[i] if i < m else 0) for i, c in enumerate(f)]), 'the polynomial it was built from is unchanged')


def mixed(env, p, m):
  Fq, F, P = _field(env, p, m)
  a = env.ints('a', m, 0, p - 1)
  c = env.int('c', -p, 2 * p)
  x = Fq(a)
  rest = list(a[1:])
  for label, h, want in (('elt + int', x + c, [a[0] + c] + rest), ('int + elt', c + x, [a[0] + c] + rest),
                         ('elt - int', x - c, [a[0] - c] + rest), ('int - elt', c - x, [c - a[0]] + [-u for u in rest]),
                         ('elt * int', x * c, [u * c for u in a]), ('int * elt', c * x, [u * c for u in a]),
                         ('elt + base', x + F(c), [a[0] + c] + rest), ('base * elt', F(c) * x, [u * c for u in a])):
    env.check(type(h) is Fq, label + ' is an element')
    env.check(_is(env, h, want, p, m), label)
  env.check(_is(env, Fq(c), [c], p, m), 'from an int')
  env.check(_is(env, Fq(F(c)), [c], p, m), 'from a base element')
  env.check(env.iff(Fq(c) == c, True), 'equals its int')


def reduction(env, p, m, n):
  """longer coefficient lists and polynomials are reduced by the modulus"""
  Fq, F, P = _field(env, p, m)
  a = env.ints('a', n, 0, p - 1)
  want = _reduce(a, p, m)
  env.check(_is(env, Fq(list(a)), want, p, m), 'from a list')
  env.check(_is(env, Fq(P(a)), want, p, m), 'from a polynomial')
  env.check(_is(env, Fq(Fq(a)), want, p, m), 'from an element')


def serial(env, p, m):
  Fq, F, P = _field(env, p, m)
  a = env.ints('a', m, 0, p - 1)
  x = Fq(a)
  d = x.to_bytes()
  env.check(type(d) is bytes or not env.symbolic or hasattr(d, '__len__'), 'bytes')
  env.check(env.eq(Fq(d), x), 'round trip')
  b = env.ints('b', m, 0, p - 1)
  env.check(env.iff(d == Fq(b).to_bytes(), env.all([u == v for u, v in zip(a, b)])), 'encoding is injective')


def invert(env, p, m):
  Fq, F, P = _field(env, p, m)
  a = env.ints('a', m, 0, p - 1)
  x = Fq(a)
  env.assume(env.any([u != 0 for u in a]))
  i = x.inverse()
  env.check(_is(env, i * x, [1], p, m), 'x * inverse = 1')
  env.check(_is(env, x / x, [1], p, m), 'x / x = 1')
  env.check(env.eq(1 / x, i), '1 / x')


def divide(env, p, m):
  Fq, F, P = _field(env, p, m)
  a, b = env.ints('a', m, 0, p - 1), env.ints('b', m, 0, p - 1)
  x, y = Fq(a), Fq(b)
  env.assume(env.any([u != 0 for u in b]))
  env.check(env.eq((x / y) * y, x), '(x / y) y = x')


def zero(env, p, m):
  Fq, F, P = _field(env, p, m)
  env.check(env.raises(lambda: Fq(0).inverse()), 'zero has no inverse')
  env.check(env.raises(lambda: Fq(env.ints('a', m, 0, p - 1)) / Fq(0)), 'division by zero is refused')


def power(env, p, m, e):
  Fq, F, P = _field(env, p, m)
  a = env.ints('a', m, 0, p - 1)
  x = Fq(a)
  want = Fq(1)
  for _ in range(e):
    want = want * x
  env.check(env.eq(x**e, want), 'power is the repeated product')


def fermat(env, p, m):
  Fq, F, P = _field(env, p, m)
  a = env.ints('a', m, 0, p - 1)
  x = Fq(a)
  q = p**m
  env.check(env.eq(x**q, x), 'x^q = x')
  env.check(env.iff(x**(q - 1) == Fq(1), env.any([u != 0 for u in a])), 'x^(q-1) = 1 unless x is 0')
  b = env.ints('b', m, 0, p - 1)
  y = Fq(b)
  env.check(env.eq((x + y)**p, x**p + y**p), 'Frobenius is additive')


def laws(env, p, m):
  Fq, F, P = _field(env, p, m)
  x, y, z = [Fq(env.ints(n, m, 0, p - 1)) for n in 'abc']
  env.check(env.eq(x * y, y * x), 'commutative')
  env.check(env.eq((x * y) * z, x * (y * z)), 'associative')
  env.check(env.eq(x * (y + z), x * y + x * z), 'distributive')
  zero = env.any([x == Fq(0), y == Fq(0)])
  env.check(env.iff(x * y == Fq(0), zero), 'no zero divisors')


def badmodulus(env, p, m):
  """a reducible modulus is refused (product of two monic factors)"""
  F = env.field(p)
  P = env.get('polynomial', 'polynomials_over')(F)
  FF = env.get('finitefield', 'FiniteField')
  f = P(env.ints('a', 1, 0, p - 1) + [1])
  g = P(env.ints('b', m - 1, 0, p - 1) + [1])
  h = f * g
  cs = [env.concrete(int(c)) for c in h]
  env.check(env.raises(lambda: FF(p, m, P(cs)), ValueError), 'reducible modulus is refused')


def order(env, p, m):
  Fq, F, P = _field(env, p, m)
  env.check(env.attr(Fq, 'field_size') == p**m, 'field size')
  env.check(env.all([Fq.p == p, Fq.m == m]), 'characteristic and degree')
  env.check(env.get('finitefield', 'FiniteField')(p, 1) is env.get('modp', 'IntegersModP')(p), 'degree one is Z/p')


def large(env, p, m, free, other):
  """fields of higher degree, elements with few unknown coefficients"""
  Fq, F, P = _field(env, p, m)
  a, b = sparse(env, 'a', m, p, free, 4), sparse(env, 'b', m, p, other, 8)
  x, y = Fq(a), Fq(b)
  for label, h, want in (('element', x, a), ('sum', x + y, [u + v for u, v in zip(a, b)]),
                         ('difference', x - y, [u - v for u, v in zip(a, b)]), ('negation', -x, [-u for u in a]),
                         ('product', x * y, _reduce(_mul(a, b), p, m)), ('square', x * x, _reduce(_mul(a, a), p, m))):
    env.check(_is(env, h, want, p, m), label)
  env.check(env.iff(x == y, env.all([u == v for u, v in zip(a, b)])), 'equality')
  env.check(env.eq(Fq(x.to_bytes()), x), 'round trip')
  env.check(env.all([_is(env, x, a, p, m), _is(env, y, b, p, m)]), 'operands unchanged')


def large_inverse(env, p, m, free):
  Fq, F, P = _field(env, p, m)
  a = sparse(env, 'a', m, p, free, 4)
  x = Fq(a)
  env.assume(env.any([u != 0 for u in a]))
  i = x.inverse()
  env.check(_is(env, i * x, [1], p, m), 'x * inverse = 1')
  y = Fq(sparse(env, 'b', m, p, [], 8))
  env.check(env.eq((y / x) * x, y), '(y / x) x = y')


def large_power(env, p, m, free, e):
  Fq, F, P = _field(env, p, m)
  a = sparse(env, 'a', m, p, free, 4)
  want = [1] + [0] * (m - 1)
  for bit in bin(e)[2:]:
    want = [w % p for w in _reduce(_mul(want, want), p, m)]
    if bit == '1':
      want = [w % p for w in _reduce(_mul(want, a), p, m)]
  env.check(_is(env, Fq(a)**e, want, p, m), 'power')


def CASES(tier):
  t = tier == 'thorough'
  fs = [k for k in MODULI if k not in LARGE and (t or k not in ((2, 17), (31, 2)))]
  out = []
  for p, m in fs:
    k = {'p': p, 'm': m}
    if p**m > 2**16 and p == 2 and not t:
      continue
    if t or (p, m) != (2, 8):
      out.append(Case('ring', k))
    out.append(Case('mixed', k))
    out.append(Case('serial', k))
    if m <= 4:
      out.append(Case('augmented', k))
    out.append(Case('zero', k))
    out.append(Case('order', k))
    for n in sorted({m + 1, 2 * m} if t or m < 8 else {m + 1}):
      out.append(Case('reduction', dict(k, n=n)))
    if (p**m <= (256 if t else 49) and (p**m != 27 or t)) or p > 100 and m == 2:
      out.append(Case('invert', k, weight=3))
    if p**m <= 32 and (p**m <= 16 or t) or p > 100 and m == 2:
      out.append(Case('divide', k, weight=3))
    for e in [0, 1, 2, 3, 5, 6] + ([4, 7, 8, 11, 16, 20] if t else []):
      if p**m <= (256 if t else 32) or e <= (3 if p > 2 or t else 2):
        out.append(Case('power', dict(k, e=e)))
    if p**m <= (32 if t else 25):
      out.append(Case('fermat', k, weight=2))
    if p**m <= 256 if t else (p, m) in ((2, 2), (2, 3), (3, 2), (5, 2)):
      out.append(Case('laws', k, weight=2))
    if p <= 7 and m <= 5:
      out.append(Case('badmodulus', k))
  for p, m in LARGE:
    for free, other in (([m - 1], [0]), ([0, m // 2], [m - 1])):
      out.append(Case('large', {'p': p, 'm': m, 'free': free, 'other': other}))
    for free in ([m - 1], [0], [m // 2]):
      if p > 300 and free[0] or p == 7 and free[0] > 1:
        continue
      out.append(Case('large_inverse', {'p': p, 'm': m, 'free': free}, weight=3))
    for e in (7, 16) + ((33,) if p < BIG else ()) + ((100, 255) if p < 100 else ()):
      out.append(Case('large_power', {'p': p, 'm': m, 'free': [1], 'e': e}))
  return out
