"""C05  division with remainder, gcd and the extended Euclidean algorithm on polynomials over a field."""
from engine.runner import Case
from harness.common import seq  # noqa
from harness.common import sparse

BIG = 2**256 - 2**32 * 351 + 1
BOUNDS = {
    'quick': 'coefficient fields Z/p for p in 2,3,5,7,257,2^256-2^32*351+1; dividends of up to 6 coefficients, divisors of up '
             'to 3 (every coefficient value, divisor not zero); gcd and extended Euclid up to 4 by 3 coefficients for p=2, '
             '3 by 2 beyond; modular powers with exponents up to 3 (6 for p <= 3); with one or two unknown coefficients also dividends of 40, divisors of 20 and exponents of 31 and 32',
    'thorough': 'additionally p in 11,31,65537; dividends of up to 8 coefficients, divisors of up to 4; gcd and extended '
                'Euclid up to 5 by 4 for p<=3; modular powers up to 7 for p <= 7'}
OUTSIDE = 'longer operands; division by the zero polynomial (an error)'
ASSUMPTIONS = ['moduli are prime',
               'for p > 64 the inverse of a symbolic element of Z/p is an element i with x*i = 1 (decided for the real code in C02)']


def _P(env, p):
  return env.get('polynomial', 'polynomials_over')(env.field(p))


def division(env, p, n, m):
  P = _P(env, p)
  f = P(env.ints('a', n, 0, p - 1))
  b = env.ints('b', m, 0, p - 1)
  if m:
    env.assume(b[-1] != 0)
  g = P(b)
  q, r = divmod(f, g)
  env.check(env.eq(q * g + r, f), 'f = q g + r')
  env.check(r.degree() < g.degree(), 'remainder has smaller degree')
  env.check(env.eq(f / g, q), 'quotient')
  env.check(env.eq(f % g, r), 'remainder')
  env.check(type(q) is P and type(r) is P, 'results are polynomials')


def exact(env, p, n, m):
  """a product divides without remainder, and the quotient is the cofactor"""
  P = _P(env, p)
  f = P(env.ints('a', n, 0, p - 1))
  b = env.ints('b', m, 0, p - 1)
  env.assume(b[-1] != 0)
  g = P(b)
  q, r = divmod(f * g, g)
  env.check(env.eq(q, f), 'cofactor')
  env.check(r.is_zero(), 'no remainder')


def shifted(env, p, n, m):
  """adding a multiple of the divisor leaves the remainder alone"""
  P = _P(env, p)
  f = P(env.ints('a', n, 0, p - 1))
  b = env.ints('b', m, 0, p - 1)
  env.assume(b[-1] != 0)
  g = P(b)
  k = P(env.ints('k', 2, 0, p - 1))
  env.check(env.eq((f + k * g) % g, f % g), 'remainder of f + k g')


def by_constant(env, p, n):
  P = _P(env, p)
  F = P.ring
  f = P(env.ints('a', n, 0, p - 1))
  c = env.int('c', 1, p - 1)
  for label, d in (('int', c), ('ring element', F(c)), ('constant polynomial', P([c]))):
    h = f / d
    env.check(env.eq(h * F(c), f), 'division by a constant: ' + label)
    env.check((f % d).is_zero(), 'no remainder: ' + label)


def zero_divisor(env, p, n):
  P = _P(env, p)
  f = P(env.ints('a', n, 0, p - 1))
  env.check(env.raises(lambda: f / P(0)), 'division by zero is refused')
  env.check(env.raises(lambda: f % P(0)), 'remainder by zero is refused')


def modular_power(env, p, n, m, e):
  """powmod is the remainder of the power, whatever the degrees and for every exponent"""
  P = _P(env, p)
  a = env.ints('a', n, 0, p - 1)
  b = env.ints('b', m, 0, p - 1)
  env.assume(b[-1] != 0)
  f, g = P(a), P(b)
  ref = P([1]) % g
  for _ in range(e):
    ref = (ref * f) % g
  r = f.powmod(e, g)
  env.check(env.eq(r, ref), 'remainder of the power')
  env.check(r.degree() < g.degree() or r.is_zero(), 'reduced')
  env.check(env.eq((f**e) % g, ref), 'remainder of the plain power')
  env.check(env.eq(f, P(a)) and env.eq(g, P(b)), 'operands unchanged')


def gcds(env, p, n, m):
  P = _P(env, p)
  gcd, ext = env.get('euclidean', 'gcd', 'extended_euclidean_algorithm')
  a = env.ints('a', n, 0, p - 1)
  b = env.ints('b', m, 0, p - 1)
  env.assume(a[-1] != 0)
  if m:
    env.assume(b[-1] != 0)
  f, g = P(a), P(b)
  d = gcd(f, g)
  env.check(env.not_(d.is_zero()), 'gcd is not zero')
  env.check((f % d).is_zero(), 'gcd divides the first')
  env.check((g % d).is_zero(), 'gcd divides the second')
  x, y, e = ext(f, g)
  env.check(env.eq(x * f + y * g, e), 'Bezout identity')
  env.check((f % e).is_zero(), 'extended gcd divides the first')
  env.check((g % e).is_zero(), 'extended gcd divides the second')


def gcd_common(env, p, n, m, k):
  """every common factor divides the gcd"""
  P = _P(env, p)
  gcd = env.get('euclidean', 'gcd')
  a = env.ints('a', n, 0, p - 1)
  b = env.ints('b', m, 0, p - 1)
  c = env.ints('c', k, 0, p - 1)
  for v in (a, b, c):
    env.assume(v[-1] != 0)
  h = P(c)
  d = gcd(P(a) * h, P(b) * h)
  env.check((d % h).is_zero(), 'common factor divides the gcd')


def large(env, p, n, m, free, other):
  """long operands with few unknown coefficients"""
  P = _P(env, p)
  a, b = sparse(env, 'a', n, p, free, 1), sparse(env, 'b', m, p, other, 2)
  if m - 1 in other:
    env.assume(b[-1] != 0)
  else:
    b[-1] = b[-1] or 1
  f, g = P(a), P(b)
  q, r = divmod(f, g)
  env.check(env.eq(q * g + r, f), 'f = q g + r')
  env.check(r.degree() < g.degree(), 'remainder has smaller degree')
  env.check(env.eq(f / g, q) and env.eq(f % g, r), 'quotient and remainder')
  h = f * g
  env.check(env.eq(h / g, f), 'cofactor')
  env.check((h % g).is_zero(), 'no remainder')
  env.check(env.eq(f, P(a)) and env.eq(g, P(b)), 'operands unchanged')


def large_gcd(env, p, n, m, k, free):
  """two multiples of one polynomial, with long quotient sequences"""
  P = _P(env, p)
  gcd, ext = env.get('euclidean', 'gcd', 'extended_euclidean_algorithm')
  h = P(sparse(env, 'h', k, p, [], 3)[:-1] + [1])
  f = P(sparse(env, 'a', n, p, free, 1)[:-1] + [1]) * h
  g = P(sparse(env, 'b', m, p, [], 2)[:-1] + [1]) * h
  d = gcd(f, g)
  env.check((f % d).is_zero() and (g % d).is_zero(), 'gcd divides both')
  env.check((d % h).is_zero(), 'common factor divides the gcd')
  x, y, e = ext(f, g)
  env.check(env.eq(x * f + y * g, e), 'Bezout identity')
  env.check((e % d).is_zero() and (d % e).is_zero(), 'both agree up to a unit')


def large_power(env, p, n, m, e, free):
  P = _P(env, p)
  f, g = P(sparse(env, 'a', n, p, free, 1)), P(sparse(env, 'b', m, p, [], 2)[:-1] + [1])
  ref = P([1]) % g
  for bit in bin(e)[2:]:
    ref = (ref * ref) % g
    if bit == '1':
      ref = (ref * f) % g
  r = f.powmod(e, g)
  env.check(env.eq(r, ref), 'remainder of the power')


def CASES(tier):
  t = tier == 'thorough'
  ps = [2, 3, 5, 7, 257, BIG] + ([11, 31, 65537] if t else [])
  out = []
  for p in ps:
    for n, m in [(0, 1), (1, 2), (3, 1), (6, 1), (4, 2), (5, 3)] + ([(6, 3), (8, 4), (8, 2)] if t else []):
      out.append(Case('division', {'p': p, 'n': n, 'm': m}, weight=n))
    for n, m in [(1, 2), (3, 2), (2, 3)] + ([(4, 4), (6, 2)] if t else []):
      out.append(Case('exact', {'p': p, 'n': n, 'm': m}))
    out.append(Case('shifted', {'p': p, 'n': 3, 'm': 2}, budget_s=90.0))
    for n in (3, 6):
      out.append(Case('by_constant', {'p': p, 'n': n}))
    for n, m, e in [(2, 3, 0), (2, 3, 1), (2, 2, 1), (2, 3, 3), (1, 1, 1)] + ([(3, 2, 2)] if p <= 3 or p > 200 else []) + ([(2, 3, 6), (2, 2, 5)] if p <= 3 or t else []) + \
        ([(3, 3, 4), (2, 4, 7)] if t and p <= 7 else []):
      out.append(Case('modular_power', {'p': p, 'n': n, 'm': m, 'e': e}, weight=e))
    out.append(Case('zero_divisor', {'p': p, 'n': 2}))
    for n, m in [(1, 0), (2, 2), (1, 3), (3, 2)] + ([(4, 3), (2, 4)] if p <= 2 or t and p <= 5 else []) + ([(5, 4)] if t and p <= 3 else []):
      out.append(Case('gcds', {'p': p, 'n': n, 'm': m}, weight=2 * n, budget_s=90.0))
    if p <= (7 if t else 3):
      out.append(Case('gcd_common', {'p': p, 'n': 2, 'm': 2, 'k': 2}, weight=4))
  for p in (2, 5, 257, BIG):
    for n, m, free, other in ((12, 5, [0, 11], []), (20, 8, [19], [2]), (9, 7, [8], [6]), (33, 20, [5], [0]), (40, 2, [20], []), (30, 1, [29], [])) + \
        (((70, 35, [69], []), (66, 9, [0, 65], [3])) if t else ()):
      out.append(Case('large', {'p': p, 'n': n, 'm': m, 'free': free, 'other': other}, weight=2))
    for n, m, k, free in ((5, 6, 3, [1]), (8, 7, 2, [0])) if p < 200 or t else ((4, 3, 3, [1]), (6, 5, 2, [0])):
      out.append(Case('large_gcd', {'p': p, 'n': n, 'm': m, 'k': k, 'free': free}, weight=3))
    for n, m, e in ((2, 4, 9), (3, 3, 16), (4, 5, 31), (2, 5, 4), (2, 5, 8), (2, 7, 16), (2, 5, 1), (2, 5, 32)) if p < 100 or t else ((2, 4, 9), (2, 3, 13), (2, 5, 4), (2, 6, 8)):
      out.append(Case('large_power', {'p': p, 'n': n, 'm': m, 'e': e, 'free': [0]}, weight=3))
  return out
