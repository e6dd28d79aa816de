"""C03  gcd and extended Euclid."""
from engine.runner import Case
from harness.common import seq  # noqa

BOUNDS = {
    'quick': 'integers: every pair in [0,63]^2, every pair of signed integers up to 5 and [-127,127]x[-3,3] and bands [0,B]x[0,15] for B up to 2^16, windows of 4x4 around six pairs of large numbers (up to 2^255, neighbouring Fibonacci numbers); polynomials over Z/2 with up to 4+4 '
             'coefficients, Z/3 3+3, Z/5 3+2, Z/7 2+2 (all coefficient values)',
    'thorough': 'integers [0,255]^2; polynomials Z/2 5+5, Z/3 4+3, Z/5 and Z/7 3+3'}
OUTSIDE = 'the sign of the result for negative integers'


def integers(env, hi_a, hi_b, swap):
  gcd, ext = env.get('euclidean', 'gcd', 'extended_euclidean_algorithm')
  a = env.int('a', 0, hi_a)
  b = env.int('b', 0, hi_b)
  if swap:
    a, b = b, a
  g = gcd(a, b)
  x, y, d = ext(a, b)
  env.check(a * x + b * y == d, 'a x + b y = d')
  env.check(g == d, 'both algorithms agree')
  env.check(d >= 0, 'not negative')
  if d == 0:
    env.check(env.all([a == 0, b == 0]), 'zero only for (0, 0)')
  else:
    env.check(env.all([a % d == 0, b % d == 0]), 'divides both')


def far(env, a, b, span):
  """around large numbers with long quotient sequences"""
  gcd, ext = env.get('euclidean', 'gcd', 'extended_euclidean_algorithm')
  a = a + env.concrete(env.int('s', 0, span))
  b = b + env.concrete(env.int('t', 0, span))
  g = gcd(a, b)
  x, y, d = ext(a, b)
  env.check(a * x + b * y == d, 'a x + b y = d')
  env.check(env.all([g == d, d > 0]), 'both algorithms agree')
  env.check(env.all([a % d == 0, b % d == 0]), 'divides both')


def signed(env, hi_a, hi_b):
  """with signs, the divisor is known up to its sign"""
  gcd, ext = env.get('euclidean', 'gcd', 'extended_euclidean_algorithm')
  a = env.int('a', -hi_a, hi_a)
  b = env.int('b', -hi_b, hi_b)
  g = gcd(a, b)
  x, y, d = ext(a, b)
  env.check(a * x + b * y == d, 'a x + b y = d')
  env.check(env.any([g == d, g == -d]), 'both algorithms agree up to the sign')
  if d == 0:
    env.check(env.all([a == 0, b == 0]), 'zero only for (0, 0)')
  else:
    env.check(env.all([a % d == 0, b % d == 0]), 'divides both')
    env.check(env.all([a % g == 0, b % g == 0]), 'the gcd divides both')


def common_divisor(env, hi):
  """multiples of g have a gcd that g divides"""
  gcd = env.get('euclidean', 'gcd')
  g = env.int('g', 1, hi)
  u = env.int('u', 0, hi)
  v = env.int('v', 0, hi)
  d = gcd(g * u, g * v)
  env.check(d % g == 0, 'every common divisor divides the gcd')


def _divides(env, P, d, f):
  """d | f decided without the code's own division: schoolbook elimination on
  coefficient lists, with the inverse of d's leading coefficient"""
  p = P.ring.p
  dc = [int(c) for c in d.coefficients]
  fc = [int(c) for c in f.coefficients]
  inv = _inv(env, dc[-1], p)
  for i in range(len(fc) - len(dc), -1, -1):
    q = (fc[i + len(dc) - 1] * inv) % p
    for j, c in enumerate(dc):
      fc[i + j] = (fc[i + j] - q * c) % p
  return env.all([c == 0 for c in fc])


def _inv(env, c, p):
  r = 1
  for _ in range(p - 2):
    r = (r * c) % p
  return r


def polynomials(env, p, n, m):
  gcd, ext = env.get('euclidean', 'gcd', 'extended_euclidean_algorithm')
  P = env.get('polynomial', 'polynomials_over')(env.get('modp', 'IntegersModP')(p))
  f = P(env.ints('f', n, 0, p - 1))
  g = P(env.ints('g', m, 0, p - 1))
  d = gcd(f, g)
  x, y, e = ext(f, g)
  env.check(f * x + g * y == e, 'f x + g y = d')
  env.check(d.degree() == e.degree(), 'both algorithms agree up to a unit')
  if d.is_zero():
    env.check(f.is_zero() and g.is_zero(), 'zero only for (0, 0)')
  else:
    env.check(env.all([_divides(env, P, d, f), _divides(env, P, d, g)]), 'gcd divides both')
    env.check(env.all([_divides(env, P, e, f), _divides(env, P, e, g)]), 'd divides both')


def CASES(tier):
  t = tier == 'thorough'
  out = []
  for hi_a, hi_b in ([(63, 63), (1023, 15), (1 << 16, 15)] + ([(255, 255), (1 << 30, 15)] if t else [])):
    for swap in (0, 1):
      out.append(Case('integers', {'hi_a': hi_a, 'hi_b': hi_b, 'swap': swap}, budget_s=400 if t else 60))
  for hi_a, hi_b in ((5, 5), (127, 3), (3, 127)) + (((31, 31),) if t else ()):
    out.append(Case('signed', {'hi_a': hi_a, 'hi_b': hi_b}, budget_s=400 if t else 60))
  out.append(Case('common_divisor', {'hi': 15 if t else 7}, budget_s=400 if t else 60))
  sizes = [(2, 4, 4), (2, 5, 2), (3, 3, 3), (3, 2, 3), (5, 3, 2), (5, 2, 3), (7, 2, 2)]
  if t:
    sizes += [(2, 5, 5), (2, 6, 4), (3, 4, 3), (3, 3, 4), (5, 3, 3), (7, 3, 3)]
  for p, n, m in sizes:
    out.append(Case('polynomials', {'p': p, 'n': n, 'm': m}, budget_s=600 if t else 60))
  fib = [0, 1]
  while len(fib) < 150:
    fib.append(fib[-1] + fib[-2])
  for a, b in ((fib[40], fib[39] - 1), (fib[100] - 1, fib[99]), (2**64 - 2, 2**32), (2**255, 3), (10**30, 10**15 * 7), (2**200, 2**200 - 3)):
    out.append(Case('far', {'a': a, 'b': b, 'span': 9 if t else 3}))
  return out
