"""C02  inverse, division and powers in Z/p."""
from engine.runner import Case
from harness.common import seq  # noqa

BIG = 2**256 - 2**32 * 351 + 1
M61 = 2**61 - 1
BOUNDS = {
    'quick': 'inverse: every nonzero element for p in 2,3,5,7,31,97,257, and small windows of elements around 2, p, p/2, '
             'p/3, p/7 for p in 65537, 2^61-1, 2^256-2^32*351+1; division: every pair for p <= 31; powers: every base for '
             'exponents 0..17 and p in 2,7,257,2^61-1,2^256-2^32*351+1; every exponent up to 80, twenty exponents up to p^2+1; exponent pairs up to 9 symbolically; up to three inverses one after the other, of every element of fields up to 2^256-2^32*351+1, with the Bezout factors by their contract',
    'thorough': 'inverse additionally p in 13,127,521,1021 and windows three times as wide; division p <= 257; exponents to 33'}
OUTSIDE = 'negative exponents; composite moduli; the inverse of arbitrary elements of large fields outside the windows'
ASSUMPTIONS = ['moduli are prime', 'in `several` extended_euclidean_algorithm(a, p) gives x with a x = 1 mod p (decided for the real code by inverse, inverse_near and C03)']


def inverse(env, p):
  F = env.get('modp', 'IntegersModP')(p)
  a = env.int('a', 1, p - 1)
  x = F(a)
  y = x.inverse()
  env.check(type(y) is F, 'type')
  env.check((a * int(y)) % p == 1, 'x * x.inverse() = 1')
  env.check(env.all([int(y) > 0, int(y) < p]), 'canonical')
  env.check(int(x) == a, 'operand unchanged')


def inverse_near(env, p, base, span):
  """elements within span of a given point of a large field"""
  F = env.get('modp', 'IntegersModP')(p)
  s = env.int('s', 0, span)
  a = (base + s) % p
  env.assume(a != 0)
  y = F(a).inverse()
  env.check((a * int(y)) % p == 1, 'x * x.inverse() = 1')


def division(env, p):
  F = env.get('modp', 'IntegersModP')(p)
  a = env.int('a', -2 * p, 2 * p)
  b = env.int('b', 1, p - 1)
  q = F(a) / F(b)
  env.check((int(q) * b - a) % p == 0, '(x / y) * y = x')
  r = a / F(b)
  env.check((int(r) * b - a) % p == 0, '(int / y) * y = int')


def zero(env, p):
  F = env.get('modp', 'IntegersModP')(p)
  k = env.int('k', -3, 3)
  z = F(k * p)
  env.check(env.raises(lambda: z.inverse()), 'inverse of zero raises')
  a = env.int('a', 0, p - 1)
  env.check(env.raises(lambda: F(a) / z), 'division by zero raises')
  env.check(env.raises(lambda: a / z), 'division of an int by zero raises')


def power(env, p, n):
  F = env.get('modp', 'IntegersModP')(p)
  a = env.int('a', -2 * p, 2 * p)
  x = F(a)
  y = x**n
  ref = 1
  for _ in range(n):
    ref = ref * a
  env.check(type(y) is F, 'type')
  env.check(int(y) == ref % p, 'power')
  env.check(int(x) == a % p, 'operand unchanged')


def power_square_multiply(env, p, n):
  """large exponents against repeated squaring from the top bit"""
  F = env.field(p)
  a = env.int('a', 0, p - 1)
  y = F(a)**n
  ref = 1
  for bit in bin(n)[2:]:
    ref = (ref * ref) % p
    if bit == '1':
      ref = (ref * a) % p
  env.check(int(y) == ref, 'power')


def exponents(env, p, hi):
  """every exponent in a range, every base"""
  F = env.get('modp', 'IntegersModP')(p)
  n = env.concrete(env.int('n', 0, hi))
  a = env.int('a', 0, p - 1)
  y = F(a)**n
  ref = 1
  for _ in range(n):
    ref = (ref * a) % p
  env.check(int(y) == ref, 'the product of n factors')


def power_symbolic(env, p, hi):
  F = env.get('modp', 'IntegersModP')(p)
  n = env.int('n', 0, hi)
  m = env.int('m', 0, hi)
  a = env.int('a', 0, p - 1)
  x = F(a)
  env.check(x**n * x**m == x**(n + m), 'x**n * x**m = x**(n+m)')


def several(env, p, k, first=()):
  """inverses of several elements, one after the other; the Bezout factors are taken by their contract (C03)"""
  env.bezout(p)
  F = env.get('modp', 'IntegersModP')(p)
  vs = list(first) + env.ints('a', k, 1, p - 1)
  for n, v in enumerate(vs):
    y = F(v).inverse()
    env.check((v * int(y)) % p == 1, 'x * x.inverse() = 1, at turn %d' % n)
  b = env.int('b', 0, p - 1)
  for n, v in enumerate(vs):
    env.check((int(F(b) / F(v)) * v - b) % p == 0, '(x / y) * y = x, at turn %d' % n)


def fermat(env, p):
  F = env.get('modp', 'IntegersModP')(p)
  a = env.int('a', 1, p - 1)
  x = F(a)
  env.check(x**(p - 1) == 1, 'x**(p-1) = 1')
  env.check(x**p == x, 'x**p = x')
  env.check(x**(p - 2) == x.inverse(), 'x**(p-2) = 1/x')


def CASES(tier):
  t = tier == 'thorough'
  out = []
  for p in (2, 3, 5, 7, 31, 97, 257) + ((13, 127, 521, 1021) if t else ()):
    out.append(Case('inverse', {'p': p}, **({'budget_s': 120.0} if p > 200 else {})))
  for p in (2, 3, 5, 7, 31) + ((97, 257) if t else ()):
    out.append(Case('division', {'p': p}))
  for p in (2, 3, 7, 31, 257):
    out.append(Case('zero', {'p': p}))
  for p, base, w in ((65537, 2, 12), (65537, -12, 11), (65537, 32768, 12), (M61, 2, 5), (M61, -6, 5),
                     (M61, M61 // 3, 2), (BIG, 2, 1), (BIG, -2, 1), (BIG, BIG // 2, 1), (BIG, BIG // 7, 1)):
    if t:
      w = 3 * w + 1
    out.append(Case('inverse_near', {'p': p, 'base': base, 'span': w}, budget_s=300 if t else 60))
  for p in (2, 7, 257, M61, BIG):
    for n in list(range(0, 18)) + ([31, 32, 33] if t else []):
      out.append(Case('power', {'p': p, 'n': n}))
  for p in (7, M61, BIG):
    out.append(Case('exponents', {'p': p, 'hi': 300 if t else 80}))
  for p in (257, BIG):
    for n in (63, 64, 65, 100, 127, 255, 256, 257, 1000, 1023, 65535, 65537, 2**32 + 5, 2**64 - 1, 3 * 2**100 + 7, p - 2, p - 1, (p - 1) // 2, p, p * p + 1,
              2**256, 2**256 + 1, 2**257 - 1, 2**300 + 2**10 + 3, 3 * 2**512 + 1):
      out.append(Case('power_square_multiply', {'p': p, 'n': n}))
  for p in (257, M61, 2**89 - 1, BIG):
    for k in (2, 3) + ((4,) if t else ()):
      out.append(Case('several', {'p': p, 'k': k}, fresh=True))
    for first in ([5], [p // 3, 2]):
      out.append(Case('several', {'p': p, 'k': 1, 'first': first}, fresh=True))
  for p in (3, 7, 31):
    out.append(Case('fermat', {'p': p}))
    out.append(Case('power_symbolic', {'p': p, 'hi': 9}))
  return out
