"""C13  index sampling and the numeric helpers."""
from engine.runner import Case
from harness.common import seq  # noqa

BIG = 2**256 - 2**32 * 351 + 1
BOUNDS = {
    'quick': 'entropy of 32 bytes (every content) and of 4 to 64 bytes, 1 to 16 indices (and 40, 80), 10 moduli up to 2^24-1, excluded '
             'multiples of 2 to 32; power-of-two test on every x in 1..2^20 and on the neighbours of powers up to 2^400; power cycles of every element of Z/p, p <= 31, and '
             'of the 64th roots of unity for p = 2^256-2^32*351+1; mimc for up to 5 steps on every input and constant',
    'thorough': 'up to 40 indices, x up to 2^40, p up to 61'}
OUTSIDE = 'moduli of 2^24 and more (refused); is_a_power_of_2(0) and get_power_cycle(0) do not end'
ASSUMPTIONS = ['blake2s is an uninterpreted function without collisions']


def _ind(env):
  return env.get('utils', 'get_pseudorandom_indices')


def plain(env, n, m, count):
  f = _ind(env)
  e = env.bytes('e', n)
  out = f(e, m, count)
  env.check(len(out) == count, 'number of indices')
  for x in out:
    env.check(env.all([x >= 0, x < m]), 'index in range')
  for k, x in enumerate(out):
    if 4 * k + 4 <= n:
      env.check(x == int.from_bytes(e[4 * k:4 * k + 4], 'big') % m, 'index is the next four bytes')
  env.check(env.eq(f(e, m, count), out), 'same entropy, same indices')
  # past the given bytes: the words of the hash of the last 32 bytes, then of the hash of these, ...
  blake = env.get('merkle_tree', 'blake')
  data, k = e, 0
  while len(data) < 4 * count:
    last = data[-32:]
    data = data + blake(last)
  for k, x in enumerate(out):
    if 4 * k + 4 > n:
      env.check(x == int.from_bytes(data[4 * k:4 * k + 4], 'big') % m, 'index is the next four bytes of the extended entropy')
  env.check(env.eq(f(e, m, count + 2)[:count], out), 'asking for more indices keeps the first ones')


def fresh(env, n, m, count, k):
  """extended entropy does not repeat: no eight words come again"""
  env.fix_oracle(1)
  f = _ind(env)
  e = env.bytes('e', n)
  out = f(e, m, count, k)
  first = (n + 31) // 4
  for i in range(first, count - 8):
    for j in range(i + 1, count - 7):
      env.check(env.not_(env.eq(out[i:i + 8], out[j:j + 8])), 'extended entropy does not repeat')


def excluded(env, n, m, count, k):
  f = _ind(env)
  e = env.bytes('e', n)
  out = f(e, m, count, k)
  env.check(len(out) == count, 'number of indices')
  real = m * (k - 1) // k
  for i, x in enumerate(out):
    env.check(env.all([x >= 0, x < m]), 'index in range')
    env.check(x % k != 0, 'no excluded multiple')
    if 4 * i + 4 <= n:
      env.check(x - 1 - x // k == int.from_bytes(e[4 * i:4 * i + 4], 'big') % real, 'every allowed index comes from one residue')
  env.check(env.eq(f(e, m, count, exclude_multiples_of=k), out), 'keyword')


def large(env, m):
  f = _ind(env)
  e = env.bytes('e', 32)
  env.check(env.raises(lambda: f(e, m, 1)), 'a modulus of 2^24 or more is refused')


def power2(env, lo, hi):
  f = env.get('utils', 'is_a_power_of_2')
  x = env.int('x', lo, hi)
  r = f(x)
  pw = [1 << i for i in range(hi.bit_length()) if lo <= (1 << i) <= hi]
  env.check(env.iff(r, env.any([x == v for v in pw])), 'true exactly for the powers of two')


def power2_wide(env, k):
  """around a large power of two"""
  d = env.concrete(env.int('d', -4, 4))
  x = 2**k + d
  env.check(env.iff(env.get('utils', 'is_a_power_of_2')(x), d == 0), 'true exactly for the power of two')


def cycle(env, p):
  F = env.get('modp', 'IntegersModP')(p)
  f = env.get('utils', 'get_power_cycle')
  a = env.int('a', 1, p - 1)
  out = f(F(a), F)
  n = len(out)
  env.check(env.all([n >= 1, (p - 1) % n == 0]), 'length divides p - 1')
  x = 1
  for i in range(n):
    env.check(out[i] == F(x), 'entry is a power')
    if i:
      env.check(out[i] != F(1), 'one occurs once')
    x = x * a
  env.check(F(x) == F(1), 'the cycle closes')


def cycle_big(env, n):
  """powers of n-th roots of unity, scaled index arithmetic"""
  F = env.get('modp', 'IntegersModP')(BIG)
  f = env.get('utils', 'get_power_cycle')
  w = pow(7, (BIG - 1) // n, BIG)
  k = env.concrete(env.int('k', 0, n - 1))
  r = pow(w, k, BIG)
  out = f(F(r), F)
  import math
  env.check(len(out) == n // math.gcd(n, k), 'length is the order')
  env.check(env.all([x == F(pow(r, i, BIG)) for i, x in enumerate(out)]), 'entries are the powers')


def mimc(env, steps, k):
  f = env.get('utils', 'mimc')
  x = env.int('x', 0, BIG - 1)
  cs = env.ints('c', k, 0, BIG - 1)
  y = f(x, steps, list(cs))
  want = x
  for i in range(steps - 1):
    want = (want * want * want + cs[i % k]) % BIG
  env.check(y == want, 'each step cubes and adds the next constant')


def CASES(tier):
  t = tier == 'thorough'
  out = [Case('fresh', {'n': n, 'm': m, 'count': c, 'k': k}) for n, m, c, k in [(32, 2**23, 48, 0), (4, 2**23, 40, 0), (64, 2**24 - 1, 64, 0), (32, 2**23, 48, 8)]]
  for m in (2, 3, 7, 8, 64, 100, 512, 1000, 8192, 2**24 - 1):
    out.append(Case('plain', {'n': 32, 'm': m, 'count': 8}))
  for n in (1, 4, 16, 31, 33, 64):
    for c in (1, 4, 8, 9, 16) + ((40, 80) if n == 32 else ()) + ((40,) if t else ()):
      out.append(Case('plain', {'n': n, 'm': 512, 'count': c}))
  out.append(Case('plain', {'n': 32, 'm': 512, 'count': 0}))
  for m, k in ((8, 2), (8, 4), (64, 8), (512, 8), (512, 32), (4096, 4), (100, 7), (10, 4), (81, 3), (1 << 23, 16)):
    out.append(Case('excluded', {'n': 32, 'm': m, 'count': 8 if m != 81 else 4, 'k': k}))
    if m in (512, 4096):
      out.append(Case('excluded', {'n': 32, 'm': m, 'count': 80, 'k': k}))
    if m != 81:
      out.append(Case('excluded', {'n': 32, 'm': m, 'count': 12 if not t else 40, 'k': k}))
  for m in (2**24, 2**24 + 1, 2**32):
    out.append(Case('large', {'m': m}))
  out.append(Case('power2', {'lo': 1, 'hi': 2**20}))
  for k in (24, 31, 32, 48, 52, 53, 54, 63, 64, 100, 128, 255, 256, 400):
    out.append(Case('power2_wide', {'k': k}))
  if t:
    out.append(Case('power2', {'lo': 1, 'hi': 2**40}))
  for p in (2, 3, 5, 7, 13, 17, 31) + ((37, 61) if t else ()):
    out.append(Case('cycle', {'p': p}))
  out.append(Case('cycle_big', {'n': 64}))
  for s, k in ((1, 1), (2, 1), (3, 1), (3, 2), (4, 2), (5, 3)):
    out.append(Case('mimc', {'steps': s, 'k': k}))
  return out
