"""C25  primality testing and the Blum-Blum-Shub generator."""
from engine.runner import Case
from harness.common import seq  # noqa

PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47]
BOUNDS = {
    'quick': 'every integer up to 2^12 for the decomposition and the parity, and numbers of up to 1000 bits of which 6 are unknown; every candidate up to 48 with every sequence of 1 or 2 random '
             'witnesses for the primality test; every sequence of up to 3 random candidates of 4 bits for the choice of a prime; generators of 4-bit primes on every argument',
    'thorough': 'candidates up to 100, three witnesses'}
OUTSIDE = 'larger candidates; the quality of the random source'
ASSUMPTIONS = ['the random source returns any value of the range asked for']


def decompose(env, hi):
  n = env.int('n', 1, hi)
  e, r = env.get('primality', 'decompose')(n)
  env.check(n == 2**e * r, 'product')
  env.check(r % 2 == 1, 'odd part')


def parity(env, bits):
  n = env.int('n', 0, 2**bits - 1)
  s = 0
  for i in range(bits):
    s = s + (n // 2**i) % 2
  env.check(env.get('blum_blum_shub', 'parity')(n) == s % 2, 'sum of the bits modulo 2')


def decompose_wide(env, pos, e):
  """numbers of many bits: a power of two times an odd number with unknown bits"""
  odd = 1
  for i, k in enumerate(pos):
    odd = odd + env.concrete(env.int('b%d' % i, 0, 1)) * 2**k
  n = odd * 2**e
  ee, r = env.get('primality', 'decompose')(n)
  env.check(env.all([ee == e, r == odd]), 'the power of two and the odd part')


def parity_wide(env, pos):
  bits = [env.concrete(env.int('b%d' % i, 0, 1)) for i in range(len(pos))]
  n = 0
  for b, k in zip(bits, pos):
    n = n + b * 2**k
  env.check(env.get('blum_blum_shub', 'parity')(n) == sum(bits) % 2, 'sum of the bits modulo 2')


def prime(env, p, acc):
  """a prime is never rejected"""
  env.check(env.get('primality', 'probablyPrime')(p, accuracy=acc) is True, 'a prime is accepted whatever the witnesses')


def _liars(n):
  """bases for which a composite passes one round (computed from the definition)"""
  d, s = n - 1, 0
  while d % 2 == 0:
    d //= 2
    s += 1
  out = []
  for a in range(2, n - 1):
    x = pow(a, d, n)
    if x == 1 or any(pow(a, 2**i * d, n) == n - 1 for i in range(s)):
      out.append(a)
  return out


def composite(env, n, acc):
  """a composite is accepted only when every witness drawn is a strong liar"""
  start = env.draws
  r = env.get('primality', 'probablyPrime')(n, accuracy=acc)
  env.check(env.any([r is True, r is False]), 'a verdict')
  if n % 2 == 0 or n < 2:
    env.check(r is False, 'small and even numbers are rejected')
    return
  w = env.get('primality', 'isWitness')
  a = env.int('a', 2, n - 2)
  e, q = env.get('primality', 'decompose')(n - 1)
  liar = env.any([a == l for l in _liars(n)])
  env.check(env.iff(w(a, n, e, q), env.not_(liar)), 'a witness is a base that is no strong liar')
  if not _liars(n)[1:] and len(_liars(n)) == 0:
    env.check(r is False, 'a composite without liars is rejected')


def rounds(env, n, acc):
  """the verdict is over all the witnesses drawn"""
  seen = []
  draw = env.draw

  def spy(lo, hi):
    v = draw(lo, hi)
    seen.append((v, lo, hi))
    return v

  env.draw = spy
  r = env.get('primality', 'probablyPrime')(n, accuracy=acc)
  l = _liars(n)
  bad = env.any([env.not_(env.any([v == x for x in l])) for v, _, _ in seen])
  env.check(env.iff(r is False, bad), 'rejected exactly when some base drawn is a witness')
  env.check(env.all([env.all([lo >= 1, hi <= n - 1]) for _, lo, hi in seen]), 'bases between 1 and n - 1')
  if r is True:
    env.check(len(seen) == acc, 'an accepted number has passed every round')


def good(env, p):
  r = env.get('blum_blum_shub', 'good_prime')(p)
  want = p % 4 == 3 and p in PRIMES
  env.check((not want) or bool(r), 'a Blum prime is good')
  if p % 4 != 3 or p % 2 == 0:
    env.check(not r, 'other residues are not')


def find(env, bits, draws):
  env.max_draws = draws
  mod = env.mod('blum_blum_shub')
  real = mod.good_prime
  mod.good_prime = lambda p: env.any([p == q for q in PRIMES if q % 4 == 3])
  try:
    p = env.get('blum_blum_shub', 'find_good_prime')(bits)
  finally:
    mod.good_prime = real
  env.check(env.any([p == q for q in PRIMES if q % 4 == 3]), 'a prime congruent to 3 modulo 4')


def generator(env, bits, draws):
  env.max_draws = draws
  mod = env.mod('blum_blum_shub')
  real = mod.good_prime
  mod.good_prime = lambda p: env.any([p == q for q in PRIMES if q % 4 == 3])
  draw, drawn = env.draw, []

  def spy(lo, hi):
    drawn.append(draw(lo, hi))
    return drawn[-1]

  env.draw = spy
  try:
    f = env.get('blum_blum_shub', 'blum_blum_shub')(bits)
  finally:
    mod.good_prime = real
    env.draw = draw
  x = env.int('x', 0, 999)
  blum = [q for q in PRIMES if q % 4 == 3 and q < 2**bits]
  y = f(x)
  mods = sorted({p * q for p in blum for q in blum})
  env.check(env.any([y == (x * x) % m for m in mods]), 'squaring modulo a product of two such primes')
  env.check(env.any([env.all([drawn[i] == p, drawn[j] == q, y == (x * x) % (p * q)])
                     for i in range(len(drawn)) for j in range(i) for p in blum for q in blum]), 'of two primes that were drawn one after the other')
  # the values at 1000 and 1001 tell every two of these moduli apart
  keys = [(1000 * 1000 % m, 1001 * 1001 % m) for m in mods]
  assert len(set(keys)) == len(mods)
  a, b = f(1000), f(1001)
  env.check(env.all([env.implies(env.all([a == k[0], b == k[1]]), y == (x * x) % m) for k, m in zip(keys, mods)]), 'always the same modulus')


def CASES(tier):
  th = tier == 'thorough'
  cs = []

  def add(fn, w=1, **p):
    cs.append(Case(fn, p, weight=w, budget_s=60 if not th else 400, path_s=40))

  add('decompose', hi=4096 if not th else 2**16)
  add('parity', bits=8)
  add('parity', bits=12)
  for pos in ([1, 31, 32, 33, 63, 64], [52, 53, 54, 127, 128, 129], [0, 63, 200, 255, 256, 511], [60, 61, 62, 65, 66, 1000]):
    add('parity_wide', pos=pos)
    for e in (0, 1, 53, 70):
      add('decompose_wide', pos=[k for k in pos if k], e=e)
  for p in [q for q in range(2, 48 if not th else 100) if all(q % d for d in range(2, q))]:
    add('prime', p=p, acc=2 if not th else 3)
  for n in [q for q in range(0, 50 if not th else 100) if q < 2 or any(q % d == 0 for d in range(2, q))]:
    add('composite', n=n, acc=1)
    if n % 2 and n > 1:
      add('rounds', n=n, acc=2)
  for p in range(0, 32):
    add('good', p=p) if p % 4 != 3 else None
  add('find', bits=4, draws=3)
  add('generator', bits=4, draws=3)
  return cs
