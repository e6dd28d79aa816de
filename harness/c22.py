"""C22  bit and integer commitments."""
from engine.runner import Case
from harness.common import seq  # noqa

BOUNDS = {
    'quick': 'bit commitments with the squaring map modulo 77 and with every affine bijection modulo 257 (binding: five slopes, every offset); integer commitments of 1 to 4 bits, and of up to 65 bits with two or three of them unknown; '
             'every secret, every committed value, every opening presented (right, wrong, too short, too long)',
    'thorough': 'integers of up to 7 bits, squaring modulo 21, 77 and 209'}
OUTSIDE = 'secrecy (a computational assumption about the permutation); larger moduli'
ASSUMPTIONS = ['the one-way permutation and predicate are given functions: squaring on quadratic residues, affine maps, parity, low bit']


def _mods(env, *names):
  return env.get('commitment', *names)


def _maps(env, kind):
  if kind == 'affine' or isinstance(kind, tuple) or isinstance(kind, list):
    a = env.int('fa', 1, 256) if kind == 'affine' else kind[1]
    b = env.int('fb', 0, 256)
    return (lambda x: (a * x + b) % 257), (lambda x: x % 2), 256
  m = kind
  return (lambda x: pow(x, 2, m)), (lambda x: x % 2), m - 1


def bit(env, kind, k):
  """an honest commitment opens to its bit"""
  Scheme, Ver = _mods(env, 'BBSBitCommitmentScheme', 'BBSBitCommitmentVerifier')
  f, h, _ = _maps(env, kind)
  b = env.int('b', 0, 1)
  s = Scheme(f, h, k)
  c = s.commit(b)
  v = Ver(f, h)
  o = s.reveal()
  env.check(v.verify(o, c), 'the opening verifies')
  env.check(v.decode(o, c) == b, 'and shows the bit')
  env.check(s.reveal() == o, 'the opening is stable')
  c2 = s.commit(1 - b)
  env.check(c2 != c, 'the two bits have different commitments')


def binding(env, kind):
  """a commitment opens to one bit only"""
  Ver, = (_mods(env, 'BBSBitCommitmentVerifier'),)
  f, h, top = _maps(env, kind)
  y, c = env.int('y', 0, top), env.int('c', 0, 1)
  if isinstance(kind, (tuple, list)):
    s, t = env.int('s', 0, 256), env.int('t', 0, 256)
  else:
    # secrets are quadratic residues prime to the modulus, on which squaring is injective
    a, b = env.int('s', 1, top), env.int('t', 1, top)
    for p in [q for q in range(2, kind) if kind % q == 0 and all(q % d for d in range(2, q))]:
      env.assume(env.all([a % p != 0, b % p != 0]))
    s, t = (a * a) % kind, (b * b) % kind
  v = Ver(f, h)
  ok = v.verify(s, (y, c))
  env.check(env.iff(ok, f(s) == y), 'an opening verifies exactly when it maps to the commitment')
  both = env.all([ok, v.verify(t, (y, c))])
  env.check(env.implies(both, v.decode(s, (y, c)) == v.decode(t, (y, c))), 'two openings show the same bit')


def integer(env, kind, bits, k):
  Scheme, Ver = _mods(env, 'BBSIntCommitmentScheme', 'BBSIntCommitmentVerifier')
  f, h, _ = _maps(env, kind)
  n = env.int('n', 0, 2**bits - 1)
  s = Scheme(bits, f, h, k)
  c = s.commit(n)
  o = s.reveal()
  v = Ver(bits, f, h)
  env.check(len(c) == bits and len(o) == bits, 'one commitment for each bit')
  env.check(v.verify(o, c), 'the opening verifies')
  env.check(v.decode(o, c) == n, 'and shows the integer')


def integer_wide(env, bits, free, pattern):
  """integers of many bits, of which those at `free` are unknown"""
  Scheme, Ver = _mods(env, 'BBSIntCommitmentScheme', 'BBSIntCommitmentVerifier')
  f, h, _ = _maps(env, ('affine', 3))
  n = sum((pattern >> (i % 8) & 1) << i for i in range(bits) if i not in free)
  for i in free:
    n = n + (env.int('n%d' % i, 0, 1) << i)
  known = iter(range(5, 10**6, 37))
  env.draw = lambda lo, hi: lo + next(known) % (hi - lo + 1)
  s = Scheme(bits, f, h, 8)
  c = s.commit(n)
  o = s.reveal()
  v = Ver(bits, f, h)
  env.check(len(c) == bits and len(o) == bits, 'one commitment for each bit')
  env.check(v.verify(o, c), 'the opening verifies')
  env.check(v.decode(o, c) == n, 'and shows the integer')


def secrets(env, bits):
  """every bit has a secret of its own"""
  Scheme, = (_mods(env, 'BBSIntCommitmentScheme'),)
  f, h, _ = _maps(env, ('affine', 3))
  given = env.ints('d', 2 * bits, 0, 255)
  for i in range(len(given)):
    for j in range(i):
      env.assume(given[i] != given[j])
  seen = []

  def draw(lo, hi):
    seen.append(1)
    return lo + given[(len(seen) - 1) % len(given)]

  env.draw = draw
  o = Scheme(bits, f, h, 8).reveal()
  env.check(len(o) == bits, 'one secret for each bit')
  for i in range(bits):
    for j in range(i):
      env.check(o[i] != o[j], 'every bit has a secret of its own')


def overflow(env, bits):
  """an integer that does not fit is refused"""
  Scheme, Ver = _mods(env, 'BBSIntCommitmentScheme', 'BBSIntCommitmentVerifier')
  f, h, _ = _maps(env, 77)
  n = env.int('n', 2**bits, 2**(bits + 2))
  s = Scheme(bits, f, h, 2)
  env.check(env.raises(lambda: s.commit(n)), 'refused')


def openings(env, bits, given, comms):
  """an opening is accepted exactly when every bit of it is"""
  Scheme, Ver = _mods(env, 'BBSIntCommitmentScheme', 'BBSIntCommitmentVerifier')
  f, h, top = _maps(env, 'affine')
  sec = env.ints('s', given, 0, 256)
  com = [(env.int('y%d' % i, 0, 256), env.int('c%d' % i, 0, 1)) for i in range(comms)]
  v = Ver(bits, f, h)
  try:
    ok = v.verify(sec, com)
  except Exception:
    ok = False
  if given == comms == bits:
    want = env.all([f(s) == c[0] for s, c in zip(sec, com)])
    env.check(env.iff(ok, want), 'accepted exactly when every bit is')
    if ok:
      d = v.decode(sec, com)
      n = 0
      for s, c in zip(sec, com):
        n = 2 * n + (c[1] + s) % 2
      env.check(d == n, 'decoded integer')
  else:
    env.check(env.not_(ok), 'missing or additional bits are not accepted')


def CASES(tier):
  th = tier == 'thorough'
  cs = []

  def add(fn, w=1, **p):
    cs.append(Case(fn, p, weight=w, budget_s=60 if not th else 400, path_s=40))

  for kind in ('affine', 77) + ((21, 209) if th else ()):
    add('bit', kind=kind, k=4)
    if kind != 'affine':
      add('binding', kind=kind)
    for b in (1, 2, 3, 4) + ((5, 7) if th else ()):
      add('integer', kind=kind, bits=b, k=3)
  for b, free in ((7, [0, 6]), (8, [0, 7]), (9, [4, 8]), (16, [0, 8, 15]), (31, [30]), (32, [0, 31]), (33, [32]), (64, [0, 63]), (65, [64])):
    for pattern in (0, 255, 0b10110010):
      add('integer_wide', bits=b, free=free, pattern=pattern)
  for a in (1, 2, 3, 100, 256) + ((5, 17, 64, 128, 255) if th else ()):
    add('binding', kind=('affine', a))
  for b in (2, 3, 4):
    add('secrets', bits=b)
  for b in (1, 2, 4):
    add('overflow', bits=b)
  for b, g, c in ((1, 1, 1), (2, 2, 2), (3, 3, 3), (2, 1, 2), (2, 2, 1), (2, 1, 1), (2, 0, 0), (2, 3, 3), (2, 3, 2), (2, 2, 3), (3, 2, 2)):
    add('openings', bits=b, given=g, comms=c)
  return cs
