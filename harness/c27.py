"""C27  fractions over Z/p."""
from engine.runner import Case
from harness.common import seq  # noqa

BOUNDS = {
    'quick': 'p = 2, 3, 5, 7 (construction, equality, powers and encoding: 11 too); every numerator and every nonzero denominator (also unreduced and negative ones) of two or three operands; '
             'exponents 0 to 6; the 64-byte encoding; augmented assignments',
    'thorough': 'additionally p = 11, 13, 17, 31 throughout; exponents to 12'}
OUTSIDE = 'larger primes (the gcd recursion has too many paths); denominators that vanish modulo p; negative exponents'
ASSUMPTIONS = ['moduli are prime, denominators do not vanish modulo p']


def _num(env, Q, p, name, wide=False):
  """a fraction, its numerator and its denominator"""
  lo, hi = (-p, 2 * p) if wide else (0, p - 1)
  m, n = env.int(name + 'm', lo, hi), env.int(name + 'n', lo, hi)
  env.assume(n % p != 0)
  return Q(m, n), m, n


def _is(env, x, m, n, p):
  """x is the fraction m/n"""
  return env.all([(x.m * n - m * x.n) % p == 0, x.n % p != 0])


def _ops(env, p):
  Q = env.get('rationals_modp', 'RationalsModP')(p)
  return Q, _num(env, Q, p, 'a'), _num(env, Q, p, 'b')


def build(env, p):
  Q = env.get('rationals_modp', 'RationalsModP')(p)
  x, m, n = _num(env, Q, p, 'a', True)
  env.check(_is(env, x, m, n, p), 'the fraction given')
  env.check(env.all([x.m >= 0, x.m < p, x.n > 0, x.n < p]), 'small numerator and denominator')
  env.check(_is(env, -x, -m, n, p), 'negation')
  k = env.int('k', -p, 2 * p)
  env.check(_is(env, Q(k), k, 1, p), 'an integer')


def arithmetic(env, p, op):
  Q, (x, a, b), (y, c, d) = _ops(env, p)
  if op == 'add':
    r, m, n = x + y, a * d + c * b, b * d
  elif op == 'sub':
    r, m, n = x - y, a * d - c * b, b * d
  elif op == 'mul':
    r, m, n = x * y, a * c, b * d
  else:
    if c % p == 0:
      env.check(env.raises(lambda: x / y), 'division by zero is refused')
      env.check(env.raises(y.inverse), 'zero has no inverse')
      return
    r, m, n = x / y, a * d, b * c
    i = y.inverse()
    env.check(_is(env, i, d, c, p), 'inverse')
    env.check(i * y == 1, 'times the inverse is one')
  env.check(type(r) is Q, 'type')
  env.check(_is(env, r, m, n, p), 'result')
  env.check(env.all([_is(env, x, a, b, p), _is(env, y, c, d, p)]), 'operands unchanged')


def augmented(env, p, op):
  """an augmented assignment changes the name only, not the fraction it referred to"""
  Q, (x, a, b), (y, c, d) = _ops(env, p)
  r = x
  if op == 'add':
    r += y
    m, n = a * d + c * b, b * d
  elif op == 'sub':
    r -= y
    m, n = a * d - c * b, b * d
  else:
    r *= y
    m, n = a * c, b * d
  env.check(_is(env, r, m, n, p), 'result')
  env.check(env.all([_is(env, x, a, b, p), _is(env, y, c, d, p)]), 'operands unchanged')


def mixed(env, p):
  Q = env.get('rationals_modp', 'RationalsModP')(p)
  x, a, b = _num(env, Q, p, 'a')
  k = env.int('k', -p, p)
  for label, r, m, n in (('element + int', x + k, a + k * b, b), ('int + element', k + x, a + k * b, b),
                         ('element - int', x - k, a - k * b, b), ('int - element', k - x, k * b - a, b),
                         ('element * int', x * k, a * k, b), ('int * element', k * x, a * k, b)):
    env.check(_is(env, r, m, n, p), label)
  env.check(env.iff(x == k, (a - k * b) % p == 0), 'equal to int')


def equality(env, p):
  Q, (x, a, b), (y, c, d) = _ops(env, p)
  same = (a * d - c * b) % p == 0
  env.check(env.iff(x == y, same), 'equal')
  env.check(env.iff(x != y, env.not_(same)), 'not equal')


def laws(env, p):
  Q, (x, a, b), (y, c, d) = _ops(env, p)
  z, e, f = _num(env, Q, p, 'c')
  env.check((x + y) + z == x + (y + z), 'associative sum')
  env.check(x * (y + z) == x * y + x * z, 'distributive')
  env.check((x * y) * z == x * (y * z), 'associative product')


def power(env, p, n):
  Q = env.get('rationals_modp', 'RationalsModP')(p)
  x, a, b = _num(env, Q, p, 'a')
  env.check(_is(env, x**n, a**n, b**n, p), 'power')


def encoding(env, p):
  Q, (x, a, b), (y, c, d) = _ops(env, p)
  s = x.to_bytes()
  env.check(len(s) == 64, 'length')
  env.check(Q(s) == x, 'decodes')
  env.check(env.implies(s == y.to_bytes(), x == y), 'different elements have different encodings')


def CASES(tier):
  th = tier == 'thorough'
  cs = []

  def add(fn, w=1, **p):
    cs.append(Case(fn, p, weight=w, budget_s=90 if not th else 600, path_s=60))

  for p in (2, 3, 5, 7, 11) + ((13, 17, 31) if th else ()):
    add('build', p=p, w=p)
    for op in ('add', 'sub', 'mul', 'div'):
      if p < 11 or th:
        add('arithmetic', p=p, op=op, w=p)
    add('equality', p=p, w=p)
    if p < 11 or th:
      add('mixed', p=p, w=p)
    add('encoding', p=p, w=p)
    if p <= (5 if not th else 13):
      for op in ('add', 'sub', 'mul'):
        add('augmented', p=p, op=op, w=p)
    if p <= (3 if not th else 5):
      add('laws', p=p, w=p)
    for n in range(0, 7 if not th else 13):
      add('power', p=p, n=n)
  return cs
