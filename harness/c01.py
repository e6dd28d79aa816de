"""C01  Z/p arithmetic and canonical form."""
from engine.runner import Case
from harness.common import seq  # noqa

BIG = 2**256 - 2**32 * 351 + 1
M61 = 2**61 - 1
BOUNDS = {
    'quick': 'moduli 2,3,5,7,31,257,65537,2^61-1 and 2^256-2^32*351+1; integer operands in [-4p,4p] and, separately, '
             'in [-2^300,2^300]; byte strings of every length 0..40; accumulations of 6 operands; augmented assignments',
    'thorough': 'additionally moduli 11,13,97,2^31-1; operands up to 2^600; byte strings up to 64; accumulations of 10 operands'}
OUTSIDE = 'other moduli; operands that are not int, bytes or elements'
ASSUMPTIONS = ['moduli are prime']


def ring(env, p, span):
  F = env.get('modp', 'IntegersModP')(p)
  lo, hi = (-4 * p, 4 * p) if span == 0 else (-(1 << span), 1 << span)
  a = env.int('a', lo, hi)
  b = env.int('b', lo, hi)
  x, y = F(a), F(b)
  env.check(env.all([int(x) >= 0, int(x) < p]), 'canonical range')
  env.check(int(x) == a % p, 'representative')
  for label, got, want in (
      ('sum', x + y, a + b), ('difference', x - y, a - b), ('product', x * y, a * b),
      ('negation', -x, -a), ('copy', F(x), a),
      ('element + int', x + b, a + b), ('int + element', a + y, a + b),
      ('element - int', x - b, a - b), ('int - element', a - y, a - b),
      ('element * int', x * b, a * b), ('int * element', a * y, a * b)):
    env.check(type(got) is F, label + ' has the field type')
    env.check(int(got) == want % p, label)
  # operands are not modified
  env.check(env.all([int(x) == a % p, int(y) == b % p]), 'operands unchanged')


def augmented(env, p):
  """an augmented assignment changes the name only, not the element it referred to"""
  F = env.get('modp', 'IntegersModP')(p)
  a, b = env.int('a', 0, p - 1), env.int('b', 0, p - 1)
  x, y = F(a), F(b)
  s = d = m = x
  s += y
  d -= y
  m *= y
  for label, got, want in (('+=', s, a + b), ('-=', d, a - b), ('*=', m, a * b)):
    env.check(int(got) == want % p, label)
  env.check(env.all([int(x) == a, int(y) == b]), 'operands unchanged')
  c = F(x)
  c += 1
  env.check(int(x) == a, 'a copy is independent')


def equality(env, p, span):
  F = env.get('modp', 'IntegersModP')(p)
  lo, hi = (-4 * p, 4 * p) if span == 0 else (-(1 << span), 1 << span)
  a = env.int('a', lo, hi)
  b = env.int('b', lo, hi)
  x, y = F(a), F(b)
  same = (a - b) % p == 0
  env.check(env.iff(x == y, same), 'equal')
  env.check(env.iff(x != y, env.not_(same)), 'not equal')
  env.check(env.iff(x == b, same), 'equal to int')
  env.check(env.iff(x != b, env.not_(same)), 'not equal to int')
  env.check(env.iff(b == x, same), 'int equal to element')


def chain(env, p, n, ops):
  """long expressions stay canonical and exact"""
  F = env.get('modp', 'IntegersModP')(p)
  vals = env.ints('a', n, -2 * p, 2 * p)
  acc, ref = F(vals[0]), vals[0]
  for i, v in enumerate(vals[1:]):
    op = ops[i % len(ops)]
    if op == '+':
      acc, ref = acc + F(v), ref + v
    elif op == '-':
      acc, ref = acc - F(v), ref - v
    elif op == 'r':
      acc, ref = v - acc, v - ref
    else:
      acc, ref = acc * F(v), ref * v
  env.check(int(acc) == ref % p, 'chain %s' % ops)
  env.check(env.all([int(acc) >= 0, int(acc) < p]), 'canonical range')


def from_bytes(env, p, n):
  F = env.get('modp', 'IntegersModP')(p)
  d = env.bytes('d', n)
  x = F(d)
  v = int.from_bytes(d, 'big')
  env.check(int(x) == v % p, 'value of bytes')
  env.check(env.all([int(x) >= 0, int(x) < p]), 'canonical range')


def serial(env, p):
  F = env.get('modp', 'IntegersModP')(p)
  a = env.int('a', -4 * p, 4 * p)
  x = F(a)
  d = x.to_bytes()
  env.check(len(d) == 32, 'encoding has 32 bytes')
  env.check(int.from_bytes(d, 'big') == a % p, 'encoding is big-endian')
  env.check(F(d) == x, 'round trip')


def integer_division(env, p):
  """divmod on representatives"""
  F = env.get('modp', 'IntegersModP')(p)
  a = env.int('a', 0, p - 1)
  b = env.int('b', 1, p - 1)
  q, r = divmod(F(a), F(b))
  env.check(env.all([int(r) >= 0, int(r) < b]), 'remainder is smaller than the divisor')
  env.check(int(q) * b + int(r) == a, 'dividend = quotient * divisor + remainder')
  env.check(abs(F(a)) == a, 'valuation')


def enumerate_field(env, p):
  F = env.get('modp', 'IntegersModP')(p)
  elts = list(F.__iter__())
  env.check(len(elts) == p, 'iteration yields p elements')
  k = env.int('k', 0, p - 1)
  env.check(int(elts[env.concrete(k)]) == k, 'iteration order')
  env.check(F.field_size == p and F.p == p and F.m == 1, 'parameters')


def CASES(tier):
  t = tier == 'thorough'
  ps = [2, 3, 5, 7, 31, 257, 65537, M61, BIG] + ([11, 13, 97, 2**31 - 1] if t else [])
  out = []
  for p in ps:
    for span in (0, 300) + ((600,) if t else ()):
      out.append(Case('ring', {'p': p, 'span': span}))
      out.append(Case('equality', {'p': p, 'span': span}))
    out.append(Case('serial', {'p': p}))
    out.append(Case('augmented', {'p': p}))
    for ops in ('+-*', '*r+', '*', '--+', '+'):
      out.append(Case('chain', {'p': p, 'n': 10 if t else 6, 'ops': ops}))
  for p in (2, 7, 257, BIG):
    for n in ((0, 1, 2, 4, 31, 32, 33, 40) if not t else (0, 1, 2, 3, 4, 8, 16, 20, 31, 32, 33, 40, 48, 64)):
      out.append(Case('from_bytes', {'p': p, 'n': n}))
  for p in (2, 3, 7, 31) + ((97,) if t else ()):
    out.append(Case('integer_division', {'p': p}))
  for p in (2, 3, 7, 31):
    out.append(Case('enumerate_field', {'p': p}))
  return out
