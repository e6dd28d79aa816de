"""C04  the polynomial ring."""
from engine.runner import Case
from harness.common import seq  # noqa
from harness.common import sparse

BIG = 2**256 - 2**32 * 351 + 1
BOUNDS = {
    'quick': 'coefficient rings Z/p for p in 2,3,7,31,2^256-2^32*351+1; up to 5 by 4 coefficients, all coefficient values '
             'in [-p,2p]; exponents 0..5; evaluation at every ring element and composition up to degree 3 by 2; '
             'accumulated expressions of 4 operands, augmented assignments; with one to three unknown coefficients also operands of '
             '12 to 70 coefficients and exponents up to 40',
    'thorough': 'additionally p in 5,257,65537, up to 8 by 6 coefficients, exponents to 9'}
OUTSIDE = 'other coefficient rings (extension fields are covered by C06, fractions are not encoded)'
ASSUMPTIONS = ['moduli are prime']


def _P(env, p):
  return env.get('polynomial', 'polynomials_over')(env.get('modp', 'IntegersModP')(p))


def _coef(f, i):
  cs = list(f)
  return int(cs[i]) if i < len(cs) else 0


def _same(env, f, want, p):
  """f has exactly the coefficients `want` (integers, any representative)"""
  n = max(len(list(f)), len(want))
  w = list(want) + [0] * (n - len(want))
  return env.all([_coef(f, i) == w[i] % p for i in range(n)])


def _normal(env, f):
  cs = list(f)
  if not cs:
    return env.all([f.is_zero(), f.degree() == -1, len(f) == 0, abs(f) == 0])
  return env.all([env.not_(f.is_zero()), f.degree() == len(cs) - 1, abs(f) == len(cs), len(f) == len(cs),
                  int(cs[-1]) != 0, f.leading_coefficient() == cs[-1]])


def _conv(a, b):
  if not a or not b:
    return []
  out = [0] * (len(a) + len(b) - 1)
  for i, x in enumerate(a):
    for j, y in enumerate(b):
      out[i + j] = out[i + j] + x * y
  return out


def _pad(a, n):
  return list(a) + [0] * (n - len(a))


def ops(env, p, n, m):
  P = _P(env, p)
  a = env.ints('a', n, -p, 2 * p)
  b = env.ints('b', m, -p, 2 * p)
  f, g = P(a), P(b)
  k = max(n, m)
  A, B = _pad(a, k), _pad(b, k)
  for label, h, want in (('coefficients', f, a), ('sum', f + g, [x + y for x, y in zip(A, B)]),
                         ('difference', f - g, [x - y for x, y in zip(A, B)]),
                         ('negation', -f, [-x for x in a]), ('product', f * g, _conv(a, b))):
    env.check(_same(env, h, want, p), label)
    env.check(_normal(env, h), label + ' is normalised')
  same = env.all([(x - y) % p == 0 for x, y in zip(A, B)])
  env.check(env.iff(f == g, same), 'equal')
  env.check(env.iff(f != g, env.not_(same)), 'not equal')
  env.check(_same(env, f, a, p), 'operand unchanged')


def construct(env, p, n):
  P = _P(env, p)
  F = P.ring
  a = env.ints('a', n, -p, 2 * p)
  c = env.int('c', -p, 2 * p)
  f = P(a)
  env.check(env.eq(P([F(x) for x in a]), f), 'from ring elements')
  env.check(env.eq(P(f), f), 'from a polynomial')
  env.check(env.eq(P(iter(list(a))) if False else P(tuple(a)), f), 'from a tuple')
  env.check(env.eq(P.factory(a), f), 'factory')
  env.check(env.eq(P(a + [0, p, 0]), f), 'trailing zeros do not matter')
  env.check(_same(env, P(c), [c], p), 'from an int')
  env.check(_same(env, P(F(c)), [c], p), 'from a ring element')
  env.check(env.iff(P(c) == c, True), 'constant equals its value')
  env.check(env.all([x == F(y) for x, y in zip(f, a)]), 'iteration gives the coefficients')


def mixed(env, p, n):
  """int and ring operands on either side"""
  P = _P(env, p)
  F = P.ring
  a = env.ints('a', n, -p, 2 * p)
  c = env.int('c', -p, 2 * p)
  f = P(a)
  A = _pad(a, max(n, 1))
  plus = [A[0] + c] + A[1:]
  minus = [A[0] - c] + A[1:]
  rminus = [c - A[0]] + [-x for x in A[1:]]
  times = [x * c for x in A]
  for label, h, want in (
      ('poly + int', f + c, plus), ('int + poly', c + f, plus), ('poly + elt', f + F(c), plus), ('elt + poly', F(c) + f, plus),
      ('poly - int', f - c, minus), ('int - poly', c - f, rminus), ('poly - elt', f - F(c), minus),
      ('elt - poly', F(c) - f, rminus),
      ('poly * int', f * c, times), ('int * poly', c * f, times), ('poly * elt', f * F(c), times), ('elt * poly', F(c) * f, times)):
    env.check(type(h) is P, label + ' is a polynomial')
    env.check(_same(env, h, want, p), label)


def evaluate(env, p, n, m):
  P = _P(env, p)
  F = P.ring
  a = env.ints('a', n, 0, p - 1)
  b = env.ints('b', m, 0, p - 1)
  t = env.int('t', -p, 2 * p)
  f, g = P(a), P(b)
  x = F(t)
  fv = 0
  for c in reversed(a):
    fv = fv * t + c
  gv = 0
  for c in reversed(b):
    gv = gv * t + c
  env.check(int(f(x)) == fv % p, 'value')
  env.check(F(f(t)) == F(fv), 'value at an int')
  for label, h, want in (('sum', f + g, fv + gv), ('difference', f - g, fv - gv), ('product', f * g, fv * gv),
                         ('negation', -f, -fv)):
    env.check(int(h(x)) == want % p, 'value of a ' + label)


def compose(env, p, n, m):
  P = _P(env, p)
  F = P.ring
  f = P(env.ints('a', n, 0, p - 1))
  g = P(env.ints('b', m, 0, p - 1))
  x = F(env.int('t', 0, p - 1))
  h = f(g)
  v = h(x) if hasattr(h, 'coefficients') else h
  env.check(v == f(g(x)), 'f(g)(x) = f(g(x))')


def power(env, p, n, e):
  P = _P(env, p)
  a = env.ints('a', n, 0, p - 1)
  f = P(a)
  want = [1]
  for _ in range(e):
    want = _conv(want, a)
  h = f**e
  env.check(_same(env, h, want, p), 'power')
  env.check(_normal(env, h), 'power is normalised')


def chain(env, p, n):
  """f g + h k - f - k, in two groupings"""
  P = _P(env, p)
  vs = [env.ints('a%d_' % i, n, 0, p - 1) for i in range(4)]
  f, g, h, k = [P(v) for v in vs]
  prod = [x + y for x, y in zip(_conv(vs[0], vs[1]), _conv(vs[2], vs[3]))]
  want = [x - (vs[0][i] + vs[3][i] if i < n else 0) for i, x in enumerate(prod)]
  env.check(_same(env, f * g + h * k - f - k, want, p), 'f g + h k - f - k')
  env.check(_same(env, -(k - h * k) + f * (g - 1), want, p), 'regrouped')
  acc = P(0)
  for q in (f, g, h, k):
    acc += q
  env.check(_same(env, acc, [sum(v[i] for v in vs) for i in range(n)], p), 'accumulation')
  env.check(_same(env, f, vs[0], p), 'operands unchanged')


def large(env, p, n, m, free, other):
  """long operands with few unknown coefficients"""
  P = _P(env, p)
  a, b = sparse(env, 'a', n, p, free, 1), sparse(env, 'b', m, p, other, 2)
  f, g = P(a), P(b)
  k = max(n, m)
  A, B = _pad(a, k), _pad(b, k)
  for label, h, want in (('coefficients', f, a), ('sum', f + g, [x + y for x, y in zip(A, B)]),
                         ('difference', f - g, [x - y for x, y in zip(A, B)]),
                         ('negation', -f, [-x for x in a]), ('product', f * g, _conv(a, b)),
                         ('product the other way round', g * f, _conv(a, b))):
    env.check(_same(env, h, want, p), label)
    env.check(_normal(env, h), label + ' is normalised')
  env.check(env.iff(f == g, env.all([(x - y) % p == 0 for x, y in zip(A, B)])), 'equal')
  c = P(list(a))
  env.check(f == c, 'equal to another one with the same coefficients')
  for j in (0, n // 2, n - 1):
    env.check(f != P(a[:j] + [a[j] + 1] + a[j + 1:]), 'a different coefficient is seen')
  t = env.int('t', 0, p - 1) if p > 7 else env.concrete(env.int('t', 0, p - 1))
  v = 0
  for x in reversed(a):
    v = (v * t + x) % p
  env.check(int(f(P.ring(t))) == v, 'value')
  d = f.to_bytes()
  env.check(env.eq(P(d), f), 'round trip')


def high_power(env, p, n, e, free):
  """high powers, with one unknown coefficient"""
  P = _P(env, p)
  a = sparse(env, 'a', n, p, free, 3)
  want = [1]
  for _ in range(e):
    want = [x % p for x in _conv(want, a)]
  h = P(a)**e
  env.check(_same(env, h, want, p), 'power')
  env.check(_normal(env, h), 'power is normalised')


def augmented(env, p, n, m):
  """an augmented assignment changes the name only, not the polynomial it referred to"""
  P = _P(env, p)
  a, b = env.ints('a', n, 0, p - 1), env.ints('b', m, 0, p - 1)
  f, g = P(a), P(b)
  k = max(n, m)
  A, B = _pad(a, k), _pad(b, k)
  h = f
  h += g
  env.check(_same(env, h, [x + y for x, y in zip(A, B)], p), '+=')
  env.check(env.all([_same(env, f, a, p), _same(env, g, b, p)]), 'operands of += unchanged')
  h = f
  h -= g
  env.check(_same(env, h, [x - y for x, y in zip(A, B)], p), '-=')
  env.check(env.all([_same(env, f, a, p), _same(env, g, b, p)]), 'operands of -= unchanged')
  h = f
  h *= g
  env.check(_same(env, h, _conv(a, b), p), '*=')
  env.check(env.all([_same(env, f, a, p), _same(env, g, b, p)]), 'operands of *= unchanged')
  h = P(f)
  h += 1
  h *= 2
  env.check(_same(env, f, a, p), 'a copy is independent')


def serial(env, p, n):
  P = _P(env, p)
  a = env.ints('a', n, 0, p - 1)
  f = P(a)
  d = f.to_bytes()
  env.check(len(d) == 32 * len(f), 'length')
  for i, c in enumerate(f):
    env.check(d[32 * i:32 * i + 32] == c.to_bytes(), 'coefficient encoding')
  env.check(env.eq(P(d), f), 'round trip')


def badbytes(env, p, n):
  P = _P(env, p)
  d = env.bytes('d', n)
  env.check(env.raises(lambda: P(d), ValueError), 'length that is no multiple of 32 is refused')


def CASES(tier):
  t = tier == 'thorough'
  ps = [2, 3, 7, 31, BIG] + ([5, 257, 65537] if t else [])
  sizes = [(0, 2), (1, 1), (3, 3), (5, 4), (2, 4)] + ([(8, 6), (6, 8), (7, 0)] if t else [])
  out = []
  for p in ps:
    for n, m in sizes:
      out.append(Case('ops', {'p': p, 'n': n, 'm': m}))
    for n in (0, 1, 3):
      out.append(Case('construct', {'p': p, 'n': n}))
      out.append(Case('mixed', {'p': p, 'n': n}))
    for n, m in ((0, 1), (2, 3), (4, 3)) + (((8, 5),) if t else ()):
      out.append(Case('evaluate', {'p': p, 'n': n, 'm': m}))
    for n, m in ((3, 2), (4, 3), (2, 4)):
      out.append(Case('compose', {'p': p, 'n': n, 'm': m}))
    for n in (1, 2, 3):
      for e in range(0, 10 if t else 6):
        out.append(Case('power', {'p': p, 'n': n, 'e': e}))
    if t or p < 31:
      out.append(Case('chain', {'p': p, 'n': (3 if t else 2) if p < 31 else 1}))
    for n, m in ((2, 2), (3, 1), (1, 3)):
      out.append(Case('augmented', {'p': p, 'n': n, 'm': m}))
    for n in (0, 1, 3):
      out.append(Case('serial', {'p': p, 'n': n}))
  for p in (2, 7, 31, BIG) + ((3, 257) if t else ()):
    for n, m, free, other in [(12, 9, [0, -1], [-1]), (20, 17, [-1], [3]), (40, 40, [39], [39]), (70, 3, [35], [-1])] + \
        ([(130, 66, [129], [65]), (33, 32, [0, 16, 32], [31])] if t else []):
      out.append(Case('large', {'p': p, 'n': n, 'm': m, 'free': free, 'other': other}))
    for n, e, free in [(2, 12, [1]), (3, 9, [2]), (1, 40, [0]), (2, 33, [0])] + ([(2, 70, [1]), (4, 17, [3])] if t else []):
      out.append(Case('high_power', {'p': p, 'n': n, 'e': e, 'free': free}))
  for n in (1, 31, 33):
    out.append(Case('badbytes', {'p': 7, 'n': n}))
  return out
