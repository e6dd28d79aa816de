"""C08  interpolation, vanishing polynomials and simultaneous inversion."""
from engine.runner import Case
from harness.common import seq  # noqa
from harness.common import sparse

BIG = 2**256 - 2**32 * 351 + 1
BOUNDS = {
    'quick': 'Z/p for p in 5,7,31,257,2^256-2^32*351+1; Lagrange interpolation through 1..3 points (1..2 for p = 5 and 7), '
             'zpoly of up to 4 roots, the two-point routine, the four-point routines with three abscissae fixed, multi_inv of up to 4 values '
             '(3 for p = 5 and 7); every value and every choice of distinct abscissae; with one or two unknowns also 15 points, 33 roots, lists of 65, 17 sets of four points; points whose ordinates follow a pattern (all equal, equal in pairs)',
    'thorough': 'additionally p in 11,65537; up to 4 points, two free abscissae in the four-point routine, 6 roots, 6 values'}
OUTSIDE = 'repeated abscissae (an error); extension fields'
ASSUMPTIONS = ['moduli are prime',
               'for p > 8 the inverse of a symbolic element of Z/p is an element i with x*i = 1 (decided in C02)']


def _distinct(env, xs, p):
  for i in range(len(xs)):
    for j in range(i):
      env.assume(xs[i] != xs[j])


def _points(env, p, n, tag=''):
  F = env.field(p, 8)
  xs, ys = env.ints('x' + tag, n, 0, p - 1), env.ints('y' + tag, n, 0, p - 1)
  _distinct(env, xs, p)
  return F, [F(x) for x in xs], [F(y) for y in ys]


def _through(env, f, xs, ys, n):
  env.check(f.degree() < n, 'degree below the number of points')
  for x, y in zip(xs, ys):
    env.check(f(x) == y, 'passes through the points')


def lagrange(env, p, n):
  F, xs, ys = _points(env, p, n)
  f = env.get('poly_utils', 'lagrange_interp')(F, xs, ys)
  _through(env, f, xs, ys, n)


def recover(env, p, n):
  """interpolating the values of a polynomial gives it back"""
  F = env.field(p, 8)
  P = env.get('polynomial', 'polynomials_over')(F)
  f = P(env.ints('a', n, 0, p - 1))
  xs = [F(i + 1) for i in range(n)]
  g = env.get('poly_utils', 'lagrange_interp')(F, xs, [f(x) for x in xs])
  env.check(env.eq(g, f), 'polynomial recovered from its values')


def two(env, p):
  F, xs, ys = _points(env, p, 2)
  _through(env, env.get('poly_utils', 'lagrange_interp_2')(F, xs, ys), xs, ys, 2)


def four(env, p, fixed):
  F = env.field(p, 8)
  xs = list(fixed) + env.ints('x', 4 - len(fixed), 0, p - 1)
  _distinct(env, xs, p)
  xs = [F(v) for v in xs]
  ys = [F(v) for v in env.ints('y', 4, 0, p - 1)]
  _through(env, env.get('poly_utils', 'lagrange_interp_4')(F, xs, ys), xs, ys, 4)


def multi4(env, p, k, fixed):
  F = env.field(p, 8)
  xss, yss = [], []
  for i in range(k):
    xs = [(v + i) % p for v in fixed] + env.ints('x%d_' % i, 4 - len(fixed), 0, p - 1)
    _distinct(env, xs, p)
    xs = [F(v) for v in xs]
    ys = [F(v) for v in env.ints('y%d_' % i, 4, 0, p - 1)]
    xss.append(xs)
    yss.append(ys)
  fs = env.get('poly_utils', 'multi_interp_4')(F, xss, yss)
  env.check(len(fs) == k, 'one polynomial per set')
  for f, xs, ys in zip(fs, xss, yss):
    _through(env, f, xs, ys, 4)


def roots(env, p, n):
  F = env.field(p, 8)
  rs = env.ints('r', n, 0, p - 1)
  z = env.get('poly_utils', 'zpoly')(F, [F(r) for r in rs])
  t = env.int('t', 0, p - 1)
  want = 1
  for r in rs:
    want = want * (t - r)
  env.check(z.degree() == n, 'degree is the number of roots')
  env.check(z.leading_coefficient() == 1, 'monic')
  env.check(int(z(F(t))) == want % p, 'value is the product of the differences')


def inverses(env, p, n):
  F = env.field(p, 8)
  vs = env.ints('v', n, 0, p - 1)
  xs = [F(v) for v in vs]
  out = env.get('poly_utils', 'multi_inv')(F, xs)
  env.check(len(out) == n, 'one output per input')
  for v, x, o in zip(vs, xs, out):
    if v == 0:
      env.check(o == 0, 'zero is mapped to zero')
    else:
      env.check(x * o == 1, 'value times inverse is one')
  env.check(env.all([x == F(v) for x, v in zip(xs, vs)]), 'inputs unchanged')


def large_lagrange(env, p, n, free):
  """many points, with few unknown ordinates"""
  F = env.field(p, 8)
  P = env.get('polynomial', 'polynomials_over')(F)
  xs = [F((k * k * 3 + 5 * k + 1) % p if p > 300 else (k * 2 + 1) % p) for k in range(n)]
  ys = [F(v) for v in sparse(env, 'y', n, p, free, 7)]
  f = env.get('poly_utils', 'lagrange_interp')(F, xs, ys)
  _through(env, f, xs, ys, n)
  h = P(sparse(env, 'a', n, p, free, 9))
  g = env.get('poly_utils', 'lagrange_interp')(F, xs, [h(x) for x in xs])
  env.check(env.eq(g, h), 'polynomial recovered from its values')


def patterned(env, p, pattern):
  """ordinates that are equal in places"""
  F = env.field(p, 8)
  P = env.get('polynomial', 'polynomials_over')(F)
  n = len(pattern)
  us = env.ints('u', max(pattern) + 1, 0, p - 1)
  xs = [F((k * k * 3 + 5 * k + 1) % p if p > 300 else (k * 2 + 1) % p) for k in range(n)]
  ys = [F(us[k]) for k in pattern]
  _through(env, env.get('poly_utils', 'lagrange_interp')(F, xs, ys), xs, ys, n)


def large_roots(env, p, n, free):
  F = env.field(p, 8)
  rs = sparse(env, 'r', n, p, free, 11)
  z = env.get('poly_utils', 'zpoly')(F, [F(r) for r in rs])
  t = env.int('t', 0, p - 1)
  want = 1
  for r in rs:
    want = want * (t - r)
  env.check(z.degree() == n, 'degree is the number of roots')
  env.check(z.leading_coefficient() == 1, 'monic')
  env.check(int(z(F(t))) == want % p, 'value is the product of the differences')


def large_inverses(env, p, n, free, zeros):
  """long lists, with zeros at fixed places and few unknown values"""
  F = env.field(p, 8)
  vs = [v or 1 for v in sparse(env, 'v', n, p, free, 13)]
  for k in zeros:
    vs[k] = 0
  xs = [F(v) for v in vs]
  out = env.get('poly_utils', 'multi_inv')(F, xs)
  env.check(len(out) == n, 'one output per input')
  for v, x, o in zip(vs, xs, out):
    if v == 0:
      env.check(o == 0, 'zero is mapped to zero')
    else:
      env.check(x * o == 1, 'value times inverse is one')
  env.check(env.all([x == F(v) for x, v in zip(xs, vs)]), 'inputs unchanged')


def shared4(env, p, sets):
  """sets of four points that have points in common, some at the same place"""
  F = env.field(p, 8)
  xss = [[F(v) for v in xs] for xs in sets]
  yss = [[F(v) for v in env.ints('y%d_' % i, 4, 0, p - 1)] for i in range(len(sets))]
  fs = env.get('poly_utils', 'multi_interp_4')(F, xss, yss)
  env.check(len(fs) == len(sets), 'one polynomial per set')
  for f, xs, ys in zip(fs, xss, yss):
    _through(env, f, xs, ys, 4)


def large_multi4(env, p, k, free):
  """many sets of four points; the unknown ordinates are in the sets `free`"""
  F = env.field(p, 8)
  xss = [[F((a + 7 * i) % p) for a in (0, 1, 3, 4)] for i in range(k)]
  yss = [[F(v) for v in sparse(env, 'y%d_' % i, 4, p, [0, 2] if i in free else [], 17 + i)] for i in range(k)]
  fs = env.get('poly_utils', 'multi_interp_4')(F, xss, yss)
  env.check(len(fs) == k, 'one polynomial per set')
  for f, xs, ys in zip(fs, xss, yss):
    _through(env, f, xs, ys, 4)


def CASES(tier):
  t = tier == 'thorough'
  out = []
  for p in [5, 7, 31, 257, BIG] + ([11, 65537] if t else []):
    small = p <= 7
    for n in (1, 2, 3) + ((4,) if t else ()):
      if n < 3 or not small or t:
        out.append(Case('lagrange', {'p': p, 'n': n}, weight=n))
      out.append(Case('recover', {'p': p, 'n': n}))
    out.append(Case('two', {'p': p}))
    if p > 8:
      out.append(Case('four', {'p': p, 'fixed': [0, 1, 3]}, weight=4))
      if t:
        out.append(Case('four', {'p': p, 'fixed': [2, 4]}, weight=4))
    out.append(Case('four', {'p': p, 'fixed': [0, 1, 2, 4]}))
    out.append(Case('multi4', {'p': p, 'k': 2, 'fixed': [0, 1, 3, 4]}))
    if p > 8:
      out.append(Case('multi4', {'p': p, 'k': 1, 'fixed': [0, 1, 3]}))
    for n in (0, 1, 2, 4) + ((6,) if t else ()):
      out.append(Case('roots', {'p': p, 'n': n}))
    for n in (0, 1, 2, 3, 4) + ((6,) if t else ()):
      if n <= 2 or small and n == 3 or not small:
        out.append(Case('inverses', {'p': p, 'n': n}))
  for p in (31, 257, BIG):
    for n, free in ((6, [0, 5]), (9, [4, 8]), (15, [7])) + (((12, [0, 1, 2]),) if t else ()):
      out.append(Case('large_lagrange', {'p': p, 'n': n, 'free': free}, weight=n))
    for pattern in ([0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 1, 2], [0, 0, 0, 1, 1, 1], [0, 1, 0, 1, 0, 1], [0, 1, 2, 2, 1, 0], [0, 1, 1, 1, 1, 2],
                    [0, 0, 0, 0, 1, 1, 2, 3], [0, 1, 2, 0, 1, 2, 0, 1, 2]):
      out.append(Case('patterned', {'p': p, 'pattern': pattern}, weight=len(pattern)))
    for n, free in ((9, [8]), (17, [0, 9]), (33, [20])):
      out.append(Case('large_roots', {'p': p, 'n': n, 'free': free}))
    for n, free, zeros in ((9, [4], []), (9, [8], [0, 4]), (17, [0, 16], [3]), (33, [16], [0, 32]), (65, [40], [7, 41])):
      out.append(Case('large_inverses', {'p': p, 'n': n, 'free': free, 'zeros': zeros}))
    for other in ([1, 2, 3, 5], [1, 2, 5, 6], [1, 5, 6, 7], [1, 2, 3, 4], [4, 2, 3, 1], [5, 2, 6, 4], [2, 1, 4, 3], [9, 8, 7, 4]):
      out.append(Case('shared4', {'p': p, 'sets': [[1, 2, 3, 4], other]}))
    out.append(Case('shared4', {'p': p, 'sets': [[1, 2, 3, 4], [5, 6, 7, 8], [1, 2, 9, 4]]}))
    for k, free in ((3, [1]), (5, [0, 4]), (9, [8]), (17, [16])):
      out.append(Case('large_multi4', {'p': p, 'k': k, 'free': free}))
  return out
