"""C15  converting between univariate, multivariate polynomials and functions."""
import itertools
from engine.runner import Case
from harness.common import seq  # noqa

BIG = 2**256 - 2**32 * 351 + 1
MODULI = {(2, 2): [1, 1, 1], (3, 2): [2, 1, 1], (2, 3): [1, 1, 0, 1]}
PRELOAD = ('sympy',)
BOUNDS = {
    'quick': 'lifting of polynomials with up to 4 coefficients into every position among 1..3 variables and projection of up to 4 '
             'monomials in 2..3 variables, over Z/p for p = 2, 7 and 2^256-2^32*351+1 (every coefficient, every point); delta '
             'functions at every point of Z/2^1..3, Z/3^1..2, Z/5, F_4 evaluated everywhere; every function table on Z/2^1..3, '
             'Z/3, Z/5, F_4, and tables on Z/3^2, Z/5^2, Z/3^3 with 2 or 3 arbitrary entries',
    'thorough': 'additionally Z/7, F_9, F_8, Z/2^4, Z/5^2 and longer polynomials'}
OUTSIDE = 'larger fields and dimensions for the function-to-polynomial conversion (its size is q^n)'
ASSUMPTIONS = ['moduli are prime, extension moduli irreducible']


def _ring(env, p):
  F = env.get('modp', 'IntegersModP')(p)
  return F, env.get('polynomial', 'polynomials_over')(F), env.get('multivariate_polynomial', 'multivariates_over')


def lift(env, p, n, i, w):
  F, P, MV = _ring(env, p)
  a = env.ints('a', n, 0, p - 1)
  xs = env.ints('x', w, 0, p - 1)
  if w == 0:
    return
  f = P(a)
  h = env.get('poly_utils', 'make_multivar')(f, i, F, w)
  pt = [F(x) for x in xs]
  want = sum(c * xs[i]**k for k, c in enumerate(a))
  M = MV(F, w)
  if type(h) is int:                       # the zero polynomial
    env.check(env.all([h == 0] + [x == 0 for x in a]), 'only the zero polynomial gives a bare zero')
    return
  env.check(type(h) is M, 'a polynomial in the requested variables')
  env.check(h(pt) == F(want), 'value depends on the chosen coordinate as the original')
  for k in range(n):
    key = tuple(k if j == i else 0 for j in range(w))
    env.check(h[key] == F(a[k]), 'coefficient')
  env.check(env.all([all(e == 0 for j, e in enumerate(t) if j != i) for t, _ in h]), 'no other variable occurs')


def project(env, p, w, i, s):
  F, P, MV = _ring(env, p)
  a = [env.int('a%d' % k, 1, p - 1) for k in range(len(s))]
  xs = env.ints('x', w, 0, p - 1)
  f = MV(F, w)({tuple(m): F(c) for m, c in zip(s, a)})
  h = env.get('poly_utils', 'project_to_univariate')(f, i, F, w)
  # substitute the i-th coordinate in the univariate polynomial, then the others in its coefficients
  M1 = MV(F, w - 1)
  y = h(M1(F(xs[i])))
  rest = [F(x) for j, x in enumerate(xs) if j != i]
  want = 0
  for m, c in zip(s, a):
    t = c
    for x, e in zip(xs, m):
      t = t * x**e
    want = want + t
  env.check(y(rest) == F(want), 'value after substituting all variables')
  env.check(h.degree() == max(m[i] for m in s), 'degree in the variable kept')
  for k in range(h.degree() + 1):
    terms = {tuple(m[:i]) + tuple(m[i + 1:]): c for m, c in zip(s, a) if m[i] == k}
    env.check(env.eq(h.coefficients[k], M1({q: F(c) for q, c in terms.items()})), 'coefficient is a polynomial in the others')


def _field(env, p, m):
  F = env.get('modp', 'IntegersModP')(p)
  if m == 1:
    return F, [F(k) for k in range(p)]
  P = env.get('polynomial', 'polynomials_over')(F)
  Fq = env.get('finitefield', 'FiniteField')(p, m, P(MODULI[p, m]))
  return Fq, [Fq(list(c)) for c in itertools.product(range(p), repeat=m)]


def _elt(env, F, p, m, tag):
  if m == 1:
    v = env.int(tag, 0, p - 1)
    return F(v), [v]
  v = env.ints(tag, m, 0, p - 1)
  return F(list(v)), v


def delta(env, p, m, n):
  F, elts = _field(env, p, m)
  y = [_elt(env, F, p, m, 'y%d' % k) for k in range(n)]
  x = [_elt(env, F, p, m, 'x%d' % k) for k in range(n)]
  d = env.get('poly_utils', 'construct_multivariate_dirac_delta')(F, [e for e, _ in y], n)
  same = env.all([u == v for (_, a), (_, b) in zip(x, y) for u, v in zip(a, b)])
  v = d([e for e, _ in x])
  env.check(env.implies(same, v == F(1)), 'one at the point')
  env.check(env.implies(env.not_(same), v == F(0)), 'zero elsewhere')


def table(env, p, m, n, free=None):
  """every function, as a table of values, equals the polynomial built from it at every point"""
  F, elts = _field(env, p, m)
  q = len(elts)
  vals = [_elt(env, F, p, m, 'f%d' % k)[0] if free is None or k in free else elts[(k * k + 1) % q] for k in range(q**n)]
  calls = []
  pos = {}
  for k, pt in enumerate(itertools.product(range(q), repeat=n)):
    pos[k] = [elts[j] for j in pt]

  def f(v):
    calls.append(1)
    for k, pt in pos.items():
      if all(a == b for a, b in zip(v, pt)):
        return vals[k]
    raise AssertionError('called outside the domain')
  poly = env.get('poly_utils', 'construct_multivariate_coefficients')(F, f, n)
  for k, pt in pos.items():
    env.check(poly(pt) == vals[k], 'value of the polynomial is the value of the function')
  env.check(poly.degree() <= n * (q - 1), 'reduced degree')
  env.check(all(e <= q - 1 for t, _ in poly for e in t), 'exponents below the field size')


S2 = [(0, 0), (2, 1), (0, 1), (1, 1)]
S2b = [(1, 0), (0, 2)]
S3 = [(0, 0, 0), (1, 0, 2), (1, 2, 0), (0, 1, 1)]


def CASES(tier):
  th = tier == 'thorough'
  cs = []
  for p in (2, 7, BIG):
    for n, i, w in [(0, 0, 1), (1, 0, 1), (3, 0, 1), (2, 0, 2), (3, 1, 2), (4, 1, 3), (3, 2, 3)] + \
        ([(5, 0, 3), (6, 2, 4)] if th else []):
      cs.append(Case('lift', dict(p=p, n=n, i=i, w=w)))
    for w, s in ((2, S2), (2, S2b), (3, S3)):
      for i in range(w):
        cs.append(Case('project', dict(p=p, w=w, i=i, s=s)))
  dims = [(2, 1, 1), (2, 1, 2), (2, 1, 3), (3, 1, 1), (3, 1, 2), (5, 1, 1), (2, 2, 1)]
  if th:
    dims += [(7, 1, 1), (3, 2, 1), (2, 3, 1), (2, 1, 4), (5, 1, 2)]
  for p, m, n in dims:
    cs.append(Case('delta', dict(p=p, m=m, n=n), budget_s=60))
    if th or p**(m * n) <= 8:
      cs.append(Case('table', dict(p=p, m=m, n=n), budget_s=600 if th else 60, weight=3))
  for p, m, n, free in ((3, 1, 2, [0, 4, 5]), (3, 1, 2, [2, 6, 7]), (5, 1, 2, [0, 7]), (3, 1, 3, [5, 13])):
    cs.append(Case('table', dict(p=p, m=m, n=n, free=free), budget_s=60))
  return cs
