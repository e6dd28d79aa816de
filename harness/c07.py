"""C07  irreducible and primitive polynomials."""
import itertools

from engine.runner import Case
from harness.common import seq  # noqa

BOUNDS = {
    'quick': 'Z/2 up to degree 6, Z/3 up to degree 4, Z/5 and Z/7 up to degree 2, every coefficient value (any '
             'leading coefficient for irreducibility below 30 polynomials; primitivity below 65); generators: every outcome of up to 3 attempts of the random source',
    'thorough': 'Z/2 up to degree 8, Z/3 up to degree 5, Z/5 up to degree 4, Z/7 and Z/11 up to degree 3; generators up to 4 attempts'}
OUTSIDE = 'larger characteristics and degrees; more attempts of the random source'
ASSUMPTIONS = []


def _P(env, p):
  return env.get('polynomial', 'polynomials_over')(env.get('modp', 'IntegersModP')(p))


def _rem(cs, g, p):
  """remainder of an integer coefficient list by a monic one"""
  cs = list(cs)
  d = len(g) - 1
  for i in range(len(cs) - 1, d - 1, -1):
    c = cs[i]
    for j in range(d):
      cs[i - d + j] = cs[i - d + j] - c * g[j]
    cs[i] = 0
  return cs[:d]


def _has_factor(env, cs, p):
  """some monic polynomial of degree 1..n/2 divides"""
  n = len(cs) - 1
  out = []
  for d in range(1, n // 2 + 1):
    for g in itertools.product(range(p), repeat=d):
      out.append(env.all([c % p == 0 for c in _rem(cs, list(g) + [1], p)]))
  return env.any(out)


def irreducible(env, p, n, monic):
  P = _P(env, p)
  irr = env.get('poly_utils', 'is_irreducible')
  a = env.ints('a', n, 0, p - 1) + [1 if monic else env.int('lead', 1, p - 1)]
  r = irr(P(a), p)
  env.check(env.iff(r, env.not_(_has_factor(env, a, p))), 'irreducible iff there is no proper factor')


def small(env, p):
  P = _P(env, p)
  irr = env.get('poly_utils', 'is_irreducible')
  env.check(not irr(P([]), p), 'zero is not irreducible')
  env.check(not irr(P([env.int('c', 1, p - 1)]), p), 'units are not irreducible')


def wrong_ring(env, p, q):
  irr = env.get('poly_utils', 'is_irreducible')
  env.check(env.raises(lambda: irr(_P(env, p)(env.ints('a', 2, 0, p - 1) + [1]), q), TypeError),
            'a polynomial over another ring is refused')


def _order_full(env, cs, p):
  """x has order p^n - 1 modulo the monic polynomial cs (cs is then primitive)"""
  n = len(cs) - 1
  N = p**n - 1
  v = [1] + [0] * (n - 1)
  conds = []
  for k in range(1, N + 1):
    top = v[-1]
    v = [0] + v[:-1]
    v = [(x - top * c) % p for x, c in zip(v, cs)]
    one = env.all([v[0] == 1 % p] + [x == 0 for x in v[1:]])
    conds.append(one if k == N else env.not_(one))
  return env.all(conds)


def primitive(env, p, n):
  P = _P(env, p)
  prim = env.get('poly_utils', 'is_primitive')
  a = env.ints('a', n, 0, p - 1) + [1]
  r = prim(P(a), p, n)
  env.check(env.iff(r, _order_full(env, a, p)), 'primitive iff x generates the multiplicative group')


def monic(env, p, n):
  P = _P(env, p)
  f = env.get('poly_utils', 'is_monic')
  a = env.ints('a', n, 0, p - 1)
  env.assume(a[-1] != 0)
  env.check(env.iff(f(P(a)), a[-1] == 1), 'monic iff the leading coefficient is 1')


def generate(env, p, n, k, kind):
  P = _P(env, p)
  g = env.get('poly_utils', 'generate_%s_polynomial' % kind)
  env.max_draws = n * k
  f = g(p, n)
  env.check(type(f) is P, 'a polynomial over Z/p')
  cs = [int(c) for c in f]
  env.check(len(cs) == n + 1, 'degree')
  env.check(cs[-1] == 1, 'monic')
  if kind == 'irreducible':
    env.check(env.not_(_has_factor(env, cs, p)), 'irreducible')
  else:
    env.check(_order_full(env, cs, p), 'primitive')


def field(env, p, m, k):
  """F_{p^m} without a modulus: x generates the multiplicative group"""
  env.max_draws = m * k
  Fq = env.get('finitefield', 'FiniteField')(p, m)
  cs = [int(c) for c in Fq.ideal_generator]
  env.check(env.all([len(cs) == m + 1, cs[-1] == 1]), 'modulus is monic of degree m')
  env.check(_order_full(env, cs, p), 'modulus is primitive')


def CASES(tier):
  t = tier == 'thorough'
  top = {2: 8, 3: 5, 5: 4, 7: 3, 11: 3} if t else {2: 6, 3: 4, 5: 2, 7: 2}
  out = []
  for p, n in top.items():
    out.append(Case('small', {'p': p}))
    for d in range(1, n + 1):
      out.append(Case('irreducible', {'p': p, 'n': d, 'monic': True}, weight=d * p))
      if p > 2 and p**d < (700 if t else 30):
        out.append(Case('irreducible', {'p': p, 'n': d, 'monic': False}, weight=d * p))
      if p**d < (700 if t else 65):
        out.append(Case('primitive', {'p': p, 'n': d}, weight=d * p))
    out.append(Case('monic', {'p': p, 'n': 3}))
  out.append(Case('wrong_ring', {'p': 2, 'q': 3}))
  out.append(Case('wrong_ring', {'p': 3, 'q': 2}))
  for kind in ('irreducible', 'primitive'):
    for p, n, k in ((2, 1, 2), (2, 2, 3), (2, 3, 3), (2, 4, 2), (3, 2, 2)) + (((2, 5, 2), (2, 3, 4), (3, 3, 2), (5, 2, 2)) if t else ()):
      out.append(Case('generate', {'p': p, 'n': n, 'k': k, 'kind': kind}))
  for p, m, k in ((2, 2, 3), (2, 3, 2), (3, 2, 2)):
    out.append(Case('field', {'p': p, 'm': m, 'k': k}, fresh=True))
  return out
