"""C30  Gaussian elimination."""
import itertools
from engine.runner import Case
from harness.common import seq  # noqa
from harness.common import sparse

BIG = 2**256 - 2**32 * 351 + 1
PRELOAD = ('sympy',)
MODULI = {(2, 2): [1, 1, 1], (2, 3): [1, 1, 0, 1], (3, 2): [2, 1, 1]}
BOUNDS = {
    'quick': 'every nonsingular system of 1 to 3 equations over Z/2, of 1 and 2 over Z/3, Z/5, Z/7 and '
             'Z/(2^256-2^32*351+1), of 3 over Z/3 and 2 over F_4 with the first row fixed; entries given as field elements and, over '
             'Z/p, as constant polynomials (3 over Z/3 with two rows fixed, 1 over Z/7); up to 6 equations over Z/7, Z/257 and Z/(2^256-2^32*351+1) with one or two unknown entries',
    'thorough': '3 equations over Z/3 and Z/5, 4 over Z/2, 2 over F_8 and F_9'}
OUTSIDE = 'singular systems (an error); matrices of nonconstant polynomials'
ASSUMPTIONS = ['moduli are prime, extension moduli irreducible',
               'for p > 64 the inverse of a symbolic element of Z/p is an element i with x*i = 1 (decided for the real code in C02)']


def _det(M):
  n = len(M)
  if n == 0:
    return 1
  out = 0
  for j in range(n):
    minor = [r[:j] + r[j + 1:] for r in M[1:]]
    out = out + (1 if j % 2 == 0 else -1) * M[0][j] * _det(minor)
  return out


def solve(env, p, m, n, kind, fixed=None):
  F = env.field(p)
  P = env.get('polynomial', 'polynomials_over')(F)
  if m == 1:
    K = F
    raw = [[env.int('m%d_%d' % (i, j), 0, p - 1) for j in range(n + 1)] for i in range(n)]
    for i, r in enumerate(fixed or []):
      for j, v in enumerate(r):
        raw[i][j] = v
    env.assume(_det([r[:n] for r in raw]) % p != 0)
    elts = [[F(v) for v in r] for r in raw]
  else:
    K = env.get('finitefield', 'FiniteField')(p, m, P(MODULI[p, m]))
    elts = [[K(fixed[i][j] if i < len(fixed or []) else env.ints('m%d_%d_' % (i, j), m, 0, p - 1)) for j in range(n + 1)]
            for i in range(n)]
    env.assume(_det([[x for x in r[:n]] for r in elts]) != K(0))
  mk = (lambda x: P(x)) if kind == 'poly' else (lambda x: x)
  M = [[mk(x) for x in r] for r in elts]
  out = env.get('poly_utils', 'gauss')(M, n, K)
  env.check(len(out) == n, 'one value per unknown')
  for r in elts:
    lhs = mk(K(0))
    for a, x in zip(r, out):
      lhs = lhs + mk(a) * x
    env.check(lhs == mk(r[n]), 'the solution satisfies every equation')


def large(env, p, n, free, seed, zero):
  """larger systems with few unknown entries; the leading `zero` diagonal entries vanish, so that rows have to be exchanged"""
  F = env.field(p)
  raw = [[v % p for v in sparse(env, 'm%d_' % i, n + 1, p, [j for k, j in free if k == i], seed + i)] for i in range(n)]
  for i in range(zero):
    for k in range(i + 1):
      raw[k][i] = 0
  env.assume(_det([r[:n] for r in raw]) % p != 0)
  elts = [[F(v) for v in r] for r in raw]
  out = env.get('poly_utils', 'gauss')([list(r) for r in elts], n, F)
  env.check(len(out) == n, 'one value per unknown')
  for r in elts:
    lhs = F(0)
    for a, x in zip(r, out):
      lhs = lhs + a * x
    env.check(lhs == r[n], 'the solution satisfies every equation')


def CASES(tier):
  th = tier == 'thorough'
  cs = []
  for kind in ('field', 'poly'):
    for p, n in [(2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (5, 1), (5, 2), (7, 1)] + ([(7, 2)] if kind == 'field' or th else []) + ([(3, 3), (5, 3), (2, 4)] if th else []):
      cs.append(Case('solve', dict(p=p, m=1, n=n, kind=kind), weight=p**n, budget_s=60 if not th else 900))
    for row in ([0, 1, 2, 1], [2, 0, 0, 1], [0, 0, 1, 2]):
      rows = [row] if kind == 'field' or th else [row, [1, 1, row[0], 2]]
      cs.append(Case('solve', dict(p=3, m=1, n=3, kind=kind, fixed=rows), weight=50, budget_s=60 if not th else 600))
  for n in (1, 2):
    cs.append(Case('solve', dict(p=BIG, m=1, n=n, kind='field')))
    cs.append(Case('solve', dict(p=2, m=2, n=n, kind='field', fixed=None if n == 1 or th else [[[0, 0], [0, 1], [1, 1]]]), budget_s=60))
    if th:
      cs.append(Case('solve', dict(p=2, m=3, n=n, kind='field'), budget_s=900))
      cs.append(Case('solve', dict(p=3, m=2, n=n, kind='field'), budget_s=900))
  for p in (7, 257, BIG):
    for n, free, zero in ((3, [(2, 0), (0, 3)], 1), (4, [(3, 1)], 2), (4, [(0, 4), (3, 4)], 1), (5, [(4, 0)], 3), (6, [(2, 6)], 2)):
      cs.append(Case('large', dict(p=p, n=n, free=free, seed=n + zero, zero=zero), weight=20))
  return cs
