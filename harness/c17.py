"""C17  affine spaces and the polynomials that vanish on them."""
import itertools
from engine.runner import Case
from harness.common import seq  # noqa

BIG = 2**256 - 2**32 * 351 + 1
PRELOAD = ('sympy',)
MODULI = {(2, 2): [1, 1, 1], (2, 3): [1, 1, 0, 1], (2, 4): [1, 1, 0, 0, 1], (3, 2): [2, 1, 1], (5, 2): [2, 1, 1],
          (7, 2): [3, 1, 1]}
BOUNDS = {
    'quick': 'spaces over Z/2, Z/3, Z/5 of dimension 0 to 4, spanned by polynomials or field elements with arbitrary coefficients, '
             'arbitrary or default shift, or a basis element as shift; vanishing polynomials over F_4, F_8, F_16, F_9 and Z/p of spaces of dimension 0 to 3 '
             'with arbitrary shift (arbitrary basis over F_4, F_8, F_9) at every field element, by both constructions (the Moore one for independent bases)',
    'thorough': 'dimension up to 6, F_25, arbitrary basis of 2 over F_8, of 1 over F_16'}
OUTSIDE = 'listing spaces over extension fields (their elements are not iterable; the length is checked); larger fields and dimensions'
ASSUMPTIONS = ['moduli are prime, extension moduli irreducible']


def _listed(env, got, wants):
  """the same elements equally often, in this order or another one"""
  ordered = env.all([a == b for a, b in zip(got, wants)])
  if ordered is True:
    return True
  count = lambda vs, w: sum(env.ite(v == w, 1, 0) for v in vs)
  return env.any([ordered, env.all([count(got, w) == count(wants, w) for w in wants])])


def iteration(env, p, k, n, shifted, kind, alias=False):
  F = env.get('modp', 'IntegersModP')(p)
  P = env.get('polynomial', 'polynomials_over')(F)
  A = env.get('reedsolomon', 'AffineSpace')
  if kind == 'poly':
    mk = P
  else:
    Fq = env.get('finitefield', 'FiniteField')(p, n, P(MODULI[p, n]))
    mk = lambda c: Fq(list(c))
  bs = [env.ints('b%d_' % i, n, 0, p - 1) for i in range(k)]
  sh = env.ints('s', n, 0, p - 1) if shifted and not alias else [0] * n
  basis = [mk(b) for b in bs]
  if alias:  # the shift is one of the basis elements, the same object
    sh = list(bs[0])
  sp = A(F, basis, basis[0] if alias else mk(sh)) if shifted else A(F, basis)
  env.check(len(sp) == p**k, 'number of elements')
  elts = list(sp)
  env.check(len(elts) == p**k, 'one element per combination')
  wants = []
  for vals in itertools.product(range(p), repeat=k):
    wants.append(mk([(s + sum(v * b[i] for v, b in zip(vals, bs))) % p for i, s in enumerate(sh)]))
  env.check(_listed(env, elts, wants), 'the elements are shift plus the combinations of the basis, each once')
  again = list(sp)
  env.check(env.eq(again, elts), 'a second iteration gives the same elements')
  env.check(env.all([x == mk(b) for x, b in zip(sp.basis, bs)]), 'basis unchanged')
  if shifted:
    env.check(sp.shift == mk(sh), 'shift unchanged')


def extension(env, p, m, k, basis=None):
  """scalars from an extension field"""
  F = env.get('modp', 'IntegersModP')(p)
  P = env.get('polynomial', 'polynomials_over')(F)
  A = env.get('reedsolomon', 'AffineSpace')
  K = env.get('finitefield', 'FiniteField')(p, m, P(MODULI[p, m]))
  bs = [K(list(env.ints('b%d_' % i, m, 0, p - 1))) for i in range(k)]
  sh = K(list(env.ints('s', m, 0, p - 1)))
  env.check(len(A(K, bs)) == p**(m * k), 'number of elements')
  env.check(len(A(K, bs, sh)) == p**(m * k), 'number of elements')


def vanishing(env, p, m, basis, shifted=True, moore=False):
  F = env.get('modp', 'IntegersModP')(p)
  P = env.get('polynomial', 'polynomials_over')(F)
  A = env.get('reedsolomon', 'AffineSpace')
  Fq = F if m == 1 else env.get('finitefield', 'FiniteField')(p, m, P(MODULI[p, m]))
  make = env.get('poly_utils', 'construct_affine_vanishing_polynomial' + ('_Moore' if moore else ''))
  if type(basis) is int:
    k = basis
    bs = [env.ints('b%d_' % i, m, 0, p - 1) for i in range(k)]
  else:
    k, bs = len(basis), [b + [0] * (m - len(b)) for b in basis]
  if moore:        # the basis has to be independent
    for vals in itertools.product(range(p), repeat=k):
      if any(vals):
        env.assume(env.any([sum(v * b[i] for v, b in zip(vals, bs)) % p != 0 for i in range(m)]))
  sh = env.ints('s', m, 0, p - 1) if shifted else [0] * m
  t = env.ints('t', m, 0, p - 1)
  mk = P if m > 1 else (lambda c: F(c[0]))
  sp = A(F, [mk(b) for b in bs], mk(sh)) if shifted else A(F, [mk(b) for b in bs])
  Z = make(Fq, sp)
  env.check(Z.degree() == p**k, 'degree is the size of the space')
  env.check(Z.leading_coefficient() == Fq(1), 'monic')
  inside = []
  for vals in itertools.product(range(p), repeat=k):
    inside.append(env.all([(s + sum(v * b[i] for v, b in zip(vals, bs)) - t[i]) % p == 0 for i, s in enumerate(sh)]))
  x = Fq(P(t)) if m > 1 else F(t[0])
  env.check(env.iff(Z(x) == Fq(0), env.any(inside)), 'vanishes exactly on the space')


def CASES(tier):
  th = tier == 'thorough'
  cs = [Case('extension', dict(p=p, m=m, k=k)) for p, m, k in [(2, 2, 0), (2, 2, 1), (2, 3, 2), (3, 2, 2), (2, 4, 4)]]
  for p, k, n in [(2, 0, 2), (2, 1, 3), (2, 2, 3), (2, 3, 3), (2, 4, 2), (3, 1, 2), (3, 2, 2), (5, 1, 2), (5, 2, 1)] + \
      ([(2, 5, 3), (2, 6, 2), (3, 3, 2), (7, 2, 2)] if th else []):
    for shifted in (False, True):
      if k == 0 and not shifted:
        continue
      cs.append(Case('iteration', dict(p=p, k=k, n=n, shifted=shifted, kind='poly'), weight=p**k))
      if (p, n) in MODULI and k and p**k <= 9:
        cs.append(Case('iteration', dict(p=p, k=k, n=n, shifted=shifted, kind='field'), weight=p**k))
  for p, k, n in [(2, 1, 2), (2, 2, 3), (3, 1, 2), (5, 1, 1), (5, 2, 1)]:
    for kind in ('poly', 'field') if (p, n) in MODULI else ('poly',):
      cs.append(Case('iteration', dict(p=p, k=k, n=n, shifted=True, kind=kind, alias=True), weight=p**k))
  for p, m, basis in [(2, 2, [[0, 1]]), (2, 2, [[1], [0, 1]]), (2, 3, [[1], [0, 1]]), (2, 3, [[0, 1, 1], [1, 1]]), (2, 3, [[1], [0, 1], [0, 0, 1]]),
                      (2, 4, [[1], [0, 1]]), (2, 4, [[0, 1], [0, 0, 1, 1]]), (3, 2, [[1]]), (3, 2, [[2, 1]]),
                      (7, 1, []), (257, 1, []), (2, 1, [[1]]), (3, 1, [[2]]),
                      (2, 2, 1), (2, 3, 1), (3, 2, 1), (2, 2, 2)] + \
      ([(5, 2, [[1, 3]]), (2, 3, 2), (2, 4, 1), (2, 4, [[1], [0, 1], [0, 0, 1]])] if th else []):
    cs.append(Case('vanishing', dict(p=p, m=m, basis=basis), weight=20, budget_s=60 if not th else 600))
    if basis and type(basis) is not int:
      cs.append(Case('vanishing', dict(p=p, m=m, basis=basis, shifted=False), weight=20, budget_s=60))
  for p, m, basis in [(2, 2, [[1], [0, 1]]), (2, 3, [[1], [0, 1]]), (2, 3, [[0, 1], [1, 0, 1]]), (2, 4, [[0, 1], [0, 0, 1, 1]]),
                      (2, 4, [[1], [0, 0, 1], [0, 1]]), (3, 2, [[2, 1]]), (2, 2, 1), (2, 3, 1), (3, 2, 1), (2, 2, 2)] + \
      ([(2, 3, 2), (3, 2, [[1], [0, 1]])] if th else []):
    cs.append(Case('vanishing', dict(p=p, m=m, basis=basis, moore=True), weight=20, budget_s=60 if not th else 600))
  return cs
