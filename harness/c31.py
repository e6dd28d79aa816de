"""C31  the tools of the binary-field low-degree test: Taylor expansion, subspaces, values on them."""
import itertools
from engine.runner import Case
from harness.common import seq  # noqa
from harness.common import sparse

PRELOAD = ('sympy',)
MODULI = {2: [1, 1, 1], 3: [1, 1, 0, 1], 4: [1, 1, 0, 0, 1], 8: [1, 1, 0, 1, 1, 0, 0, 0, 1],
          16: [1, 1, 0, 1, 0, 1] + [0] * 10 + [1]}
BOUNDS = {
    'quick': 'Taylor expansion at x^2+x over Z/2: every polynomial of up to 8 coefficients, and of 9 to 16 with every third one arbitrary, expanded for several numbers of terms '
             'from its own length to 16; spaces of dimension 0 to 4 over Z/2 in F_8 and F_16 with every basis and shift, subspaces of '
             'every size; values of every polynomial of up to 3 coefficients over F_4 and F_8 at the points of spaces of dimension up to 2',
    'thorough': 'every polynomial of up to 16 coefficients; values of polynomials of 4 coefficients, spaces of dimension 3'}
OUTSIDE = 'the additive transform itself (C33); polynomials as long as the degree of the field or longer'
ASSUMPTIONS = ['extension moduli irreducible']


def _field(env, m):
  F = env.get('modp', 'IntegersModP')(2)
  P = env.get('polynomial', 'polynomials_over')(F)
  return F, P, env.get('finitefield', 'FiniteField')(2, m, P(MODULI[m]))


def _flat(v):
  return [x for part in v for x in _flat(part)] if isinstance(v, tuple) else [v]


def taylor(env, m, n, k, free=None):
  """a polynomial of n coefficients, expanded for k >= n terms, is put together again from the parts"""
  F, P, Fq = _field(env, m)
  T = env.get('fft', 'Additive_FFT')(Fq)
  a = env.ints('a', n, 0, 1) if free is None else sparse(env, 'a', n, 2, free, 5)
  f = Fq(P(a))
  v = T.Taylor_Expansion(f, k)
  env.check(env.eq(f, Fq(P(a))), 'operand unchanged')
  parts = _flat(v)
  terms = 1
  while 2 * terms < k:
    terms *= 2
  env.check(len(parts) == terms, 'number of parts')
  # Horner in y = x^2 + x
  total = [0] * (2 * terms)
  for part in reversed(parts):
    cs = [int(c) for c in part.poly.coefficients]
    env.check(len(cs) <= 2, 'the parts are linear')
    new = [0] * (2 * terms)
    for i, c in enumerate(total):
      for j in (i + 1, i + 2):
        if j < len(new):
          new[j] = (new[j] + c) % 2
    for i, c in enumerate(cs[:2]):
      new[i] = (new[i] + c) % 2
    total = new
  want = list(a) + [0] * (2 * terms - n)
  env.check(env.all([x == y for x, y in zip(total, want)]), 'the parts make up the polynomial')


def subspace(env, m, k, eta):
  """the subspace is spanned by the first eta vectors of the basis"""
  F, P, Fq = _field(env, m)
  A, select = env.get('reedsolomon', 'AffineSpace'), env.get('fri', 'select_subspace')
  bs = [env.ints('b%d_' % i, m, 0, 1) for i in range(k)]
  sp = A(F, [Fq(list(b)) for b in bs], Fq(env.ints('s', m, 0, 1)))
  sub = select(sp, eta)
  env.check(len(sub) == 2**min(eta, k), 'size')
  env.check(len(sub.basis) == min(eta, k) and env.all([x == Fq(list(b)) for x, b in zip(sub.basis, bs)]), 'basis')
  if len(sub) <= 4:
    env.check(env.any([x == Fq(0) for x in sub]), 'zero is in the subspace')
  env.check(len(sp.basis) == k and env.all([x == Fq(list(b)) for x, b in zip(sp.basis, bs)]), 'the space is unchanged')


def values(env, m, k, n, shifted):
  """the values of a polynomial at the points of a space, in their order"""
  F, P, Fq = _field(env, m)
  A, ev = env.get('reedsolomon', 'AffineSpace'), env.get('fri', 'eval_on_subspace')
  PF = env.get('polynomial', 'polynomials_over')(Fq)
  bs = [env.ints('b%d_' % i, m, 0, 1) for i in range(k)]
  sh = [Fq(env.ints('s', m, 0, 1))] if shifted else []
  sp = A(F, [Fq(list(b)) for b in bs], *sh)
  cs = [Fq(env.ints('c%d_' % i, m, 0, 1)) for i in range(n)]
  got = ev(PF(cs), sp)
  points = list(sp)
  env.check(len(got) == 2**k, 'as many values as points')
  for x, v in zip(points, got):
    want = Fq(0)
    for c in reversed(cs):
      want = want * x + c
    env.check(v == want, 'value at the point')


def CASES(tier):
  t = tier == 'thorough'
  out = []
  for n in range(1, 9):
    for k in sorted({max(n, 2), 3, 4, 5, 8}):
      if k >= n:
        out.append(Case('taylor', {'m': 8 if k < 8 else 16, 'n': n, 'k': k}, weight=n))
  for n, k in ((9, 9), (12, 16), (16, 16)) + (((10, 13), (13, 13), (15, 16)) if t else ()):
    out.append(Case('taylor', {'m': 16, 'n': n, 'k': k, 'free': None if t else list(range(1, n, 3))}, weight=n, budget_s=600 if t else 30))
  for m, k, eta in ((3, 0, 1), (3, 2, 0), (3, 2, 1), (3, 2, 3), (4, 3, 2), (4, 4, 3), (4, 4, 4)):
    out.append(Case('subspace', {'m': m, 'k': k, 'eta': eta}))
  for m, k, n, s in ((2, 1, 2, 0), (2, 2, 2, 1), (2, 2, 3, 0), (3, 1, 2, 1), (2, 1, 3, 0), (2, 0, 2, 1)) + (((3, 2, 3, 0), (3, 1, 4, 1), (3, 3, 3, 1), (4, 2, 3, 0)) if t else ()):
    out.append(Case('values', {'m': m, 'k': k, 'n': n, 'shifted': s}))
  return out
