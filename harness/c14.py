"""C14  the multivariate polynomial ring."""
from engine.runner import Case
from harness.common import seq  # noqa
from harness.common import sparse

BIG = 2**256 - 2**32 * 351 + 1
S1 = [(0,), (1,), (3,)]
S2 = [(0, 0), (1, 0), (0, 1), (2, 1)]
T2 = [(0, 0), (1, 1), (0, 1)]
S3 = [(0, 0, 0), (1, 0, 2), (0, 1, 1)]
T3 = [(1, 0, 2), (0, 0, 3)]
PRELOAD = ('sympy',)
BOUNDS = {
    'quick': 'one to three variables over Z/p for p in 2,5,2^256-2^32*351+1; operands with up to 4 and 3 monomials of fixed '
             'exponents (degree up to 3) and every coefficient value, zero included; evaluation at every point; exponents 0..3; up to 5 variables and 12 monomials with one arbitrary coefficient in each operand; augmented assignments; the degree of every result',
    'thorough': 'additionally p = 7, 31, 257 and operands of 5 by 5 monomials, exponents to 5; 7 variables and 40 monomials with one arbitrary coefficient'}
OUTSIDE = 'other coefficient rings; division (delegated to sympy through text)'
ASSUMPTIONS = ['moduli are prime']


def _M(env, p, n):
  F = env.get('modp', 'IntegersModP')(p)
  return F, env.get('multivariate_polynomial', 'multivariates_over')(F, n)


def _coefs(env, tag, sup, p, lo=None):
  return {tuple(m): env.int('%s%d' % (tag, i), -p if lo is None else lo, 2 * p if lo is None else p - 1)
          for i, m in enumerate(sup)}


def _is(env, f, want, p):
  """coefficient by coefficient; zero coefficients are not stored"""
  keys = set(want) | set(k for k, _ in f)
  conds = [f[k] == (want.get(k, 0)) % p for k in sorted(keys)]
  stored = [c != 0 for _, c in f]
  return env.all(conds + stored + [len(f) == len(list(f))])


def _add(a, b, s=1):
  return {k: a.get(k, 0) + s * b.get(k, 0) for k in set(a) | set(b)}


def _mul(a, b):
  out = {}
  for k, x in a.items():
    for l, y in b.items():
      m = tuple(i + j for i, j in zip(k, l))
      out[m] = out.get(m, 0) + x * y
  return out


def _zero(n):
  return (0,) * n


def _degree(env, want, p):
  """the largest sum of exponents over the coefficients that are not zero"""
  d = 0
  for k in sorted(want, key=sum):
    d = env.ite(want[k] % p != 0, sum(k), d)
  return d


def ops(env, p, n, s, t):
  F, M = _M(env, p, n)
  a, b = _coefs(env, 'a', s, p), _coefs(env, 'b', t, p)
  f, g = M(a), M(b)
  for label, h, want in (('construction', f, a), ('sum', f + g, _add(a, b)), ('difference', f - g, _add(a, b, -1)),
                         ('negation', -f, {k: -x for k, x in a.items()})):
    env.check(type(h) is M, label + ' is a polynomial')
    env.check(_is(env, h, want, p), label)
    env.check(h.degree() == _degree(env, want, p), 'degree of the ' + label)
    env.check(env.eq(h, M(want)), label + ' equals the polynomial of its coefficients')
  same = env.all([(x % p) == 0 for x in _add(a, b, -1).values()])
  env.check(env.iff(f == g, same), 'equal')
  env.check(env.iff(f != g, env.not_(same)), 'not equal')
  env.check(env.iff(f.is_zero(), env.all([x % p == 0 for x in a.values()])), 'zero test')


def augmented(env, p, n, s, t):
  """an augmented assignment changes the name only, not the polynomial it referred to"""
  F, M = _M(env, p, n)
  a, b = _coefs(env, 'a', s, p, 0), _coefs(env, 'b', t, p, 0)
  f, g = M(a), M(b)
  u = v = w = f
  u += g
  v -= g
  w *= g
  env.check(_is(env, u, _add(a, b), p), '+=')
  env.check(_is(env, v, _add(a, b, -1), p), '-=')
  env.check(_is(env, w, _mul(a, b), p), '*=')
  c = M(f)
  c += 1
  env.check(env.all([_is(env, f, a, p), _is(env, g, b, p)]), 'operands unchanged')
  d = {k: F(x) for k, x in a.items()}
  keys = list(d)
  h = M(d)
  h += g
  env.check(list(d) == keys and env.all([d[k] == F(a[k]) for k in keys]), 'the table it was built from is unchanged')


def product(env, p, n, s, t):
  F, M = _M(env, p, n)
  a, b = _coefs(env, 'a', s, p, 0), _coefs(env, 'b', t, p, 0)
  f, g = M(a), M(b)
  h = f * g
  env.check(_is(env, h, _mul(a, b), p), 'product')
  env.check(h.degree() == _degree(env, _mul(a, b), p), 'degree of the product')
  env.check(_is(env, f, a, p), 'operand unchanged')


def mixed(env, p, n, s):
  F, M = _M(env, p, n)
  a = _coefs(env, 'a', s, p, 0)
  c = env.int('c', -p, 2 * p)
  f = M(a)
  z = {_zero(n): c}
  for label, h, want in (
      ('poly + int', f + c, _add(a, z)), ('int + poly', c + f, _add(a, z)), ('poly + elt', f + F(c), _add(a, z)),
      ('elt + poly', F(c) + f, _add(a, z)), ('poly - int', f - c, _add(a, z, -1)), ('int - poly', c - f, _add(z, a, -1)),
      ('poly - elt', f - F(c), _add(a, z, -1)), ('elt - poly', F(c) - f, _add(z, a, -1)),
      ('poly * int', f * c, _mul(a, z)), ('int * poly', c * f, _mul(a, z)), ('poly * elt', f * F(c), _mul(a, z)),
      ('elt * poly', F(c) * f, _mul(a, z))):
    env.check(type(h) is M, label + ' is a polynomial')
    env.check(_is(env, h, want, p), label)
  env.check(_is(env, M(c), z, p), 'from an int')
  env.check(_is(env, M(F(c)), z, p), 'from a ring element')
  env.check(env.eq(M(f), f), 'from a polynomial')
  env.check(env.eq(M.factory(a), f), 'factory')


def _value(cs, xs):
  v = 0
  for k, c in cs.items():
    t = c
    for x, e in zip(xs, k):
      for _ in range(e):
        t = t * x
    v = v + t
  return v


def evaluate(env, p, n, s, t):
  F, M = _M(env, p, n)
  a, b = _coefs(env, 'a', s, p, 0), _coefs(env, 'b', t, p, 0)
  xs = env.ints('x', n, 0, p - 1)
  pt = [F(x) for x in xs]
  f, g = M(a), M(b)
  va, vb = _value(a, xs), _value(b, xs)
  env.check(f(pt) == F(va), 'value')
  env.check((f + g)(pt) == F(va + vb), 'value of a sum')
  env.check((f - g)(pt) == F(va - vb), 'value of a difference')
  env.check((f * g)(pt) == F(va * vb), 'value of a product')


def compose(env, p):
  """substituting polynomials for the variables"""
  F, M = _M(env, p, 2)
  a = _coefs(env, 'a', [(0, 0), (2, 0), (1, 1)], p, 0)
  g = M(_coefs(env, 'g', [(1, 0), (0, 0)], p, 0))
  h = M(_coefs(env, 'h', [(0, 1), (1, 0)], p, 0))
  pt = [F(x) for x in env.ints('x', 2, 0, p - 1)]
  f = M(a)
  k = f([g, h])
  v = k(pt) if isinstance(k, M) else k
  env.check(v == f([g(pt), h(pt)]), 'f(g, h)(x) = f(g(x), h(x))')


def power(env, p, n, s, e):
  F, M = _M(env, p, n)
  a = _coefs(env, 'a', s, p, 0)
  want = {_zero(n): 1}
  for _ in range(e):
    want = _mul(want, a)
  env.check(_is(env, M(a)**e, want, p), 'power')


def degree(env, p, n, s):
  F, M = _M(env, p, n)
  a = _coefs(env, 'a', s, p, 0)
  d = M(a).degree()
  for k, c in a.items():
    env.check(env.implies(c % p != 0, d >= sum(k)), 'degree is at least that of every monomial')
  env.check(env.any([d == 0] + [env.all([c % p != 0, d == sum(k)]) for k, c in a.items()]), 'degree is that of some monomial')


def variables(env, p, n):
  """the index polynomials select their coordinate"""
  F, M = _M(env, p, n)
  X = env.get('utils', 'generate_Xi_s')(F, n)
  env.check(len(X) == n, 'one per variable')
  pt = [F(x) for x in env.ints('x', n, 0, p - 1)]
  for i in range(n):
    env.check(type(X[i]) is M, 'polynomials in the same ring')
    env.check(X[i](pt) == pt[i], 'value is the coordinate')
  s = M(0)
  for i in range(n):
    s = s + X[i] * (i + 1)
  want = 0
  for i in range(n):
    want = want + int(pt[i]) * (i + 1)
  env.check(s(pt) == F(want), 'linear combination')


def arity(env, p, n):
  F, M = _M(env, p, n)
  f = M(_coefs(env, 'a', [_zero(n)], p, 0))
  env.check(env.raises(lambda: f([F(1)] * (n + 1))), 'a point of the wrong dimension is refused')
  env.check(env.raises(lambda: f([F(1)] * (n - 1))), 'a point of the wrong dimension is refused')


def large(env, p, n, s, t, free):
  """more variables and monomials, few unknown coefficients"""
  F, M = _M(env, p, n)
  a = dict(zip([tuple(m) for m in s], sparse(env, 'a', len(s), p, free, 1)))
  b = dict(zip([tuple(m) for m in t], sparse(env, 'b', len(t), p, [0], 2)))
  f, g = M(a), M(b)
  for label, h, want in (('construction', f, a), ('sum', f + g, _add(a, b)), ('difference', f - g, _add(a, b, -1)),
                         ('product', f * g, _mul(a, b)), ('product the other way round', g * f, _mul(a, b)),
                         ('square', f**2, _mul(a, a))):
    env.check(_is(env, h, want, p), label)
  xs = sparse(env, 'x', n, p, [n - 1], 3)
  val = lambda d: sum(_mono(c, m, xs) for m, c in d.items())
  pt = [F(x) for x in xs]
  env.check(f(pt) == F(val(a)), 'value')
  env.check((f * g)(pt) == F(val(a) * val(b)), 'value of a product')
  env.check(env.all([_is(env, f, a, p), _is(env, g, b, p)]), 'operands unchanged')


def _mono(c, m, xs):
  for x, e in zip(xs, m):
    for _ in range(e):
      c = c * x
  return c


def CASES(tier):
  t = tier == 'thorough'
  out = []
  W2 = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 0)]
  for p in [2, 5, BIG] + ([7, 31, 257] if t else []):
    for n, s, u in ((1, S1, S1), (2, S2, T2), (3, S3, T3)) + (((2, W2, W2),) if t else ()):
      k = {'p': p, 'n': n, 's': s, 't': u}
      out.append(Case('ops', k, weight=3))
      out.append(Case('product', k, weight=3))
      out.append(Case('evaluate', k, weight=2))
      out.append(Case('mixed', {'p': p, 'n': n, 's': s[:3]}))
      for e in range(0, 6 if t else 4):
        out.append(Case('power', {'p': p, 'n': n, 's': s[:3] if e > 2 else s, 'e': e}))
      out.append(Case('augmented', {'p': p, 'n': n, 's': s[:2], 't': u[:2]}))
      out.append(Case('degree', {'p': p, 'n': n, 's': s}))
      out.append(Case('variables', {'p': p, 'n': n}))
    out.append(Case('compose', {'p': p}))
    out.append(Case('arity', {'p': p, 'n': 2}))
  import itertools
  for p in (2, BIG) + ((7, 257) if t else ()):
    for n, d, k in ((4, 1, 10), (5, 1, 12), (2, 4, 12), (3, 2, 12), (1, 11, 12)) + (((7, 1, 40), (3, 2, 20), (1, 19, 18)) if t else ()):
      s = [list(m) for m in itertools.product(range(d + 1), repeat=n)][:k]
      u = [m[::-1] for m in s[1::4]]
      for free in ([0], [len(s) - 1]):
        out.append(Case('large', {'p': p, 'n': n, 's': s, 't': u, 'free': free}, weight=2))
  return out
