"""C09  the number-theoretic transform."""
from engine.runner import Case
from harness.common import seq  # noqa
from harness.common import sparse

BIG = 2**256 - 2**32 * 351 + 1
BOUNDS = {
    'quick': 'Z/p for p in 5,7,13,17,31,97,257,2^256-2^32*351+1; roots of unity of order 1,2,4,8,16 (and 3, 6, 12); every input '
             'vector of up to that length; products of every pair of coefficient vectors of up to that length; with one or two unknowns also orders up to 256',
    'thorough': 'additionally orders 32 and 64'}
OUTSIDE = 'orders that are neither 2^k nor 3*2^k (the halving recursion does not support them); more coefficients than the order; '\
          'the additive transform over characteristic 2'
ASSUMPTIONS = ['moduli are prime; the root given is a primitive n-th root of unity']

GEN = {5: 2, 7: 3, 13: 2, 17: 3, 31: 3, 97: 5, 257: 3, BIG: 7}


def _root(p, n):
  r = pow(GEN[p], (p - 1) // n, p)
  assert pow(r, n, p) == 1 and all(pow(r, n // q, p) != 1 for q in (2, 3) if n % q == 0)
  return r


def _setup(env, p, n):
  F = env.get('modp', 'IntegersModP')(p)
  P = env.get('polynomial', 'polynomials_over')(F)
  w = _root(p, n)
  return F, P, w


def forward(env, p, n, k):
  """the transform of a polynomial with k coefficients is its values at the powers of the root"""
  F, P, w = _setup(env, p, n)
  T = env.get('fft', 'NonBinaryFFT')(F, F(w))
  a = env.ints('a', k, 0, p - 1)
  out = T.fft(P(a))
  env.check(len(out) == n, 'one value per power of the root')
  for i in range(n):
    x = pow(w, i, p)
    want = 0
    for j, c in enumerate(a):
      want = want + c * pow(x, j, p)
    env.check(out[i] == F(want), 'value at a power of the root')


def backward(env, p, n):
  """the inverse transform interpolates"""
  F, P, w = _setup(env, p, n)
  T = env.get('fft', 'NonBinaryFFT')(F, F(w))
  v = env.ints('v', n, 0, p - 1)
  f = T.inv_fft([F(x) for x in v])
  env.check(type(f) is P, 'a polynomial')
  env.check(f.degree() < n, 'degree below the order')
  cs = list(f)
  for i in range(n):
    x = pow(w, i, p)
    got = 0
    for j, c in enumerate(cs):
      got = got + int(c) * pow(x, j, p)
    env.check(got % p == v[i], 'takes the given value')


def roundtrip(env, p, n, k):
  F, P, w = _setup(env, p, n)
  T = env.get('fft', 'NonBinaryFFT')(F, F(w))
  a = env.ints('a', k, 0, p - 1)
  f = P(a)
  env.check(env.eq(T.inv_fft(T.fft(f)), f), 'inverse of the transform')
  g = T.fft(T.inv_fft([F(x) for x in a] + [F(0)] * (n - k)))
  env.check(env.all([len(g) == n] + [x == F(y) for x, y in zip(g, a + [0] * (n - k))]), 'transform of the inverse')


def oned(env, p, n, k):
  """the list interface, with zero filling"""
  F, P, w = _setup(env, p, n)
  fft = env.get('fft', 'fft_1d')
  a = env.ints('a', k, 0, p - 1)
  vals = [F(x) for x in a]
  out = fft(F, vals, p, F(w))
  back = fft(F, out, p, F(w), inv=True)
  env.check(len(out) == n and len(back) == n, 'lengths')
  for i, y in enumerate(back):
    env.check(y == F(a[i] if i < k else 0), 'round trip')
  env.check(env.all([len(vals) == k] + [x == F(y) for x, y in zip(vals, a)]), 'input unchanged')


def short(env, p, n, k):
  """values that are not given count as zero, in the inverse as well"""
  F, P, w = _setup(env, p, n)
  T = env.get('fft', 'NonBinaryFFT')(F, F(w))
  v = env.ints('v', k, 0, p - 1)
  vals = [F(x) for x in v]
  f = T.inv_fft(vals)
  g = T.fft(f)
  env.check(env.all([len(g) == n] + [x == F(y) for x, y in zip(g, v + [0] * (n - k))]), 'the values given, then zeros')
  env.check(env.all([len(vals) == k] + [x == F(y) for x, y in zip(vals, v)]), 'input unchanged')


def product(env, p, n, k, m):
  """coefficients of the product modulo x^n - 1"""
  F, P, w = _setup(env, p, n)
  mul = env.get('fft', 'mul_polys')
  a, b = env.ints('a', k, 0, p - 1), env.ints('b', m, 0, p - 1)
  A, B = [F(x) for x in a], [F(x) for x in b]
  out = mul(A, B, F(w))
  want = [0] * n
  for i, x in enumerate(a):
    for j, y in enumerate(b):
      want[(i + j) % n] = want[(i + j) % n] + x * y
  env.check(len(out) == n, 'length')
  for x, y in zip(out, want):
    env.check(x == F(y), 'coefficient of the product')
  env.check(env.all([len(A) == k, len(B) == m] + [x == F(y) for x, y in zip(A + B, a + b)]), 'inputs unchanged')


def in_turn(env, p, orders, k):
  """transforms at different roots, one after the other, each with coefficients of its own"""
  F = env.get('modp', 'IntegersModP')(p)
  P = env.get('polynomial', 'polynomials_over')(F)
  Fft = env.get('fft', 'NonBinaryFFT')
  for t, (n, e) in enumerate(orders):
    w = pow(_root(p, n), e, p)
    T = Fft(F, F(w))
    a = env.ints('a%d_' % t, min(k, n), 0, p - 1)
    out = T.fft(P(a))
    env.check(len(out) == n, 'one value per power of the root')
    for i in range(n):
      want = 0
      for j, c in enumerate(a):
        want = want + c * pow(w, i * j, p)
      env.check(out[i] == F(want), 'value at a power of the root')
    back = T.inv_fft(out)
    for i, c in enumerate(back.coefficients):
      env.check(c == (F(a[i]) if i < len(a) else F(0)), 'the inverse gives the coefficients back')


def large(env, p, n, k, free, vector):
  """large orders with few unknowns: values, interpolation, list interface, product"""
  F, P, w = _setup(env, p, n)
  T = env.get('fft', 'NonBinaryFFT')(F, F(w))
  a = sparse(env, 'a', k, p, free, 3)
  f = P(a)
  out = T.fft(f)
  env.check(len(out) == n, 'one value per power of the root')
  for i in range(n):
    x = pow(w, i, p)
    env.check(out[i] == F(sum(c * pow(x, j, p) for j, c in enumerate(a))), 'value at a power of the root')
  env.check(env.eq(T.inv_fft(out), f), 'inverse of the transform')
  v = sparse(env, 'v', n, p, vector, 5)
  vals = [F(x) for x in v]
  g = T.fft(T.inv_fft(vals))
  env.check(env.all([len(g) == n] + [x == y for x, y in zip(g, v)]), 'transform of the inverse')
  mul = env.get('fft', 'mul_polys')
  b = sparse(env, 'b', 3, p, [1], 6)
  prod = mul([F(x) for x in a], [F(x) for x in b], F(w))
  want = [0] * n
  for i, x in enumerate(a):
    for j, y in enumerate(b):
      want[(i + j) % n] = want[(i + j) % n] + x * y
  env.check(env.all([len(prod) == n] + [x == F(y) for x, y in zip(prod, want)]), 'coefficients of the product')


def CASES(tier):
  t = tier == 'thorough'
  out = []
  for p, ns in ((5, (1, 2, 4)), (7, (2, 3, 6)), (13, (3, 4, 12)), (17, (2, 4, 8, 16)), (31, (2, 6)), (97, (8, 16, 32)),
                (257, (16, 64)), (BIG, (2, 4, 8, 16, 32, 64))):
    for n in ns:
      if n > 16 and not t:
        continue
      for k in sorted({1, 2, n // 2, n - 1, n}):
        if 0 < k <= n and (n <= 16 or k in (n // 2, n)):
          out.append(Case('forward', {'p': p, 'n': n, 'k': k}))
      out.append(Case('backward', {'p': p, 'n': n}))
      out.append(Case('roundtrip', {'p': p, 'n': n, 'k': n if n < 16 or t else 3}))
      for k in sorted({1, n // 2, n - 1}):
        if 0 < k < n:
          out.append(Case('short', {'p': p, 'n': n, 'k': k}))
      for k in sorted({1, n // 2 + 1, n}):
        if k <= n:
          out.append(Case('oned', {'p': p, 'n': n, 'k': k}))
      for k, m in sorted({(1, 1), (n // 2, n // 2), (n, n), (n, 1)} | ({(2, 3), (3, 2), (1, 3), (4, 2), (3, 5)} if n == 8 else set())):
        if k and m and (k < 16 or m == 1 or t):
          out.append(Case('product', {'p': p, 'n': n, 'k': k, 'm': m}))
  for p, orders in ((17, ((4, 1), (4, 3), (4, 1))), (17, ((8, 1), (8, 3), (8, 5), (8, 7))), (17, ((8, 1), (4, 1), (2, 1), (8, 1))),
                    (BIG, ((4, 1), (4, 3))), (BIG, ((8, 1), (8, 5))), (13, ((3, 1), (3, 2))), (97, ((8, 1), (16, 1), (8, 3)))):
    for k in (2, 4):
      out.append(Case('in_turn', {'p': p, 'orders': [list(o) for o in orders], 'k': k}))
  for p, n in ((97, 32), (97, 96), (257, 32), (257, 64), (257, 128), (257, 256), (BIG, 32), (BIG, 64), (BIG, 128)) + (((BIG, 256), (BIG, 512)) if t else ()):
    for k, free, vector in ((n, [n - 1], [n // 2]), (n // 2 + 1, [0, n // 2], [0]), (3, [2], [n - 1])):
      if n < 100 or k == n or t:
        out.append(Case('large', {'p': p, 'n': n, 'k': k, 'free': free, 'vector': vector}, weight=n))
  return out
