"""C29  the polynomials of a STARK encode the computation."""
from engine.runner import Case
from harness.common import seq  # noqa
from .c18 import BIG, STEPS, statement

PRELOAD = ('sympy',)
BOUNDS = {
    'quick': 'Z/(2^256-2^32*351+1), and Z/5, Z/17 for the refusals; every witness of 2 to 4 rows and of 8 in one register (also not an execution), two or three free rows of 8 to 16, width 1 to 3 (combination: also 5 and 9); '
             'every evaluation point; linear, quadratic and cubic steps; every constraint polynomial of up to 5 coefficients, every multiple '
             'of the vanishing polynomial by up to 6; every pair of polynomials of up to 2 coefficients in each place of the combination; every root of 4 bytes, 0 to 9 weights',
    'thorough': 'additionally 32 rows, 8 quadratic steps, more coefficients'}
OUTSIDE = 'longer computations; ten weights and more (the function is documented for fewer); binary fields'
ASSUMPTIONS = ['the hash function is one fixed instance of a random oracle: digests of symbolic data are distinct constants']


def _root(F, p, n):
  """an element of order n"""
  if p == BIG:
    return F(7)**((p - 1) // n)
  for a in range(1, p):
    o, v = 1, a
    while v != 1:
      o, v = o + 1, v * a % p
    if o == n:
      return F(a)


def _steps(env, F, w, polys):
  M = env.get('multivariate_polynomial', 'multivariates_over')(F, w)
  return [M({k: F(c) for k, c in d.items()}) for d in STEPS[polys]]


def _val(f, x):
  """value of a polynomial, from its coefficients"""
  r = 0
  for c in reversed(list(f.coefficients)):
    r = r * x + c
  return r


def _witness(env, F, p, w, n, g=None, rows=None):
  """any table (or any values in the given rows); with g, one whose interpolants have degree n-1"""
  out = []
  for j in range(w):
    row = [F(v) for v in env.ints('w%d_' % j, n, 0, p - 1)] if rows is None else [F(13 * i * i + 7 * i + j + 1) for i in range(n)]
    for i in rows or []:
      row[i] = F(env.int('w%d_%d' % (j, i), 0, p - 1))
    if g is not None:
      env.assume(sum([v * g**i for i, v in enumerate(row)], F(0)) != 0)
    out.append(row)
  return out


def trace(env, p, w, n, rows=None):
  F = env.field(p)
  g = _root(F, p, n)
  wit = _witness(env, F, p, w, n, None, rows)
  ps = env.get('stark', 'construct_trace_polynomials')(wit, F, g)
  env.check(len(ps) == w, 'one polynomial for each register')
  for j in range(w):
    env.check(ps[j].degree() < n, 'degree below the number of steps')
    x = F(1)
    for i in range(n):
      env.check_eq(ps[j](x), wit[j][i], 'value at step %d' % i)
      x = x * g


def _polys(env, F, p, w, n, tag='t', lead=0):
  """w polynomials of n coefficients; with `lead`, of degree n-1"""
  P = env.get('polynomial', 'polynomials_over')(F)
  out = []
  for j in range(w):
    cs = env.ints('%s%d_' % (tag, j), n, 0, p - 1)
    if lead:
      env.assume(cs[-1] != 0)
    out.append(P([F(v) for v in cs]))
  return out


def _apply(F, mono, xs):
  """a step, from its table of coefficients"""
  r = F(0)
  for e, c in mono.items():
    t = F(c)
    for x, k in zip(xs, e):
      for _ in range(k):
        t = t * x
    r = r + t
  return r


def constraint(env, p, w, n, polys, lead=0):
  F = env.field(p)
  g = _root(F, p, n)
  tps = _polys(env, F, p, w, n, lead=lead)
  x = F(env.int('x', 0, p - 1))
  cps = env.get('stark', 'construct_constraint_polynomials')(_steps(env, F, w, polys), tps, F, g, w)
  env.check(len(cps) == w, 'one constraint polynomial for each register')
  here = [_val(f, x) for f in tps]
  there = [_val(f, g * x) for f in tps]
  for j in range(w):
    env.check_eq(_val(cps[j], x), there[j] - _apply(F, STEPS[polys][j], here), 'constraint of register %d' % j)


def remainder(env, p, n, size, count=1):
  """quotients: refused exactly when a constraint fails at a step but the last"""
  F = env.field(p)
  g = _root(F, p, n)
  cps = _polys(env, F, p, count, size, 'c')
  pts = [g**i for i in range(n - 1)]
  last = g**(n - 1)
  ok = env.all([_val(f, t) == 0 for f in cps for t in pts])
  try:
    ds = env.get('stark', 'construct_remainder_polynomials')(cps, F, n, last)
  except Exception as e:
    if type(e).__name__ == 'ApiMissing':
      raise
    env.check(env.not_(ok), 'constraints that hold at every step have a quotient')
    return
  env.check(ok, 'a constraint that fails at a step has no quotient')
  env.check(len(ds) == count, 'one quotient for each constraint')
  x = F(env.int('x', 0, p - 1))
  for f, d in zip(cps, ds):
    z = F(1)
    for t in pts:
      z = z * (x - t)
    env.check_eq(_val(d, x) * z, _val(f, x), 'quotient times vanishing polynomial')


def multiple(env, n, size, count):
  """over the large field: a multiple of the vanishing polynomial gives its factor"""
  F = env.field(BIG)
  P = env.get('polynomial', 'polynomials_over')(F)
  g = _root(F, BIG, n)
  z = P([F(1)])
  for i in range(n - 1):
    z = z * P([-(g**i), F(1)])
  ds = _polys(env, F, BIG, count, size, 'd')
  out = env.get('stark', 'construct_remainder_polynomials')([d * z for d in ds], F, n, g**(n - 1))
  env.check(len(out) == count, 'one quotient for each constraint')
  for d, o in zip(ds, out):
    env.check_eq(o, d, 'the quotient is the cofactor')


def pipeline(env, w, n, polys, free=9):
  """trace, constraint and quotient of an execution"""
  F = env.field(BIG)
  sp = _steps(env, F, w, polys)
  g = _root(F, BIG, n)
  wit, boundary = statement(env, F, sp, w, n, free)
  trace_p, constr, rem, bound = env.get('stark', 'construct_trace_polynomials', 'construct_constraint_polynomials',
                                        'construct_remainder_polynomials', 'construct_boundary_polynomials')
  tps = trace_p(wit, F, g)
  cps = constr(sp, tps, F, g, w)
  ds = rem(cps, F, n, g**(n - 1))
  x = F(env.int('x', 0, BIG - 1))
  z = F(1)
  for i in range(n - 1):
    z = z * (x - g**i)
  for c, d in zip(cps, ds):
    env.check_eq(_val(d, x) * z, _val(c, x), 'quotient times vanishing polynomial')


def boundary(env, p, w, n, lead=0, rows=None):
  """(P - I) / Z2, for every trace whose first row is the input"""
  F = env.field(p)
  g = _root(F, p, n)
  wit = _witness(env, F, p, w, n, g if lead else None, rows)
  trace_p, bound = env.get('stark', 'construct_trace_polynomials', 'construct_boundary_polynomials')
  tps = trace_p(wit, F, g)
  last = g**(n - 1)
  bs = bound(tps, wit, [(0, j, wit[j][0]) for j in range(w)], F, last, w)
  env.check(len(bs) == w, 'one boundary polynomial for each register')
  x = F(env.int('x', 0, p - 1))
  inv = (last - F(1)).inverse()
  for j in range(w):
    slope = (wit[j][-1] - wit[j][0]) * inv
    line = wit[j][0] + slope * (x - F(1))
    env.check_eq(_val(bs[j], x) * (x - F(1)) * (x - last) + line, _val(tps[j], x), 'boundary of register %d' % j)


def _combine(env, F, w, n, deg, entropy, T, D, B):
  comb = env.get('stark', 'compute_pseudorandom_linear_combination')
  return comb(entropy, T, D, B, F, _root(F, BIG, n * deg), n * deg, n, w)


def combination(env, w, n, deg, size, which, reg):
  """linear in every polynomial; every polynomial counts"""
  env.fix_oracle(1)
  F = env.field(BIG)
  P = env.get('polynomial', 'polynomials_over')(F)
  root = b'entropy of the example..........'
  cols = {k: [P([F(100 * i + 10 * j + c + 3) for c in range(3)]) for j in range(w)] for i, k in enumerate('TDB')}
  cols[which][reg], other = _polys(env, F, BIG, 2, size, 'o')
  base = _combine(env, F, w, n, deg, root, cols['T'], cols['D'], cols['B'])
  again = _combine(env, F, w, n, deg, root, cols['T'], cols['D'], cols['B'])
  env.check_eq(base, again, 'the same combination again')
  moved = {k: list(v) for k, v in cols.items()}
  moved[which][reg] = moved[which][reg] + other
  alone = {k: [P([]) for _ in range(w)] for k in cols}
  alone[which][reg] = other
  lhs = _combine(env, F, w, n, deg, root, moved['T'], moved['D'], moved['B'])
  rhs = _combine(env, F, w, n, deg, root, alone['T'], alone['D'], alone['B'])
  env.check_eq(lhs, base + rhs, 'linear in each polynomial')
  env.check(env.iff(rhs == 0, other == 0), 'every polynomial counts')


def binds(env, w, n, deg, which, reg):
  """other entropy, other weights"""
  env.fix_oracle(1)
  F = env.field(BIG)
  P = env.get('polynomial', 'polynomials_over')(F)
  cols = {k: [P([]) for _ in range(w)] for k in 'TDB'}
  cols[which][reg] = P([F(env.int('t', 1, BIG - 1))])
  a = _combine(env, F, w, n, deg, b'a' * 32, cols['T'], cols['D'], cols['B'])
  b = _combine(env, F, w, n, deg, b'b' * 32, cols['T'], cols['D'], cols['B'])
  env.check(env.not_(a == b), 'the weights depend on the entropy')


def distinct(env, w, n, deg):
  """every place has its own weight"""
  env.fix_oracle(1)
  F = env.field(BIG)
  P = env.get('polynomial', 'polynomials_over')(F)
  t = P([F(env.int('t', 1, BIG - 1))])
  out = []
  for which in 'TDB':
    for reg in range(w):
      cols = {k: [P([]) for _ in range(w)] for k in 'TDB'}
      cols[which][reg] = t
      out.append(_combine(env, F, w, n, deg, b'a' * 32, cols['T'], cols['D'], cols['B']))
  for i in range(len(out)):
    for j in range(i):
      env.check(env.not_(out[i] == out[j]), 'every place has its own weight')


def weights(env, num, ln=4):
  env.fix_oracle(1)
  ks = env.get('stark', 'get_pseudorandom_ks')
  r = env.bytes('r', ln)
  s = env.bytes('s', ln)
  a = ks(r, num)
  env.check(len(a) == num, 'as many weights as asked for')
  env.check(list(ks(r, num)) == list(a), 'the same weights for the same root')
  for i in range(num):
    env.check(env.all([0 <= a[i], a[i] < 2**256]), 'weights are digests')
    for j in range(i):
      env.check(a[i] != a[j], 'weights of different positions')
  env.assume(r != s)
  b = ks(s, num)
  for i in range(num):
    env.check(a[i] != b[i], 'weights of different roots')


def CASES(tier):
  th = tier == 'thorough'
  cs = []
  for p, w, n in [(5, 1, 2), (5, 1, 4), (17, 2, 4), (BIG, 1, 4), (BIG, 2, 8), (BIG, 3, 4), (BIG, 1, 16)] + ([(BIG, 1, 32), (BIG, 3, 16)] if th else []):
    rows = (0, 2, n - 1) if n * w > 12 and not th else None
    cs.append(Case('trace', dict(p=p, w=w, n=n, rows=rows), weight=n * w, budget_s=600 if th else 30))
    cs.append(Case('boundary', dict(p=p, w=w, n=n, lead=int(n * w > 4 and p == BIG), rows=rows and (0, n - 1)), weight=n * w) if n > 2 else Case('trace', dict(p=p, w=2, n=n)))
  for w, n, d in [(1, 4, 'LINEAR1'), (1, 8, 'LINEAR1'), (2, 4, 'LINEAR2'), (3, 4, 'LINEAR3'), (1, 4, 'QUAD1'), (1, 2, 'CUBE1'), (2, 2, 'MIX2'), (2, 2, 'QUAD2'), (2, 2, 'CUBE2'),
                  (3, 2, 'MIX3')] + ([(1, 16, 'LINEAR1'), (1, 8, 'QUAD1'), (1, 4, 'CUBE1')] if th else []):
    cs.append(Case('constraint', dict(p=BIG, w=w, n=n if w < 3 or th else 2, polys=d, lead=int(n * w > 6)), weight=n * w))
    cs.append(Case('pipeline', dict(w=w, n=n if n > 2 or w == 1 else 4, polys=d, free={'LINEAR3': 1, 'QUAD2': 1, 'CUBE2': 1, 'MIX2': 1, 'MIX3': 1}.get(d, 9)), weight=n * w))
  for p, n, size in [(5, 2, 3), (5, 4, 4), (5, 4, 5), (17, 4, 4), (17, 2, 3)] + ([(5, 4, 6), (17, 4, 5)] if th else []):
    cs.append(Case('remainder', dict(p=p, n=n, size=size), weight=size))
  cs.append(Case('remainder', dict(p=5, n=2, size=2, count=2)))
  for n, size, count in [(2, 2, 1), (4, 2, 2), (4, 6, 1), (8, 3, 1)] + ([(16, 4, 2)] if th else []):
    cs.append(Case('multiple', dict(n=n, size=size, count=count), weight=n))
  for w in (1, 2, 3, 5, 9):
    for which in 'TDB':
      for reg in range(w) if w < 5 else (0, 3, w - 1) if which == 'T' else (w - 1,):
        cs.append(Case('combination', dict(w=w, n=4, deg=8, size=2, which=which, reg=reg)))
  for w, which, reg in [(1, 'T', 0), (1, 'B', 0), (2, 'D', 1), (2, 'T', 0), (3, 'D', 0)]:
    cs.append(Case('binds', dict(w=w, n=4, deg=8, which=which, reg=reg)))
  for w in (1, 2, 3, 5):
    cs.append(Case('distinct', dict(w=w, n=4, deg=8)))
  for num in range(10):
    cs.append(Case('weights', dict(num=num)))
  return cs
