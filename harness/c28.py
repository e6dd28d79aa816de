"""C28  fields and rings built twice are the same type."""
from engine.runner import Case
from harness.common import seq  # noqa

BOUNDS = {
    'quick': 'every sequence of up to 4 calls of a memoized function with two arguments from 0..2, given by position or by name; pairs of arguments with equal hashes or equal low words; constructors of '
             'Z/p, F_{p^m}, polynomial rings (also over fields of the same name) and fractions with every choice among several primes, degrees and moduli',
    'thorough': 'sequences of 5 calls with arguments from 0..3'}
OUTSIDE = 'arguments that cannot be hashed; equal arguments of different types'
ASSUMPTIONS = ['the wrapped function depends on its arguments only']


def memo(env, calls, top, names):
  memoize = env.get('numbertype', 'memoize')
  log = []

  def f(a, b=7):
    log.append((a, b))
    return [a, b]

  g = memoize(f)
  seen = []
  for i in range(calls):
    a, b = env.int('a%d' % i, 0, top), env.int('b%d' % i, 0, top)
    how = env.choice('how%d' % i, names)
    if how == 'position':
      r = g(a, b)
    elif how == 'name':
      r = g(a, b=b)
    elif how == 'names':
      r = g(b=b, a=a)
    else:
      r = g(a)
      b = 7
    env.check(env.all([r[0] == a, r[1] == b]), 'what the function returns for these arguments')
    for h, x, y, s in seen:
      if h == how:
        env.check(env.implies(env.all([x == a, y == b]), s is r), 'the same object for the same call')
      env.check(env.implies(s is r, env.all([x == a, y == b])), 'different objects for different arguments')
    seen.append((how, a, b, r))
  n = len(log)
  if names == ['position']:
    for i in range(n):
      for j in range(i):
        env.check(env.any([log[i][0] != log[j][0], log[i][1] != log[j][1]]), 'computed once for each arguments')


ALIKE = [0, 2**61 - 1, -1, -2, 1, 2**61, -2**61, 2**64, 10**20, 10**20 + 1]


def alike(env, calls):
  """arguments with equal hashes, equal low words or equal floats are different arguments"""
  g = env.get('numbertype', 'memoize')(lambda a, b: [a, b])
  seen = []
  for i in range(calls):
    a = env.choice('a%d' % i, ALIKE)
    b = env.choice('b%d' % i, [0, 2**61 - 1] if calls < 3 else [0])
    r = g(a, b)
    env.check(r == [a, b], 'what the function returns for these arguments')
    for x, y, s in seen:
      env.check((s is r) == (x == a and y == b), 'the same object exactly for the same arguments')
    seen.append((a, b, r))


def alike_fields(env, kind):
  F = env.get('modp', 'IntegersModP') if kind == 'modp' else env.get('rationals_modp', 'RationalsModP')
  ps = [7, 7 + 2**61 - 1, 7 + 2**64, 7 + 2**32]
  p, q = env.choice('p', ps), env.choice('q', ps)
  A, B = F(p), F(q)
  env.check((A is B) == (p == q), 'the same type exactly when the modulus is the same')
  env.check(A.p == p and B.p == q, 'with its modulus')
  a = env.int('a', 0, 2**70)
  env.check(A(a) == A(a % p), 'reduced by its own modulus') if kind == 'modp' else None


def failing(env):
  """an error is not remembered as a value"""
  memoize = env.get('numbertype', 'memoize')
  state = [0]

  def f(a):
    state[0] += 1
    if state[0] == 1:
      raise ValueError
    return a + 1

  g = memoize(f)
  a = env.int('a', 0, 9)
  env.check(env.raises(lambda: g(a)), 'the error is passed on')
  env.check(g(a) == a + 1, 'computed afterwards')


def many(env, n, kind):
  """earlier results are still there after many other calls"""
  if kind == 'memo':
    g = env.get('numbertype', 'memoize')(lambda a: [a])
    xs = list(range(n))
  else:
    g = env.get('modp', 'IntegersModP') if kind == 'modp' else env.get('rationals_modp', 'RationalsModP')
    xs = [2 * i + 3 for i in range(n)]
  first = [g(x) for x in xs]
  k = env.int('k', 0, n - 1)
  i = env.concrete(k)
  env.check(g(xs[i]) is first[i], 'the same object after many other calls')


def ints(env, kind):
  F = env.get('modp', 'IntegersModP') if kind == 'modp' else env.get('rationals_modp', 'RationalsModP')
  ps = [2, 3, 5, 7, 31]
  p, q = env.choice('p', ps), env.choice('q', ps)
  A, B = F(p), F(q)
  env.check((A is B) == (p == q), 'the same type exactly when the modulus is the same')
  env.check(A.p == p and B.p == q, 'with its modulus')
  a, b = env.int('a', 0, 30), env.int('b', 0, 30)
  if p == q:
    env.check(A(a) + B(b) == A(a + b), 'elements of both work together')


def extension(env, names):
  """the modulus belongs to the identity of a field"""
  F2 = env.get('modp', 'IntegersModP')(2)
  P = env.get('polynomial', 'polynomials_over')(F2)
  FF = env.get('finitefield', 'FiniteField')
  mods = {2: [[1, 1, 1]], 3: [[1, 1, 0, 1], [1, 0, 1, 1]], 4: [[1, 1, 0, 0, 1], [1, 0, 0, 1, 1], [1, 1, 1, 1, 1]]}
  out = []
  for n in ('x', 'y'):
    m = env.choice(n + 'm', [2, 3, 4])
    c = env.choice(n + 'c', mods[m])
    g = P(list(c))
    out.append((m, c, FF(2, m, polynomialModulus=g) if names else FF(2, m, g)))
  (m, c, A), (n, d, B) = out
  env.check((A is B) == (c == d), 'the same field exactly when the modulus is the same')
  for m, c, K in out:
    x = K(P([0, 1]))
    env.check(x**m == K(P([v for v in c[:-1]])), 'x satisfies the modulus of the field')


def same_name(env, kind):
  """fields of the same size and name over different moduli are different arguments"""
  P = env.get('polynomial', 'polynomials_over')(env.get('modp', 'IntegersModP')(2))
  FF = env.get('finitefield', 'FiniteField')
  mods = [[1, 1, 0, 1], [1, 0, 1, 1]]
  i, j = env.choice('i', [0, 1]), env.choice('j', [0, 1])
  K, L = FF(2, 3, P(mods[i])), FF(2, 3, P(mods[j]))
  if kind == 'polynomials':
    mk = env.get('polynomial', 'polynomials_over')
  elif kind == 'multivariates':
    R = env.get('multivariate_polynomial', 'multivariates_over')
    mk = lambda F: R(F, 2)
  elif kind == 'floats':
    mk = env.get('floatingpoint', 'FloatingPoint')
  else:
    mk = env.get('numbertype', 'memoize')(lambda F: [F])
  A, B = mk(K), mk(L)
  env.check((A is B) == (i == j), 'the same object exactly for the same field')
  if kind in ('polynomials', 'multivariates'):
    env.check(A.ring is K and B.ring is L, 'over its own field')
  elif kind == 'memo':
    env.check(A[0] is K and B[0] is L, 'for its own field')


def rings(env, kind):
  modp = env.get('modp', 'IntegersModP')
  ps = [2, 3, 5]
  p, q = env.choice('p', ps), env.choice('q', ps)
  if kind == 'polynomials':
    R = env.get('polynomial', 'polynomials_over')
    A, B, same = R(modp(p)), R(modp(q)), p == q
  else:
    R = env.get('multivariate_polynomial', 'multivariates_over')
    m, n = env.int('m', 1, 3), env.int('n', 1, 3)
    m, n = env.concrete(m), env.concrete(n)
    A, B, same = R(modp(p), m), R(modp(q), n), p == q and m == n
  env.check((A is B) == same, 'the same ring exactly when the arguments are the same')


def CASES(tier):
  th = tier == 'thorough'
  cs = []

  def add(fn, w=1, **p):
    cs.append(Case(fn, p, weight=w, budget_s=60 if not th else 600, path_s=60))

  for names in (['position'], ['name'], ['position', 'name'], ['name', 'names', 'default']):
    for k in (2, 3) + ((4,) if len(names) == 1 or th else ()):
      add('memo', calls=k, top=2 if not th else 3, names=names)
  add('failing')
  for k in (2, 3):
    add('alike', calls=k)
  for k in ('modp', 'rationals'):
    add('alike_fields', kind=k)
  for k in ('modp', 'rationals'):
    add('ints', kind=k)
  add('extension', names=False)
  add('extension', names=True)
  for k in ('memo', 'modp', 'rationals'):
    for n in (40, 300) + ((3000,) if th else ()):
      add('many', n=n, kind=k)
  for k in ('polynomials', 'multivariates'):
    add('rings', kind=k)
  for k in ('polynomials', 'multivariates', 'floats', 'memo'):
    add('same_name', kind=k)
  return cs
