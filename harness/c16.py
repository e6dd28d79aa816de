"""C16  the algebraic intermediate representation of a computation."""
from engine.runner import Case
from harness.common import seq  # noqa

BIG = 2**256 - 2**32 * 351 + 1
PRELOAD = ('sympy',)
BOUNDS = {
    'quick': 'traces of 1 to 4 steps of width 1 and 2 with every input and every coefficient of a quadratic step; full instances of '
             '511 steps, width 1 to 3, fixed linear steps over Z/p (p = 7, 257, 2^256-2^32*351+1) with every input; every pair of '
             'rows written into the trace at the first, a middle and the last transition; constraint polynomials (constant, linear and quadratic steps) with every '
             'coefficient at every pair of states',
    'thorough': 'traces of up to 5 steps, rows written at every 30th transition'}
OUTSIDE = 'instances of other lengths (the constructor accepts 511 steps only); nonlinear steps over 511 steps'
ASSUMPTIONS = ['moduli are prime']


def _setup(env, p, w):
  F = env.get('modp', 'IntegersModP')(p)
  return F, env.get('multivariate_polynomial', 'multivariates_over')(F, w)


def _unit(w, j):
  return tuple(1 if i == j else 0 for i in range(w))


def _quad(env, w, p):
  """monomials of a step: constant, every variable, and a square"""
  ms = [(0,) * w] + [_unit(w, j) for j in range(w)] + [tuple(2 if i == w - 1 else 0 for i in range(w))]
  return ms


def _val(cs, xs):
  out = 0
  for m, c in cs.items():
    t = c
    for x, e in zip(xs, m):
      for _ in range(e):
        t = t * x
    out = out + t
  return out


def trace(env, p, w, n):
  F, M = _setup(env, p, w)
  get = env.get('air', 'get_computational_trace')
  cs = [{m: env.int('c%d_%d' % (j, k), 0, p - 1) for k, m in enumerate(_quad(env, w, p))} for j in range(w)]
  steps = [M({m: F(c) for m, c in d.items()}) for d in cs]
  inp = [F(v) for v in env.ints('x', w, 0, p - 1)]
  tr, out = get(list(inp), n, w, steps)
  env.check(len(tr) == n, 'one state per step')
  env.check(env.eq(tr[0], inp), 'the first state is the input')
  for i in range(n - 1):
    env.check(len(tr[i + 1]) == w, 'width of a state')
    for j in range(w):
      want = _val({m: F(c) for m, c in cs[j].items()}, tr[i])
      env.check(tr[i + 1][j] == want, 'each state is the step of the one before')
  env.check(env.eq(out, tr[-1]), 'the output is the last state')


LINEAR = {
    1: [{(0,): 3, (1,): 5}],
    2: [{(0, 1): 1}, {(1, 0): 1, (0, 1): 1}],
    3: [{(0, 1, 0): 1}, {(0, 0, 1): 1, (0, 0, 0): 2}, {(1, 0, 0): 3, (0, 0, 1): 4}],
}


def _air(env, p, w, inp):
  F, M = _setup(env, p, w)
  steps = [M({m: F(c) for m, c in d.items()}) for d in LINEAR[w]]
  air = env.get('air', 'AIR')(F, w, inp(F), 511, steps, 8)
  return F, steps, air


def honest(env, p, w, as_int=False):
  vs = env.ints('x', w, 0, p - 1)
  F, steps, air = _air(env, p, w, (lambda F: env.concrete(vs[0])) if as_int else (lambda F: [F(v) for v in vs]))
  tr = air.computational_trace
  env.check(len(tr) == 511, 'one state per step')
  for j in range(w):
    env.check(F(tr[0][j]) == F(vs[j]), 'the first state is the input')
  for i in range(0, 510):
    for j in range(w):
      env.check(tr[i + 1][j] == _val({m: F(c) for m, c in LINEAR[w][j].items()}, [F(x) for x in tr[i]]),
                'each state is the step of the one before')
  env.check(env.eq(air.output, tr[-1]), 'output')
  env.check(air.C is True, 'the honest trace satisfies the transition circuit')
  wit = air.generate_witness()
  env.check(len(wit) == w and all(len(r) == 511 for r in wit), 'shape of the witness')
  env.check(env.all([wit[j][i] == tr[i][j] for j in range(w) for i in range(511)]), 'the witness is the transposed trace')
  env.check(len(air.B) == w, 'one boundary constraint per register')
  env.check(env.all([env.all([b[0] == 0, b[1] == j, F(b[2]) == F(vs[j])])
                     for j, b in enumerate(air.B)]), 'boundary constraints fix the input')
  env.check(air.get_degree() == 1, 'degree of the steps')


def rows(env, p, w, k):
  """arbitrary states at positions k and k+1"""
  x0 = env.ints('x', w, 0, p - 1)
  F, steps, air = _air(env, p, w, lambda F: [F(v) for v in x0])
  a = [F(v) for v in env.ints('a', w, 0, p - 1)]
  b = [F(v) for v in env.ints('b', w, 0, p - 1)]
  tr = air.computational_trace
  tr[k] = list(a)
  tr[k + 1] = list(b)
  good = []
  for i in range(max(0, k - 1), min(510, k + 2)):
    for j in range(w):
      good.append(tr[i + 1][j] == _val({m: F(c) for m, c in LINEAR[w][j].items()}, tr[i]))
  got = air.generate_monotone_circuit(air.Polys)
  env.check(env.iff(got, env.all(good)), 'the circuit holds exactly for valid traces')


def constraints(env, p, w, high=None, only=None):
  """arbitrary step polynomials; zero is a fixed point, so that the trace stays trivial"""
  F, M = _setup(env, p, w)
  ms = [m for m in _quad(env, w, p) if any(m)] + [tuple([1] * w), tuple([2] + [0] * (w - 2) + [1])[:w] if w > 1 else (3,)]
  if only is not None:
    ms = [m for m in ms if sum(m) == only] or [(0,) * w]
  # with `high`, the other registers have linear steps
  cs = [{m: env.int('c%d_%d' % (j, k), 1, p - 1) for k, m in enumerate(dict.fromkeys(ms)) if high in (None, j) or sum(m) < 2} for j in range(w)]
  steps = [M({m: F(c) for m, c in d.items()}) for d in cs]
  # with constant steps the trace starts at the constants
  air = env.get('air', 'AIR')(F, w, [F(0)] * w if only != 0 else [F(d[(0,) * w]) for d in cs], 511, steps, 8)
  xs, ys = env.ints('x', w, 0, p - 1), env.ints('y', w, 0, p - 1)
  X, Y = [F(v) for v in xs], [F(v) for v in ys]
  env.check(len(air.Polys) == w, 'one constraint per register')
  for j in range(w):
    holds = Y[j] == _val({m: F(c) for m, c in cs[j].items()}, X)
    env.check(env.iff(air.Polys[j](X + Y) == F(0), holds), 'a constraint vanishes exactly on its valid transitions')
    env.check(env.eq(air.Polys[j](X + Y), Y[j] - _val({m: F(c) for m, c in cs[j].items()}, X)), 'value of a constraint')
  env.check(air.get_degree() == max(sum(m) for m in ms), 'degree of the steps')
  # the next state itself occurs in every constraint
  env.check(air.CDegree == max([1] + [sum(m) for m in ms]), 'degree of the circuit')
  env.check(air.C is True, 'the trace at the fixed point is valid')


def CASES(tier):
  th = tier == 'thorough'
  cs = []
  for p in (7, BIG):
    for w, n in [(1, 1), (1, 2), (1, 4), (2, 1), (2, 2), (2, 3)] + ([(1, 5), (3, 3)] if th else []):
      cs.append(Case('trace', dict(p=p, w=w, n=n)))
  for p in (7, 257, BIG):
    for w in (1, 2, 3):
      cs.append(Case('honest', dict(p=p, w=w), weight=2))
      for k in ([0, 200, 509] if not th else list(range(0, 510, 30)) + [509]):
        if w < 3 or k == 509 or th:
          cs.append(Case('rows', dict(p=p, w=w, k=k), weight=3))
      cs.append(Case('constraints', dict(p=p, w=w), weight=2))
      for j in range(w):
        cs.append(Case('constraints', dict(p=p, w=w, high=j), weight=2)) if w > 1 else None
      for d in (0, 1, 2):
        cs.append(Case('constraints', dict(p=p, w=w, only=d), weight=2)) if w < 3 else None
  cs.append(Case('honest', dict(p=7, w=1, as_int=True), weight=2))
  return cs
