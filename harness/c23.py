"""C23  the zero-knowledge protocol for graph isomorphism."""
import itertools
from engine.runner import Case
from harness.common import seq  # noqa

BOUNDS = {
    'quick': 'graphs of up to 4 vertices and 4 edges with arbitrary endpoints (every vertex on some edge; graphs of 3 to 5 vertices of which one or three are on none; the number of vertices counted over graphs one after the other), every isomorphism (and the inverses of shifted permutations of 5, 6 and 8 vertices with two places exchanged), every random '
             'permutation and choice, every pair of maps presented to the verifier; up to 3 rounds; two rounds of one prover, verifier or simulator',
    'thorough': 'up to 5 vertices and 5 edges'}
OUTSIDE = 'larger graphs; the last vertex always has an edge (the representation has no other record of the size)'
ASSUMPTIONS = ['the random source returns any value of the range asked for', 'graphs are lists of edges, compared as lists']


def _graph(env, name, n, m):
  G = [(env.int('%su%d' % (name, i), 1, n), env.int('%sv%d' % (name, i), 1, n)) for i in range(m)]
  for v in range(1, n + 1):
    env.assume(env.any([x == v for e in G for x in e]))
  return G


def _given(G):
  return [tuple(e) for e in G]


def _patterns(m):
  """all lists of m edges up to the names of the vertices"""
  out = []

  def grow(seq, top):
    if len(seq) == 2 * m:
      out.append([seq[i:i + 2] for i in range(0, 2 * m, 2)])
      return
    for v in range(1, top + 2):
      grow(seq + [v], max(top, v))

  grow([], 0)
  return out


SHAPES = {
    3: [[[1, 2], [2, 3], [3, 1]], [[1, 2], [1, 3], [1, 2]], [[1, 1], [2, 3], [3, 2]]],
    4: [[[1, 2], [3, 4]], [[1, 2], [2, 3], [3, 4]], [[1, 2], [1, 3], [1, 4]], [[1, 2], [2, 3], [3, 4], [4, 1]],
        [[1, 2], [1, 3], [1, 4], [2, 3], [2, 4], [3, 4]]],
    5: [[[1, 2], [2, 3], [3, 4], [4, 5], [5, 1]]]}


ISOLATED = {3: [[[3, 1], [1, 3]]], 4: [[[1, 4], [4, 2]], [[4, 4]]], 5: [[[1, 2], [2, 5], [4, 5]], [[1, 2], [2, 3], [1, 3], [3, 5]]]}


def _perm(env, name, n):
  L = env.ints(name, n, 0, n - 1)
  for i in range(n):
    for j in range(i):
      env.assume(L[i] != L[j])
  return L


def _table(env, T):
  """the map i -> T[i - 1]"""

  def f(x):
    r = T[-1]
    for i in range(len(T) - 2, -1, -1):
      r = env.ite(x == i + 1, T[i], r)
    return r

  return f


def _same(env, G, H):
  if len(G) != len(H):
    return False
  return env.all([env.all([len(e) == 2, e[0] == f[0], e[1] == f[1]]) for e, f in zip(G, H)])


def _zk(env, *names):
  return env.get('zero_knowledge', *names)


def helpers(env, n):
  """permutations as functions, and their inverses"""
  make, inv, apply_, count = _zk(env, 'make_permutation_function', 'make_inverse_permutation_function', 'apply_isomorphism', 'num_vertices')
  L = _perm(env, 'p', n)
  f, g = make(L), inv(L)
  i = env.int('i', 1, n)
  env.check(f(i) == _table(env, [x + 1 for x in L])(i), 'the function of a list')
  env.check(g(f(i)) == i, 'inverse after')
  env.check(f(g(i)) == i, 'inverse before')
  G = _graph(env, 'g', n, 2) if n < 4 else _given(SHAPES[n][0])
  env.check(count(G) == n, 'number of vertices')
  T = [x + 1 for x in L]
  H = apply_(G, f)
  env.check(_same(env, H, [(_table(env, T)(u), _table(env, T)(v)) for u, v in G]), 'renamed edge by edge, in order')
  env.check(_same(env, apply_(H, g), G), 'and back')


def inverses(env, n, swapped):
  """larger permutations: a fixed one with some places exchanged"""
  make, inv = _zk(env, 'make_permutation_function', 'make_inverse_permutation_function')
  s = env.int('shift', 0, n - 1)
  s = env.concrete(s)
  L = [(i + s) % n for i in range(n)]
  for t in range(swapped):
    i, j = (env.concrete(env.int('%s%d' % (w, t), 0, n - 1)) for w in 'ij')
    L[i], L[j] = L[j], L[i]
  f, g = make(L), inv(L)
  for i in range(1, n + 1):
    env.check(f(i) == L[i - 1] + 1, 'the function of a list')
    env.check(g(L[i - 1] + 1) == i, 'inverse')


def counting(env, n, m):
  """the number of vertices is the largest one on an edge"""
  G = [(env.int('a%d' % i, 1, n), env.int('b%d' % i, 1, n)) for i in range(m)]
  r = _zk(env, 'num_vertices')(G)
  env.check(env.all([r >= v for e in G for v in e]), 'no vertex is larger')
  env.check(env.any([r == v for e in G for v in e]), 'and it occurs')


def uniform(env, n):
  """the random source decides between all permutations"""
  rp = _zk(env, 'random_permutation')
  p = rp(n)
  env.check(len(p) == n, 'length')
  env.check(env.all([env.any([x == i for x in p]) for i in range(n)]), 'a permutation')


def outcomes(env, run, limit, other=1):
  """the results of run() for every sequence of answers of the random source
  (answers from ranges of more than `limit` values are always `other`)"""
  out, todo = [], [[]]
  while todo:
    pre = todo.pop()
    sizes = []

    def draw(lo, hi):
      if hi - lo >= limit:
        return lo + other
      k = len(sizes)
      sizes.append(hi - lo + 1)
      return lo + (pre[k] if k < len(pre) else 0)

    env.draw = draw
    out.append(run())
    for k in range(len(pre), len(sizes)):
      todo.extend((pre + [0] * (k - len(pre)) + [v]) for v in range(1, sizes[k]))
  return out


def spread(env, n):
  rp = _zk(env, 'random_permutation')
  seen = outcomes(env, lambda: tuple(rp(n)), 100)
  perms = list(itertools.permutations(range(n)))
  env.check(all(seen.count(p) * len(perms) == len(seen) for p in perms), 'every permutation equally often')


def independent(env, what):
  """what is drawn in one round says nothing about the next one"""
  Prover, Verifier, sim = _zk(env, 'ZKProver', 'ZKVerifier', 'simulate_protocol')
  G = [(1, 2), (2, 3)]

  def run():
    if what == 'copy':
      p = Prover(G, G, [0, 1, 2])
      one = lambda: tuple(p.send_isomorphic_copy()[1])
    elif what == 'challenge':
      v = Verifier(G, G)
      one = v.choose_graph
    else:
      one = lambda: (lambda t: (t[1], tuple(t[0])))(sim(G, G))
    return one(), one()

  seen = outcomes(env, run, 100)
  env.check(all(seen.count((a, b)) * len(set(x for x, _ in seen)) * len(set(y for _, y in seen)) == len(seen) for a, _ in seen for _, b in seen),
            'every pair of results equally often')
  env.check(len(set(x for x, _ in seen)) == (6 if what == 'copy' else 2 if what == 'challenge' else 12), 'every result occurs')


def honest(env, n, m, G=None):
  """completeness, and a prover that shows renamed copies only"""
  Prover, Verifier = _zk(env, 'ZKProver', 'ZKVerifier')
  G1 = _given(G) if G else _graph(env, 'g', n, m)
  L = _perm(env, 'p', n)
  t = _table(env, [x + 1 for x in L])
  G2 = [(t(u), t(v)) for u, v in G1]
  env.assume(env.any([x == n for e in G2 for x in e]))   # the last vertex tells the size
  p, v = Prover(G1, G2, L), Verifier(G1, G2)
  iso, H = p.send_isomorphic_copy()
  s = _table(env, [x + 1 for x in iso])
  env.check(_same(env, H, [(s(a), s(b)) for a, b in G1]), 'a renamed copy of the first graph')
  c = v.choose_graph()
  env.check(env.any([c == 1, c == 2]), 'one of the two graphs')
  for k in (1, 2):
    w = p.prove_isomorphic_to(iso, k)
    env.check(v.accepts(w, k, H), 'graph %d: accepted' % k)
    G = (G1, G2)[k - 1]
    env.check(_same(env, [(w(a), w(b)) for a, b in H], G), 'graph %d: the witness maps the copy to it' % k)


def rounds(env, n, m, G=None):
  run, msgs, Verifier = _zk(env, 'run_protocol', 'messages_from_protocol', 'ZKVerifier')
  G1 = _given(G) if G else _graph(env, 'g', n, m)
  L = _perm(env, 'p', n)
  t = _table(env, [x + 1 for x in L])
  G2 = [(t(u), t(v)) for u, v in G1]
  env.assume(env.any([x == n for e in G2 for x in e]))   # the last vertex tells the size
  if env.bool('transcript'):
    H, c, w = msgs(G1, G2, L)
  else:
    env.check(run(G1, G2, L), 'a round with an isomorphism is accepted')
    return
  env.check(Verifier(G1, G2).accepts(w, c, H), 'the transcript is accepted')


def convince(env, n, m, k):
  """k rounds, each of which has to be accepted"""
  mod = env.mod('zero_knowledge')
  conv = env.get('zero_knowledge', 'convince_beyond_doubt')
  G = [(i, i + 1) for i in range(1, n)]
  seen = []
  real = env.get('zero_knowledge', 'run_protocol')

  def spy(*a, **kw):
    r = real(*a, **kw)
    seen.append(r)
    return r

  mod.run_protocol = spy
  tol = 1.5 / 2**k
  answers = [env.bool('a%d' % i) for i in range(k + 2)]
  try:
    if m:
      # rounds of arbitrary outcome
      mod.run_protocol = lambda *a, **kw: (seen.append(answers[len(seen)]), bool(answers[len(seen) - 1]))[1]
      bad = env.raises(lambda: conv(G, G, list(range(n)), error_tolerance=tol))
      if not bad:
        env.check(len(seen) >= k, 'rounds until the error is below the tolerance')
        env.check(env.all(seen), 'convinced only when every round is accepted')
      else:
        env.check(env.not_(env.all(seen)), 'a refusal has a rejected round')
    else:
      env.check(not env.raises(lambda: conv(G, G, list(range(n)), error_tolerance=tol)), 'an isomorphism convinces')
  finally:
    mod.run_protocol = real


def accepts(env, n, m, k, H=None):
  """accepted exactly when a one-to-one map takes the copy to the chosen graph"""
  Verifier = _zk(env, 'ZKVerifier')
  G1, G2 = _graph(env, 'a', n, m), _graph(env, 'b', n, m)
  H = _given(H) if H else _graph(env, 'h', n, m)
  T = env.ints('f', n, 1, n)
  f = _table(env, T)
  r = Verifier(G1, G2).accepts(f, k, H)
  G = (G1, G2)[k - 1]
  one = env.all([T[i] != T[j] for i in range(n) for j in range(i)])
  env.check(env.iff(r, env.all([one, _same(env, [(f(a), f(b)) for a, b in H], G)])), 'accepted exactly when one-to-one onto the chosen graph')


def extract(env, n, H):
  """a copy for which both answers are accepted gives an isomorphism"""
  Verifier = _zk(env, 'ZKVerifier')
  H = _given(H)
  m, N = len(H), max(x for e in H for x in e)
  G1, G2 = _graph(env, 'a', n, m), _graph(env, 'b', n, m)
  S, T = env.ints('s', N, 1, n), env.ints('t', N, 1, n)
  v = Verifier(G1, G2)
  if not v.accepts(_table(env, S), 1, H) or not v.accepts(_table(env, T), 2, H):
    env.check(True, 'both answers accepted: isomorphic graphs')   # not both
    return
  x = [a for e in G1 for a in e]
  y = [a for e in G2 for a in e]
  iso = env.all([env.iff(x[i] == x[j], y[i] == y[j]) for i in range(len(x)) for j in range(i)])
  env.check(iso, 'both answers accepted: isomorphic graphs')


def lengths(env, n, m, k, d):
  """a copy with edges left out or added is not accepted"""
  Verifier = _zk(env, 'ZKVerifier')
  G1, G2 = _graph(env, 'a', n, m), _graph(env, 'b', n, m)
  T = env.ints('f', n, 1, n)
  H = [(env.int('hu%d' % i, 1, n), env.int('hv%d' % i, 1, n)) for i in range(m + d)]
  env.check(env.not_(Verifier(G1, G2).accepts(_table(env, T), k, H)), 'a copy with edges added or left out is not accepted')


def sizes(env, n, m):
  """graphs of different size are refused"""
  Prover, Verifier = _zk(env, 'ZKProver', 'ZKVerifier')
  G1, G2 = _graph(env, 'a', n, m), _graph(env, 'b', n - 1, m)
  env.check(env.raises(lambda: Verifier(G1, G2)), 'verifier')
  env.check(env.raises(lambda: Prover(G1, G2, list(range(n)))), 'prover')


def simulate(env, n, m, A=None, B=None):
  """the simulator needs no isomorphism, and its transcripts are accepted"""
  sim, Verifier = _zk(env, 'simulate_protocol', 'ZKVerifier')
  G1 = _given(A) if A else _graph(env, 'a', n, m)
  G2 = _given(B) if B else _graph(env, 'b', n, m)
  H, c, w = sim(G1, G2)
  env.check(env.any([c == 1, c == 2]), 'one of the two graphs')
  env.check(Verifier(G1, G2).accepts(w, c, H), 'accepted')
  env.check(env.all([env.any([w(x) == v for x in range(1, n + 1)]) for v in range(1, n + 1)]), 'with a renaming of the vertices')


def CASES(tier):
  th = tier == 'thorough'
  cs = []

  def add(fn, w=1, **p):
    cs.append(Case(fn, p, weight=w, budget_s=60 if not th else 600, path_s=60))

  for n in (2, 3, 4) + ((5,) if th else ()):
    add('helpers', n=n)
  for n, m in ((3, 1), (9, 2), (9, 4), (30, 5)):
    add('counting', n=n, m=m)
  for n, k in ((5, 1), (6, 1), (8, 1)) + ((12, 1),) * th:
    add('inverses', n=n, swapped=k)
  for what in ('copy', 'challenge', 'simulated'):
    add('independent', what=what)
  for n in (1, 2, 3, 4):
    add('uniform', n=n)
    add('spread', n=n)
  for n, m in [(2, 1), (2, 2), (3, 2)] + ([(3, 3), (4, 2)] if th else []):
    add('honest', n=n, m=m, w=n)
    add('rounds', n=n, m=m)
    add('simulate', n=n, m=m, w=n)
    for k in (1, 2):
      add('accepts', n=n, m=m, k=k, w=n * m)
      add('lengths', n=n, m=m, k=k, d=-1)
      add('lengths', n=n, m=m, k=k, d=1) if n < 3 or th else None
    if n > 2:
      add('sizes', n=n, m=m)
  for n in (3, 4) + ((5,) if th else ()):
    for G in SHAPES[n]:
      add('honest', n=n, m=len(G), G=G, w=n)
      if n < 4 or th:
        add('rounds', n=n, m=len(G), G=G, w=n)
      add('simulate', n=n, m=len(G), A=G, B=SHAPES[n][0][:1] * (len(G) - len(SHAPES[n][0])) + SHAPES[n][0], w=n)
      for k in (1, 2):
        add('accepts', n=n, m=len(G), k=k, H=G)
  for n in (3, 4) + ((5,) if th else ()):
    for G in ISOLATED[n]:
      add('honest', n=n, m=len(G), G=G, w=n)
      add('rounds', n=n, m=len(G), G=G, w=n)
      add('simulate', n=n, m=len(G), A=G, B=G[::-1], w=n)
  for m in (1, 2):
    for H in _patterns(m):
      for n in range(2, 2 * m + 1):
        add('extract', n=n, H=H)
  for n in (3, 4):
    for H in SHAPES[n]:
      if 2 < len(H) < 4 or th and len(H) > 2:
        add('extract', n=n, H=H)
  for k in (1, 2, 3):
    add('convince', n=3, m=0, k=k) if k < 3 else None
    add('convince', n=3, m=1, k=k)
  return cs
