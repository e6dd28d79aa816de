"""C24  the zero-knowledge protocol for 3-colouring."""
from engine.runner import Case
from harness.common import seq  # noqa
from harness.c23 import outcomes

BOUNDS = {
    'quick': 'graphs of 2 to 4 vertices (edge, path, triangle, square, star, complete graph, doubled and reversed edges), every colouring, every '
             'permutation of colours, every edge asked for, every commitment and every opening presented; two rounds of one prover or verifier; a shift modulo 256 as the one-way permutation',
    'thorough': 'up to 6 vertices, squaring modulo 77 as well'}
OUTSIDE = 'larger graphs; the hiding of the commitments (a computational assumption)'
ASSUMPTIONS = ['the random source returns any value of the range asked for', 'the one-way permutation is a given injective function']

EDGE, PATH, TRI = [[1, 2]], [[1, 2], [2, 3]], [[1, 2], [2, 3], [1, 3]]
SQUARE, STAR = [[1, 2], [2, 3], [3, 4], [4, 1]], [[2, 1], [3, 1], [4, 1]]
K4 = [[1, 2], [1, 3], [1, 4], [2, 3], [2, 4], [3, 4]]
DOUBLE = [[2, 1], [1, 2], [3, 2]]
README = [[1, 2], [1, 4], [1, 3], [2, 5], [2, 5], [3, 6], [5, 6]]


def _module(env):
  """the module draws a 512-bit one-way permutation when it is loaded: a small one will do"""
  bbs = env.mod('blum_blum_shub')
  real = bbs.blum_blum_shub
  bbs.blum_blum_shub = lambda *a, **k: (lambda x: (x + 77) % 256)
  try:
    return env.mod('zkp_3_coloring')
  finally:
    bbs.blum_blum_shub = real


def _maps(env, kind):
  if kind == 'shift':
    b = env.int('shift', 0, 255)
    return (lambda x: (x + b) % 256), (lambda x: x % 2), 255
  return (lambda x: (x * x) % 77), (lambda x: x % 2), 76


def _classes(env, *names):
  m = _module(env)
  return [env.attr(m, n) for n in names]


def _graph(G):
  return [tuple(e) for e in G]


def _n(G):
  return max(v for e in G for v in e)


def _bits(env, sec, com, h):
  """the number the definition of the commitment gives to an opening"""
  n = 0
  for s, c in zip(sec, com):
    n = 2 * n + (c[1] + h(s)) % 2
  return n


def honest(env, G, kind):
  """every edge of a properly coloured graph is accepted"""
  Prover, Verifier = _classes(env, 'ZK3ColProver', 'ZK3ColVerifier')
  f, h, _ = _maps(env, kind)
  g = _graph(G)
  col = {v: env.int('c%d' % v, 0, 2) for v in range(1, _n(G) + 1)}
  for u, v in g:
    env.assume(col[u] != col[v])
  p, v = Prover(g, col, f, h), Verifier(g, f, h)
  com = p.commit_to_coloring()
  env.check(sorted(com) == list(range(1, _n(G) + 1)), 'a commitment for every vertex')
  e = v.choose_edge(com)
  env.check(env.any([env.any([env.all([e[0] == a, e[1] == b]), env.all([e[0] == b, e[1] == a])]) for a, b in g]), 'an edge')
  o = p.reveal_colors(*e)
  env.check(len(o) == 2, 'two openings')
  env.check(v.accepts(o), 'accepted')
  o2 = p.reveal_colors(e[1], e[0])
  env.check(env.any([env.eq(list(o), list(o2)), env.eq(list(o), list(o2)[::-1])]), 'the same for the edge reversed')
  env.check(v.accepts(p.reveal_colors(*e)), 'and again')


def opened(env, G, kind):
  """the openings shown are those of the edge, and of nothing else"""
  Prover, Verifier = _classes(env, 'ZK3ColProver', 'ZK3ColVerifier')
  f, h, _ = _maps(env, kind)
  g = _graph(G)
  n = _n(G)
  col = {v: env.int('c%d' % v, 0, 2) for v in range(1, n + 1)}
  p = Prover(g, col, f, h)
  com = p.commit_to_coloring()
  perm = {}
  u, v = env.choice('u', range(1, n + 1)), env.choice('v', range(1, n + 1))
  if (u, v) not in g and (v, u) not in g:
    env.check(env.raises(lambda: p.reveal_colors(u, v)), 'only edges are opened')
    return
  o = p.reveal_colors(u, v)
  a, b = min(u, v), max(u, v)
  env.check(len(o) == 2, 'two openings')
  for w, s in zip((a, b), o):
    env.check(env.all([f(x) == c[0] for x, c in zip(s, com[w])]), 'they open the commitments of its ends')
    perm[w] = _bits(env, s, com[w], h)
  env.check(env.iff(perm[a] == perm[b], col[u] == col[v]), 'equal colours exactly when the colouring has them equal')
  env.check(env.all([env.all([x >= 0, x <= 2]) for x in perm.values()]), 'colours 0, 1 and 2')


def spread(env, kind):
  """the pair of colours shown is every pair of different colours equally often"""
  Prover, = _classes(env, 'ZK3ColProver')
  f, h, _ = _maps(env, kind)
  c = {1: env.int('c1', 0, 2), 2: env.int('c2', 0, 2)}
  env.assume(c[1] != c[2])

  def run():
    p = Prover([(1, 2)], c, f, h)
    com = p.commit_to_coloring()
    o = p.reveal_colors(1, 2)
    return 3 * _bits(env, o[0], com[1], h) + _bits(env, o[1], com[2], h)

  seen = outcomes(env, run, 7)
  for t in (1, 2, 3, 5, 6, 7):
    env.check(sum(env.ite(s == t, 1, 0) for s in seen) * 6 == len(seen), 'each of the six pairs equally often')


def independent(env, what, kind):
  """two rounds: every pair of results equally often"""
  Prover, Verifier = _classes(env, 'ZK3ColProver', 'ZK3ColVerifier')
  f, h, _ = _maps(env, kind)
  c = {1: env.int('c1', 0, 2), 2: env.int('c2', 0, 2)}
  env.assume(c[1] != c[2])

  def run():
    if what == 'edge':
      v = Verifier([(1, 2), (2, 3), (3, 1)], f, h)
      edges = [v.choose_edge({}) for _ in range(2)]
      return 7 * sum(edges[0]) + sum(edges[1])
    p = Prover([(1, 2)], c, f, h)
    r = 0
    for _ in range(2):
      com = p.commit_to_coloring()
      o = p.reveal_colors(1, 2)
      r = 9 * r + 3 * _bits(env, o[0], com[1], h) + _bits(env, o[1], com[2], h)
    return r

  seen = outcomes(env, run, 7)
  base, pairs = (7, (3, 4, 5)) if what == 'edge' else (9, (1, 2, 3, 5, 6, 7))
  for s in pairs:
    for t in pairs:
      env.check(sum(env.ite(x == base * s + t, 1, 0) for x in seen) * len(pairs)**2 == len(seen), 'each pair of results equally often')


def fresh(env, kind):
  """a second commitment does not reuse openings"""
  Prover, = _classes(env, 'ZK3ColProver')
  f, h, _ = _maps(env, kind)
  count = [0]

  def draw(lo, hi):
    count[0] += 1 if hi - lo > 5 else 0
    return lo + (count[0] if hi - lo > 5 else 0)

  env.draw = draw
  p = Prover([(1, 2)], {1: 0, 2: 1}, f, h)
  a = p.commit_to_coloring()
  o = p.reveal_colors(1, 2)
  b = p.commit_to_coloring()
  q = p.reveal_colors(1, 2)
  env.check(count[0] >= 8, 'a random secret for every bit of every commitment')
  env.check(env.all([x != y for s, t in zip(o, q) for x, y in zip(s, t)]), 'fresh secrets')
  env.check(env.all([f(x) == c[0] for s, w in zip(q, (1, 2)) for x, c in zip(s, b[w])]), 'the new openings open the new commitments')


def sound(env, given, edge, kind):
  """an answer is accepted exactly when it opens both ends to different colours"""
  Verifier, = _classes(env, 'ZK3ColVerifier')
  f, h, top = _maps(env, kind)
  v = Verifier([tuple(edge)], f, h)
  com = {w: [(env.int('y%d%d' % (w, i), 0, top), env.int('b%d%d' % (w, i), 0, 1)) for i in range(2)] for w in (1, 2)}
  e = v.choose_edge(com)
  env.check(env.eq(sorted(e), [1, 2]), 'the edge')
  sec = [[env.int('s%d%d' % (w, i), 0, top) for i in range(k)] for w, k in enumerate(given)]
  try:
    r = v.accepts(tuple(sec))
  except Exception:
    r = False
  if given != [2, 2]:
    env.check(env.not_(r), 'missing or additional openings are not accepted')
    return
  ends = [com[e[0]], com[e[1]]]
  col = [_bits(env, s, c, h) for s, c in zip(sec, ends)]
  ok = env.all([f(x) == c[0] for s, cs in zip(sec, ends) for x, c in zip(s, cs)] + [col[0] != col[1], col[0] < 3, col[1] < 3])
  env.check(env.iff(r, ok), 'accepted exactly when it opens both ends to different colours')


def uncolourable(env, G, kind):
  """without a colouring some edge is refused, whatever is committed"""
  Verifier, = _classes(env, 'ZK3ColVerifier')
  f, h, top = _maps(env, kind)
  g = _graph(G)
  v = Verifier(g, f, h)
  # the bits a commitment can be opened to are its own: an honest commitment to any number of two bits
  sec = {w: env.ints('s%d_' % w, 2, 0, top) for w in range(1, _n(G) + 1)}
  num = {w: env.int('n%d' % w, 0, 3) for w in sec}
  com = {w: [(f(s), (h(s) + num[w] // (2 - i)) % 2) for i, s in enumerate(sec[w])] for w in sec}
  for e in g:
    env.draw = lambda lo, hi: g.index(e)
    v.choose_edge(com)
    v.chosen_edge = tuple(sorted(e))
    a, b = sorted(e)
    if not v.accepts((sec[a], sec[b])):
      env.check(True, 'some edge is refused')
      return
  env.check(False, 'some edge is refused')


def protocol(env, G, proper):
  """one round of the protocol"""
  m = _module(env)
  run = env.attr(m, 'run_protocol')
  bbs = env.mod('blum_blum_shub')
  real, par = bbs.blum_blum_shub, bbs.parity
  bbs.blum_blum_shub = lambda *a, **k: (lambda x: (x + 77) % 256)
  bbs.parity = lambda x: x % 2
  g = _graph(G)
  col = {v: env.int('c%d' % v, 0, 2) for v in range(1, _n(G) + 1)}
  if proper:
    for u, v in g:
      env.assume(col[u] != col[v])
  picked = []
  draw = env.draw

  def spy(lo, hi):
    r = env.concrete(draw(lo, hi)) if hi - lo == len(g) - 1 and hi - lo != 2 and hi - lo != 1 else draw(lo, hi)
    if hi - lo == len(g) - 1:
      picked.append(r)
    return r

  env.draw = spy
  try:
    r = run(g, col)
  finally:
    bbs.blum_blum_shub, bbs.parity = real, par
  if proper:
    env.check(r, 'accepted')
  else:
    u, v = g[picked[-1]]
    env.check(env.iff(r, col[u] != col[v]), 'accepted exactly when the ends of the edge drawn differ')


def CASES(tier):
  th = tier == 'thorough'
  cs = []

  def add(fn, w=1, **p):
    cs.append(Case(fn, p, weight=w, budget_s=60 if not th else 600, path_s=60))

  for kind in ('shift',) + ((77,) if th else ()):
    for G in (EDGE, PATH, TRI, SQUARE, STAR, DOUBLE) + ((README,) if th else ()):
      add('honest', G=G, kind=kind, w=len(G))
      if len(G) < 6:
        add('opened', G=G, kind=kind, w=len(G))
    add('spread', kind=kind)
    for what in ('edge', 'colours'):
      add('independent', what=what, kind=kind)
    add('fresh', kind=kind)
    for edge in ([1, 2], [2, 1]):
      for given in ([2, 2], [1, 2], [2, 1], [0, 0], [2], [], [2, 2, 2], [3, 3], [2, 3]):
        add('sound', given=given, edge=edge, kind=kind)
  add('uncolourable', G=K4, kind='shift', w=5)
  for G in (SQUARE, K4[:5]):
    add('protocol', G=G, proper=True, w=3)
    add('protocol', G=G, proper=False, w=3)
  return cs
