"""C12  proof compression."""
from engine.runner import Case
from harness.common import seq  # noqa

BOUNDS = {
    'quick': 'up to 3 branches of up to 3 entries (6 in all), FRI proofs of up to 3 layers with up to 2 queries of 2 branches and up to 5 '
             'final values (6 entries in all); entries of 32 (and 64) bytes with every content, so every pattern of repeated entries',
    'thorough': 'up to 7 entries in all'}
OUTSIDE = 'more than 65536 entries; entries of two or four bytes (the encoding reserves them)'
ASSUMPTIONS = []


class Pool:

  def __init__(self, env, size):
    self.env, self.size, self.n = env, size, 0

  def __call__(self, size=None):
    self.n += 1
    return self.env.bytes('x%d' % self.n, size or self.size)


def branches(env, shape, size):
  comp, dec, binlen = env.get('compression', 'compress_branches', 'decompress_branches', 'bin_length')
  new = Pool(env, size)
  prf = [[new() for _ in range(k)] for k in shape]
  c = comp([list(b) for b in prf])
  env.check(env.eq(dec(c), prf), 'round trip')
  n = 0
  for x in c:
    n = n + len(x) + (1 if len(x) == 32 else 0)
  env.check(binlen(c) == n, 'length')
  env.check(len(c) == sum(shape) + len(shape), 'one item per entry and branch')


def branches_twice(env, size):
  """a repeated entry is stored once"""
  comp, dec = env.get('compression', 'compress_branches', 'decompress_branches')
  x, y = env.bytes('x', size), env.bytes('y', size)
  c = comp([[x, y], [y, x]])
  env.check(env.eq(dec(c), [[x, y], [y, x]]), 'round trip')
  env.check(sum(1 for e in c if len(e) == size) <= 2, 'entries are stored once')


def fri(env, layers, queries, per, depth, final, size):
  comp, dec = env.get('compression', 'compress_fri', 'decompress_fri')
  new = Pool(env, size)
  prf = [[new(32), [[[new() for _ in range(depth)] for _ in range(per)] for _ in range(queries)]] for _ in range(layers)]
  prf.append([new() for _ in range(final)])
  copy = [[r, [[list(b) for b in y] for y in ys]] for r, ys in prf[:-1]] + [list(prf[-1])]
  c = comp(prf)
  out = dec(c)
  env.check(env.eq(out, copy), 'round trip')


def long(env, n, kind):
  """many entries, so that a repeated one lies far back"""
  comp, dec = env.get('compression', 'compress_' + kind, 'decompress_' + kind)
  pool = [b'%032d' % (7919 * i) for i in range(n)]
  x = pool[env.concrete(env.int('i', n - 8, n - 1))]
  y = env.bytes('y', 32)
  env.assume(y[:31] == pool[n - 2][:31])
  if kind == 'branches':
    prf = [pool[k:k + 10] for k in range(0, n, 10)] + [[x, y, x]]
    want = [list(b) for b in prf]
  else:
    prf = [[pool[0], [[pool[k:k + 10] for k in range(0, n, 10)] + [[x, y, x]]]], [y, x]]
    want = [[r, [[list(b) for b in q] for q in qs]] for r, qs in prf[:-1]] + [list(prf[-1])]
  env.check(env.eq(dec(comp(prf)), want), 'round trip')


def CASES(tier):
  t = tier == 'thorough'
  out = []
  for s in ([], [1], [2], [1, 1], [2, 1], [2, 2], [3, 1], [1, 2, 1], [0, 2, 0], [3, 3], [2, 2, 2]) + (([3, 2, 2], [2, 2, 1, 2], [1] * 7) if t else ()):
    out.append(Case('branches', {'shape': s, 'size': 32}, weight=sum(s)))
  out.append(Case('branches', {'shape': [2, 1], 'size': 64}))
  out.append(Case('branches', {'shape': [1, 1], 'size': 1}))
  out.append(Case('branches_twice', {'size': 32}))
  for l, q, per, d, f in ((0, 0, 0, 0, 1), (0, 0, 0, 0, 3), (1, 1, 1, 1, 1), (1, 1, 1, 2, 1), (1, 1, 2, 1, 1), (1, 2, 1, 1, 0),
                          (2, 1, 1, 1, 0), (2, 0, 0, 0, 2), (1, 2, 2, 1, 1), (1, 1, 2, 2, 1), (2, 1, 2, 1, 0),
                          (2, 1, 1, 1, 2), (3, 1, 1, 1, 0), (0, 0, 0, 0, 5)) + (((1, 2, 2, 1, 2), (2, 1, 2, 1, 1), (3, 1, 1, 1, 1)) if t else ()):
    out.append(Case('fri', {'layers': l, 'queries': q, 'per': per, 'depth': d, 'final': f, 'size': 32}, weight=l * q * per * d + f))
  for kind in ('branches', 'fri'):
    for n in (60, 270, 700) + ((3000, 40000) if t else ()):
      out.append(Case('long', {'n': n, 'kind': kind}, weight=n, path_s=60, budget_s=120 if n < 1000 else 600))
  return out
