"""C11  packing several evaluations into one Merkle leaf."""
from engine.runner import Case
from harness.common import seq  # noqa
from harness.common import sparse

BIG = 2**256 - 2**32 * 351 + 1
BOUNDS = {
    'quick': '4 and 8 leaves, 1 to 6 polynomials of dimension 1 to 3 (up to 6 values per leaf), every value of Z/31 and '
             'Z/(2^256-2^32*351+1), every opened index (forged openings of two values over 8 leaves: Z/31 only); with one or two unknown values also up to 128 leaves and 20 polynomials',
    'thorough': 'up to 16 leaves, up to 8 values per leaf'}
OUTSIDE = 'values whose encoding is not 32 bytes long'
ASSUMPTIONS = ['blake2s is an uninterpreted function without collisions']


def pack(env, p, n, k):
  """leaf i holds the encodings of the values at i, in order; an opening unpacks to exactly those"""
  F = env.get('modp', 'IntegersModP')(p)
  mpe, unpack, br, ver = env.get('merkle_tree', 'merkelize_polynomial_evaluations', 'unpack_merkle_leaf',
                                 'mk_branch', 'verify_branch')
  ev = [[F(v) for v in env.ints('v%d_' % j, n, 0, p - 1)] for j in range(k)]
  tree = mpe(1, ev)
  env.check(len(tree) == 2 * n, 'size of the tree')
  i = env.concrete(env.int('i', 0, n - 1))
  leaf = ver(tree[1], i, br(tree, i))
  out = unpack(leaf, 1, k)
  env.check(len(out) == k, 'one entry per polynomial')
  for j in range(k):
    env.check(out[j] == ev[j][i].to_bytes(), 'entry is the encoding of the value')
    env.check(F(out[j]) == ev[j][i], 'entry decodes to the value')


def large(env, p, n, k, free):
  """many polynomials and leaves, with few unknown values"""
  F = env.get('modp', 'IntegersModP')(p)
  mpe, unpack, br, ver = env.get('merkle_tree', 'merkelize_polynomial_evaluations', 'unpack_merkle_leaf', 'mk_branch', 'verify_branch')
  ev = [[F(v) for v in sparse(env, 'v%d_' % j, n, p, [free] if j in (0, k - 1) else [], j + 1)] for j in range(k)]
  tree = mpe(1, ev)
  env.check(len(tree) == 2 * n, 'size of the tree')
  for i in sorted({0, 1, free % n, n // 2, n - 1}):
    leaf = ver(tree[1], i, br(tree, i))
    out = unpack(leaf, 1, k)
    env.check(len(out) == k, 'one entry per polynomial')
    env.check(env.all([out[j] == ev[j][i].to_bytes() for j in range(k)]), 'entries are the encodings of the values')


def unpacking(env, dims, polys):
  unpack = env.get('merkle_tree', 'unpack_merkle_leaf')
  parts = [env.bytes('b%d' % i, 32) for i in range(dims * polys)]
  out = unpack(b''.join(parts), dims, polys)
  env.check(env.all([len(out) == len(parts)] + [x == y for x, y in zip(out, parts)]), 'entries in order')


def binding(env, p, n, k):
  """whatever a packed opening contains, it decodes to the committed values"""
  F = env.get('modp', 'IntegersModP')(p)
  mpe, unpack, ver = env.get('merkle_tree', 'merkelize_polynomial_evaluations', 'unpack_merkle_leaf', 'verify_branch')
  ev = [[F(v) for v in env.ints('v%d_' % j, n, 0, p - 1)] for j in range(k)]
  tree = mpe(1, ev)
  i = env.concrete(env.int('i', 0, n - 1))
  proof = [env.bytes('p0', 32 * k), env.bytes('p1', 32 * k)] + [env.bytes('p%d' % j, 32) for j in range(2, n.bit_length())]
  try:
    leaf = ver(tree[1], i, proof)
  except AssertionError:
    return
  out = unpack(leaf, 1, k)
  for j in range(k):
    env.check(F(out[j]) == ev[j][i], 'an accepted opening decodes to the committed value')


def distinct(env, p, n, k):
  """different evaluations have different roots"""
  F = env.get('modp', 'IntegersModP')(p)
  mpe = env.get('merkle_tree', 'merkelize_polynomial_evaluations')
  a = [[F(v) for v in env.ints('a%d_' % j, n, 0, p - 1)] for j in range(k)]
  b = [[F(v) for v in env.ints('b%d_' % j, n, 0, p - 1)] for j in range(k)]
  env.check(env.iff(mpe(1, a)[1] == mpe(1, b)[1], env.eq(a, b)), 'equal roots iff equal evaluations')


def CASES(tier):
  t = tier == 'thorough'
  out = []
  for p in (31, BIG):
    for n, k in ((4, 1), (4, 3), (4, 6), (8, 2)) + (((16, 2), (8, 8)) if t else ()):
      out.append(Case('pack', {'p': p, 'n': n, 'k': k}, weight=n * k))
    for n, k in ((4, 1), (4, 2), (8, 2)) + (((4, 4),) if t else ()):
      if t or n * k < 16 or p == 31:
        out.append(Case('binding', {'p': p, 'n': n, 'k': k}, weight=n * k, budget_s=120))
    out.append(Case('distinct', {'p': p, 'n': 4, 'k': 2}))
  for d in (1, 2, 3):
    for k in (1, 2, 3) + ((8,) if t else ()):
      out.append(Case('unpacking', {'dims': d, 'polys': k}))
  for n, k, free in ((16, 8, 5), (32, 3, 31), (64, 2, 40), (4, 20, 3), (128, 4, 100)):
    out.append(Case('large', {'p': BIG, 'n': n, 'k': k, 'free': free}, weight=3))
  return out
