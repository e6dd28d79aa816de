"""C10  Merkle commitments."""
from engine.runner import Case
from harness.common import seq  # noqa

BOUNDS = {
    'quick': 'trees of 4, 8 and 16 leaves, the heap, its branches and its root also for 12 and 20 (16: honest branches and binding at fixed positions), leaves of 32 bytes (4 leaves: also '
             '1, 20, 64 and 96), every leaf content, every index, every claimed branch of the right length, '
             'entries of the size of a leaf and of several others; altered branches and other positions also right after the honest branch was accepted',
    'thorough': 'trees of 4 to 64 leaves'}
OUTSIDE = 'branches of the wrong length, indices outside the tree, leaf counts that are not multiples of four; verifying branches of trees whose size is not a power of two (verify_branch is written for powers of two)'
ASSUMPTIONS = ['blake2s is an uninterpreted function without collisions; hash inputs of different length give different digests']


def _mt(env):
  return env.get('merkle_tree', 'merkelize', 'mk_branch', 'verify_branch')


def _log(n):
  return n.bit_length() - 1


def honest(env, n, size):
  mk, br, ver = _mt(env)
  leaves = [env.bytes('l%d' % i, size) for i in range(n)]
  tree = mk(list(leaves))
  env.check(len(tree) == 2 * n, 'size of the tree')
  i = env.int('i', 0, n - 1)
  b = br(tree, i)
  env.check(len(b) == _log(n) + 1, 'length of a branch')
  v = ver(tree[1], i, b)
  want = leaves[env.concrete(i)]
  env.check(v == want, 'the opened leaf is the committed one')
  env.check(ver(tree[1], i, b, output_as_int=True) == int.from_bytes(want, 'big'), 'and as a number, all of it')


def values(env, n, p):
  """ints and field elements are committed by their 32-byte encoding"""
  mk, br, ver = _mt(env)
  F = env.get('modp', 'IntegersModP')(p)
  a = env.ints('a', n, 0, p - 1)
  t1, t2 = mk(list(a)), mk([F(x) for x in a])
  env.check(t1[1] == t2[1], 'same root for ints and elements')
  i = env.int('i', 0, n - 1)
  b = br(t1, i)
  x = a[env.concrete(i)]
  env.check(ver(t1[1], i, b, output_as_int=True) == x, 'opened as an int')
  env.check(ver(t2[1], i, br(t2, i)) == F(x).to_bytes(), 'opened as bytes')


def binding(env, n, size, i):
  """an accepted branch opens to the committed leaf, whatever it contains"""
  mk, br, ver = _mt(env)
  leaves = [env.bytes('l%d' % k, size) for k in range(n)]
  tree = mk(list(leaves))
  if i is None:
    i = env.concrete(env.int('i', 0, n - 1))
  proof = [env.bytes('p0', size)] + [env.bytes('p%d' % k, size if k == 1 else 32) for k in range(1, _log(n) + 1)]
  try:
    v = ver(tree[1], i, list(proof))
  except AssertionError:
    return
  env.check(v == leaves[i], 'an accepted branch opens to the committed leaf')
  env.check(env.eq(proof, br(tree, i)), 'the only accepted branch is the honest one')


def sizes(env, n, size, first, second, deep=32):
  """the same for a branch that divides the two leaves, or anything else, at another place"""
  mk, br, ver = _mt(env)
  leaves = [env.bytes('l%d' % k, size) for k in range(n)]
  tree = mk(list(leaves))
  i = env.concrete(env.int('i', 0, n - 1))
  proof = [env.bytes('p0', first), env.bytes('p1', second)] + [env.bytes('p%d' % k, deep) for k in range(2, _log(n) + 1)]
  env.check(env.raises(lambda: ver(tree[1], i, list(proof))), 'entries of other sizes are refused')


def divided(env, n, size):
  """the honest branch, divided at another place"""
  mk, br, ver = _mt(env)
  leaves = [env.bytes('l%d' % k, size) for k in range(n)]
  tree = mk(list(leaves))
  i = env.concrete(env.int('i', 0, n - 1))
  cut = env.concrete(env.choice('cut', [0, 1, size - 1, size + 1, 2 * size - 1, 2 * size]))
  b = br(tree, i)
  # the leaf is the first of the two when the order of the leaves puts it at an even place
  if env.concrete(env.int('side', 0, 1)):
    pair = b[0] + b[1]
    b = [pair[:cut], pair[cut:]] + b[2:]
  else:
    pair = b[1] + b[0]
    b = [pair[cut:], pair[:cut]] + b[2:]
  env.check(env.raises(lambda: ver(tree[1], i, b)), 'no part of two leaves is opened as a leaf')


def tamper(env, n, after=False):
  """replacing one entry of an honest branch or the root is noticed"""
  mk, br, ver = _mt(env)
  leaves = [env.bytes('l%d' % k, 32) for k in range(n)]
  tree = mk(list(leaves))
  i = env.concrete(env.int('i', 0, n - 1))
  j = env.concrete(env.int('j', 0, _log(n) + 1))
  x = env.bytes('x', 32)
  b, root = list(br(tree, i)), tree[1]
  if after:
    ver(root, i, list(b))
  if j <= _log(n):
    env.assume(x != b[j])
    b[j] = x
  else:
    env.assume(x != root)
    root = x
  env.check(env.raises(lambda: ver(root, i, b)), 'tampering is noticed')


def flip(env, n, j, k):
  """changing one byte of an honest branch, or of the root, is noticed"""
  mk, br, ver = _mt(env)
  leaves = [env.bytes('l%d' % m, 32) for m in range(n)]
  tree = mk(list(leaves))
  i = env.concrete(env.int('i', 0, n - 1))
  d = env.int('d', 1, 255)
  b, root = list(br(tree, i)), tree[1]
  x = b[j] if j <= _log(n) else root
  y = x[:k] + bytes([(x[k] + d) % 256]) + x[k + 1:]
  if j <= _log(n):
    b[j] = y
  else:
    root = y
  env.check(env.raises(lambda: ver(root, i, b)), 'changing a byte is noticed')


def wrong_index(env, n, after=False):
  """a branch for one position does not open another one to a different leaf"""
  mk, br, ver = _mt(env)
  leaves = [env.bytes('l%d' % k, 32) for k in range(n)]
  tree = mk(list(leaves))
  i = env.concrete(env.int('i', 0, n - 1))
  j = env.concrete(env.int('j', 0, n - 1))
  env.assume(leaves[i] != leaves[j])
  b = br(tree, i)
  if after:
    ver(tree[1], i, b)
    ver(tree[1], j, br(tree, j))
  env.check(env.raises(lambda: ver(tree[1], j, b)), 'a branch does not fit another position')


def roots(env, n, size):
  """lists that differ have different roots"""
  mk = _mt(env)[0]
  a = [env.bytes('a%d' % k, size) for k in range(n)]
  b = [env.bytes('b%d' % k, size) for k in range(n)]
  env.check(env.iff(mk(list(a))[1] == mk(list(b))[1], env.eq(a, b)), 'equal roots iff equal lists')


def shape(env, n, size):
  """the heap of a list of any length that is a multiple of four, and the branches taken from it"""
  mk, br, _ = _mt(env)
  leaves = [env.bytes('l%d' % i, size) for i in range(n)]
  tree = mk(list(leaves))
  env.check(len(tree) == 2 * n, 'size of the tree')
  # the documented position: the list is taken a quarter down at a time
  q = n // 4
  env.check(env.all([tree[n + k // q + 4 * (k % q)] == leaves[k] for k in range(n)]), 'the last half holds the values')
  i = env.concrete(env.int('i', 0, n - 1))
  b = br(tree, i)
  env.check(b[0] == leaves[i], 'a branch starts with its leaf')
  k = n + i // q + 4 * (i % q)
  env.check(len(b) == k.bit_length(), 'length of a branch')
  blake = env.get('merkle_tree', 'blake')
  v = b[0]
  for s in b[1:]:
    v = blake(s + v) if k % 2 else blake(v + s)
    k //= 2
  env.check(v == tree[1], 'a branch leads to the root')


def permutation(env, n):
  perm, idx = env.get('merkle_tree', 'permute4', 'get_index_in_permuted')
  vals = env.ints('v', n, 0, 10**6)
  out = perm(list(vals))
  i = env.int('i', 0, n - 1)
  k = idx(i, n)
  env.check(len(out) == n, 'length kept')
  env.check(env.all([k >= 0, k < n]), 'position in range')
  env.check(out[k] == vals[i], 'the mapping follows the permutation')
  j = env.int('j', 0, n - 1)
  env.assume(i != j)
  env.check(idx(j, n) != k, 'the mapping is injective')


def CASES(tier):
  t = tier == 'thorough'
  out = []
  for n in (4, 8, 16) + ((32, 64) if t else ()):
    out.append(Case('honest', {'n': n, 'size': 32}, weight=n))
    out.append(Case('values', {'n': n, 'p': 31 if n > 4 else 2**256 - 2**32 * 351 + 1}, weight=n))
    out.append(Case('permutation', {'n': n}))
    if n <= (16 if t else 8):
      out.append(Case('binding', {'n': n, 'size': 32, 'i': None}, weight=3 * n))
      out.append(Case('tamper', {'n': n}, weight=2 * n))
      out.append(Case('wrong_index', {'n': n}, weight=2 * n))
      out.append(Case('roots', {'n': n, 'size': 32}, weight=n))
    else:
      for i in sorted({0, n // 2 + 1, n - 1}):
        out.append(Case('binding', {'n': n, 'size': 32, 'i': i}, weight=n))
  for n in (4, 8) if t else (4,):
    out.append(Case('tamper', {'n': n, 'after': True}, weight=2 * n, fresh=True))
    out.append(Case('wrong_index', {'n': n, 'after': True}, weight=2 * n, fresh=True))
  for n in (4, 8):
    for j in range(0, n.bit_length() + 1):
      for k in (0, 15, 31):
        out.append(Case('flip', {'n': n, 'j': j, 'k': k}))
  for n, s in ((4, 32), (8, 32), (4, 96)):
    out.append(Case('divided', {'n': n, 'size': s}))
    for a, b, d in [(0, 2 * s, 32), (s - 1, s + 1, 32), (s + 1, s - 1, 32), (2 * s, 0, 32), (s, s, 31)] + ([(s, s + 1, 32), (0, 0, 32), (s // 2, s // 2, 33)] if t else [(s, s + 1, 33)]):
      out.append(Case('sizes', {'n': n, 'size': s, 'first': a, 'second': b, 'deep': d}))
  for n in (4, 8, 12, 20) + ((28, 36, 44) if t else ()):
    out.append(Case('shape', {'n': n, 'size': 32}, weight=n))
    if n % 8:
      out.append(Case('permutation', {'n': n}))
      out.append(Case('roots', {'n': n, 'size': 32}, weight=n))
  for s in (1, 20, 64, 96):
    out.append(Case('honest', {'n': 4, 'size': s}))
    out.append(Case('binding', {'n': 4, 'size': s, 'i': None}))
    out.append(Case('roots', {'n': 4, 'size': s}))
  return out
