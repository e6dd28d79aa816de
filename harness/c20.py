"""C20  low-degree (FRI) proofs over a multiplicative subgroup."""
from engine.runner import Case
from harness.common import seq  # noqa
from .c18 import BIG

PRELOAD = ('sympy',)
BOUNDS = {
    'quick': 'Z/(2^256-2^32*351+1); direct proofs over 8, 16 and 32 points for every codeword (every value of every entry) with bound 1 to '
             '16; layered proofs over 128 points with bound 32 and 64: every polynomial with the listed exponents, a deviation of '
             'every nonzero size in one high coefficient, one committed value, one coefficient of a column, every value of one altered '
             'part; two rounds over 256 points with bound 128 for honest proofs; 3 to 6 queries, and 41; with and without excluded multiples; openings of parts of leaves; values made for a point, and columns made for places, that are known in advance; direct proofs of data that are equal at several points',
    'thorough': 'additionally 512 points (three layers), every high power, more oracle instances'}
OUTSIDE = 'larger domains; bounds above 16 that are not a multiple of four in every round (the bound is rounded down); deviations in several places at once in the layered case; the affine-space variant'
ASSUMPTIONS = ['the hash function is one fixed instance of a random oracle: digests of symbolic data are distinct constants, so the '
               'statement is decided for every input at the challenges these constants give',
               'data given by different canonical terms is hashed as different data']


def _setup(env, n):
  F = env.get('modp', 'IntegersModP')(BIG)
  g = F(7)**((BIG - 1) // n)
  return F, g, env.get('fri', 'SmoothSubgroupFRI')(F), env.get('polynomial', 'polynomials_over')(F)


def _accepts(fri, proof, root, g, maxdeg, excl, q):
  try:
    r = fri.verify_proximity_proof(proof, root, g, maxdeg, exclude_multiples_of=excl, fri_spot_check_security_factor=q)
  except Exception:
    return False
  return r is True


def _root(env, values):
  return env.get('merkle_tree', 'merkelize')(values)[1]


def _powers(F, g, n):
  xs = [F(1)]
  for _ in range(n - 1):
    xs.append(xs[-1] * g)
  return xs


def honest(env, n, maxdeg, exps, excl, q=4, salt=1):
  """a polynomial below the bound has an accepted proof"""
  env.fix_oracle(salt)
  F, g, fri, P = _setup(env, n)
  cs = [0] * (max(exps) + 1)
  for i, e in enumerate(exps):
    cs[e] = env.int('c%d' % i, 0, BIG - 1)
  f = P([F(c) for c in cs])
  xs = _powers(F, g, n)
  vals = []
  for i in range(n):
    s = F(0)
    for e in exps:
      s = s + F(cs[e]) * xs[e * i % n]
    vals.append(s)
  proof = fri.generate_proximity_proof(f, g, maxdeg, exclude_multiples_of=excl, fri_spot_check_security_factor=q)
  root = _root(env, vals)
  env.check(fri.verify_proximity_proof(proof, root, g, maxdeg, exclude_multiples_of=excl, fri_spot_check_security_factor=q) is True,
            'the honest proof is accepted')


def high(env, n, maxdeg, exps, k, excl, q=4, salt=1):
  """a polynomial above the bound has none"""
  env.fix_oracle(salt)
  F, g, fri, P = _setup(env, n)
  cs = [0] * (k + 1)
  for i, e in enumerate(exps):
    cs[e] = env.int('c%d' % i, 0, BIG - 1)
  d = env.int('d', 1, BIG - 1)
  cs[k] = d
  f = P([F(c) for c in cs])
  xs = _powers(F, g, n)
  vals = []
  for i in range(n):
    s = F(0)
    for e in sorted(set(list(exps) + [k])):
      s = s + F(cs[e]) * xs[e * i % n]
    vals.append(s)
  root = _root(env, vals)
  try:
    proof = fri.generate_proximity_proof(f, g, maxdeg, exclude_multiples_of=excl, fri_spot_check_security_factor=q)
  except Exception:
    return env.check(True, 'refused')
  env.check(not _accepts(fri, proof, root, g, maxdeg, excl, q), 'a polynomial of higher degree is rejected')


def _with_roots(n, places):
  """the coefficients of a polynomial with the value 5 at some of the powers"""
  g = pow(7, (BIG - 1) // n, BIG)
  cs = [1]
  for i in places:
    r = pow(g, i, BIG)
    cs = [((cs[k - 1] if k else 0) - r * (cs[k] if k < len(cs) else 0)) % BIG for k in range(len(cs) + 1)]
  cs[0] = (cs[0] + 5) % BIG
  return cs


def direct(env, n, maxdeg, excl, base, free):
  """accepted exactly when some polynomial below the bound passes through the points that count; the entries listed in
  `free` are arbitrary, the others are those of a fixed polynomial"""
  env.fix_oracle(1)
  F, g, fri, P = _setup(env, n)
  gi = pow(7, (BIG - 1) // n, BIG)
  xs = [pow(gi, i, BIG) for i in range(n)]
  v = [sum(c * pow(x, e, BIG) for e, c in enumerate(base)) % BIG for x in xs]
  for i in free:
    v[i] = env.int('v%d' % i, 0, BIG - 1)
  data = [F(x) for x in v]
  got = _accepts(fri, [[x.to_bytes() for x in data]], _root(env, data), g, maxdeg, excl, 4)
  pts = [i for i in range(n) if not excl or i % excl]
  left, right = pts[:maxdeg], pts[maxdeg:]
  conds = []
  for r in right:
    s = 0
    for a in left:
      num = den = 1
      for b in left:
        if a != b:
          num = num * (xs[r] - xs[b]) % BIG
          den = den * (xs[a] - xs[b]) % BIG
      s = s + v[a] * (num * pow(den, -1, BIG) % BIG)
    conds.append((s - v[r]) % BIG == 0)
  env.check(env.iff(got, env.all(conds)), 'accepted exactly when the values are of low degree')


def inner(env, n, maxdeg, excl, level):
  """the nodes of an inner level of the tree in place of the values"""
  env.fix_oracle(1)
  F, g, fri, P = _setup(env, n)
  d = env.int('d', 1, BIG - 1)
  xs = _powers(F, g, n)
  vals = [F(3) + x**(n - 2) * d for x in xs]
  m = env.get('merkle_tree', 'merkelize')(vals)
  nodes = list(m[level:2 * level])
  # undo the reordering of the leaves
  q = level // 4
  un = [None] * level
  for x in range(level):
    un[x] = nodes[x // q + 4 * (x % q)]
  env.check(not _accepts(fri, [un], m[1], g, maxdeg, excl, 4), 'inner nodes are not accepted as values')


def _layered(env, F, g, n, vals, q, excl, add=None, cut=False):
  """a one-round proof made by hand; `add` is added to the column"""
  merkelize, mk_branch = env.get('merkle_tree', 'merkelize', 'mk_branch')
  indices = env.get('utils', 'get_pseudorandom_indices')
  m = merkelize(vals)
  sx = F(m[1])
  xs = _powers(F, g, n)
  h = n // 4
  col = []
  qr = [xs[h * j] for j in range(4)]
  fourth = F(4)**(BIG - 2)
  for i in range(h):
    # coefficients in x/x_i of the cubic through the row
    inv = xs[(-i) % n] * sx
    r = [vals[i + h * j] for j in range(4)]
    s, t = F(0), F(1)
    for e in range(4):
      c = F(0)
      for j in range(4):
        c = c + r[j] * qr[(-e * j) % 4]
      s = s + c * fourth * t
      t = t * inv
    col.append(s if add is None else s + add[i])
  return m, mk_branch, indices, col


def column(env, n, maxdeg, exps, k, excl, q=4, salt=1):
  """a column that does not belong to the committed values"""
  env.fix_oracle(salt)
  F, g, fri, P = _setup(env, n)
  d = env.int('d', 1, BIG - 1)
  c = env.int('c', 0, BIG - 1)
  xs = _powers(F, g, n)
  vals = []
  for i in range(n):
    s = F(0)
    for e in exps:
      s = s + F(c + e) * xs[e * i % n]
    vals.append(s)
  add = [xs[4 * k * i % n] * d for i in range(n // 4)]
  merkelize = env.get('merkle_tree', 'merkelize')
  m, mk_branch, indices, col = _layered(env, F, g, n, vals, q, excl, add)
  m2 = merkelize(col)
  ys = indices(m2[1], n // 4, q, exclude_multiples_of=excl)
  br = [[mk_branch(m2, y)] + [mk_branch(m, y + n // 4 * j) for j in range(4)] for y in ys]
  proof = [[m2[1], br], [x.to_bytes() for x in col]]
  env.check(not _accepts(fri, proof, m[1], g, maxdeg, excl, q), 'a column of other values is rejected')


def byhand(env, n, maxdeg, exps, excl, q=4, salt=1):
  """a proof made by hand is accepted: the column is what the documentation says"""
  env.fix_oracle(salt)
  F, g, fri, P = _setup(env, n)
  c = env.int('c', 0, BIG - 1)
  xs = _powers(F, g, n)
  vals = []
  for i in range(n):
    s = F(0)
    for e in exps:
      s = s + F(c + e) * xs[e * i % n]
    vals.append(s)
  merkelize = env.get('merkle_tree', 'merkelize')
  m, mk_branch, indices, col = _layered(env, F, g, n, vals, q, excl)
  m2 = merkelize(col)
  ys = indices(m2[1], n // 4, q, exclude_multiples_of=excl)
  br = [[mk_branch(m2, y)] + [mk_branch(m, y + n // 4 * j) for j in range(4)] for y in ys]
  proof = [[m2[1], br], [x.to_bytes() for x in col]]
  env.check(_accepts(fri, proof, m[1], g, maxdeg, excl, q), 'accepted')


def short(env, n, maxdeg, excl, drop, q=4, salt=1):
  """branches that end in inner nodes"""
  env.fix_oracle(salt)
  F, g, fri, P = _setup(env, n)
  d = env.int('d', 1, BIG - 1)
  merkelize, mk_branch = env.get('merkle_tree', 'merkelize', 'mk_branch')
  indices = env.get('utils', 'get_pseudorandom_indices')
  h = n // 4
  # the four subtrees of the second level are equal, so all the values they stand for are equal
  block = [[F(5 + 3 * i + j) + F(d) for i in range(h // 4)] for j in range(4)]
  vals = [block[x // h][(x % h) % (h // 4)] for x in range(n)]
  m = merkelize(vals)
  node = m[4]
  col = [F(node)] * h
  m2 = merkelize(col)
  ys = indices(m2[1], h, q, exclude_multiples_of=excl)
  br = [[mk_branch(m2, y)] + [[node, m[5], m[2]]] * 4 for y in ys]
  proof = [[m2[1], br], [x.to_bytes() for x in col]]
  env.check(not _accepts(fri, proof, m[1], g, maxdeg, excl, q), 'short branches are rejected')


def part(env, n, maxdeg, excl, cut, q=4, salt=1):
  """branches that open a part of two neighbouring leaves: every value of any codeword would open as the same"""
  env.fix_oracle(salt)
  F, g, fri, P = _setup(env, n)
  d = env.int('d', 1, BIG - 1)
  merkelize, mk_branch, place = env.get('merkle_tree', 'merkelize', 'mk_branch', 'get_index_in_permuted')
  indices = env.get('utils', 'get_pseudorandom_indices')
  h = n // 4
  xs = _powers(F, g, n)
  vals = [x**(n - 3) * d + F(77) for x in xs]
  m = merkelize(vals)
  col = [F(0)] * h
  m2 = merkelize(col)
  ys = indices(m2[1], h, q, exclude_multiples_of=excl)

  def opening(i):
    b = mk_branch(m, i)
    if place(i, n) % 2 == 0:
      pair = b[0] + b[1]
      return [pair[:cut], pair[cut:]] + b[2:]
    pair = b[1] + b[0]
    return [pair[len(pair) - cut:], pair[:len(pair) - cut]] + b[2:]

  br = [[mk_branch(m2, y)] + [opening(y + h * j) for j in range(4)] for y in ys]
  env.check(not _accepts(fri, [[m2[1], br], [x.to_bytes() for x in col]], m[1], g, maxdeg, excl, q), 'parts of leaves are rejected')


def _open(env, m, m2, ys, h):
  mk_branch = env.get('merkle_tree', 'mk_branch')
  return [[mk_branch(m2, y)] + [mk_branch(m, y + h * j) for j in range(4)] for y in ys]


def point(env, n, maxdeg, excl, of, q=4, salt=1):
  """values whose rows all vanish at a point that is known before they are committed to: their column is zero"""
  env.fix_oracle(salt)
  F, g, fri, P = _setup(env, n)
  merkelize, indices = env.get('merkle_tree', 'merkelize'), env.get('utils', 'get_pseudorandom_indices')
  h = n // 4
  m2 = merkelize([F(0)] * h)
  root = {'column': m2[1], 'first': merkelize([F(9)] * n)[1], 'empty': bytes(32)}[of]
  sx = F(root)
  d = env.int('d', 1, BIG - 1)
  xs = _powers(F, g, n)
  vals = [(x - sx) * (F(d) * (1 + i % h)**2 + F(5)**(i % h)) for i, x in enumerate(xs)]
  m = merkelize(vals)
  ys = indices(m2[1], h, q, exclude_multiples_of=excl)
  proof = [[m2[1], _open(env, m, m2, ys, h)], [F(0).to_bytes()] * h]
  env.check(not _accepts(fri, proof, m[1], g, maxdeg, excl, q), 'values made for a point known in advance are rejected')


def places(env, n, maxdeg, excl, of, q=4, salt=1):
  """a column that fits the values in the places that are known before it is committed to"""
  env.fix_oracle(salt)
  F, g, fri, P = _setup(env, n)
  merkelize, indices = env.get('merkle_tree', 'merkelize'), env.get('utils', 'get_pseudorandom_indices')
  h = n // 4
  d = env.int('d', 1, BIG - 1)
  xs = _powers(F, g, n)
  vals = [x**(n - 3) * d + x * 7 for x in xs]
  m, mk_branch, _, col = _layered(env, F, g, n, vals, q, excl)
  root = {'values': m[1], 'first': merkelize([F(0)] * h)[1], 'honest': merkelize(col)[1], 'empty': bytes(32)}[of]
  ys = indices(root, h, q, exclude_multiples_of=excl)
  known = sorted(set(ys))
  x4 = [xs[4 * i] for i in range(h)]
  ws = {}
  for i in known:
    c = F(1)
    for k in known:
      if k != i:
        c = c * (x4[i] - x4[k])
    ws[i] = col[i] * c**(BIG - 2)
  fake = []
  for x in x4:
    s = F(0)
    for i in known:
      c = ws[i]
      for k in known:
        if k != i:
          c = c * (x - x4[k])
      s = s + c
    fake.append(s)
  m2 = merkelize(fake)
  proof = [[m2[1], _open(env, m, m2, ys, h)], [x.to_bytes() for x in fake]]
  env.check(not _accepts(fri, proof, m[1], g, maxdeg, excl, q), 'a column made for places known in advance is rejected')


def tamper(env, n, maxdeg, exps, excl, part, idx, q=4, salt=1):
  env.fix_oracle(salt)
  F, g, fri, P = _setup(env, n)
  cs = [0] * (max(exps) + 1)
  for i, e in enumerate(exps):
    cs[e] = 7 + 5 * i
  f = P([F(c) for c in cs])
  xs = _powers(F, g, n)
  vals = [sum((xs[e * i % n] * cs[e] for e in exps), F(0)) for i in range(n)]
  root = _root(env, vals)
  proof = fri.generate_proximity_proof(f, g, maxdeg, exclude_multiples_of=excl, fri_spot_check_security_factor=q)
  env.check(_accepts(fri, proof, root, g, maxdeg, excl, q), 'the honest proof is accepted')
  proof = [[p[0], [[list(b) for b in y] for y in p[1]]] for p in proof[:-1]] + [list(proof[-1])]
  old = {'root': lambda: root, 'layer': lambda: proof[0][0], 'value': lambda: proof[-1][idx[0]],
         'branch': lambda: proof[0][1][idx[0]][idx[1]][idx[2]]}[part]()
  new = env.bytes('new', len(old))
  env.assume(new != old)
  if part == 'root':
    root = new
  elif part == 'layer':
    proof[0][0] = new
  elif part == 'value':
    proof[-1][idx[0]] = new
  else:
    proof[0][1][idx[0]][idx[1]][idx[2]] = new
  env.check(not _accepts(fri, proof, root, g, maxdeg, excl, q), 'an altered proof is rejected')


def CASES(tier):
  th = tier == 'thorough'
  cs = []

  def add(fn, w=1, **p):
    cs.append(Case(fn, p, weight=w, budget_s=60 if not th else 400, path_s=40))

  for n, md, ex in ((8, 1, 0), (16, 4, 0), (32, 4, 8), (32, 8, 4), (16, 8, 0), (32, 16, 0)):
    add('honest', n=n, maxdeg=md, exps=list(range(md)) if md <= 4 or (th and md <= 8) else [0, 3, md - 2, md - 1] if md < 16 else [0, 3, md - 1], excl=ex)
    for k in sorted({md, md + 1, n // 2 + 1, n - 1}):
      if k >= md:
        add('high', n=n, maxdeg=md, exps=[md - 1], k=k, excl=ex)
  for n, md, ex, free in ((8, 4, 0, range(8)), (8, 1, 0, range(8)), (8, 2, 4, range(8)), (8, 3, 2, range(8)), (16, 4, 4, range(0, 16, 2)), (16, 8, 0, range(5)),
                          (32, 16, 8, (0, 1, 9, 17, 23, 31)), (32, 4, 8, (1, 2, 3, 4, 5, 30)), (32, 4, 8, (8, 16, 31)), (16, 15, 0, (3, 4, 15)), (8, 8, 0, range(8))):
    add('direct', n=n, maxdeg=md, excl=ex, base=[3, 1, 4, 1][:md], free=list(free) if md < 8 or th else list(free)[:5])
  for n, md, ex, roots, free in ((16, 8, 0, (0, 1, 2, 3), (0, 1, 4)), (32, 8, 0, (0, 1, 2, 3), (0, 2, 3)), (32, 8, 0, (4, 5, 6, 7), (4, 6)),
                                 (16, 5, 0, (1, 2, 3, 4), (1, 4, 9)), (32, 8, 4, (1, 2, 3, 5), (1, 3, 8)), (16, 4, 0, (0, 2), (0, 2, 1)),
                                 (32, 16, 0, (0, 1, 2, 3, 4, 5, 6, 7), (0, 7)), (32, 16, 0, (1, 3, 5, 7, 9, 11, 13, 15), (1, 15))):
    add('direct', n=n, maxdeg=md, excl=ex, base=_with_roots(n, roots), free=list(free))
  for n, lv in ((16, 4), (32, 4), (32, 8), (32, 16)):
    add('inner', n=n, maxdeg=4, excl=8, level=lv)
    add('inner', n=n, maxdeg=lv, excl=0, level=lv)
  L = [(128, 32, 8), (128, 64, 0), (64, 32, 4)] + ([(512, 128, 8)] if th else [])
  for n, md, ex in L:
    for salt in ((1, 2) if th else (1,)):
      add('honest', 3, n=n, maxdeg=md, exps=[0, 1, 7, md - 1] if th else [7, md - 1], excl=ex, salt=salt)
      add('honest', 3, n=n, maxdeg=md, exps=[4, md // 2 + 2], excl=ex, q=6, salt=salt)
      for k in range(md, n) if th and n < 200 else (md, md + 3, n - 9, n - 1):
        add('high', 3, n=n, maxdeg=md, exps=[0, 5] if th else [5], k=k, excl=ex, salt=salt)
      add('byhand', 3, n=n, maxdeg=md, exps=[0, 1, md - 1], excl=ex, salt=salt) if md // 4 <= 16 else None
      if md // 4 <= 16:
        for k in (0, 1, md // 4 - 1):
          add('column', 3, n=n, maxdeg=md, exps=[0, 2, md - 1], k=k, excl=ex, salt=salt)
      add('short', 2, n=n, maxdeg=md, excl=ex, drop=0, salt=salt) if md // 4 <= 16 else None
  for n, md, ex in ((128, 32, 8), (64, 32, 4)):
    for cut in (0, 1, 31) if n == 128 else (0,):
      add('part', 2, n=n, maxdeg=md, excl=ex, cut=cut)
  for n, md, ex in ((128, 32, 8), (64, 32, 0)):
    for of in ('column', 'first', 'empty'):
      add('point', 2, n=n, maxdeg=md, excl=ex, of=of)
    for of in ('values', 'first', 'honest', 'empty'):
      add('places', 2, n=n, maxdeg=md, excl=ex, of=of)
  for n, md, exps, ex, q in ((256, 128, [9, 127], 8, 4), (256, 128, [70], 8, 41), (128, 32, [3], 8, 41)):
    add('honest', 8, n=n, maxdeg=md, exps=exps, excl=ex, q=q)
  for part, idxs in (('root', [[0]]), ('layer', [[0]]), ('value', [[1], [3], [17]]),
                     ('branch', [[0, 0, 0], [0, 0, 3], [0, 1, 0], [0, 2, 1], [0, 4, 0], [3, 3, 6], [1, 4, 7], [2, 0, 5]])):
    for idx in idxs:
      add('tamper', 2, n=128, maxdeg=32, exps=[0, 3, 30], excl=8, part=part, idx=idx)
  for part, idxs in (('root', [[0]]), ('value', [[0], [1], [31]])):
    for idx in idxs:
      add('tamper', 2, n=32, maxdeg=8, exps=[0, 3, 7], excl=0, part=part, idx=idx)
  return cs
