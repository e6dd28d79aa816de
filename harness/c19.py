"""C19  STARK proofs of false statements, and altered proofs, are rejected."""
from engine.runner import Case
from harness.common import seq  # noqa
from .c18 import BIG, STEPS, instance, statement

PRELOAD = ('sympy',)
BOUNDS = {
    'quick': 'Z/(2^256-2^32*351+1), computations of 4 and 8 steps, width 1 and 2, extension factor 4 and 8, linear and quadratic steps, 4 to 8 '
             'spot checks; every input; a deviation of every nonzero size in one entry of the witness, in the claimed input '
             'or output, in one coefficient of the computation, in one coefficient of the trace, quotient, boundary or combined '
             'column (the other columns then chosen pointwise to fit); deviations of two registers that sum to zero; boundary columns that bind one end only; every value of one altered part of a proof; '
             'openings at several depths of one tree; columns made for weights, and combinations made for positions, that are known in advance',
    'thorough': 'additionally every row and every power, three oracle instances, 16 steps'}
OUTSIDE = 'deviations in several places at once other than these; longer computations; binary fields; deviations that the sampled positions miss by chance'
ASSUMPTIONS = ['the hash function is one fixed instance of a random oracle: digests of symbolic data are distinct constants, so the '
               'statement is decided for every input at the challenges these constants give',
               'data given by different canonical terms is hashed as different data']


def _rejects(env, S, proof, wit, boundary):
  try:
    r = S.verify_proof(proof, wit, boundary)
  except Exception:
    return True
  return r is not True


def _refused(env, S, wit, boundary):
  """no proof, or a proof that is rejected"""
  try:
    proof = S.mk_proof(wit, boundary)
  except Exception:
    return True
  return _rejects(env, S, proof, wit, boundary)


def _copy(wit):
  return [list(r) for r in wit]


def witness(env, w, steps, ext, polys, spots, row, reg, salt=1, free=9):
  """one entry of the execution trace is wrong"""
  env.fix_oracle(salt)
  F, sp, S = instance(env, w, steps, ext, polys, spots)
  wit, boundary = statement(env, F, sp, w, steps, free)
  d = env.int('d', 1, BIG - 1)
  bad = _copy(wit)
  bad[reg][row] = bad[reg][row] + F(d)
  env.check(_refused(env, S, bad, boundary), 'a wrong trace has no accepted proof')


def claim(env, w, steps, ext, polys, spots, side, reg, salt=1, free=9):
  """an honest proof shown for another input or output"""
  env.fix_oracle(salt)
  F, sp, S = instance(env, w, steps, ext, polys, spots)
  wit, boundary = statement(env, F, sp, w, steps, free)
  proof = S.mk_proof(wit, boundary)
  d = env.int('d', 1, BIG - 1)
  wit2, b2 = _copy(wit), list(boundary)
  if side == 'in':
    b2[reg] = (0, reg, boundary[reg][2] + F(d))
  else:
    wit2[reg][-1] = wit2[reg][-1] + F(d)
  env.check(_rejects(env, S, proof, wit2, b2), 'the proof of one statement is no proof of another')


def program(env, w, steps, ext, polys, spots, dim, mono, salt=1, free=9):
  """an honest proof shown for another computation"""
  env.fix_oracle(salt)
  F, sp, S = instance(env, w, steps, ext, polys, spots)
  wit, boundary = statement(env, F, sp, w, steps, free)
  proof = S.mk_proof(wit, boundary)
  d = env.int('d', 1, BIG - 1)
  M = env.get('multivariate_polynomial', 'multivariates_over')(F, w)
  c = dict(STEPS[polys][dim])
  c[tuple(mono)] = c.get(tuple(mono), 0) + d
  env.assume(c[tuple(mono)] % BIG != 0)
  sp2 = list(sp)
  sp2[dim] = M({k: F(v) for k, v in c.items()})
  S2 = env.get('stark', 'STARK')(F, steps, ext, w, sp2, spots)
  env.check(_rejects(env, S2, proof, wit, boundary), 'the proof for one computation is no proof for another')


def claims(env, w, steps, ext, polys, spots, side, regs, salt=1, free=1):
  """an honest proof shown for outputs (inputs) of which several are wrong, the deviations summing to zero"""
  env.fix_oracle(salt)
  F, sp, S = instance(env, w, steps, ext, polys, spots)
  wit, boundary = statement(env, F, sp, w, steps, free)
  proof = S.mk_proof(wit, boundary)
  d = env.int('d', 1, BIG - 1)
  wit2, b2 = _copy(wit), list(boundary)
  for reg, dev in zip(regs, (d, -d)):
    if side == 'in':
      b2[reg] = (0, reg, boundary[reg][2] + F(dev))
    else:
      wit2[reg][-1] = wit2[reg][-1] + F(dev)
  env.check(_rejects(env, S, proof, wit2, b2), 'the proof of one statement is no proof of another')


def programs(env, w, steps, ext, polys, spots, regs, mono, salt=1, free=1):
  """an honest proof of a computation whose steps differ in two registers, the differences summing to zero"""
  env.fix_oracle(salt)
  F, sp, S = instance(env, w, steps, ext, polys, spots)
  d = env.int('d', 1, BIG - 1)
  M = env.get('multivariate_polynomial', 'multivariates_over')(F, w)
  sp2 = list(sp)
  for reg, dev in zip(regs, (d, -d)):
    c = dict(STEPS[polys][reg])
    c[tuple(mono)] = c.get(tuple(mono), 0) + dev
    env.assume(c[tuple(mono)] % BIG != 0)
    sp2[reg] = M({k: F(v) for k, v in c.items()})
  wit, boundary = statement(env, F, sp2, w, steps, free)
  S2 = env.get('stark', 'STARK')(F, steps, ext, w, sp2, spots)
  proof = S2.mk_proof(wit, boundary)
  env.check(_rejects(env, S, proof, wit, boundary), 'the proof for one computation is no proof for another')


# -- a prover that does not follow the protocol
def _eval(cs, x):
  r = cs[-1]
  for c in reversed(cs[:-1]):
    r = r * x + c
  return r


def _forge(env, F, S, cols, shift=None, fri=None):
  """a proof whose columns are the given ones; `shift` is added to the combination"""
  mk = env.get('merkle_tree', 'merkelize_polynomial_evaluations')
  merkelize, mk_branch = env.get('merkle_tree', 'merkelize', 'mk_branch')
  get_ks = env.get('stark', 'get_pseudorandom_ks')
  indices = env.get('utils', 'get_pseudorandom_indices')
  w, n, ext = S.width, S.precision, S.extension_factor
  P, D, B = cols
  m = mk(w, P + D + B)
  k1, k2, k3, k4 = get_ks(m[1], 4)
  lk = get_ks(m[1], w)
  f = (S.G2**S.steps)**(n - 1)
  L = []
  for i in range(n):
    s = F(0)
    for j in range(w):
      t = D[j][i] + P[j][i] * k1 + P[j][i] * k2 * f + B[j][i] * k3 + B[j][i] * k4 * f
      s = s + t + t * lk[j] * f
    L.append(s if shift is None else s + shift[i])
  lm = merkelize(L)
  br = []
  for pos in indices(lm[1], n, S.spot_check_security_factor, exclude_multiples_of=ext):
    br += [mk_branch(m, pos), mk_branch(m, (pos + ext) % n), mk_branch(lm, pos)]
  vals = [x.to_bytes() for x in L]
  return [m[1], lm[1], br, [fri(vals) if fri else vals]]


def cheat(env, w, steps, ext, polys, spots, what, reg, k, salt=1, free=9):
  """columns that do not come from an execution of the computation"""
  env.fix_oracle(salt)
  F, sp, S = instance(env, w, steps, ext, polys, spots)
  wit, boundary = statement(env, F, sp, w, steps, free)
  d = env.int('d', 1, BIG - 1)
  n = steps * ext
  g = F(7)**((BIG - 1) // n)
  xs = [F(1)]
  for _ in range(n - 1):
    xs.append(xs[-1] * g)
  G = xs[ext]
  last = xs[(steps - 1) * ext]
  fin = pow(steps, -1, BIG)
  mono = [x**k * d for x in xs]
  P = []
  for j in range(w):
    cs = []
    for e in range(steps):
      s = F(0)
      for i in range(steps):
        s = s + wit[j][i] * xs[(-e * i * ext) % n]
      cs.append(s * fin)
    P.append([_eval(cs, x) for x in xs])
  if what in ('trace', 'quotient'):
    if what == 'trace':
      P[reg] = [a + b for a, b in zip(P[reg], mono)]
  out = [r[-1] for r in wit]
  inp = [b[2] for b in boundary]
  if what == 'input':
    inp[reg] = inp[reg] + F(d)
  if what in ('output', 'start-only'):
    out[reg] = out[reg] + F(d)
  if what == 'end-only':
    inp[reg] = inp[reg] + F(d)
  D, B = [], []
  li = (last - F(1))**(BIG - 2)
  for j in range(w):
    dc, bc = [], []
    for i, x in enumerate(xs):
      zn, zd = x**steps - F(1), x - last
      if int(zn) == 0:
        dc.append(F(0))
      else:
        z = zd * zn**(BIG - 2)
        dc.append((P[j][(i + ext) % n] - sp[j]([P[l][i] for l in range(w)])) * z)
      # at one end only, the claim may differ from the trace
      z2 = (x - F(1)) if what == 'start-only' else (x - last) if what == 'end-only' else (x - F(1)) * (x - last)
      ip = inp[j] + (out[j] - inp[j]) * (x - F(1)) * li
      bc.append(F(0) if int(z2) == 0 else (P[j][i] - ip) * z2**(BIG - 2))
    D.append(dc)
    B.append(bc)
  if what == 'quotient':
    D[reg] = [a + b for a, b in zip(D[reg], mono)]
  if what == 'boundary':
    B[reg] = [a + b for a, b in zip(B[reg], mono)]
  proof = _forge(env, F, S, (P, D, B), shift=mono if what == 'combination' else None)
  wit2 = _copy(wit)
  b2 = list(boundary)
  wit2[reg][-1] = out[reg]
  b2[reg] = (0, reg, inp[reg])
  env.check(_rejects(env, S, proof, wit2, b2), 'columns of no execution are rejected')


def levels(env, w, steps, ext, polys, spots, extra=0, salt=1):
  """a tree whose places at different depths hold different values: the next states are opened `deeper`"""
  env.fix_oracle(salt)
  F, sp, S = instance(env, w, steps, ext, polys, spots)
  wit, boundary = statement(env, F, sp, w, steps, 0)
  merkelize, mk_branch = env.get('merkle_tree', 'merkelize', 'mk_branch')
  get_ks = env.get('stark', 'get_pseudorandom_ks')
  indices = env.get('utils', 'get_pseudorandom_indices')
  n = steps * ext
  g = F(7)**((BIG - 1) // n)
  xs = [F(1)]
  for _ in range(n - 1):
    xs.append(xs[-1] * g)
  last = xs[(steps - 1) * ext]
  # the line through the input and a wrong output, followed by nothing
  d = env.int('d', 1, BIG - 1)
  bad = _copy(wit)
  bad[0][-1] = bad[0][-1] + F(d)
  li = (last - F(1))**(BIG - 2)
  P = [[r[0] + (r[-1] - r[0]) * (x - F(1)) * li for x in xs] for r in bad]
  zero = F(0).to_bytes()
  main = [b''.join([P[j][i].to_bytes() for j in range(w)] + [zero] * (2 * w)) for i in range(n)]
  nxt = [b''.join([sp[j]([P[l][(i - ext) % n] for l in range(w)]).to_bytes() for j in range(w)] + [zero] * (2 * w)) for i in range(n)]
  sub = merkelize(nxt + [zero * (3 * w)] * (3 * n))
  main[0] = sub[1]
  m = merkelize(main)
  k1, k2, k3, k4 = get_ks(m[1], 4)
  lk = get_ks(m[1], w)
  f = (g**steps)**(n - 1)
  L = []
  for i in range(n):
    s = F(0)
    for j in range(w):
      t = P[j][i] * k1 + P[j][i] * k2 * f
      s = s + t + t * lk[j] * f
    L.append(s)
  lm = merkelize(L)
  br = []
  for pos in indices(lm[1], n, spots, exclude_multiples_of=ext):
    br += [mk_branch(m, pos), mk_branch(sub, (pos + ext) % n) + mk_branch(m, 0)[1:], mk_branch(lm, pos)]
  env.check(_rejects(env, S, [m[1], lm[1], br, [[x.to_bytes() for x in L]]], bad, boundary), 'openings at another depth are rejected')


def _domain(F, n):
  g = F(7)**((BIG - 1) // n)
  xs = [F(1)]
  for _ in range(n - 1):
    xs.append(xs[-1] * g)
  return g, xs


def _inv(x):
  return x**(BIG - 2)


def weights(env, w, steps, ext, polys, spots, of, salt=1):
  """columns made for weights that are known in advance: those of another root, or of the root of the combined column.
  Pointwise they fit the computation and any boundary, and combine to zero; only the weights of the actual root betray them"""
  env.fix_oracle(salt)
  F, sp, S = instance(env, w, steps, ext, polys, spots)
  wit, boundary = statement(env, F, sp, w, steps, 0)
  mk, merkelize, mk_branch = env.get('merkle_tree', 'merkelize_polynomial_evaluations', 'merkelize', 'mk_branch')
  get_ks = env.get('stark', 'get_pseudorandom_ks')
  indices = env.get('utils', 'get_pseudorandom_indices')
  n = steps * ext
  g, xs = _domain(F, n)
  last = xs[(steps - 1) * ext]
  d = env.int('d', 1, BIG - 1)
  bad = _copy(wit)
  bad[0][-1] = bad[0][-1] + F(d)
  lm = merkelize([F(0)] * n)
  if of == 'first':
    root = mk(w, [[F(5)] * n] * (3 * w))[1]
  elif of == 'empty':
    root = b''
  else:
    root = lm[1]
  k1, k2, k3, k4 = get_ks(root, 4)
  f = (g**steps)**(n - 1)
  al, be = F(k1) + f * k2, F(k3) + f * k4
  out = [[F(0)] * n for _ in range(3 * w)]
  for j in range(w):
    # each register depends on itself only in the computations used here
    c0 = sp[j]([F(0)] * w)
    a = sp[j]([F(1 if l == j else 0) for l in range(w)]) - c0
    for r in range(1, ext):
      A, C, rows = F(1), F(0), []
      for t in range(steps):
        i = r + t * ext
        x = xs[i]
        z = (x**steps - F(1)) * _inv(x - last)
        z2i = _inv((x - F(1)) * (x - last))
        ip = bad[j][0] + (bad[j][-1] - bad[j][0]) * (x - F(1)) * _inv(last - F(1))
        u = a - z * (al + be * z2i)
        v = c0 + z * be * ip * z2i
        rows.append((i, z, z2i, ip, A, C))
        A, C = u * A, u * C + v
      p = C * _inv(F(1) - A)
      for i, z, z2i, ip, A, C in rows:
        P = A * p + C
        B = (P - ip) * z2i
        out[j][i], out[2 * w + j][i] = P, B
        out[w + j][i] = F(0) - al * P - be * B
  m = mk(w, out)
  br = []
  for pos in indices(lm[1], n, spots, exclude_multiples_of=ext):
    br += [mk_branch(m, pos), mk_branch(m, (pos + ext) % n), mk_branch(lm, pos)]
  env.check(_rejects(env, S, [m[1], lm[1], br, [[F(0).to_bytes()] * n]], bad, boundary),
            'columns made for weights known in advance are rejected')


def positions(env, w, steps, ext, polys, spots, of, salt=1):
  """a combined column that fits the others at positions known in advance only"""
  env.fix_oracle(salt)
  F, sp, S = instance(env, w, steps, ext, polys, spots)
  wit, boundary = statement(env, F, sp, w, steps, 0)
  mk, merkelize, mk_branch = env.get('merkle_tree', 'merkelize_polynomial_evaluations', 'merkelize', 'mk_branch')
  get_ks = env.get('stark', 'get_pseudorandom_ks')
  indices = env.get('utils', 'get_pseudorandom_indices')
  n = steps * ext
  g, xs = _domain(F, n)
  last = xs[(steps - 1) * ext]
  d = env.int('d', 1, BIG - 1)
  bad = _copy(wit)
  bad[0][-1] = bad[0][-1] + F(d)
  # the line through the input and the wrong output
  P = [[r[0] + (r[-1] - r[0]) * (x - F(1)) * _inv(last - F(1)) for x in xs] for r in bad]
  B = [[F(0)] * n for _ in range(w)]
  D = []
  for j in range(w):
    dc = []
    for i, x in enumerate(xs):
      zn = x**steps - F(1)
      dc.append(F(0) if i % ext == 0 else
                (P[j][(i + ext) % n] - sp[j]([P[l][i] for l in range(w)])) * (x - last) * _inv(zn))
    D.append(dc)
  m = mk(w, P + D + B)
  k1, k2, k3, k4 = get_ks(m[1], 4)
  lk = get_ks(m[1], w)
  f = (g**steps)**(n - 1)

  def value(i):
    s = F(0)
    for j in range(w):
      t = D[j][i] + P[j][i] * k1 + P[j][i] * k2 * f
      s = s + t + t * lk[j] * f
    return s

  lm = merkelize([F(0)] * n)
  root = m[1] if of == 'columns' else lm[1] if of == 'first' else bytes(32)
  drawn = indices(root, n, spots, exclude_multiples_of=ext)
  known = sorted(set(drawn))
  # of low degree, and right in those places
  L = []
  ws = {}
  for i in known:
    c = F(1)
    for k in known:
      if k != i:
        c = c * (xs[i] - xs[k])
    ws[i] = value(i) * _inv(c)
  for x in xs:
    s = F(0)
    for i in known:
      c = ws[i]
      for k in known:
        if k != i:
          c = c * (x - xs[k])
      s = s + c
    L.append(s)
  lm = merkelize(L)
  br = []
  for pos in drawn:
    br += [mk_branch(m, pos), mk_branch(m, (pos + ext) % n), mk_branch(lm, pos)]
  env.check(_rejects(env, S, [m[1], lm[1], br, [[x.to_bytes() for x in L]]], bad, boundary),
            'a combination that fits at positions known in advance is rejected')


def tamper(env, w, steps, ext, polys, spots, part, idx, salt=1):
  """one part of an honest proof replaced"""
  env.fix_oracle(salt)
  F, sp, S = instance(env, w, steps, ext, polys, spots)
  wit, boundary = statement(env, F, sp, w, steps, 0)
  proof = S.mk_proof(wit, boundary)
  env.check(not _rejects(env, S, proof, wit, boundary), 'the honest proof is accepted')
  m, l, br, fri = proof
  if part == 'mroot':
    old = m
  elif part == 'lroot':
    old = l
  elif part == 'fri':
    old = fri[-1][idx]
  else:
    b, i = idx
    old = br[b][i]
  new = env.bytes('new', len(old))
  env.assume(new != old)
  br, fri = [list(x) for x in br], [list(x) for x in fri]
  if part == 'mroot':
    m = new
  elif part == 'lroot':
    l = new
  elif part == 'fri':
    fri[-1][idx] = new
  else:
    br[b][i] = new
  env.check(_rejects(env, S, [m, l, br, fri], wit, boundary), 'an altered proof is rejected')


def missing(env, w, steps, ext, polys, spots, part, salt=1):
  """an honest proof with openings or values left out, for the true statement and for a false one"""
  env.fix_oracle(salt)
  F, sp, S = instance(env, w, steps, ext, polys, spots)
  wit, boundary = statement(env, F, sp, w, steps, 0)
  proof = S.mk_proof(wit, boundary)
  d = env.int('d', 0, BIG - 1)
  b2 = [(0, 0, boundary[0][2] + F(d))] + list(boundary[1:])
  m, l, br, fri = proof
  if part == 'branches':
    need = 3 * spots
    k = env.concrete(env.choice('k', [0, 1, 2, 3, need - 3, need - 1]))
    proof = [m, l, br[:k], fri]
  elif part == 'branch':
    k = env.concrete(env.choice('k', [0, 1, 2, 3 * spots - 1]))
    j = env.concrete(env.choice('j', [0, 1, len(br[k]) - 1]))
    proof = [m, l, br[:k] + [br[k][:j]] + br[k + 1:], fri]
  elif part == 'values':
    k = env.concrete(env.choice('k', [0, 1, len(fri[-1]) // 2, len(fri[-1]) - 1]))
    proof = [m, l, br, fri[:-1] + [fri[-1][:k]]]
  else:
    k = env.concrete(env.choice('k', [0, 1, 2, 3]))
    proof = proof[:k]
  env.check(_rejects(env, S, proof, wit, b2), 'a proof with a part missing is rejected')


def challenges(env, num):
  ks = env.get('stark', 'get_pseudorandom_ks')
  r = env.bytes('root', 32)
  r2 = env.bytes('other', 32)
  env.assume(r != r2)
  a, b, c = ks(r, num), ks(r, num), ks(r2, num)
  env.check(len(a) == num, 'number of challenges')
  env.check(a == b, 'the challenges are a function of the root')
  for i in range(num):
    for j in range(i):
      env.check(a[i] != a[j], 'the challenges differ from each other')
    env.check(a[i] != c[i], 'another root gives other challenges')


def CASES(tier):
  th = tier == 'thorough'
  cs = []
  kw = dict(budget_s=60 if not th else 400, path_s=40)
  I1, I2, I3 = (1, 4, 8, 'LINEAR1', 8), (2, 4, 8, 'LINEAR2', 8), (1, 8, 4, 'LINEAR1', 6)
  Q1 = (1, 4, 8, 'QUAD1', 8)

  def add(fn, inst, salt=1, **p):
    w, n, e, d, sp = inst
    cs.append(Case(fn, dict(w=w, steps=n, ext=e, polys=d, spots=sp, salt=salt, **p), weight=w * n, **kw))

  for salt in ((1, 2, 3) if th else (1,)):
    for inst, rows in ((I1, range(4)), (I2, (0, 2, 3)), (I3, range(8) if th else (0, 4, 7)), (Q1, (0, 1, 3))):
      for row in rows:
        for reg in range(inst[0]):
          add('witness', inst, salt, row=row, reg=reg, **({'free': 0} if inst is Q1 else {'free': 1} if inst[0] > 1 else {}))
    for inst in (I1, I2, I3, Q1):
      for side in ('in', 'out'):
        for reg in range(inst[0]):
          add('claim', inst, salt, side=side, reg=reg, **({'free': 1} if inst[0] > 1 else {}))
    for inst, dim, mono in ((I1, 0, [0]), (I1, 0, [1]), (I1, 0, [2]), (I2, 0, [0, 0]), (I2, 1, [0, 0]), (I2, 1, [1, 0]), (I3, 0, [0]), (Q1, 0, [0]), (Q1, 0, [1])):
      add('program', inst, salt, dim=dim, mono=mono, **({'free': 1} if inst[0] > 1 else {}))
    for inst in (I1, I2) + ((I3,) if th else ()):
      for what in ('trace', 'quotient', 'boundary', 'combination', 'input', 'output', 'start-only', 'end-only'):
        for reg in range(inst[0]):
          for k in ((0, 1, 3) if what == 'trace' else (0, 2) if what in ('quotient', 'boundary', 'combination') else (0,)):
            add('cheat', inst, salt, what=what, reg=reg, k=k, **({'free': 1} if inst[0] > 1 else {}))
    for inst in (I1, I2):
      for part, idxs in (('mroot', (0,)), ('lroot', (0,)), ('fri', (1, 8, 31)), ('branch', [(0, 0), (0, 1), (0, 5), (1, 0), (1, 3), (2, 0), (2, 2), (21, 0), (23, 4)])):
        for idx in idxs:
          add('tamper', inst, salt, part=part, idx=list(idx) if isinstance(idx, tuple) else idx)
  for inst in (I2,) + (((2, 8, 4, 'LINEAR2', 6),) if th else ()):
    for side in ('in', 'out'):
      add('claims', inst, side=side, regs=[0, 1])
    for mono in ([0, 0], [1, 0]):
      add('programs', inst, regs=[0, 1], mono=mono, free=1 if mono == [0, 0] else 0)
  for inst in (I1, I2):
    for part in ('branches', 'branch', 'values', 'proof'):
      add('missing', inst, part=part)
  for inst in (I1, I2, I3, Q1):
    add('levels', inst)
  for inst in (I1, I2, I3):
    for of in ('first', 'last', 'empty'):
      if inst[3] != 'LINEAR2':
        add('weights', inst, of=of)
  for inst in (I3, (1, 8, 8, 'LINEAR1', 6)):
    for of in ('columns', 'first', 'empty'):
      add('positions', inst, of=of)
  for num in (1, 4, 5, 9) if th else (1, 4, 6):
    cs.append(Case('challenges', dict(num=num), weight=1, budget_s=40))
  return cs
