"""C18  honest STARK proofs are accepted."""
from engine.runner import Case
from harness.common import seq  # noqa

BIG = 2**256 - 2**32 * 351 + 1
PRELOAD = ('sympy',)
BOUNDS = {
    'quick': 'Z/(2^256-2^32*351+1); every input of computations of 4, 8 and 16 steps, width 1 to 3, 5 and 9 (one free register), with linear steps, and of 4 '
             'steps with quadratic and cubic steps; extension factor 4 and 8; 4 to 8 spot checks, and 90; two proofs by one object, with a proof of another computation in between, checked by either',
    'thorough': 'additionally 32 steps, 8 quadratic steps, three oracle instances'}
OUTSIDE = 'other lengths; binary fields (the transform for them is not implemented); more than nine registers'
ASSUMPTIONS = ['the hash function is one fixed instance of a random oracle: digests of symbolic data are distinct constants, so the '
               'statement is decided for every input at the challenges these constants give']

STEPS = {}
STEPS['LINEAR1'] = [{(0,): 3, (1,): 5}]
STEPS['IDENT'] = [{(1,): 1}]
STEPS['LINEAR2'] = [{(0, 1): 1}, {(1, 0): 1, (0, 1): 1}]
STEPS['LINEAR3'] = [{(0, 1, 0): 1}, {(0, 0, 1): 1, (0, 0, 0): 2}, {(1, 0, 0): 3, (0, 0, 1): 4}]
STEPS['LINEAR5'] = [{tuple(int(k == (i + 1) % 5) for k in range(5)): i + 1, (0,) * 5: i} for i in range(5)]
STEPS['LINEAR9'] = [{tuple(int(k == (i + 1) % 9) for k in range(9)): 1, tuple(int(k == i) for k in range(9)): i} for i in range(9)]
STEPS['QUAD1'] = [{(0,): 3, (2,): 1}]
STEPS['CUBE1'] = [{(0,): 1, (1,): 2, (3,): 1}]
STEPS['MIX2'] = [{(1, 0): 1, (0, 1): 1}, {(0, 3): 1, (0, 0): 2}]
STEPS['MIX3'] = [{(1, 0, 0): 1}, {(0, 1, 2): 1, (0, 0, 0): 2}, {(0, 0, 1): 1, (0, 0, 0): 5}]
STEPS['QUAD2'] = [{(1, 1): 1}, {(1, 0): 1, (0, 0): 7}]
STEPS['CUBE2'] = [{(2, 1): 1}, {(1, 0): 1}]


def instance(env, w, steps, ext, polys, spots):
  F = env.get('modp', 'IntegersModP')(BIG)
  M = env.get('multivariate_polynomial', 'multivariates_over')(F, w)
  sp = [M({k: F(c) for k, c in d.items()}) for d in STEPS[polys]]
  return F, sp, env.get('stark', 'STARK')(F, steps, ext, w, sp, spots)


def statement(env, F, sp, w, steps, free=9):
  inp = [F(v) for v in env.ints('x', min(w, free), 0, BIG - 1)] + [F(11 + i) for i in range(w - free)]
  tr, out = env.get('air', 'get_computational_trace')(list(inp), steps, w, sp)
  return [[tr[i][j] for i in range(steps)] for j in range(w)], [(0, j, inp[j]) for j in range(w)]


def complete(env, w, steps, ext, polys, spots, salt=1, free=9):
  env.fix_oracle(salt)
  F, sp, S = instance(env, w, steps, ext, polys, spots)
  wit, boundary = statement(env, F, sp, w, steps, free)
  proof = S.mk_proof(wit, boundary)
  env.check(len(proof) == 4, 'parts of a proof')
  env.check(S.verify_proof(proof, wit, boundary) is True, 'the honest proof is accepted')
  env.check(S.verify_proof(proof, wit, boundary) is True, 'and again')


def reused(env, steps, ext, polys, w, other=None):
  """several proofs by one object, checked in another order, by itself and by another object"""
  env.fix_oracle(1)
  F, sp, S = instance(env, w, steps, ext, polys, 6)
  _, _, V = instance(env, w, steps, ext, polys, 6)
  if other:  # a different computation in between
    _, sq, Q = instance(env, w, steps, ext, other, 6)
  ws = []
  for k in range(2):
    inp = [F(env.int('x%d' % k, 0, BIG - 1) if k == 0 or w == 1 else 99)] + [F(11 + i + k) for i in range(w - 1)]
    tr, out = env.get('air', 'get_computational_trace')(list(inp), steps, w, sp)
    wit, b = [[tr[i][j] for i in range(steps)] for j in range(w)], [(0, j, inp[j]) for j in range(w)]
    ws.append((S.mk_proof(wit, b), wit, b))
    if other:
      tr, out = env.get('air', 'get_computational_trace')([F(3 + i) for i in range(w)], steps, w, sq)
      wit, b = [[tr[i][j] for i in range(steps)] for j in range(w)], [(0, j, F(3 + j)) for j in range(w)]
      env.check(Q.verify_proof(Q.mk_proof(wit, b), wit, b) is True, 'a proof of another computation is accepted')
  for X in (S, V):
    for p, wit, b in ws[::-1]:
      env.check(X.verify_proof(p, wit, b) is True, 'each honest proof is accepted')


def CASES(tier):
  th = tier == 'thorough'
  cs = []
  for w, n, e, d, o in ((1, 4, 8, 'LINEAR1', None), (2, 4, 4, 'LINEAR2', None), (1, 4, 8, 'LINEAR1', 'QUAD1'), (1, 4, 8, 'IDENT', 'LINEAR1')):
    cs.append(Case('reused', dict(w=w, steps=n, ext=e, polys=d, other=o), weight=6, path_s=60, budget_s=90, fresh=True))
  base = [(1, 4, 8, 'LINEAR1'), (1, 4, 4, 'LINEAR1'), (1, 8, 8, 'LINEAR1'), (1, 16, 8, 'LINEAR1'), (1, 8, 4, 'IDENT'), (2, 4, 8, 'LINEAR2'),
          (2, 8, 4, 'LINEAR2'), (3, 4, 8, 'LINEAR3'), (1, 4, 8, 'QUAD1'), (1, 2, 8, 'CUBE1'), (2, 4, 8, 'QUAD2'), (2, 2, 8, 'CUBE2'), (2, 4, 8, 'MIX2'), (3, 4, 8, 'MIX3'),
          (5, 4, 4, 'LINEAR5'), (9, 2, 8, 'LINEAR9')]
  if th:
    base += [(1, 32, 8, 'LINEAR1'), (2, 16, 8, 'LINEAR2'), (1, 8, 8, 'QUAD1'), (3, 8, 8, 'LINEAR3')]
  cs.append(Case('complete', dict(w=1, steps=4, ext=4, polys='LINEAR1', spots=90), weight=20, path_s=150, budget_s=120))
  for w, n, e, d in base:
    for salt in ((1, 2, 3) if th else (1,)):
      cs.append(Case('complete', dict(w=w, steps=n, ext=e, polys=d, spots=4 if n * e > 64 else 8, salt=salt, free={'LINEAR3': 1, 'QUAD2': 1, 'CUBE2': 1, 'MIX2': 1, 'MIX3': 1, 'LINEAR5': 1, 'LINEAR9': 1}.get(d, 9)), weight=n * w, path_s=150 if th else 60, budget_s=60 if not th else 600))
  return cs
