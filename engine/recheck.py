"""Second opinion on equalities settled by normal form: the expressions as the
code computed them (before normalisation) are put to the solver again."""
import time as _t
import z3
from . import terms as T
from . import lower as L
from .terms import ATOMS, ZP

now = _t.time


class Skip(Exception):
  pass


def _nodes(r, seen, order):
  st = [(r, 0)]
  while st:
    x, ph = st.pop()
    if ph:
      order.append(x)
      continue
    if id(x) in seen:
      continue
    seen.add(id(x))
    st.append((x, 1))
    if type(x) is tuple:
      for y in x[1:]:
        if type(y) in (tuple, ZP):
          st.append((y, 0))
  return order


def _moduli(order):
  ps = set()
  for x in order:
    if type(x) is tuple and x[0] == '%':
      ps.add(x[2])
    elif type(x) is ZP:
      acc, b = set(), set()
      T.atoms_of_zp(x, acc, b)
      for a in acc:
        if ATOMS[a].kind in ('mod', 'inv'):
          ps.add(ATOMS[a].data[0])
        elif ATOMS[a].kind != 'var':
          raise Skip()
  return ps


def _degree(order):
  """the largest total degree of an intermediate result"""
  deg = {}
  top = 0
  d = lambda x: deg.get(id(x), 0)
  for x in order:
    if type(x) is ZP:
      v = max([sum(m[1::2]) for m in x.t] or [0])
    elif type(x) is tuple:
      v = d(x[1]) + d(x[2]) if x[0] == '*' else d(x[1]) * x[2] if x[0] == '^' else max(d(y) for y in x[1:])
    else:
      continue
    deg[id(x)] = v
    top = max(top, v)
  return top


def check(a, b, timeout_ms=3000):
  """'unsat' (equal for all values), 'sat', 'unknown' or 'skip'"""
  order = []
  seen = set()
  _nodes(a, seen, order)
  _nodes(b, seen, order)
  if len(order) > 4000:
    return 'skip'
  if _degree(order) > 600:
    return 'skip'
  try:
    ps = _moduli(order)
    if len(ps) == 1:
      p = next(iter(ps))
      if T.isprime(p) and _modrooted(a, p) and _modrooted(b, p):
        return _ff(a, b, order, p, timeout_ms)
    return _int(a, b, order, timeout_ms)
  except (Skip, L.Unsupported):
    return 'skip'
  except (z3.Z3Exception, RuntimeError):
    return 'unknown'


def _modrooted(x, p):
  if type(x) is tuple:
    return x[0] == '%' and x[2] == p
  if type(x) is int:
    return 0 <= x < p
  if type(x) is ZP:
    lo, hi = x.rng()
    return lo is not None and hi is not None and lo >= 0 and hi < p
  return False


def _ff(a, b, order, p, timeout_ms):
  import cvc5
  from cvc5 import Kind
  s = cvc5.Solver()
  s.setOption('tlimit-per', str(int(timeout_ms)))
  s.setLogic('QF_FF')
  F = s.mkFiniteFieldSort(str(p), 10)
  const = lambda c: s.mkFiniteFieldElem(str(c % p), F)
  env = {}
  vs = {}
  extra = []
  over = []

  def mul(*x):
    return s.mkTerm(Kind.FINITE_FIELD_MULT, *x)

  def power(x, n):
    if n == 0:
      return const(1)
    if n > 4096:
      raise Skip()
    r = None
    while n:
      if n & 1:
        r = x if r is None else mul(r, x)
      n >>= 1
      if n:
        x = mul(x, x)
    return r

  def atom(aid):
    if aid in vs:
      return vs[aid]
    at = ATOMS[aid]
    if at.kind == 'var':
      if at.lo is None or at.lo < 0 or at.hi is None or at.hi >= p:
        # Z -> Z/p is a ring homomorphism: any integer stands for its class
        over.append(aid)
      x = s.mkConst(F, 'v%d' % aid)
    elif at.kind == 'mod':
      x = zp(at.data[1])
    elif at.kind == 'inv':
      x = s.mkConst(F, 'i%d' % aid)
      q = zp(at.data[1])
      extra.append(s.mkTerm(Kind.OR, s.mkTerm(Kind.EQUAL, mul(q, x), const(1)),
                            s.mkTerm(Kind.AND, s.mkTerm(Kind.EQUAL, q, const(0)),
                                     s.mkTerm(Kind.EQUAL, x, const(0)))))
    else:
      raise Skip()
    vs[aid] = x
    return x

  def zp(z):
    ts = []
    for m, c in z.t.items():
      fs = [const(c)]
      for i in range(0, len(m), 2):
        fs.append(power(atom(m[i]), m[i + 1]))
      ts.append(fs[0] if len(fs) == 1 else mul(*fs))
    if not ts:
      return const(0)
    return ts[0] if len(ts) == 1 else s.mkTerm(Kind.FINITE_FIELD_ADD, *ts)

  def val(x):
    return const(x) if type(x) in (int, bool) else env[id(x)]

  for x in order:
    if type(x) is ZP:
      e = zp(x)
    elif type(x) is tuple:
      op = x[0]
      if op == '+':
        e = s.mkTerm(Kind.FINITE_FIELD_ADD, val(x[1]), val(x[2]))
      elif op == '-':
        e = s.mkTerm(Kind.FINITE_FIELD_ADD, val(x[1]),
                     s.mkTerm(Kind.FINITE_FIELD_NEG, val(x[2])))
      elif op == '*':
        e = mul(val(x[1]), val(x[2]))
      elif op == '^':
        e = power(val(x[1]), x[2])
      elif op == '%':
        e = val(x[1])
      else:
        raise Skip()
    else:
      continue
    env[id(x)] = e
  s.assertFormula(s.mkTerm(Kind.NOT, s.mkTerm(Kind.EQUAL, val(a), val(b))))
  for x in extra:
    s.assertFormula(x)
  r = s.checkSat()
  return 'unsat' if r.isUnsat() else 'sat' if r.isSat() and not over else 'unknown'


def _int(a, b, order, timeout_ms):
  lw = L._INTL
  env = {}
  atoms = set()

  def val(x):
    return z3.IntVal(x) if type(x) in (int, bool) else env[id(x)]

  for x in order:
    if type(x) is ZP:
      e = lw.zp(x)
      T.atoms_of_zp(x, atoms, set())
    elif type(x) is tuple:
      op = x[0]
      if op == '+':
        e = val(x[1]) + val(x[2])
      elif op == '-':
        e = val(x[1]) - val(x[2])
      elif op == '*':
        e = val(x[1]) * val(x[2])
      elif op == '%':
        e = val(x[1]) % x[2]
      elif op == '^':
        if x[2] > 16:
          raise Skip()
        e = z3.IntVal(1)
        for _ in range(x[2]):
          e = e * val(x[1])
      else:
        raise Skip()
    else:
      continue
    env[id(x)] = e
  s = z3.Solver()
  s.set('timeout', int(timeout_ms))
  for c in lw.constraints(atoms):
    s.add(c)
  s.add(val(a) != val(b))
  r = s.check()
  return 'unsat' if r == z3.unsat else 'sat' if r == z3.sat else 'unknown'


def run(sample, budget_s=8.0):
  out = {'asked': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'skip': 0, 'time': 0.0}
  t0 = now()
  for a, b in sample:
    if now() - t0 > budget_s:
      break
    r = check(a, b)
    if r != 'skip':
      out['asked'] += 1
    out[r] += 1
  out['time'] = now() - t0
  return out
