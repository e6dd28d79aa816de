"""Lowering of terms to solvers.

BV   z3 bit-vectors, widths taken from interval analysis (so they never wrap)
INT  z3 integers (unbounded inputs)
FF   congruences modulo one prime: ffsolve (case split and elimination), then cvc5
"""
import time as _t
import z3
from . import terms as T
from . import ffsolve
from .terms import ATOMS, ZP, Bo


now = _t.time


class Unsupported(Exception):
  pass


class Unknown(Exception):
  pass


class Stats:

  def __init__(self):
    self.queries = 0
    self.sat = 0
    self.unsat = 0
    self.unknown = 0
    self.trivial = 0
    self.time = 0.0
    self.by = {}

  def add(self, kind, res, dt):
    self.queries += 1
    setattr(self, res, getattr(self, res) + 1)
    self.time += dt
    self.by[kind] = self.by.get(kind, 0) + 1

  def merge(self, d):
    for k in ('queries', 'sat', 'unsat', 'unknown', 'trivial', 'time'):
      setattr(self, k, getattr(self, k) + d[k])
    for k, v in d['by'].items():
      self.by[k] = self.by.get(k, 0) + v

  def dump(self):
    return {'queries': self.queries, 'sat': self.sat, 'unsat': self.unsat,
            'unknown': self.unknown, 'trivial': self.trivial,
            'time': self.time, 'by': dict(self.by)}


STATS = Stats()

_CTX_TERMS = 0


def bits_u(hi):
  return max(1, int(hi).bit_length())


def balance(q, p):
  """coefficients in (-p/2, p/2]"""
  h = p // 2
  return ZP({m: (c - p if c > h else c) for m, c in q.t.items()})


MAXW = 3000


class BV:
  """z3 bit-vector lowering; caches are global to the process."""
  name = 'bv'

  def __init__(self):
    self.va = {}   # atom id -> (expr, signed)
    self.cons = {}  # atom id -> constraint on a variable (bounds)
    self.vb = {}

  # width of atom's own expression
  def atom(self, aid):
    r = self.va.get(aid)
    if r is not None:
      return r
    a = ATOMS[aid]
    k = a.kind
    if k == 'var':
      if a.lo is None or a.hi is None:
        raise Unsupported('unbounded variable in bit-vector lowering')
      if a.lo >= 0:
        w = bits_u(a.hi)
        e = z3.BitVec('%s#%d' % (a.data[0], aid), w)
        cs = []
        if a.lo > 0:
          cs.append(z3.UGE(e, z3.BitVecVal(a.lo, w)))
        if a.hi != (1 << w) - 1:
          cs.append(z3.ULE(e, z3.BitVecVal(a.hi, w)))
        r = (e, False)
      else:
        w = max(bits_u(a.hi), bits_u(-a.lo)) + 1
        e = z3.BitVec('%s#%d' % (a.data[0], aid), w)
        cs = [e >= z3.BitVecVal(a.lo, w), e <= z3.BitVecVal(a.hi, w)]
        r = (e, True)
      self.cons[aid] = cs
    elif k == 'mod':
      p, q = a.data
      r = (self.umod(q, p), False)
    elif k == 'div':
      q, d = a.data
      lo, hi = q.rng()
      if lo is None or hi is None:
        raise Unsupported('unbounded div')
      sh = 0
      if lo < 0:
        sh = (-lo + d - 1) // d
        q = T.zadd(q, T.zconst(sh * d))
        hi += sh * d
      w = bits_u(hi)
      if d & (d - 1) == 0:
        k2 = d.bit_length() - 1
        if k2 >= w:
          e = z3.BitVecVal(0, 1)
        else:
          e = z3.Extract(w - 1, k2, self.low(q, w))
      else:
        w = max(w, bits_u(d))
        e = z3.UDiv(self.low(q, w), z3.BitVecVal(d, w))
      if sh:
        w2 = e.size() + 1
        e = z3.ZeroExt(1, e) - z3.BitVecVal(sh, w2)
        # value may be negative: needs one more bit
        if bits_u(sh) + 1 > w2:
          e = z3.ZeroExt(bits_u(sh) + 2 - e.size(), e)
        r = (e, True)
      else:
        r = (e, False)
    elif k in ('gmod', 'gdiv'):
      n, d = a.data
      nl, nh = n.rng()
      dl, dh = d.rng()
      if None in (nl, nh, dl, dh) or nl < 0 or dl < 0:
        raise Unsupported('signed symbolic division')
      w = max(bits_u(nh), bits_u(dh))
      x, y = self.low(n, w), self.low(d, w)
      e = z3.URem(x, y) if k == 'gmod' else z3.UDiv(x, y)
      # division by zero is excluded by the path condition; keep 0 for totality
      e = z3.If(y == 0, z3.BitVecVal(0, w), e)
      r = (e, False)
    elif k in ('and', 'or', 'xor'):
      x, y = a.data
      hs = [z.rng()[1] for z in (x, y)]
      if None in hs:
        raise Unsupported('unbounded bit op')
      w = max(bits_u(h) for h in hs)
      x, y = self.low(x, w), self.low(y, w)
      r = ((x & y) if k == 'and' else (x | y) if k == 'or' else (x ^ y), False)
    elif k == 'ite':
      c, x, y = a.data
      if a.lo is None or a.hi is None:
        raise Unsupported('unbounded ite')
      w = max(bits_u(abs(a.hi)), bits_u(abs(a.lo))) + (1 if a.lo < 0 else 0)
      r = (z3.If(self.bo(c), self.low(x, w), self.low(y, w)), a.lo < 0)
    elif k == 'inv':
      p, q = a.data
      if p > 64:
        raise Unsupported('inverse modulo a large prime')
      x = self.umod(q, p)
      w = bits_u(p - 1)
      x = z3.ZeroExt(w - x.size(), x) if x.size() < w else x
      e = z3.BitVecVal(0, w)
      for v in range(1, p):
        e = z3.If(x == v, z3.BitVecVal(pow(v, -1, p), w), e)
      r = (e, False)
    else:
      raise Unsupported(k)
    if r[0].size() > MAXW:
      raise Unsupported('term wider than %d bits' % MAXW)
    self.va[aid] = r
    return r

  def umod(self, q, p):
    """unsigned expression for q mod p"""
    if p & (p - 1) == 0:
      return self.low(q, p.bit_length() - 1)
    q = balance(T.reduce_poly(q, p) if len(q.t) < 2000 else q, p)
    # each monomial with large degree is reduced stepwise
    parts = []
    tot_hi = 0
    wp = bits_u(p - 1)
    lin = {}
    exprs = []
    for m, c in q.t.items():
      deg = sum(m[i + 1] for i in range(0, len(m), 2))
      if deg <= 1:
        lin[m] = c
      else:
        exprs.append((c, self.monomod(m, p)))
    lin = ZP(lin)
    lo, hi = lin.rng()
    if lo is None or hi is None:
      raise Unsupported('unbounded mod')
    for c, _ in exprs:
      if c > 0:
        hi += c * (p - 1)
      else:
        lo += c * (p - 1)
    sh = 0
    if lo < 0:
      sh = (-lo + p - 1) // p * p
      hi += sh
    w = max(bits_u(hi), wp)
    if w > MAXW:
      raise Unsupported('wide')
    e = self.low(T.zadd(lin, T.zconst(sh)), w)
    for c, x in exprs:
      e = e + self.ext(x, False, w) * z3.BitVecVal(c, w)
    if hi < p:
      return z3.Extract(wp - 1, 0, e) if w > wp else e
    r = z3.URem(e, z3.BitVecVal(p, w))
    return z3.Extract(wp - 1, 0, r) if w > wp else r

  def monomod(self, m, p):
    key = ('mm', m, p)
    r = self.vb.get(key)
    if r is not None:
      return r
    wp = bits_u(p - 1)
    acc = None
    for i in range(0, len(m), 2):
      e, s = self.atom(m[i])
      a = ATOMS[m[i]]
      if a.lo is None or a.hi is None or a.lo < 0 or a.hi >= p:
        e = self.umod(ZP({(m[i], 1): 1}), p)
      e = self.ext(e, False, wp)
      n = m[i + 1]
      if n > 40:
        # square and multiply
        pass
      base = e
      res = None
      while n:
        if n & 1:
          res = base if res is None else self.mulmod(res, base, p, wp)
        n >>= 1
        if n:
          base = self.mulmod(base, base, p, wp)
      acc = res if acc is None else self.mulmod(acc, res, p, wp)
    self.vb[key] = acc
    return acc

  def mulmod(self, x, y, p, wp):
    if p == 2:
      return x & y
    w = 2 * wp
    r = z3.URem(z3.ZeroExt(wp, x) * z3.ZeroExt(wp, y), z3.BitVecVal(p, w))
    return z3.Extract(wp - 1, 0, r)

  def ext(self, e, signed, w):
    s = e.size()
    if s == w:
      return e
    if s > w:
      return z3.Extract(w - 1, 0, e)
    return z3.SignExt(w - s, e) if signed else z3.ZeroExt(w - s, e)

  def low(self, z, w):
    """z modulo 2^w as a w-bit vector"""
    if w > MAXW:
      raise Unsupported('wide')
    acc = None
    c0 = 0
    for m, c in z.t.items():
      if m == ():
        c0 = c
        continue
      if c % (1 << w) == 0:
        continue
      x = None
      for i in range(0, len(m), 2):
        e, s = self.atom(m[i])
        e = self.ext(e, s, w)
        n = m[i + 1]
        if w == 1:
          n = 1
        if n > 64:
          raise Unsupported('high power')
        for _ in range(n):
          x = e if x is None else (x & e if w == 1 else x * e)
      if c == 1:
        pass
      elif c == -1:
        x = -x
      else:
        x = x * z3.BitVecVal(c, w)
      acc = x if acc is None else (acc ^ x if w == 1 else acc + x)
    if acc is None:
      return z3.BitVecVal(c0, w)
    if c0 % (1 << w):
      acc = acc + z3.BitVecVal(c0, w)
    return acc

  def bo(self, b):
    r = self.vb.get(b.id)
    if r is not None:
      return r
    k = b.kind
    if k == 'T':
      r = z3.BoolVal(True)
    elif k == 'F':
      r = z3.BoolVal(False)
    elif k == 'not':
      r = z3.Not(self.bo(b.args[0]))
    elif k == 'and':
      r = z3.And(*[self.bo(x) for x in b.args])
    elif k == 'eqm':
      p, q = b.args
      # x - c form: compare directly
      r = self.eqmod(p, q)
    elif k in ('eq', 'lt'):
      d = b.args[0]
      # split positive and negative parts to keep comparisons simple
      pos, neg = {}, {}
      for m, c in d.t.items():
        if c > 0:
          pos[m] = c
        else:
          neg[m] = -c
      pos, neg = ZP(pos), ZP(neg)
      pl, ph = pos.rng()
      nl, nh = neg.rng()
      if None in (pl, ph, nl, nh):
        raise Unsupported('unbounded comparison')
      if pl >= 0 and nl >= 0:
        w = max(bits_u(ph), bits_u(nh))
        x, y = self.low(pos, w), self.low(neg, w)
        r = (x == y) if k == 'eq' else z3.ULT(x, y)
      else:
        w = max(bits_u(abs(v)) for v in (pl, ph, nl, nh)) + 1
        x, y = self.low(pos, w), self.low(neg, w)
        r = (x == y) if k == 'eq' else (x < y)
    else:
      raise Unsupported(k)
    self.vb[b.id] = r
    return r

  def eqmod(self, p, q):
    e = self.umod(q, p)
    return e == z3.BitVecVal(0, e.size())

  def constraints(self, atoms):
    out = []
    for aid in atoms:
      if ATOMS[aid].kind == 'var':
        self.atom(aid)
        out.extend(self.cons[aid])
    return out

  def value(self, model, aid):
    e, s = self.atom(aid)
    v = model.eval(e, model_completion=True)
    return v.as_signed_long() if s else v.as_long()


class INT(BV):
  name = 'int'

  def atom(self, aid):
    r = self.va.get(aid)
    if r is not None:
      return r
    a = ATOMS[aid]
    k = a.kind
    if k == 'var':
      e = z3.Int('%s#%d' % (a.data[0], aid))
      cs = []
      if a.lo is not None:
        cs.append(e >= a.lo)
      if a.hi is not None:
        cs.append(e <= a.hi)
      self.cons[aid] = cs
      r = e
    elif k == 'mod':
      r = self.zp(balance(a.data[1], a.data[0])) % a.data[0]
    elif k == 'div':
      r = self.zp(a.data[0]) / a.data[1]
    elif k in ('gmod', 'gdiv'):
      n, d = self.zp(a.data[0]), self.zp(a.data[1])
      dl, dh = a.data[1].rng()
      # z3: euclidean; python: floor.  same for d > 0
      if dl is not None and dl >= 0:
        r = n % d if k == 'gmod' else n / d
      else:
        q = z3.If(d > 0, n / d, (-n) / (-d))
        r = q if k == 'gdiv' else n - d * q
      r = z3.If(d == 0, z3.IntVal(0), r)
    elif k == 'ite':
      r = z3.If(self.bo(a.data[0]), self.zp(a.data[1]), self.zp(a.data[2]))
    else:
      raise Unsupported(k + ' over integers')
    self.va[aid] = r
    return r

  def zp(self, z):
    acc = None
    for m, c in z.t.items():
      x = None
      for i in range(0, len(m), 2):
        e = self.atom(m[i])
        if m[i + 1] > 64:
          raise Unsupported('high power')
        for _ in range(m[i + 1]):
          x = e if x is None else x * e
      if x is None:
        x = z3.IntVal(c)
      elif c != 1:
        x = x * c
      acc = x if acc is None else acc + x
    return z3.IntVal(0) if acc is None else acc

  def bo(self, b):
    r = self.vb.get(b.id)
    if r is not None:
      return r
    k = b.kind
    if k == 'T':
      r = z3.BoolVal(True)
    elif k == 'F':
      r = z3.BoolVal(False)
    elif k == 'not':
      r = z3.Not(self.bo(b.args[0]))
    elif k == 'and':
      r = z3.And(*[self.bo(x) for x in b.args])
    elif k == 'eqm':
      r = self.zp(balance(b.args[1], b.args[0])) % b.args[0] == 0
    elif k == 'eq':
      r = self.zp(b.args[0]) == 0
    elif k == 'lt':
      r = self.zp(b.args[0]) < 0
    else:
      raise Unsupported(k)
    self.vb[b.id] = r
    return r

  def value(self, model, aid):
    v = model.eval(self.atom(aid), model_completion=True)
    return v.as_long()


class FF:
  """cvc5 finite-field queries (one shot each)."""
  name = 'ff'

  def check(self, bos, timeout_ms):
    import cvc5
    from cvc5 import Kind
    acc, bacc = set(), set()
    for b in bos:
      T.atoms_of_bo(b, acc, bacc)
    p = None
    for aid in acc:
      a = ATOMS[aid]
      if a.kind in ('mod', 'inv'):
        if p is None:
          p = a.data[0]
        elif p != a.data[0]:
          raise Unsupported('two moduli')
      elif a.kind != 'var':
        raise Unsupported(a.kind + ' in finite-field lowering')

    direct = set()

    def find(b):
      nonlocal p
      if b.kind == 'eqm':
        if p is None:
          p = b.args[0]
        elif p != b.args[0]:
          raise Unsupported('two moduli')
      elif b.kind == 'eq':
        for m in b.args[0].t:
          for i in range(0, len(m), 2):
            direct.add(m[i])
      elif b.kind == 'lt':
        raise Unsupported('order in finite-field lowering')
      for x in b.args:
        if isinstance(x, Bo):
          find(x)

    for b in bos:
      find(b)
    if p is None:
      p = max([2] + [ATOMS[a].hi or 2 for a in acc]) + 1
      while not T.isprime(p):
        p += 1
    if not T.isprime(p):
      raise Unsupported('composite modulus')
    s = cvc5.Solver()
    s.setOption('produce-models', 'true')
    s.setOption('tlimit-per', str(int(timeout_ms)))
    s.setLogic('QF_FF')
    F = s.mkFiniteFieldSort(str(p), 10)

    def const(c):
      return s.mkFiniteFieldElem(str(c % p), F)

    env = {}
    extra = []

    def power(x, n):
      res, base = None, x
      while n:
        if n & 1:
          res = base if res is None else s.mkTerm(Kind.FINITE_FIELD_MULT, res, base)
        n >>= 1
        if n:
          base = s.mkTerm(Kind.FINITE_FIELD_MULT, base, base)
      return res

    def atom(aid):
      if aid in env:
        return env[aid]
      a = ATOMS[aid]
      if a.kind == 'var':
        if a.lo is None or a.hi is None:
          raise Unsupported('variable without range')
        if (a.lo < 0 or a.hi >= p) and aid in direct:
          raise Unsupported('variable range outside the field')
        x = s.mkConst(F, 'v%d' % aid)
        env[aid] = x
        # under congruences only the residue counts
        if a.hi - a.lo < p - 1:
          if a.hi - a.lo > 16:
            raise Unsupported('variable range is a proper part of the field')
          t = None
          for c in range(a.lo, a.hi + 1):
            f = s.mkTerm(Kind.FINITE_FIELD_ADD, x, const(-c))
            t = f if t is None else s.mkTerm(Kind.FINITE_FIELD_MULT, t, f)
          extra.append(s.mkTerm(Kind.EQUAL, t, const(0)))
        return x
      if a.kind == 'mod':
        x = zp(a.data[1])
        env[aid] = x
        return x
      # inv
      x = s.mkConst(F, 'i%d' % aid)
      env[aid] = x
      q = zp(a.data[1])
      prod = s.mkTerm(Kind.FINITE_FIELD_MULT, q, x)
      nz = s.mkTerm(Kind.EQUAL, prod, const(1))
      z = s.mkTerm(Kind.AND, s.mkTerm(Kind.EQUAL, q, const(0)),
                   s.mkTerm(Kind.EQUAL, x, const(0)))
      extra.append(s.mkTerm(Kind.OR, nz, z))
      return x

    invs = {}

    def zp(z):
      ts = []
      for m, c in z.t.items():
        fs = []
        if c % p != 1 or not m:
          fs.append(const(c))
        for i in range(0, len(m), 2):
          n = m[i + 1]
          x = atom(m[i])
          if n > 64 and (p - 1 - n) % (p - 1) <= 64:
            # a negative power
            k = (p - 1 - n) % (p - 1)
            if m[i] not in invs:
              y = s.mkConst(F, 'n%d' % m[i])
              invs[m[i]] = y
              extra.append(s.mkTerm(
                  Kind.OR,
                  s.mkTerm(Kind.EQUAL, s.mkTerm(Kind.FINITE_FIELD_MULT, x, y), const(1)),
                  s.mkTerm(Kind.AND, s.mkTerm(Kind.EQUAL, x, const(0)),
                           s.mkTerm(Kind.EQUAL, y, const(0)))))
            x, n = invs[m[i]], k
            if n == 0:   # x^(p-1)
              n = 1
              x = s.mkTerm(Kind.FINITE_FIELD_MULT, atom(m[i]), invs[m[i]])
          elif n > 4096:
            raise Unsupported('high power')
          fs.append(power(x, n))
        ts.append(fs[0] if len(fs) == 1 else s.mkTerm(Kind.FINITE_FIELD_MULT, *fs))
      if not ts:
        return const(0)
      return ts[0] if len(ts) == 1 else s.mkTerm(Kind.FINITE_FIELD_ADD, *ts)

    def bo(b):
      k = b.kind
      if k == 'T':
        return s.mkTrue()
      if k == 'F':
        return s.mkFalse()
      if k == 'not':
        return s.mkTerm(Kind.NOT, bo(b.args[0]))
      if k == 'and':
        return s.mkTerm(Kind.AND, *[bo(x) for x in b.args])
      if k == 'eqm':
        return s.mkTerm(Kind.EQUAL, zp(b.args[1]), const(0))
      if k == 'eq':
        d = b.args[0]
        lo, hi = d.rng()
        if lo is None or hi is None or lo <= -p or hi >= p:
          raise Unsupported('integer equality outside the field')
        return s.mkTerm(Kind.EQUAL, zp(d), const(0))
      raise Unsupported(k)

    for b in bos:
      s.assertFormula(bo(b))
    done = 0
    while done < len(extra):
      s.assertFormula(extra[done])
      done += 1
    r = s.checkSat()
    if r.isUnsat():
      return 'unsat', None
    if r.isSat():
      model = {}
      for aid, x in env.items():
        if ATOMS[aid].kind == 'var':
          v = s.getValue(x)
          lo = ATOMS[aid].lo
          model[aid] = lo + (int(v.getFiniteFieldValue()) - lo) % p
      return 'sat', model
    return 'unknown', None


_BVL = BV()
_INTL = INT()
_FFL = FF()


def z3_check(lw, bos, timeout_ms):
  acc, bacc = set(), set()
  for b in bos:
    T.atoms_of_bo(b, acc, bacc)
  s = z3.Solver() if lw.name == 'int' else z3.SolverFor('QF_BV')
  s.set('timeout', int(timeout_ms))
  es = [lw.bo(b) for b in bos]
  for c in lw.constraints(acc):
    s.add(c)
  for e in es:
    s.add(e)
  r = s.check()
  if r == z3.unsat:
    return 'unsat', None
  if r == z3.sat:
    m = s.model()
    return 'sat', {aid: lw.value(m, aid) for aid in acc if ATOMS[aid].kind == 'var'}
  return 'unknown', None


def auto_order(bos):
  """Preferred solvers for a conjunction."""
  acc, bacc = set(), set()
  for b in bos:
    T.atoms_of_bo(b, acc, bacc)
  ps = set()
  other = False
  unb = False
  nonlin = 0
  for aid in acc:
    a = ATOMS[aid]
    if a.kind == 'var':
      if a.lo is None or a.hi is None:
        unb = True
    elif a.kind in ('mod', 'inv'):
      ps.add(a.data[0])
    else:
      other = True

  def rec(b, seen):
    nonlocal other
    if b.id in seen:
      return
    seen.add(b.id)
    if b.kind == 'eqm':
      ps.add(b.args[0])
    elif b.kind == 'lt':
      other = True
    for x in b.args:
      if isinstance(x, Bo):
        rec(x, seen)

  seen = set()
  for b in bos:
    rec(b, seen)
  if unb:
    return ['int']
  if len(ps) == 1 and not other:
    p = next(iter(ps))
    if T.isprime(p):
      if p > 10:
        return ['ff', 'bv', 'int']
      return ['bv', 'ff', 'int']
  if ps and max(ps) > (1 << 20) and T.isprime(max(ps)):
    return ['ff', 'bv', 'int']
  return ['bv', 'int', 'ff']


def decide(bos, timeout_ms=10000, order=None):
  """('sat', model) / ('unsat', None) / ('unknown', None)"""
  bos = [b for b in bos if b is not T.TRUE]
  if any(b is T.FALSE for b in bos):
    STATS.trivial += 1
    return 'unsat', None
  if not bos:
    return 'sat', {}
  order = order or auto_order(bos)
  key = (frozenset(b.id for b in bos), timeout_ms)
  hit = _CACHE.get(key)
  if hit is not None:
    STATS.by['cached'] = STATS.by.get('cached', 0) + 1
    return hit
  r = _decide(bos, timeout_ms, order)
  if len(_CACHE) > 200000:
    _CACHE.clear()
  _CACHE[key] = r
  return r


_CACHE = {}


def _decide(bos, timeout_ms, order):
  for name in order:
    t0 = now()
    try:
      if name == 'ff':
        r, m = ffsolve.check(bos, timeout_ms)
        if r == 'unknown':
          r, m = _FFL.check(bos, timeout_ms)
      else:
        r, m = z3_check(_BVL if name == 'bv' else _INTL, bos, timeout_ms)
    except (Unsupported, ffsolve.Unsupported) as e:
      continue
    except (z3.Z3Exception, RuntimeError) as e:
      STATS.add(name, 'unknown', now() - t0)
      continue
    if r == 'sat':
      # the solver's model must satisfy the formula by our own evaluation
      ev = T.Evaluator(m)
      ok = True
      for b in bos:
        if not ev.bo(b):
          ok = False
          break
      if not ok:
        STATS.add(name, 'unknown', now() - t0)
        STATS.by['model-mismatch'] = STATS.by.get('model-mismatch', 0) + 1
        continue
    STATS.add(name, r, now() - t0)
    if r != 'unknown':
      return r, m
  return 'unknown', None
