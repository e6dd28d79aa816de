"""Term layer of the symbolic executor.

Integer terms are polynomials over Z ("ZP") whose indeterminates are *atoms*:
input variables, `Q mod p`, `Q div d`, if-then-else, bit operations, hash
outputs and inverses.  `Q mod p` with a concrete p is kept in normal form (the
polynomial Q with coefficients in [0,p), earlier `mod p` results inlined and,
for prime p, exponents reduced by Fermat), so arithmetic in Z/p stays a
polynomial over the inputs.  Boolean terms are equalities, congruences and
strict inequalities over these, closed under not/and/or.
"""
import sys

sys.setrecursionlimit(20000)

CAP = 6000  # monomials; above it a `mod p` result stays an opaque atom

ATOMS = []
_ATOM_INTERN = {}


class Atom:
  __slots__ = ('id', 'kind', 'data', 'lo', 'hi')

  def __repr__(self):
    if self.kind == 'var':
      return self.data[0]
    return '%s#%d' % (self.kind, self.id)


def mk_atom(kind, data, lo, hi):
  key = (kind, data, lo, hi)
  a = _ATOM_INTERN.get(key)
  if a is None:
    a = Atom()
    a.id = len(ATOMS)
    a.kind, a.data, a.lo, a.hi = kind, data, lo, hi
    ATOMS.append(a)
    _ATOM_INTERN[key] = a
  return a


_PRIME = {}


def isprime(n):
  r = _PRIME.get(n)
  if r is None:
    r = _mr(n)
    _PRIME[n] = r
  return r


def _mr(n):
  if n < 2:
    return False
  small = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53)
  for q in small:
    if n % q == 0:
      return n == q
  d, s = n - 1, 0
  while d % 2 == 0:
    d //= 2
    s += 1
  for a in small:
    x = pow(a, d, n)
    if x in (1, n - 1):
      continue
    for _ in range(s - 1):
      x = x * x % n
      if x == n - 1:
        break
    else:
      return False
  return True


def mono_mul(a, b):
  if not a:
    return b
  if not b:
    return a
  out = []
  i = j = 0
  la, lb = len(a), len(b)
  while i < la and j < lb:
    if a[i] < b[j]:
      out.append(a[i]); out.append(a[i + 1]); i += 2
    elif a[i] > b[j]:
      out.append(b[j]); out.append(b[j + 1]); j += 2
    else:
      out.append(a[i]); out.append(a[i + 1] + b[j + 1]); i += 2; j += 2
  out.extend(a[i:])
  out.extend(b[j:])
  return tuple(out)


class ZP:
  """Polynomial over Z in the atoms."""
  __slots__ = ('t', '_k', '_r')

  def __init__(self, t):
    self.t = t
    self._k = None
    self._r = None

  def key(self):
    if self._k is None:
      self._k = frozenset(self.t.items())
    return self._k

  def __hash__(self):
    return hash(self.key())

  def __eq__(self, o):
    return isinstance(o, ZP) and self.t == o.t

  def is_const(self):
    t = self.t
    return not t or (len(t) == 1 and () in t)

  def const(self):
    return self.t.get((), 0)

  def rng(self):
    r = self._r
    if r is None:
      lo, hi = 0, 0
      for m, c in self.t.items():
        l, h = mono_rng(m)
        if c < 0:
          l, h = h, l
        if lo is not None:
          lo = None if l is None else lo + c * l
        if hi is not None:
          hi = None if h is None else hi + c * h
        if lo is None and hi is None:
          break
      r = self._r = (lo, hi)
    return r

  def single(self):
    """The atom, if this is exactly one atom with coefficient 1."""
    if len(self.t) == 1:
      (m, c), = self.t.items()
      if c == 1 and len(m) == 2 and m[1] == 1:
        return ATOMS[m[0]]
    return None

  def __repr__(self):
    if not self.t:
      return '0'
    out = []
    for m, c in sorted(self.t.items()):
      s = '*'.join('%r%s' % (ATOMS[m[i]], '' if m[i + 1] == 1 else '^%d' % m[i + 1])
                   for i in range(0, len(m), 2))
      out.append(str(c) if not s else (s if c == 1 else '%d*%s' % (c, s)))
      if len(out) > 12:
        out.append('...')
        break
    return ' + '.join(out)


def _mulb(a, b):
  if a is None or b is None:
    return None
  return a * b


_MR = {}


def mono_rng(m):
  r = _MR.get(m)
  if r is None:
    lo, hi = 1, 1
    for i in range(0, len(m), 2):
      a = ATOMS[m[i]]
      e = m[i + 1]
      al, ah = a.lo, a.hi
      if e > 64 and ah is not None and ah > 1:
        al, ah = (0 if (al is not None and al >= 0) else None), None
      elif e > 1:
        if al is None or ah is None:
          if al is not None and al >= 0:
            al, ah = al**e, None
          elif e % 2 == 0:
            al, ah = 0, None
          else:
            al, ah = None, None
        elif al >= 0:
          al, ah = al**e, ah**e
        elif e % 2 == 0:
          mx = max(al**e, ah**e)
          mn = 0 if al <= 0 <= ah else min(al**e, ah**e)
          al, ah = mn, mx
        else:
          al, ah = al**e, ah**e
      if lo is not None and lo >= 0 and al is not None and al >= 0:
        lo, hi = lo * al, (None if hi is None or ah is None else hi * ah)
      elif None in (lo, hi, al, ah):
        lo, hi = None, None
      else:
        c = (lo * al, lo * ah, hi * al, hi * ah)
        lo, hi = min(c), max(c)
    r = _MR[m] = (lo, hi)
  return r


def zconst(c):
  return ZP({(): c} if c else {})


ZERO = zconst(0)
ONE = zconst(1)


def zatom(a):
  return ZP({(a.id, 1): 1})


def zvar(name, lo=None, hi=None):
  if lo is not None and lo == hi:
    return zconst(lo)
  return zatom(mk_atom('var', (name,), lo, hi))


def zadd(a, b, k=1):
  """a + k*b"""
  if not b.t:
    return a
  t = dict(a.t)
  for m, c in b.t.items():
    v = t.get(m, 0) + k * c
    if v:
      t[m] = v
    else:
      t.pop(m, None)
  return ZP(t)


def zscale(a, k):
  if k == 0:
    return ZERO
  if k == 1:
    return a
  return ZP({m: c * k for m, c in a.t.items()})


def zmul(a, b):
  if a.is_const():
    return zscale(b, a.const())
  if b.is_const():
    return zscale(a, b.const())
  t = {}
  for m1, c1 in a.t.items():
    for m2, c2 in b.t.items():
      m = mono_mul(m1, m2)
      v = t.get(m, 0) + c1 * c2
      if v:
        t[m] = v
      else:
        t.pop(m, None)
  return ZP(t)


class TooBig(Exception):
  pass


def _nonzero_mod(aid, p):
  a = ATOMS[aid]
  return a.lo is not None and a.hi is not None and a.lo % p and a.lo // p == a.hi // p


def _fermat(m, p):
  for i in range(1, len(m), 2):
    if m[i] >= p - 1:
      break
  else:
    return m
  l = []
  for i in range(0, len(m), 2):
    n = m[i + 1]
    if n >= p - 1:
      if _nonzero_mod(m[i], p):
        n %= p - 1
        if not n:
          continue
      elif n >= p:
        n = (n - 1) % (p - 1) + 1
    l += [m[i], n]
  return tuple(l)


def _mulmod(a, b, p, prime):
  """dicts"""
  if len(a) * len(b) > CAP * 40:
    raise TooBig
  t = {}
  for m1, c1 in a.items():
    for m2, c2 in b.items():
      m = mono_mul(m1, m2)
      if prime:
        m = _fermat(m, p)
      v = (t.get(m, 0) + c1 * c2) % p
      if v:
        t[m] = v
      else:
        t.pop(m, None)
  if len(t) > CAP:
    raise TooBig
  return t


_EXPAND = {}


def _expand_atom_mod(aid, p):
  """dict polynomial mod p equal to atom aid mod p (inlining mod atoms)"""
  a = ATOMS[aid]
  if a.kind == 'mod' and a.data[0] % p == 0:
    k = (aid, p)
    r = _EXPAND.get(k)
    if r is None:
      r = _EXPAND[k] = reduce_poly(a.data[1], p).t
    return r
  if a.kind == 'ite':
    # both sides may be the same residue (a conditional subtraction of the modulus)
    k = (aid, p)
    if k in _EXPAND:
      return _EXPAND[k]
    x, y = reduce_poly(a.data[1], p), reduce_poly(a.data[2], p)
    r = _EXPAND[k] = x.t if x == y else None
    return r
  return None


def reduce_poly(q, p):
  """Normal form of q modulo p, as a ZP with coefficients in [1,p)."""
  prime = isprime(p)
  out = {}
  for m, c in q.t.items():
    c %= p
    if not c:
      continue
    expand = None
    for i in range(0, len(m), 2):
      e = _expand_atom_mod(m[i], p)
      if e is not None:
        expand = True
        break
    if not expand:
      if prime:
        m = _fermat(m, p)
      v = (out.get(m, 0) + c) % p
      if v:
        out[m] = v
      else:
        out.pop(m, None)
      continue
    acc = {(): c}
    for i in range(0, len(m), 2):
      e = _expand_atom_mod(m[i], p)
      if e is None:
        mm = (m[i], m[i + 1])
        e = {mm: 1}
        acc = _mulmod(acc, e, p, prime)
      else:
        n = m[i + 1]
        if prime and n >= p:
          n = (n - 1) % (p - 1) + 1
        if n == 1:
          acc = _mulmod(acc, e, p, prime)
        else:
          sq = e
          first = True
          while n:
            if n & 1:
              acc = _mulmod(acc, sq, p, prime)
            n >>= 1
            if n:
              sq = _mulmod(sq, sq, p, prime)
    for mm, cc in acc.items():
      v = (out.get(mm, 0) + cc) % p
      if v:
        out[mm] = v
      else:
        out.pop(mm, None)
    if len(out) > CAP:
      raise TooBig
  return ZP(out)


def zmod(q, p):
  """q mod p for concrete p > 0"""
  if p == 1:
    return ZERO
  if q.is_const():
    return zconst(q.const() % p)
  lo, hi = q.rng()
  if lo is not None and hi is not None and 0 <= lo and hi < p:
    return q
  try:
    r = reduce_poly(q, p)
  except TooBig:
    t = {}
    for m, c in q.t.items():
      c %= p
      if c:
        t[m] = c
    r = ZP(t)
  if r.is_const():
    return zconst(r.const() % p)
  lo, hi = r.rng()
  if lo is not None and hi is not None and 0 <= lo and hi < p:
    return r
  return zatom(mk_atom('mod', (p, r), 0, p - 1))


def zfloordiv(n, d):
  """floor(n / d), concrete d != 0"""
  if d < 0:
    return zfloordiv(zscale(n, -1), -d)
  if d == 1:
    return n
  if n.is_const():
    return zconst(n.const() // d)
  q, r = {}, {}
  for m, c in n.t.items():
    a, b = divmod(c, d)
    # keep small negative coefficients symmetric only when exact
    if b == 0:
      q[m] = a
    else:
      if a and m != ():
        q[m] = a
      elif a:
        q[m] = a
      r[m] = b
  q, r = ZP(q), ZP(r)
  lo, hi = r.rng()
  if lo is not None and hi is not None and lo // d == hi // d:
    return zadd(q, zconst(lo // d))
  s = r.single()
  if s is not None and s.kind == 'div':
    return zadd(q, zfloordiv(s.data[0], s.data[1] * d))
  a = mk_atom('div', (r, d), None if lo is None else lo // d,
              None if hi is None else hi // d)
  return zadd(q, zatom(a))


def zgmod(n, d):
  """python n % d, symbolic d (caller ensures d != 0)"""
  if d.is_const():
    return zmod(n, d.const()) if d.const() > 0 else zscale(zmod(zscale(n, -1), -d.const()), -1)
  dl, dh = d.rng()
  nl, nh = n.rng()
  if dl is not None and dl > 0:
    if nl is not None and nl >= 0 and nh is not None and nh < dl:
      return n
    hi = None if dh is None else dh - 1
    if nl is not None and nl >= 0 and nh is not None:
      hi = nh if hi is None else min(hi, nh)
    lo = 0
  elif dh is not None and dh < 0:
    lo, hi = (None if dl is None else dl + 1), 0
  else:
    lo = None if dl is None else min(0, dl + 1)
    hi = None if dh is None else max(0, dh - 1)
  return zatom(mk_atom('gmod', (n, d), lo, hi))


def zgdiv(n, d):
  if d.is_const():
    return zfloordiv(n, d.const())
  nl, nh = n.rng()
  dl, dh = d.rng()
  lo = hi = None
  if nl is not None and nh is not None:
    m = max(abs(nl), abs(nh))
    lo, hi = -m, m
    if nl >= 0 and dl is not None and dl >= 0:
      lo = 0
      hi = nh // max(dl, 1)
  return zatom(mk_atom('gdiv', (n, d), lo, hi))


def zbit(op, a, b):
  al, ah = a.rng()
  bl, bh = b.rng()
  if a.is_const() and b.is_const():
    x, y = a.const(), b.const()
    return zconst(x & y if op == 'and' else x | y if op == 'or' else x ^ y)
  nn = al is not None and al >= 0 and bl is not None and bl >= 0
  if op == 'and':
    for x, y in ((a, b), (b, a)):
      if y.is_const():
        c = y.const()
        if c == 0:
          return ZERO
        if c > 0:
          if c & (c + 1) == 0:
            return zmod(x, c + 1)
          if c & (c - 1) == 0:
            return zscale(zmod(zfloordiv(x, c), 2), c)
          # general constant mask: sum of bits/runs
          out = ZERO
          i = 0
          while c >> i:
            if (c >> i) & 1:
              j = i
              while (c >> j) & 1:
                j += 1
              out = zadd(out, zscale(zmod(zfloordiv(x, 1 << i), 1 << (j - i)), 1 << i))
              i = j
            else:
              i += 1
          return out
    if a == b:
      return a
  if nn and ah is not None and bh is not None and ah <= 1 and bh <= 1:
    ab = zmul(a, b)
    if a == b:
      return ZERO if op == 'xor' else a
    if op == 'and':
      return ab
    if op == 'or':
      return zadd(zadd(a, b), ab, -1)
    return zmod(zadd(a, b), 2)
  if op == 'xor':
    # (a+b) - 2(a&b)
    if a == b:
      return ZERO
    if a.is_const() or b.is_const():
      return zadd(zadd(a, b), zbit('and', a, b), -2)
  if op == 'or':
    if a == b:
      return a
    if a.is_const() or b.is_const():
      return zadd(zadd(a, b), zbit('and', a, b), -1)
  if not nn:
    raise NotImplementedError('bit operation on a possibly negative symbolic int')
  if ah is None or bh is None:
    hi = None
  else:
    hi = (1 << max(ah.bit_length(), bh.bit_length())) - 1
    if op == 'and':
      hi = min(ah, bh)
  if repr(a.key()) > repr(b.key()):
    a, b = b, a
  return zatom(mk_atom(op, (a, b), 0, hi))


def zite(c, a, b):
  if c is TRUE:
    return a
  if c is FALSE:
    return b
  if a == b:
    return a
  al, ah = a.rng()
  bl, bh = b.rng()
  lo = None if al is None or bl is None else min(al, bl)
  hi = None if ah is None or bh is None else max(ah, bh)
  return zatom(mk_atom('ite', (c, a, b), lo, hi))


def zinv(p, q):
  """inverse of q modulo prime p (0 when q is 0)"""
  q = reduce_poly(q, p)
  if q.is_const():
    return zconst(pow(q.const(), p - 2, p) if p > 2 else q.const() % p)
  # a monomial c*x^e...: exponent arithmetic
  if len(q.t) == 1:
    (m, c), = q.t.items()
    l = list(m)
    for i in range(1, len(l), 2):
      e = (-l[i]) % (p - 1)
      l[i] = e if e else p - 1
    return zmod(ZP({tuple(l): pow(c, -1, p)}), p)
  return zatom(mk_atom('inv', (p, q), 0, p - 1))


# ---------------------------------------------------------------- booleans
class Bo:
  __slots__ = ('kind', 'args', 'id')

  def __repr__(self):
    if self.kind in 'TF':
      return self.kind
    return '%s%r' % (self.kind, self.args)


_BO = {}


def _bo(kind, *args):
  k = (kind,) + args
  b = _BO.get(k)
  if b is None:
    b = Bo()
    b.kind, b.args, b.id = kind, args, len(_BO)
    _BO[k] = b
  return b


TRUE = _bo('T')
FALSE = _bo('F')


def mkbool(v):
  return TRUE if v else FALSE


def bnot(b):
  if b is TRUE:
    return FALSE
  if b is FALSE:
    return TRUE
  if b.kind == 'not':
    return b.args[0]
  return _bo('not', b)


def band(*bs):
  s = []
  seen = set()
  for b in bs:
    for x in (b.args if b.kind == 'and' else (b,)):
      if x is FALSE:
        return FALSE
      if x is TRUE or x.id in seen:
        continue
      seen.add(x.id)
      s.append(x)
  for x in s:
    if x.kind == 'not' and x.args[0].id in seen:
      return FALSE
  if not s:
    return TRUE
  if len(s) == 1:
    return s[0]
  return _bo('and', *s)


def bor(*bs):
  return bnot(band(*[bnot(b) for b in bs]))


def bimplies(a, b):
  return bor(bnot(a), b)


def biff(a, b):
  if a is b:
    return TRUE
  if a is TRUE:
    return b
  if b is TRUE:
    return a
  if a is FALSE:
    return bnot(b)
  if b is FALSE:
    return bnot(a)
  return band(bimplies(a, b), bimplies(b, a))


def _modview(z):
  """(p, Q) if z is exactly a `mod p` atom"""
  s = z.single()
  if s is not None and s.kind in ('mod', 'inv'):
    return s.data[0], (s.data[1] if s.kind == 'mod' else z)
  return None


def mk_eqmod(p, q):
  """q ≡ 0 (mod p)"""
  if p == 1:
    return TRUE
  if q.is_const():
    return mkbool(q.const() % p == 0)
  try:
    q = reduce_poly(q, p)
  except TooBig:
    return _bo('eqm', p, q)
  if q.is_const():
    return mkbool(q.const() % p == 0)
  lo, hi = q.rng()
  if lo is not None and hi is not None and lo > 0 and hi < p:
    return FALSE
  if isprime(p):
    # scale so that the largest monomial has coefficient 1
    m = max(q.t)
    c = q.t[m]
    if c != 1:
      ci = pow(c, -1, p)
      q = ZP({mm: cc * ci % p for mm, cc in q.t.items()})
    # a product is zero only if a factor is
    if len(q.t) == 1 and len(m) > 2:
      return bor(*[mk_eqmod(p, ZP({(m[i], 1): 1})) for i in range(0, len(m), 2)])
    # single atom  x - c ≡ 0 with x already in [0,p)
    if len(q.t) == 1 and len(m) == 2:
      a = ATOMS[m[0]]
      if a.lo is not None and a.lo >= 0 and a.hi is not None and a.hi < p:
        return _eq0(ZP({(m[0], 1): 1}))
    if len(q.t) == 2 and () in q.t and len(m) == 2 and m[1] == 1:
      a = ATOMS[m[0]]
      if a.lo is not None and a.lo >= 0 and a.hi is not None and a.hi < p:
        c = (-q.t[()]) % p
        if not (a.lo <= c <= a.hi):
          return FALSE
        return _eq0(ZP({m: 1, (): -c} if c else {m: 1}))
  return _bo('eqm', p, q)


def _eq0(d):
  """canonical  d == 0  without modular view"""
  if d.is_const():
    return mkbool(d.const() == 0)
  lo, hi = d.rng()
  if (lo is not None and lo > 0) or (hi is not None and hi < 0):
    return FALSE
  m = max(d.t)
  if d.t[m] < 0:
    d = zscale(d, -1)
  from math import gcd
  g = 0
  for mm, c in d.t.items():
    if mm != ():
      g = gcd(g, abs(c))
  if g > 1:
    c0 = d.t.get((), 0)
    if c0 % g:
      return FALSE
    d = ZP({mm: c // g for mm, c in d.t.items()})
  return _bo('eq', d)


def mk_eq(a, b):
  d = zadd(a, b, -1)
  if d.is_const():
    return mkbool(d.const() == 0)
  # find a prime-field view: every value is congruent to its class and the
  # difference is smaller than p in absolute value
  p = None
  for m in d.t:
    for i in range(0, len(m), 2):
      at = ATOMS[m[i]]
      if at.kind == 'mod' or at.kind == 'inv':
        p = at.data[0]
        break
      if at.kind == 'ite':
        pass
    if p:
      break
  if p is not None:
    lo, hi = d.rng()
    if lo is not None and hi is not None and lo > -p and hi < p:
      return mk_eqmod(p, d)
  # push equality with a constant through ite
  if len(d.t) <= 2:
    for m, c in d.t.items():
      if len(m) == 2 and m[1] == 1 and abs(c) == 1:
        at = ATOMS[m[0]]
        if at.kind == 'ite':
          rest = {mm: cc for mm, cc in d.t.items() if mm != m}
          if all(mm == () for mm in rest):
            cval = zconst(-rest.get((), 0) * c)
            cc, x, y = at.data
            if x.is_const() or y.is_const():
              return bor(band(cc, mk_eq(x, cval)), band(bnot(cc), mk_eq(y, cval)))
  return _eq0(d)


def mk_lt(a, b):
  d = zadd(a, b, -1)
  lo, hi = d.rng()
  if hi is not None and hi < 0:
    return TRUE
  if lo is not None and lo >= 0:
    return FALSE
  return _bo('lt', d)


# ---------------------------------------------------------------- evaluation
class Evaluator:
  """Concrete evaluation under a model {var atom id: int}."""

  def __init__(self, model):
    self.m = model
    self.ca = {}
    self.cb = {}

  def atom(self, aid):
    v = self.ca.get(aid)
    if v is not None:
      return v
    a = ATOMS[aid]
    k = a.kind
    if k == 'var':
      v = self.m.get(aid)
      if v is None:
        v = a.lo if a.lo is not None else (min(0, a.hi) if a.hi is not None else 0)
    elif k == 'mod':
      v = self.zp_mod(a.data[1], a.data[0])
    elif k == 'div':
      v = self.zp(a.data[0]) // a.data[1]
    elif k == 'gmod':
      d = self.zp(a.data[1])
      v = self.zp(a.data[0]) % d if d else 0
    elif k == 'gdiv':
      d = self.zp(a.data[1])
      v = self.zp(a.data[0]) // d if d else 0
    elif k == 'and':
      v = self.zp(a.data[0]) & self.zp(a.data[1])
    elif k == 'or':
      v = self.zp(a.data[0]) | self.zp(a.data[1])
    elif k == 'xor':
      v = self.zp(a.data[0]) ^ self.zp(a.data[1])
    elif k == 'ite':
      v = self.zp(a.data[1]) if self.bo(a.data[0]) else self.zp(a.data[2])
    elif k == 'inv':
      p = a.data[0]
      x = self.zp_mod(a.data[1], p)
      v = pow(x, -1, p) if x else 0
    else:
      raise NotImplementedError(k)
    self.ca[aid] = v
    return v

  def zp(self, z):
    s = 0
    for m, c in z.t.items():
      for i in range(0, len(m), 2):
        e = m[i + 1]
        v = self.atom(m[i])
        c *= v if e == 1 else v**e
      s += c
    return s

  def zp_mod(self, z, p):
    s = 0
    for m, c in z.t.items():
      for i in range(0, len(m), 2):
        e = m[i + 1]
        v = self.atom(m[i])
        c = c * (v if e == 1 else pow(v, e, p)) % p
      s += c
    return s % p

  def bo(self, b):
    v = self.cb.get(b.id)
    if v is not None:
      return v
    k = b.kind
    if k == 'T':
      v = True
    elif k == 'F':
      v = False
    elif k == 'not':
      v = not self.bo(b.args[0])
    elif k == 'and':
      v = all(self.bo(x) for x in b.args)
    elif k == 'eq':
      v = self.zp(b.args[0]) == 0
    elif k == 'eqm':
      v = self.zp_mod(b.args[1], b.args[0]) == 0
    elif k == 'lt':
      v = self.zp(b.args[0]) < 0
    else:
      raise NotImplementedError(k)
    self.cb[b.id] = v
    return v


# ---------------------------------------------------------------- structure
def atoms_of_zp(z, acc, bacc):
  for m in z.t:
    for i in range(0, len(m), 2):
      aid = m[i]
      if aid in acc:
        continue
      acc.add(aid)
      for d in ATOMS[aid].data:
        if isinstance(d, ZP):
          atoms_of_zp(d, acc, bacc)
        elif isinstance(d, Bo):
          atoms_of_bo(d, acc, bacc)


def atoms_of_bo(b, acc, bacc):
  if b.id in bacc:
    return
  bacc.add(b.id)
  for x in b.args:
    if isinstance(x, Bo):
      atoms_of_bo(x, acc, bacc)
    elif isinstance(x, ZP):
      atoms_of_zp(x, acc, bacc)


class Subst:
  """Substitution var-atom -> ZP applied structurally (with memo)."""

  def __init__(self):
    self.map = {}
    self._reset()

  def _reset(self):
    self.ma = {}
    self.mb = {}

  def add(self, aid, z):
    self.map[aid] = z
    self._reset()

  def atom(self, aid):
    r = self.ma.get(aid, 0)
    if r != 0:
      return r
    a = ATOMS[aid]
    r = None
    if aid in self.map:
      r = self.zp(self.map[aid])
    elif a.kind == 'var':
      r = None
    else:
      new = []
      ch = False
      for d in a.data:
        if isinstance(d, ZP):
          n = self.zp(d, a.data[0] if a.kind in ('mod', 'inv') else None)
        elif isinstance(d, Bo):
          n = self.bo(d)
        else:
          n = d
        if n is not d and n != d:
          ch = True
        new.append(n)
      if ch:
        k = a.kind
        if k == 'mod':
          r = zmod(new[1], new[0])
        elif k == 'div':
          r = zfloordiv(new[0], new[1])
        elif k == 'gmod':
          if new[1].is_const() and new[1].const() == 0:
            r = ZERO
          else:
            r = zgmod(*new)
        elif k == 'gdiv':
          if new[1].is_const() and new[1].const() == 0:
            r = ZERO
          else:
            r = zgdiv(*new)
        elif k in ('and', 'or', 'xor'):
          r = zbit(k, *new)
        elif k == 'ite':
          r = zite(*new)
        elif k == 'inv':
          r = zinv(*new)
        else:
          raise NotImplementedError(k)
    self.ma[aid] = r
    return r

  def zp(self, z, p=None):
    hit = False
    for m in z.t:
      for i in range(0, len(m), 2):
        if self.atom(m[i]) is not None:
          hit = True
          break
      if hit:
        break
    if not hit:
      return z
    out = ZERO
    keep = {}
    for m, c in z.t.items():
      acc = None
      rest = ()
      for i in range(0, len(m), 2):
        s = self.atom(m[i])
        if s is None:
          rest += (m[i], m[i + 1])
        else:
          e = m[i + 1]
          if s.is_const():
            f = zconst(pow(s.const(), e, p) if p else s.const()**e)
            acc = f if acc is None else zmul(acc, f)
          elif e > 64:
            if p and isprime(p) and (p - 1 - e) % (p - 1) <= 64:
              f = zinv(p, s)
              for _ in range((p - 1 - e) % (p - 1)):
                acc = f if acc is None else zmul(acc, f)
            else:
              rest += (m[i], e)
          else:
            for _ in range(e):
              acc = s if acc is None else zmul(acc, s)
      if acc is None:
        keep[m] = c
      else:
        out = zadd(out, zmul(acc, ZP({rest: c})))
    return zadd(out, ZP(keep))

  def bo(self, b):
    r = self.mb.get(b.id)
    if r is not None:
      return r
    k = b.kind
    if k in 'TF':
      r = b
    elif k == 'not':
      r = bnot(self.bo(b.args[0]))
    elif k == 'and':
      r = band(*[self.bo(x) for x in b.args])
    elif k == 'eq':
      z = self.zp(b.args[0])
      r = b if z is b.args[0] else mk_eq(z, ZERO)
    elif k == 'eqm':
      z = self.zp(b.args[1], b.args[0])
      r = b if z is b.args[1] else mk_eqmod(b.args[0], z)
    elif k == 'lt':
      z = self.zp(b.args[0])
      r = b if z is b.args[0] else mk_lt(z, ZERO)
    self.mb[b.id] = r
    return r
