"""A decision procedure for conjunctions over a prime field, by case split and
elimination: monomial factors are split, variables that occur linearly are
eliminated (splitting on a vanishing coefficient), and what is left without an
equation is satisfied by evaluation.

`unsat` is sound for any set of literals: literals that cannot be expressed
are dropped, variables range over the whole field.  A `sat` model is checked
by the caller against the original formula.
"""
import random
import time

from . import terms as T
from .terms import ATOMS, ZP

MAXTERMS = 4000
ROOTS = {}


class Unsupported(Exception):
  pass


class GiveUp(Exception):
  pass


# polynomials: dict  monomial -> coefficient,  monomial = tuple of (var, exp)
def padd(a, b, k, p):
  r = dict(a)
  for m, c in b.items():
    v = (r.get(m, 0) + k * c) % p
    if v:
      r[m] = v
    else:
      r.pop(m, None)
  return r


def mmul(a, b):
  if not a:
    return b
  if not b:
    return a
  d = dict(a)
  for v, e in b:
    d[v] = d.get(v, 0) + e
  return tuple(sorted(d.items()))


def pmul(a, b, p):
  if len(a) * len(b) > 200000:
    raise GiveUp
  r = {}
  for m1, c1 in a.items():
    for m2, c2 in b.items():
      m = mmul(m1, m2)
      v = (r.get(m, 0) + c1 * c2) % p
      if v:
        r[m] = v
      else:
        r.pop(m, None)
  if len(r) > MAXTERMS:
    raise GiveUp
  return r


def pvars(f):
  return {v for m in f for v, _ in m}


def split_var(f, v):
  """coefficients of the powers of v"""
  out = {}
  for m, c in f.items():
    e = 0
    rest = []
    for w, k in m:
      if w == v:
        e = k
      else:
        rest.append((w, k))
    out.setdefault(e, {})[tuple(rest)] = c
  return out


def peval(f, env, p):
  s = 0
  for m, c in f.items():
    t = c
    for v, e in m:
      t = t * pow(env[v], e, p) % p
    s += t
  return s % p


def pdivexact(f, g, p):
  """f / g when g divides f, else None"""
  gv = pvars(g)
  if not gv <= pvars(f):
    return None
  vs = sorted(pvars(f), reverse=True)
  order = lambda m: tuple(dict(m).get(v, 0) for v in vs)
  lg = max(g, key=order)
  dlg = dict(lg)
  il = pow(g[lg], -1, p)
  # degrees must fit
  for v in gv:
    if max(dict(m).get(v, 0) for m in f) < max(dict(m).get(v, 0) for m in g):
      return None
  q, r = {}, dict(f)
  for _ in range(2000):
    if not r:
      return q
    lr = max(r, key=order)
    d = dict(lr)
    for v, e in dlg.items():
      d[v] = d.get(v, 0) - e
      if d[v] < 0:
        return None
    m = tuple(sorted((v, e) for v, e in d.items() if e))
    c = r[lr] * il % p
    q[m] = c
    for mg, cg in g.items():
      mm = mmul(m, mg)
      x = (r.get(mm, 0) - c * cg) % p
      if x:
        r[mm] = x
      else:
        r.pop(mm, None)
  return None


def key(f, p):
  """canonical up to a unit"""
  m = max(f)
  i = pow(f[m], -1, p)
  return frozenset((mm, c * i % p) for mm, c in f.items())


def sqrtmod(a, p):
  """a square root modulo an odd prime, None for a non-residue (Tonelli-Shanks)"""
  a %= p
  if a == 0:
    return 0
  if pow(a, (p - 1) // 2, p) != 1:
    return None
  q, s = p - 1, 0
  while q % 2 == 0:
    q //= 2
    s += 1
  z = 2
  while pow(z, (p - 1) // 2, p) != p - 1:
    z += 1
  m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
  while t != 1:
    i, x = 0, t
    while x != 1:
      x = x * x % p
      i += 1
    b = pow(c, 1 << (m - i - 1), p)
    m, c = i, b * b % p
    t, r = t * c % p, r * b % p
  return r


def umod(a, b, p):
  """remainder of dense univariate polynomials, b monic"""
  a = list(a)
  n = len(b) - 1
  while len(a) > n:
    c = a.pop()
    if c:
      k = len(a) - n
      for i in range(n):
        a[k + i] = (a[k + i] - c * b[i]) % p
  while a and not a[-1]:
    a.pop()
  return a


def umonic(a, p):
  i = pow(a[-1], -1, p)
  return [x * i % p for x in a]


def umul(a, b, p):
  if not a or not b:
    return []
  r = [0] * (len(a) + len(b) - 1)
  for i, x in enumerate(a):
    if x:
      for j, y in enumerate(b):
        r[i + j] += x * y
  r = [x % p for x in r]
  while r and not r[-1]:
    r.pop()
  return r


def ugcd(a, b, p):
  while b:
    b = umonic(b, p)
    a, b = b, umod(a, b, p)
  return umonic(a, p) if a else a


def upow(a, n, f, p):
  r, a = [1], umod(a, f, p)
  while n:
    if n & 1:
      r = umod(umul(r, a, p), f, p)
    a = umod(umul(a, a, p), f, p)
    n >>= 1
  return r


def uroots(f, p, rnd):
  """all the roots in Z/p (p odd prime) of a dense univariate polynomial"""
  f = umonic(f, p)
  if len(f) - 1 > 64:
    raise GiveUp
  if p < 1000:
    return [x for x in range(p) if sum(c * pow(x, i, p) for i, c in enumerate(f)) % p == 0]
  if len(f) == 1:
    return []
  h = upow([0, 1], p, f, p)
  h = h + [0] * (2 - len(h))
  h[1] = (h[1] - 1) % p
  while h and not h[-1]:
    h.pop()
  g = ugcd(f, h, p) if h else f
  out = []

  def split(g):
    if len(g) == 1:
      return
    if len(g) == 2:
      out.append(-g[0] % p)
      return
    while True:
      t = upow([rnd.randrange(p), 1], (p - 1) // 2, g, p)
      t = t or [0]
      t[0] = (t[0] - 1) % p
      while t and not t[-1]:
        t.pop()
      if not t:
        continue
      d = ugcd(g, t, p)
      if 1 < len(d) < len(g):
        split(d)
        q, r = [], list(g)
        n = len(d) - 1
        while len(r) > n:
          c = r.pop()
          q.append(c)
          k = len(r) - n
          for i in range(n):
            r[k + i] = (r[k + i] - c * d[i]) % p
        split(q[::-1])
        return

  split(g)
  return sorted(out)


class Solver:

  def __init__(self, p, rnd, deadline):
    self.p = p
    self.rnd = rnd
    self.deadline = deadline
    self.branches = 0
    self.rootcache = ROOTS.setdefault(p, {})
    self.undecided = False

  # state: eqs, neqs (lists of polys), elim: list of (v, coeff, rest)
  def run(self, eqs, neqs, elim, choices):
    """returns a model generator result: dict or None (unsat branch)"""
    p = self.p
    self.branches += 1
    if self.branches > 4000 or time.time() > self.deadline:
      raise GiveUp
    eqs = [f for f in eqs]
    neqs = list(neqs)
    while True:
      # constants
      e2, seen = [], set()
      for f in eqs:
        if not f:
          continue
        if len(f) == 1 and () in f:
          return None
        k = key(f, p)
        if k not in seen:
          seen.add(k)
          e2.append(f)
      eqs = e2
      n2, nseen = [], set()
      for f in neqs:
        if not f:
          return None
        if len(f) == 1 and () in f:
          continue
        # common monomial content: split a product
        if len(f) == 1:
          (m, _), = f.items()
          for v, _e in m:
            g = {((v, 1),): 1}
            k = key(g, p)
            if k not in nseen:
              nseen.add(k)
              n2.append(g)
          continue
        k = key(f, p)
        if k not in nseen:
          nseen.add(k)
          n2.append(f)
      neqs = n2
      if seen & nseen:
        return None
      # factors known not to vanish
      again = False
      facs = [g for g in neqs if len(g) > 1]
      if facs:
        for lst in (eqs, neqs):
          for i, f in enumerate(lst):
            if len(f) < 2 or len(f) > 400:
              continue
            for g in facs:
              if g is f or f == g:
                continue
              q = pdivexact(f, g, p)
              if q is not None and not (lst is neqs and len(q) == 1 and () in q):
                f = q
                again = True
                break
            if again:
              lst[i] = f
              break
          if again:
            break
      if again:
        continue
      nz = {v for f in neqs if len(f) == 1 for m in f for v, _ in m}
      # monomial content of equations
      for i, f in enumerate(eqs):
        common = None
        if len(f) == 1:
          (m, _), = f.items()
          if len(m) == 1 and m[0][1] == 1:
            continue
        for m in f:
          d = dict(m)
          common = d if common is None else {v: min(e, d[v]) for v, e in common.items() if v in d}
          if not common:
            break
        if common:
          g = {}
          for m, c in f.items():
            d = dict(m)
            for v, e in common.items():
              d[v] -= e
            g[tuple(sorted((v, e) for v, e in d.items() if e))] = c
          cand = [v for v in common if v not in nz]
          rest = eqs[:i] + eqs[i + 1:]
          if not cand:
            eqs = rest + [g]
            break
          for v in cand:
            r = self.run(rest + [{((v, 1),): 1}], neqs, elim, choices)
            if r is not None:
              return r
            neqs = neqs + [{((v, 1),): 1}]
          return self.run(rest + [g], neqs, elim, choices)
      else:
        if not eqs:
          return self.model(neqs, elim)
        # eliminate a variable that occurs linearly
        best = None
        for i, f in enumerate(eqs):
          for v in pvars(f):
            s = split_var(f, v)
            if max(s) != 1:
              continue
            c = s[1]
            const = len(c) == 1 and () in c
            known = const or key(c, p) in nseen or (len(c) == 1 and all(w in nz for m in c for w, _ in m))
            cost = (not const, not known, len(c), len(f), sum(1 for g in eqs + neqs if v in pvars(g)))
            if best is None or cost < best[0]:
              best = (cost, i, v, c, s.get(0, {}), known)
        if best is None:
          return self.quadratic(eqs, neqs, elim, choices, nseen)
        _, i, v, c, r, known = best
        rest = eqs[:i] + eqs[i + 1:]
        if not known:
          m = self.run(rest + [c, r], neqs, elim, choices)
          if m is not None:
            return m
          neqs = neqs + [c]
        # v = -r / c
        sub = lambda g: self.subst(g, v, c, r)
        eqs = [sub(g) for g in rest]
        neqs = [sub(g) for g in neqs]
        elim = elim + [(v, c, r)]
        continue
      continue

  def quadratic(self, eqs, neqs, elim, choices, nseen):
    """complete the square in an equation a v^2 + b v + c whose discriminant is
    a constant times a monomial with even exponents"""
    p = self.p
    if p == 2:
      raise GiveUp
    for i, f in enumerate(eqs):
      for v in sorted(pvars(f)):
        s = split_var(f, v)
        if max(s) != 2:
          continue
        a, b, c = s[2], s.get(1, {}), s.get(0, {})
        if not (len(a) == 1 and () in a or key(a, p) in nseen):
          continue
        d = padd(pmul(b, b, p), pmul(a, c, p), -4, p)
        rest = eqs[:i] + eqs[i + 1:]
        lin = padd(b, pmul(a, {((v, 1),): 2}, p), 1, p)      # 2 a v + b
        if not d:
          return self.run(rest + [lin], neqs, elim, choices)
        if len(d) != 1:
          continue
        (m, k), = d.items()
        if any(e % 2 for _, e in m):
          continue
        r = {tuple((w, e // 2) for w, e in m): 1}
        q = sqrtmod(k, p)
        if q is None:
          # no square root: both sides vanish
          return self.run(rest + [lin, r], neqs, elim, choices)
        for sg in (q, -q):
          x = self.run(rest + [padd(lin, r, sg, p)], neqs, elim, choices)
          if x is not None:
            return x
        return None
    # an equation in one variable: branch over its roots
    for i, f in enumerate(eqs):
      vs = pvars(f)
      if len(vs) == 1:
        v, = vs
        for root in self.roots(f, v):
          x = self.run(eqs[:i] + eqs[i + 1:] + [{k: c for k, c in (((((v, 1),), 1), ((), -root % p))) if c}], neqs, elim, choices)
          if x is not None:
            return x
        return None
    # several variables: a model may be found by fixing all but one of them
    f = min(eqs, key=lambda f: (len(pvars(f)), len(f)))
    vs = sorted(pvars(f))
    for attempt in range(6):
      keep = self.rnd.choice(vs)
      fix = [{k: c for k, c in ((((v, 1),), 1), ((), -self.rnd.randint(*self.small(v)) % p)) if c} for v in vs if v != keep]
      x = self.run(fix + eqs, neqs, elim, choices)
      if x is not None:
        return x
    raise GiveUp

  def small(self, v):
    lo, hi = self.ranges.get(v, (0, self.p - 1))
    return lo, min(hi, lo + 50)

  def roots(self, f, v):
    s = split_var(f, v)
    dense = [0] * (max(s) + 1)
    for e, c in s.items():
      dense[e] = c[()]
    k = tuple(dense)
    if k not in self.rootcache:
      self.rootcache[k] = uroots(dense, self.p, self.rnd)
    return self.rootcache[k]

  def subst(self, g, v, c, r):
    s = split_var(g, v)
    d = max(s)
    if d == 0:
      return g
    p = self.p
    mr = {m: -x % p for m, x in r.items()}
    if len(c) == 1 and () in c:
      i = pow(c[()], -1, p)
      mr = {m: x * i % p for m, x in mr.items()}
      c = {(): 1}
    out = {}
    rp, cp = [{(): 1}], [{(): 1}]
    for _ in range(d):
      rp.append(pmul(rp[-1], mr, p))
      cp.append(pmul(cp[-1], c, p))
    for e, q in s.items():
      out = padd(out, pmul(pmul(q, rp[e], p), cp[d - e], p), 1, p)
    return out

  def model(self, neqs, elim):
    p = self.p
    free = set()
    for f in neqs:
      free |= pvars(f)
    for v, c, r in elim:
      free |= pvars(c) | pvars(r)
    free -= {v for v, _, _ in elim}
    free |= self.allvars - {v for v, _, _ in elim}
    for attempt in range(60):
      env = {}
      for v in sorted(free):
        lo, hi = self.ranges.get(v, (0, p - 1))
        if attempt < 20 and p > 1000:
          hi = min(hi, lo + 50)
        env[v] = self.rnd.randint(lo, hi) % p
      if any(peval(f, env, p) == 0 for f in neqs):
        continue
      ok = True
      for v, c, r in reversed(elim):
        cv = peval(c, env, p)
        if cv == 0:
          ok = False
          break
        x = -peval(r, env, p) * pow(cv, -1, p) % p
        lo, hi = self.ranges.get(v, (0, p - 1))
        if not (lo + (x - lo) % p <= hi):
          ok = False
          break
        env[v] = x
      if ok:
        return env
    # satisfiable over a larger field perhaps; no verdict
    self.undecided = True
    return None


def check(bos, timeout_ms):
  """('sat', model) | ('unsat', None) | ('unknown', None)"""
  acc, bacc = set(), set()
  for b in bos:
    T.atoms_of_bo(b, acc, bacc)
  ps = set()

  def find(b):
    if b.kind == 'eqm':
      ps.add(b.args[0])
    for x in b.args:
      if isinstance(x, T.Bo):
        find(x)

  for b in bos:
    find(b)
  for aid in acc:
    if ATOMS[aid].kind in ('mod', 'inv'):
      ps.add(ATOMS[aid].data[0])
  ps = [q for q in ps if q > 2 and T.isprime(q)]
  if not ps:
    raise Unsupported('no prime modulus')
  p = max(ps)
  ranges, allvars = {}, set()
  pend = []          # (inv var, poly)
  names = {}
  opaque = [False]
  nonzero = []       # variables whose range has no multiple of p

  def fresh(tag):
    names.setdefault(tag, tag)
    allvars.add(tag)
    return tag

  def atom(aid):
    a = ATOMS[aid]
    if a.kind == 'mod' and a.data[0] == p:
      return conv(a.data[1])
    tag = (0, aid)
    if tag not in allvars:
      fresh(tag)
      if a.kind == 'var':
        if a.lo is not None and a.hi is not None and a.hi - a.lo < p - 1:
          if a.lo // p * p < a.lo and a.lo // p == a.hi // p:
            nonzero.append({((tag, 1),): 1})
          if (a.lo - 1) % p or a.hi - a.lo != p - 2:
            ranges[tag] = (a.lo, a.hi)
      elif a.kind == 'inv' and a.data[0] == p:
        q = conv(a.data[1])
        pend.append((tag, q))
      else:
        opaque[0] = True
    return {((tag, 1),): 1}

  def conv(z):
    r = {}
    for m, c in z.t.items():
      if c % p == 0:
        continue
      t = {(): c % p}
      for i in range(0, len(m), 2):
        n = m[i + 1]
        x = atom(m[i])
        if n > 64:
          k = (p - 1 - n) % (p - 1)
          if k > 64:
            raise Unsupported('high power')
          if len(x) != 1 or () in x:
            raise Unsupported('high power of a polynomial')
          (mm, _), = x.items()
          tag = (1, mm[0][0][1])
          if tag not in allvars:
            fresh(tag)
            pend.append((tag, x))
          y = {((tag, 1),): 1}
          if k == 0:
            y = pmul(x, y, p)
            k = 1
          x, n = y, k
        for _ in range(n):
          t = pmul(t, x, p)
      r = padd(r, t, 1, p)
    return r

  # expand into branches of literals (depth first)
  deadline = time.time() + timeout_ms / 1000.0
  rnd = random.Random(12345)
  sv = Solver(p, rnd, deadline)
  sv.ranges = ranges
  sv.allvars = allvars
  dropped = [False]

  def literal(b, pos):
    """-> ('eq'|'ne', poly) or None when dropped"""
    k = b.kind
    if k == 'eqm':
      if b.args[0] != p:
        dropped[0] = True
        return None
      return ('eq' if pos else 'ne', conv(b.args[1]))
    if k == 'eq':
      d = b.args[0]
      lo, hi = d.rng()
      small = lo is not None and hi is not None and lo > -p and hi < p
      if pos:
        if not small:
          dropped[0] = True
        return ('eq', conv(d))
      if small:
        return ('ne', conv(d))
      dropped[0] = True
      return None
    dropped[0] = True
    return None

  budget = [3000]

  def go(work, eqs, neqs):
    budget[0] -= 1
    if budget[0] < 0 or time.time() > deadline:
      raise GiveUp
    work = list(work)
    eqs, neqs = list(eqs), list(neqs)
    ors = []
    while work:
      b, pos = work.pop()
      if b is T.TRUE or b is T.FALSE:
        if (b is T.TRUE) != pos:
          return None
      elif b.kind == 'not':
        work.append((b.args[0], not pos))
      elif b.kind == 'and':
        if pos:
          work.extend((x, True) for x in b.args)
        else:
          ors.append(b)
      else:
        l = literal(b, pos)
        if l is not None:
          (eqs if l[0] == 'eq' else neqs).append(l[1])
    if ors:
      ors.sort(key=lambda b: len(b.args))
      b = ors[0]
      done = []
      for x in b.args:
        r = go([(o, False) for o in ors[1:]] + [(x, False)] + done, eqs, neqs)
        if r is not None:
          return r
        done.append((x, True))
      return None
    return inverses(list(pend), 0, eqs, neqs)

  def inverses(ps_, i, eqs, neqs):
    if i == len(ps_):
      return sv.run(eqs, neqs, [], [])
    tag, q = ps_[i]
    y = {((tag, 1),): 1}
    r = inverses(ps_, i + 1, eqs + [padd(pmul(q, y, p), {(): 1}, -1, p)], neqs + [q])
    if r is not None:
      return r
    return inverses(ps_, i + 1, eqs + [q, y], neqs)

  try:
    # register every atom first, so that all inverses are known
    for b in bos:
      def walk(x):
        if x.kind in ('eqm', 'eq'):
          if x.kind == 'eq' or x.args[0] == p:
            conv(x.args[1] if x.kind == 'eqm' else x.args[0])
        for y in x.args:
          if isinstance(y, T.Bo):
            walk(y)
      walk(b)
    if len(pend) > 12:
      raise GiveUp
    env = go([(b, True) for b in bos], [], list(nonzero))
  except GiveUp:
    return 'unknown', None
  if env is None:
    return ('unknown', None) if sv.undecided else ('unsat', None)
  model = {}
  for tag, v in env.items():
    if tag[0] == 0 and ATOMS[tag[1]].kind == 'var':
      a = ATOMS[tag[1]]
      lo = a.lo if a.lo is not None else 0
      model[tag[1]] = lo + (v - lo) % p
  return 'sat', model
