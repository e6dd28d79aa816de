"""Environment of a symbolic run."""
from . import core, sym
from . import terms as T
from .env import BaseEnv, ConcEnv
from .sym import SymInt, SymBool, wrap, wrapb, to_b, to_z


class SymEnv(BaseEnv):
  symbolic = True

  def __init__(self, path):
    super().__init__()
    self.path = path
    self.names = {}

  def _missing(self, what):
    return core.ApiMissing(what)

  def fix_oracle(self, salt=1):
    self.path.notes['oracle'] = salt

  def int(self, name, lo, hi):
    if name in self.names:
      raise AssertionError('input %s declared twice' % name)
    zl, zh = (None if lo is None else to_z(lo)), (None if hi is None else to_z(hi))
    symb = (zl is not None and not zl.is_const()) or (zh is not None and not zh.is_const())
    if symb:
      l = zl.rng()[0] if zl is not None else None
      h = zh.rng()[1] if zh is not None else None
    else:
      l = None if zl is None else zl.const()
      h = None if zh is None else zh.const()
    z = T.zvar(name, l, h)
    self.names[name] = z
    self.path.inputs.append((name, 'int', z))
    v = wrap(z)
    if symb:
      if zl is not None:
        self.assume(v >= lo)
      if zh is not None:
        self.assume(v <= hi)
    return v

  def bytes(self, name, n):
    z = T.zvar(name, 0, (1 << (8 * n)) - 1) if n else T.ZERO
    v = sym.mkbytes([(z, k, n) for k in range(n - 1, -1, -1)])
    self.names[name] = z
    self.path.inputs.append((name, 'bytes', v))
    return v

  def concrete(self, x):
    if sym.is_sym(x):
      if type(x) is SymBool:
        return bool(x)
      return x.__index__()
    return x

  def assume(self, c):
    if sym.is_sym(c):
      self.path.assume(to_b(c))
    elif not c:
      raise core.Infeasible()

  def check(self, c, label, info=None):
    self.path.check(to_b(c), label, info)

  def eq(self, a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
      if len(a) != len(b):
        return False
      return self.all([self.eq(x, y) for x, y in zip(a, b)])
    r = a == b
    return r if sym.is_sym(r) else bool(r)

  def all(self, cs):
    return wrapb(T.band(*[to_b(c) for c in cs]))

  def any(self, cs):
    return wrapb(T.bor(*[to_b(c) for c in cs]))

  def implies(self, a, b):
    return wrapb(T.bimplies(to_b(a), to_b(b)))

  def iff(self, a, b):
    return wrapb(T.biff(to_b(a), to_b(b)))

  def not_(self, a):
    return wrapb(T.bnot(to_b(a)))

  def ite(self, c, a, b):
    c = to_b(c)
    if c is T.TRUE:
      return a
    if c is T.FALSE:
      return b
    return wrap(T.zite(c, to_z(a), to_z(b)))

  def field(self, p, small=64):
    """Z/p; for p > small the field inverse on a symbolic element is replaced
    by its contract (decided for the real code by the checks of C02)."""
    F = self.get('modp', 'IntegersModP')(p)
    if p > small and not getattr(F, '_se_inverse', False):
      real = F.inverse

      def inverse(x):
        n = type(x).__int__(x)
        if type(n) is SymInt:
          if n == 0:
            return real(F(0))
          return F(wrap(T.zinv(p, n.z)))
        return real(x)

      F.inverse = inverse
      F._se_inverse = True
    return F

  def bezout(self, p):
    """the Bezout factors of a symbolic element and the prime p are replaced by their contract"""
    m = self.mod('modp')
    real = getattr(m, 'extended_euclidean_algorithm', None)
    if real is None or getattr(real, '_se_contract', False):
      return

    def ext(a, b):
      if type(a) is SymInt and b == p:
        if a % p == 0:
          return (0, 1, p)
        x = wrap(T.zinv(p, a.z))
        return (x, (1 - a * x) // p, 1)
      if type(b) is SymInt and a == p:
        x, y, d = ext(b, a)
        return (y, x, d)
      return real(a, b)

    ext._se_contract = True
    m.extended_euclidean_algorithm = ext
