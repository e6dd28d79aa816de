"""What a harness sees.  The same harness body runs on symbolic inputs
(SymEnv, see symenv.py) and on the concrete inputs of a model (ConcEnv)."""
import importlib

STATE = {'env': None, 'clock': None}


class ApiMissing(Exception):
  """A public name the harness drives does not exist."""


class AssumeFailed(BaseException):
  pass


class CheckFailed(BaseException):

  def __init__(self, label, info=''):
    super().__init__(label)
    self.label = label
    self.info = info


class BaseEnv:
  symbolic = False

  def __init__(self):
    self.draws = 0
    self.max_draws = 10**9     # a harness may bound the use of the random source
    self.clock = None
    self.http = None

  # -- modules of the repository
  def mod(self, name):
    full = 'starks.' + name
    try:
      return importlib.import_module(full)
    except ModuleNotFoundError as e:
      if e.name and (e.name == full or e.name.startswith('starks')):
        raise self._missing('module %s' % name)
      raise

  def get(self, module, *names):
    m = self.mod(module)
    out = []
    for n in names:
      if not hasattr(m, n):
        raise self._missing('%s.%s' % (module, n))
      out.append(getattr(m, n))
    return out[0] if len(out) == 1 else out

  def _missing(self, what):
    return ApiMissing(what)

  def attr(self, obj, name):
    if not hasattr(obj, name):
      raise self._missing('%s of %s' % (name, type(obj).__name__))
    return getattr(obj, name)

  def fix_oracle(self, salt=1):
    """hash outputs of symbolic data become fixed constants (one oracle instance)"""

  # -- derived inputs
  def bool(self, name):
    return self.int(name, 0, 1) == 1

  def choice(self, name, seq):
    seq = list(seq)
    i = self.int(name, 0, len(seq) - 1)
    return seq[self.concrete(i)]

  def ints(self, name, n, lo, hi):
    return [self.int('%s%d' % (name, i), lo, hi) for i in range(n)]

  def draw(self, lo, hi):
    """one value of the environment's random source"""
    self.draws += 1
    if self.draws > self.max_draws:
      self.assume(False)
    return self.int('rnd%d' % self.draws, lo, hi)

  def check_eq(self, a, b, label, info=None):
    self.check(self.eq(a, b), label, info)

  def raises(self, fn, kinds=Exception):
    """whether fn() raises"""
    try:
      fn()
    except kinds:
      return True
    return False

  def poly(self, P, cs):
    return P(list(cs))


class ConcEnv(BaseEnv):

  def __init__(self, inputs):
    super().__init__()
    self.inputs = inputs
    self.checks = 0
    self.labels = []

  def int(self, name, lo, hi):
    v = self.inputs.get(name)
    if v is None:
      v = lo if lo is not None else (min(0, hi) if hi is not None else 0)
    v = int(v)
    if (lo is not None and v < lo) or (hi is not None and v > hi):
      raise AssumeFailed()
    return v

  def bytes(self, name, n):
    v = self.inputs.get(name)
    if v is None:
      return b'\0' * n
    if isinstance(v, str):
      v = bytes.fromhex(v)
    if len(v) != n:
      raise AssumeFailed()
    return v

  def concrete(self, x):
    return x

  def assume(self, c):
    if not c:
      raise AssumeFailed()

  def check(self, c, label, info=None):
    self.checks += 1
    self.labels.append(label)
    if not c:
      raise CheckFailed(label, '' if info is None else str(info))

  def eq(self, a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
      return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
    return bool(a == b)

  def all(self, cs):
    return all(bool(c) for c in cs)

  def any(self, cs):
    return any(bool(c) for c in cs)

  def implies(self, a, b):
    return (not a) or bool(b)

  def iff(self, a, b):
    return bool(a) == bool(b)

  def not_(self, a):
    return not a

  def ite(self, c, a, b):
    return a if c else b

  def bezout(self, p):
    pass

  def field(self, p, small=64):
    return self.get('modp', 'IntegersModP')(p)
