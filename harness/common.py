"""Large shapes with few unknowns: every place but the listed ones holds a fixed value."""


def fixed(n, p, seed=1):
  """n values in [0, p), the same on every run; now and then one is zero"""
  out = []
  x = (seed * 2654435761 + 97) % 2**64
  for k in range(n):
    v = 0
    for _ in range(1 + p.bit_length() // 48):
      x = (x * 6364136223846793005 + 1442695040888963407) % 2**64
      v = (v << 48) + (x >> 16)
    out.append(0 if x % 11 == 3 else v % p)
  return out


def sparse(env, name, n, p, free, seed=1, lo=0, hi=None):
  """the same with unknowns in the places `free` (negative ones count from the end)"""
  out = fixed(n, p, seed)
  for k in free:
    out[k] = env.int('%s%d' % (name, k % n), lo, p - 1 if hi is None else hi)
  return out


class Named:
  """the environment with its inputs renamed"""

  def __init__(self, env, pre):
    object.__setattr__(self, '_env', env)
    object.__setattr__(self, '_pre', pre)

  def __getattr__(self, name):
    return getattr(self._env, name)

  def __setattr__(self, name, value):
    setattr(self._env, name, value)

  def int(self, name, *a, **k):
    return self._env.int(self._pre + name, *a, **k)

  def bool(self, name, *a, **k):
    return self._env.bool(self._pre + name, *a, **k)

  def bytes(self, name, *a, **k):
    return self._env.bytes(self._pre + name, *a, **k)

  def ints(self, name, *a, **k):
    return self._env.ints(self._pre + name, *a, **k)

  def choice(self, name, *a, **k):
    return self._env.choice(self._pre + name, *a, **k)


def seq(env, steps):
  """one case after the other in the same process: nothing a call leaves behind changes a later one"""
  import importlib
  draw = env.draw
  for i, (module, fn, params) in enumerate(steps):
    f = getattr(importlib.import_module('harness.' + module), fn)
    f(Named(env, 'q%d_' % i), **params)
    env.draw = draw
