"""Environment stand-ins shared by symbolic and concrete runs: the random
source, the clock and HTTP answer from the harness's environment when one asks
for it; everything else goes to the real thing."""
import sys
import types
from .env import STATE

_real = {}


def _env():
  e = STATE['env']
  return e


def install_common():
  import random
  import time
  for n in ('randint', 'randrange', 'getrandbits', 'choice', 'shuffle', 'sample', 'random',
            'choices', 'uniform'):
    _real[n] = getattr(random, n)
  _real['time'] = time.time

  def randint(a, b):
    e = _env()
    if e is None:
      return _real['randint'](a, b)
    if not e.symbolic and b < a or (e.symbolic and not _is_sym(a) and not _is_sym(b) and b < a):
      raise ValueError('empty range for randrange()')
    return e.draw(a, b)

  def randrange(a, b=None, step=1):
    e = _env()
    if e is None:
      return _real['randrange'](a, b, step) if b is not None else _real['randrange'](a)
    if b is None:
      a, b = 0, a
    if step == 1:
      return randint(a, b - 1)
    n = (b - a + step - 1) // step
    return a + step * e.draw(0, n - 1)

  def getrandbits(k):
    e = _env()
    return _real['getrandbits'](k) if e is None else e.draw(0, (1 << k) - 1)

  def choice(seq):
    e = _env()
    if e is None:
      return _real['choice'](seq)
    if len(seq) == 0:
      raise IndexError('Cannot choose from an empty sequence')
    return seq[e.concrete(e.draw(0, len(seq) - 1))]

  def choices(seq, weights=None, *, cum_weights=None, k=1):
    e = _env()
    if e is None:
      return _real['choices'](seq, weights, cum_weights=cum_weights, k=k)
    return [choice(seq) for _ in range(k)]

  def shuffle(x):
    e = _env()
    if e is None:
      return _real['shuffle'](x)
    for i in range(len(x) - 1, 0, -1):
      j = e.concrete(e.draw(0, i))
      x[i], x[j] = x[j], x[i]

  def sample(pop, k):
    e = _env()
    if e is None:
      return _real['sample'](pop, k)
    pool = list(pop)
    out = []
    for _ in range(k):
      out.append(pool.pop(e.concrete(e.draw(0, len(pool) - 1))))
    return out

  def rnd():
    e = _env()
    return _real['random']() if e is None else e.concrete(e.draw(0, 15)) / 16.0

  for n, f in (('randint', randint), ('randrange', randrange), ('getrandbits', getrandbits),
               ('choice', choice), ('shuffle', shuffle), ('sample', sample), ('random', rnd),
               ('choices', choices)):
    setattr(random, n, f)

  def clock():
    e = _env()
    if e is not None and e.clock is not None:
      return e.clock()
    return _real['time']()

  time.time = clock

  # HTTP
  req = types.ModuleType('requests')

  def get(url, *a, **k):
    e = _env()
    if e is None or e.http is None:
      raise RuntimeError('no HTTP in a check')
    return e.http(url)

  req.get = get
  req.exceptions = types.SimpleNamespace(RequestException=Exception)
  sys.modules['requests'] = req
  fl = types.ModuleType('flask')

  class Flask:

    def __init__(self, *a, **k):
      self.routes = {}

    def route(self, path, **k):

      def deco(f):
        self.routes[path] = f
        return f

      return deco

    def run(self, *a, **k):
      pass

  fl.Flask = Flask
  fl.jsonify = lambda x=None, **k: x
  fl.request = types.SimpleNamespace(get_json=lambda *a, **k: {})
  sys.modules['flask'] = fl


def _is_sym(x):
  return getattr(type(x), '_is_sym', False)


class Algo:

  def __init__(self, name, fn, size):
    self.name, self.fn, self.size = name, fn, size

  def real(self, data):
    return self.fn(data).digest()


def install_symbolic():
  """hash functions: collision-free uninterpreted functions on symbolic data"""
  import hashlib
  from . import core, sym
  from . import terms as T
  from .sym import SymBytes

  counter = {}
  oracle = {}

  def fixed(p, algo, items):
    """one fixed instance of the random oracle: different data gets different
    constants, data that is equal on this path the same one"""
    st = p.notes.get('oracle_state')
    if st is None:
      st = p.notes['oracle_state'] = [len(p.subst.map), {}, {}]    # substitutions, by data, by normalised data
    raw = (algo.name, items)
    d = st[1].get(raw)
    if d is not None:
      return d
    memo = {}

    def norm(key):
      out = []
      for t in key[1]:
        if type(t) is not int:
          z = memo.get(id(t[0]))
          if z is None:
            z = memo[id(t[0])] = p.subst.zp(t[0])
          t = (z.const() >> (8 * t[1])) & 255 if z.is_const() else (z, t[1], t[2])
        out.append(t)
      return key[0], tuple(out)

    if st[0] != len(p.subst.map):
      st[0] = len(p.subst.map)
      st[2] = {}
      for k, v in st[1].items():
        st[2].setdefault(norm(k), v)
    key = norm(raw)
    d = st[2].get(key)
    if d is None:
      if all(type(t) is int for t in key[1]):
        d = algo.real(bytes(key[1]))
      else:
        d = oracle.get(key)
        if d is None:
          d = oracle[key] = algo.real(b'oracle %s %d' % (str(p.notes['oracle']).encode(), len(oracle)))
      st[2][key] = d
    st[1][raw] = d
    return d

  def apply(algo, items):
    p = core.CUR
    if p is not None and p.notes.get('oracle'):
      return fixed(p, algo, tuple(items))
    if all(type(t) is int for t in items):
      raw = bytes(items)
      d = algo.real(raw)
      sym.REALHASH[d] = (algo, tuple(items))
      if p is not None and p.notes.get('hashed') is None:
        p.notes['hashed'] = set()
      if p is not None and (algo.name, raw) not in p.notes['hashed']:
        p.notes['hashed'].add((algo.name, raw))
        p.hashes.append((algo, tuple(items), T.zconst(int.from_bytes(d, 'big'))))
      return d
    key = (algo.name, tuple(items))
    z = counter.get(key)
    if z is None:
      z = T.zvar('%s!%d' % (algo.name, len(counter)), 0, (1 << (8 * algo.size)) - 1)
      counter[key] = z
      sym.HASH[z.single().id] = (algo, tuple(items))
    seen = p.notes.setdefault('happ', set())
    if key not in seen:
      seen.add(key)
      p.new_hash(algo, tuple(items), z)
    n = algo.size
    return sym.mkbytes([(z, k, n) for k in range(n - 1, -1, -1)])

  class H:

    def __init__(self, algo, data=b''):
      self.algo = algo
      self.items = tuple(sym.items_of(data))
      self.digest_size = algo.size

    def update(self, data):
      self.items += tuple(sym.items_of(data))

    def digest(self):
      return apply(self.algo, self.items)

    def hexdigest(self):
      d = self.digest()
      return d.hex()

    def copy(self):
      h = H(self.algo)
      h.items = self.items
      return h

  def mk(name, size):
    real = getattr(hashlib, name)
    algo = Algo(name, real, size)

    def f(data=b'', **k):
      if type(data) is sym.SymByteArray:
        data = data.frozen()
      if core.CUR is None or k:
        if isinstance(data, SymBytes) or type(data) is SymBytes:
          raise core.Abort('hash with parameters')
        return real(data, **k)
      if sym.items_of(data) is None:
        raise TypeError('object supporting the buffer API required')
      return H(algo, data)

    f.__name__ = name
    return f

  fns = {n: mk(n, s) for n, s in (('blake2s', 32), ('sha256', 32), ('sha384', 48), ('sha512', 64),
                                  ('sha1', 20), ('md5', 16), ('blake2b', 64), ('sha3_256', 32))}
  for n, f in fns.items():
    setattr(hashlib, n, f)
  realnew = hashlib.new
  hashlib.new = lambda name, data=b'', **k: fns[name](data, **k) if name in fns else realnew(name, data, **k)

  import struct
  struct.unpack = sym.struct_unpack(struct.unpack)

  import json
  real_dumps = json.dumps

  def dumps(obj, *, sort_keys=False, separators=None, **k):
    from . import shims
    if not _has_sym(obj):
      return real_dumps(obj, sort_keys=sort_keys, separators=separators, **k)
    isep, ksep = separators or (', ', ': ')
    return _ser(obj, sort_keys, isep, ksep)

  def _has_sym(o):
    if sym.is_sym(o):
      return True
    if isinstance(o, dict):
      return any(_has_sym(k) or _has_sym(v) for k, v in o.items())
    if isinstance(o, (list, tuple)):
      return any(_has_sym(v) for v in o)
    return False

  def _ser(o, sk, isep, ksep):
    from . import shims
    t = type(o)
    if t is sym.SymInt:
      return sym.int_to_str(o)
    if t is sym.SymStr:
      return shims.concat(['"', o, '"'])
    if t is sym.SymBool:
      return 'true' if bool(o) else 'false'
    if isinstance(o, dict):
      ks = list(o.keys())
      if sk:
        ks = sorted(ks)
      parts = []
      for k in ks:
        parts.append(shims.concat([_ser(k, sk, isep, ksep), ksep, _ser(o[k], sk, isep, ksep)]))
      return shims.concat(['{', sym.str_join(isep, parts), '}'])
    if isinstance(o, (list, tuple)):
      return shims.concat(['[', sym.str_join(isep, [_ser(v, sk, isep, ksep) for v in o]), ']'])
    return real_dumps(o)

  json.dumps = dumps
