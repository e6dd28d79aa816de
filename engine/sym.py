"""Symbolic stand-ins for Python's int, bool, bytes and str."""
import builtins
from . import terms as T
from . import core
from .terms import ZP, ATOMS

_int, _bool, _bytes, _str = int, bool, bytes, str


def cur():
  p = core.CUR
  if p is None:
    raise RuntimeError('symbolic value used outside a path')
  return p


def to_z(x):
  """ZP of an int-like, or None"""
  t = type(x)
  if t is SymInt:
    return x.z
  if t is _int:
    return T.zconst(x)
  if t is _bool:
    return T.zconst(_int(x))
  if t is SymBool:
    return T.zite(x.b, T.ONE, T.ZERO)
  if isinstance(x, _int) and not getattr(t, '_is_sym', False):
    return T.zconst(_int(x))
  return None


def wrap(z, r=None):
  if z.is_const():
    return z.const()
  return SymInt(z, r)


def wrapb(b, eq=None):
  if b is T.TRUE:
    return True
  if b is T.FALSE:
    return False
  return SymBool(b)


def to_b(x):
  t = type(x)
  if t is SymBool:
    return x.b
  if t is _bool:
    return T.mkbool(x)
  if t is SymInt:
    return T.bnot(T.mk_eq(x.z, T.ZERO))
  return T.mkbool(_bool(x))


class SymBool:
  __slots__ = ('b',)
  _is_sym = True

  def __init__(self, b):
    self.b = b

  __class__ = property(lambda self: _bool)

  def __bool__(self):
    return cur().branch(self.b)

  def __repr__(self):
    return '<sym bool>'

  def __hash__(self):
    return hash(_bool(self))

  def __eq__(self, o):
    if isinstance(o, (_int, SymInt)):
      if type(o) is _bool or type(o) is SymBool:
        return wrapb(T.biff(self.b, to_b(o)))
      return SymInt(to_z(self)) == o
    return NotImplemented

  def __ne__(self, o):
    r = self.__eq__(o)
    if r is NotImplemented:
      return r
    return wrapb(T.bnot(to_b(r)))

  def __and__(self, o):
    if type(o) in (_bool, SymBool):
      return wrapb(T.band(self.b, to_b(o)))
    return SymInt(to_z(self)) & o

  def __or__(self, o):
    if type(o) in (_bool, SymBool):
      return wrapb(T.bor(self.b, to_b(o)))
    return SymInt(to_z(self)) | o

  def __xor__(self, o):
    if type(o) in (_bool, SymBool):
      return wrapb(T.bnot(T.biff(self.b, to_b(o))))
    return SymInt(to_z(self)) ^ o

  __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

  def __index__(self):
    return _int(_bool(self))

  __int__ = __index__

  def _i(self):
    return SymInt(to_z(self))

  def __add__(self, o):
    return self._i() + o

  def __radd__(self, o):
    return o + self._i()

  def __sub__(self, o):
    return self._i() - o

  def __rsub__(self, o):
    return o - self._i()

  def __mul__(self, o):
    return self._i() * o

  __rmul__ = __mul__

  def __neg__(self):
    return -self._i()

  def __lt__(self, o):
    return self._i() < o

  def __le__(self, o):
    return self._i() <= o

  def __gt__(self, o):
    return self._i() > o

  def __ge__(self, o):
    return self._i() >= o

  def __invert__(self):
    return ~self._i()


def _nonzero_or_raise(z):
  b = T.mk_eq(z, T.ZERO)
  if b is T.TRUE or (b is not T.FALSE and cur().branch(b)):
    raise ZeroDivisionError('integer division or modulo by zero')


def rawof(x):
  """un-normalised expression of an int-like operand"""
  if type(x) is SymInt:
    return x.r if x.r is not None else x.z
  if type(x) is SymBool:
    return to_z(x)
  return x


class SymInt:
  """z: normal form;  r: the expression as computed (None: same as z)"""
  __slots__ = ('z', 'r')
  _is_sym = True

  def __init__(self, z, r=None):
    self.z = z
    self.r = r

  __class__ = property(lambda self: _int)

  # -- arithmetic
  def __add__(self, o):
    y = to_z(o)
    if y is None:
      return NotImplemented
    return wrap(T.zadd(self.z, y), ('+', rawof(self), rawof(o)))

  __radd__ = __add__

  def __sub__(self, o):
    y = to_z(o)
    if y is None:
      return NotImplemented
    return wrap(T.zadd(self.z, y, -1), ('-', rawof(self), rawof(o)))

  def __rsub__(self, o):
    y = to_z(o)
    if y is None:
      return NotImplemented
    return wrap(T.zadd(y, self.z, -1), ('-', rawof(o), rawof(self)))

  def __mul__(self, o):
    y = to_z(o)
    if y is None:
      if isinstance(o, (list, tuple, _str, _bytes)):
        return o * self.__index__()
      return NotImplemented
    return wrap(zmul_lazy(self.z, y), ('*', rawof(self), rawof(o)))

  __rmul__ = __mul__

  def __neg__(self):
    return wrap(T.zscale(self.z, -1), ('-', 0, rawof(self)))

  def __pos__(self):
    return self

  def __abs__(self):
    lo, hi = self.z.rng()
    if lo is not None and lo >= 0:
      return self
    if self < 0:
      return -self
    return self

  def __mod__(self, o):
    y = to_z(o)
    if y is None:
      return NotImplemented
    return _mod(self.z, y, rawof(self))

  def __rmod__(self, o):
    y = to_z(o)
    if y is None:
      return NotImplemented
    return _mod(y, self.z)

  def __floordiv__(self, o):
    y = to_z(o)
    if y is None:
      return NotImplemented
    return _fdiv(self.z, y)

  def __rfloordiv__(self, o):
    y = to_z(o)
    if y is None:
      return NotImplemented
    return _fdiv(y, self.z)

  def __divmod__(self, o):
    y = to_z(o)
    if y is None:
      return NotImplemented
    return _fdiv(self.z, y), _mod(self.z, y)

  def __rdivmod__(self, o):
    y = to_z(o)
    if y is None:
      return NotImplemented
    return _fdiv(y, self.z), _mod(y, self.z)

  def __truediv__(self, o):
    if isinstance(o, (_int, float)):
      return self.__index__() / o
    return NotImplemented

  def __rtruediv__(self, o):
    if isinstance(o, (_int, float)):
      return o / self.__index__()
    return NotImplemented

  def __pow__(self, e, m=None):
    return sympow(self, e, m)

  def __rpow__(self, b, m=None):
    if to_z(b) is None:
      return NotImplemented
    return sympow(b, self, m)

  def _bit(self, op, o):
    y = to_z(o)
    if y is None:
      return NotImplemented
    try:
      return wrap(T.zbit(op, self.z, y))
    except NotImplementedError:
      a = cur().realise(self.z, 'bit operand')
      b = cur().realise(y, 'bit operand')
      return a & b if op == 'and' else a | b if op == 'or' else a ^ b

  def __and__(self, o):
    return self._bit('and', o)

  def __or__(self, o):
    return self._bit('or', o)

  def __xor__(self, o):
    return self._bit('xor', o)

  __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

  def __invert__(self):
    return -self - 1

  def __lshift__(self, o):
    if is_sym(o):
      o = o.__index__()
    return self * (1 << o)

  def __rshift__(self, o):
    if is_sym(o):
      o = o.__index__()
    return self // (1 << o)

  def __rlshift__(self, o):
    return o << self.__index__()

  def __rrshift__(self, o):
    return o >> self.__index__()

  # -- comparison
  def __eq__(self, o):
    y = to_z(o)
    if y is None:
      return NotImplemented
    r = T.mk_eq(self.z, y)
    p = core.CUR
    if r is T.TRUE and p is not None and (self.r is not None or
                                          (type(o) is SymInt and o.r is not None)):
      note_identity(rawof(self), rawof(o))
    return wrapb(r)

  def __ne__(self, o):
    y = to_z(o)
    if y is None:
      return NotImplemented
    return wrapb(T.bnot(T.mk_eq(self.z, y)))

  def __lt__(self, o):
    y = to_z(o)
    if y is None:
      if isinstance(o, float):
        return self._cmpf(o, lambda a, b: a < b)
      return NotImplemented
    return wrapb(T.mk_lt(self.z, y))

  def __gt__(self, o):
    y = to_z(o)
    if y is None:
      if isinstance(o, float):
        return self._cmpf(o, lambda a, b: a > b)
      return NotImplemented
    return wrapb(T.mk_lt(y, self.z))

  def __le__(self, o):
    y = to_z(o)
    if y is None:
      if isinstance(o, float):
        return self._cmpf(o, lambda a, b: a <= b)
      return NotImplemented
    return wrapb(T.bnot(T.mk_lt(y, self.z)))

  def __ge__(self, o):
    y = to_z(o)
    if y is None:
      if isinstance(o, float):
        return self._cmpf(o, lambda a, b: a >= b)
      return NotImplemented
    return wrapb(T.bnot(T.mk_lt(self.z, y)))

  def _cmpf(self, o, f):
    return f(self.__index__(), o)

  def __bool__(self):
    return _bool(wrapb(T.bnot(T.mk_eq(self.z, T.ZERO))))

  # -- conversions
  def __index__(self):
    return cur().realise(self.z, 'an index')

  def __int__(self):
    return self.__index__()

  def __float__(self):
    return float(self.__index__())

  def __round__(self, n=None):
    return self

  def __trunc__(self):
    return self

  def __floor__(self):
    return self

  def __ceil__(self):
    return self

  def __hash__(self):
    return hash(self.__index__())

  def __repr__(self):
    return '<sym int>'

  def __str__(self):
    return '<sym int>'

  def __format__(self, spec):
    return '<sym int>'

  # -- int methods
  def to_bytes(self, length=1, byteorder='big', *, signed=False):
    if signed:
      return self.__index__().to_bytes(length, byteorder, signed=True)
    if self < 0:
      raise OverflowError("can't convert negative int to unsigned")
    if self >= (1 << (8 * length)):
      raise OverflowError('int too big to convert')
    items = [(self.z, k, length) for k in range(length - 1, -1, -1)]
    if byteorder == 'little':
      items.reverse()
    return mkbytes(items)

  def bit_length(self):
    x = abs(self)
    n = 0
    hi = to_z(x).rng()[1]
    while True:
      if hi is not None and n >= hi.bit_length():
        return n
      if x < (1 << n):
        return n
      n += 1
      if n > 4096:
        raise core.Abort('bit_length')

  def bit_count(self):
    n = self.bit_length()
    r = 0
    for i in range(n):
      r = r + ((abs(self) >> i) & 1)
    return r

  def conjugate(self):
    return self

  @property
  def real(self):
    return self

  @property
  def imag(self):
    return 0

  @property
  def numerator(self):
    return self

  @property
  def denominator(self):
    return 1

  def is_integer(self):
    return True


MULCAP = 3000


def zmul_lazy(a, b):
  if len(a.t) * len(b.t) > MULCAP:
    # keep the factors opaque
    a2 = opaque(a)
    b2 = opaque(b)
    return T.zmul(a2, b2)
  return T.zmul(a, b)


def opaque(a):
  if len(a.t) <= 4:
    return a
  lo, hi = a.rng()
  # `ite` with a non-constant but irrelevant condition would be unsound to
  # simplify; use a dedicated div-by-1 wrapper
  return T.zatom(T.mk_atom('div', (a, 1), lo, hi))


def is_sym(x):
  return getattr(type(x), '_is_sym', False)


def _mod(a, b, r=None):
  if b.is_const():
    d = b.const()
    if d == 0:
      raise ZeroDivisionError('integer modulo by zero')
    if d > 0:
      return wrap(T.zmod(a, d), None if r is None else ('%', r, d))
    return wrap(T.zscale(T.zmod(T.zscale(a, -1), -d), -1))
  _nonzero_or_raise(b)
  b = cur().subst.zp(b)
  if b.is_const():
    return _mod(a, b)
  return wrap(T.zgmod(a, b))


def _fdiv(a, b):
  if b.is_const():
    d = b.const()
    if d == 0:
      raise ZeroDivisionError('integer division or modulo by zero')
    return wrap(T.zfloordiv(a, d))
  _nonzero_or_raise(b)
  b = cur().subst.zp(b)
  if b.is_const():
    return _fdiv(a, b)
  return wrap(T.zgdiv(a, b))


def sympow(b, e, m=None):
  if isinstance(e, _int) and is_sym(e):
    e = e.__index__()
  if not isinstance(e, _int):
    return NotImplemented
  e0 = e
  if m is None:
    if e < 0:
      return b.__index__()**e
    zb = to_z(b)
    if zb.is_const():
      return zb.const()**e
    if e > 512:
      raise core.Abort('large symbolic power without modulus')
    r = T.ONE
    base = zb
    while e:
      if e & 1:
        r = zmul_lazy(r, base)
      e >>= 1
      if e:
        base = zmul_lazy(base, base)
    return wrap(r, ('^', rawof(b), e))
  zm = to_z(m)
  if not zm.is_const():
    zm = cur().subst.zp(zm)
  zb = to_z(b)
  if zm.is_const():
    mm = zm.const()
    if zb.is_const():
      return pow(zb.const(), e, mm)
    if mm == 0:
      raise ValueError('pow() 3rd argument cannot be 0')
    if mm < 0:
      raise core.Abort('negative modulus')
    if e < 0:
      if T.isprime(mm):
        if SymInt(T.zmod(zb, mm)) == 0:
          raise ValueError('base is not invertible for the given modulus')
        zb = T.zinv(mm, zb)
        e = -e
      else:
        raise core.Abort('inverse modulo a composite')
    q = T.zmod(zb, mm)
    if T.isprime(mm) and q.single() is not None and q.single().kind != 'mod':
      if e == 0:
        return 1 % mm
      return wrap(T.zmod(ZP({(q.single().id, e if e < mm else (e - 1) % (mm - 1) + 1): 1}), mm))
    if T.isprime(mm) and e >= mm:
      e = (e - 1) % (mm - 1) + 1
    if T.isprime(mm) and e > 64 and (mm - 1 - e) <= 64:
      # x^(p-1-k) = inv(x)^k (k >= 1), 0 for x = 0
      k = mm - 1 - e
      if k >= 1:
        return sympow(wrap(T.zinv(mm, q)), k, mm)
    r = T.zconst(1 % mm)
    base = q
    while e:
      if e & 1:
        r = T.zmod(zmul_lazy(r, base), mm)
      e >>= 1
      if e:
        base = T.zmod(zmul_lazy(base, base), mm)
    return wrap(r, ('%', ('^', rawof(b), e0), mm) if 0 <= e0 <= 256 else None)
  if e < 0:
    raise core.Abort('inverse modulo a symbolic modulus')
  r = 1
  base = wrap(zb) % m
  first = True
  r = 1 % m
  while e:
    if e & 1:
      r = (r * base) % m
    e >>= 1
    if e:
      base = (base * base) % m
  return r


def note_identity(a, b):
  """two terms whose normal forms coincide were compared: keep the expressions
  as computed, so that the solver is asked about them as well"""
  if a is b:
    return
  res = core.CUR.res
  res.identities += 1
  n = res.identities
  # spread the retained sample over the run
  if len(res.ident_sample) < 120:
    res.ident_sample.append((a, b))
  elif n & (n - 1) == 0:
    res.ident_sample[(n.bit_length() * 7) % 120] = (a, b)


# ------------------------------------------------------------------- bytes
def item_z(it):
  """byte value as ZP"""
  if type(it) is _int:
    return T.zconst(it)
  z, k, n = it
  if n == 1:
    return z
  return T.zmod(T.zfloordiv(z, 1 << (8 * k)), 256)


def mkbytes(items):
  out = []
  conc = True
  for it in items:
    if type(it) is not _int:
      z = it[0]
      if z.is_const():
        it = (z.const() >> (8 * it[1])) & 255
      else:
        # a byte above the value's range is zero
        hi = z.rng()[1]
        if hi is not None and hi < (1 << (8 * it[1])):
          it = 0
        else:
          conc = False
    out.append(it)
  if conc:
    return _bytes(out)
  return SymBytes(tuple(out))


def items_of(x):
  t = type(x)
  if t is SymBytes:
    return x.items
  if t is SymByteArray:
    return tuple(x.items)
  if isinstance(x, (_bytes, bytearray, memoryview)):
    return tuple(_bytes(x))
  return None


def eval_bytes(x, ev):
  items = x if isinstance(x, tuple) else items_of(x)
  out = bytearray()
  memo = {}
  for it in items:
    if type(it) is _int:
      out.append(it)
    else:
      z, k, n = it
      v = memo.get(id(z))
      if v is None:
        v = memo[id(z)] = ev.zp(z)
      out.append((v >> (8 * k)) & 255)
  return _bytes(out)


def _byte_item(v):
  if type(v) is SymInt:
    if v < 0 or v > 255:
      raise ValueError('byte must be in range(0, 256)')
    return (v.z, 0, 1)
  v = v.__index__()
  if not 0 <= v <= 255:
    raise ValueError('byte must be in range(0, 256)')
  return v


class SymByteArray:
  """what the code under test gets from bytearray(): items may be symbolic"""
  __slots__ = ('items',)
  __hash__ = None
  __class__ = property(lambda self: bytearray)

  def __init__(self, x=b''):
    if isinstance(x, str):
      raise TypeError('string argument without an encoding')
    y = items_of(x)
    if y is None:
      if type(x) in (_int, SymInt):
        y = [0] * x.__index__()
      else:
        y = [_byte_item(v) for v in x]
    self.items = list(y)

  def __len__(self):
    return len(self.items)

  def __bytes__(self):
    return eval_plain(self.items)

  def __iter__(self):
    i = 0
    while i < len(self.items):
      yield wrap(item_z(self.items[i]))
      i += 1

  def __getitem__(self, i):
    if isinstance(i, slice):
      return SymByteArray(mkbytes(self.items[i]))
    return wrap(item_z(self.items[i]))

  def __setitem__(self, i, v):
    if isinstance(i, slice):
      self.items[i] = SymByteArray(v).items
    else:
      self.items[i] = _byte_item(v)

  def __delitem__(self, i):
    del self.items[i]

  def append(self, v):
    self.items.append(_byte_item(v))

  def extend(self, it):
    self.items += SymByteArray(it).items

  def insert(self, i, v):
    self.items.insert(i, _byte_item(v))

  def pop(self, i=-1):
    return wrap(item_z(self.items.pop(i)))

  def clear(self):
    self.items.clear()

  def reverse(self):
    self.items.reverse()

  def copy(self):
    return SymByteArray(self)

  def __iadd__(self, o):
    if items_of(o) is None:
      raise TypeError("can't concat %s to bytearray" % type(o).__name__)
    self.items += items_of(o)
    return self

  def __add__(self, o):
    y = items_of(o)
    if y is None:
      return NotImplemented
    return SymByteArray(mkbytes(self.items + list(y)))

  def __radd__(self, o):
    y = items_of(o)
    if y is None:
      return NotImplemented
    return mkbytes(list(y) + self.items)

  def __mul__(self, n):
    return SymByteArray(mkbytes(self.items * n))

  __rmul__ = __mul__

  def frozen(self):
    return mkbytes(self.items)

  def __eq__(self, o):
    y = items_of(o)
    if y is None:
      return NotImplemented
    return mkbytes(self.items) == mkbytes(y)

  def __ne__(self, o):
    y = items_of(o)
    if y is None:
      return NotImplemented
    return mkbytes(self.items) != mkbytes(y)

  def __contains__(self, v):
    return v in mkbytes(self.items)

  def hex(self, *a):
    return mkbytes(self.items).hex(*a)

  def decode(self, *a, **k):
    return mkbytes(self.items).decode(*a, **k)

  def find(self, *a):
    return mkbytes(self.items).find(*a)

  def startswith(self, *a):
    return mkbytes(self.items).startswith(*a)

  def endswith(self, *a):
    return mkbytes(self.items).endswith(*a)


def eval_plain(items):
  b = mkbytes(items)
  return b if type(b) is _bytes else b''.join(_bytes([v.__index__()]) for v in b)


def struct_unpack(real):
  import struct as _s

  def unpack(fmt, data):
    d = data.frozen() if type(data) is SymByteArray else data
    if type(d) is not SymBytes:
      return real(fmt, d)
    f = fmt.decode() if isinstance(fmt, _bytes) else fmt
    order = 'big'
    if f[:1] in ('>', '!'):
      f = f[1:]
    elif f[:1] == '<':
      order, f = 'little', f[1:]
    elif f[:1] in ('=', '@'):
      order, f = 'little', f[1:]
    else:
      order = 'little'
    sizes = {'B': 1, 'b': 1, 'H': 2, 'h': 2, 'I': 4, 'i': 4, 'L': 4, 'l': 4, 'Q': 8, 'q': 8, 's': 1, 'x': 1, 'c': 1}
    if len(d) != _s.calcsize(fmt):
      raise _s.error('unpack requires a buffer of %d bytes' % _s.calcsize(fmt))
    out, pos, num = [], 0, ''
    for ch in f:
      if ch.isspace():
        continue
      if ch.isdigit():
        num += ch
        continue
      if ch not in sizes:
        return real(fmt, eval_plain(d.items))
      n, num = _int(num) if num else 1, ''
      if ch in 'sx':
        if ch == 's':
          out.append(d[pos:pos + n])
        pos += n
        continue
      for _ in range(n):
        piece = d[pos:pos + sizes[ch]]
        pos += sizes[ch]
        out.append(piece if ch == 'c' else int_from_bytes(piece, order, signed=ch.islower()))
    if pos != len(d):
      return real(fmt, eval_plain(d.items))
    return tuple(out)

  return unpack


def _runs(items):
  """split into ('w', z, n) whole words (big endian) and single items"""
  out = []
  i = 0
  L = len(items)
  while i < L:
    it = items[i]
    if type(it) is not _int:
      z, k, n = it
      if k == n - 1 and i + n <= L:
        ok = True
        for j in range(1, n):
          o = items[i + j]
          if type(o) is _int:
            # leading bytes may have been folded to zero, trailing never
            ok = False
            break
          if not (o[0] is z or o[0] == z) or o[1] != n - 1 - j or o[2] != n:
            ok = False
            break
        if ok:
          out.append((z, i, n))
          i += n
          continue
    out.append((None, i, 1))
    i += 1
  return out


def be_value(items):
  """big-endian integer value of a byte sequence, as ZP"""
  # strip leading zeros
  items = tuple(items)
  i = 0
  while i < len(items) and items[i] == 0 and type(items[i]) is _int:
    i += 1
  items = items[i:]
  n = len(items)
  if n == 0:
    return T.ZERO
  # is it exactly the low n bytes of one word whose range fits?
  f = items[0]
  if type(f) is not _int:
    z, k, _ = f
    if k == n - 1:
      if all(type(o) is not _int and (o[0] is z or o[0] == z) and o[1] == n - 1 - j
             for j, o in enumerate(items)):
        hi = z.rng()[1]
        if hi is not None and hi < (1 << (8 * n)):
          return z
        return T.zmod(z, 1 << (8 * n))
  acc = T.ZERO
  pos = n
  j = 0
  while j < n:
    it = items[j]
    if type(it) is _int:
      # group constants
      acc = T.zadd(acc, T.zconst(it << (8 * (n - 1 - j))))
      j += 1
      continue
    z, k, _ = it
    e = j + 1
    kk = k
    while e < n and type(items[e]) is not _int and \
        (items[e][0] is z or items[e][0] == z) and items[e][1] == kk - 1:
      kk -= 1
      e += 1
    # bytes k..kk of z
    v = T.zfloordiv(z, 1 << (8 * kk))
    hi = v.rng()[1]
    if hi is None or hi >= (1 << (8 * (k - kk + 1))):
      v = T.zmod(v, 1 << (8 * (k - kk + 1)))
    acc = T.zadd(acc, T.zscale(v, 1 << (8 * (n - e))))
    j = e
  return acc


HASH = {}        # atom id of a modelled hash output -> (algo, argument items)
REALHASH = {}    # digest computed for concrete arguments -> (algo, argument items)


def hash_source(items):
  """(algo, argument) when the items are exactly one known hash output"""
  n = len(items)
  if n not in (32, 48):
    return None
  if all(type(t) is _int for t in items):
    return REALHASH.get(_bytes(items))
  f = items[0]
  if type(f) is _int or f[1] != n - 1:
    return None
  at = f[0].single()
  if at is None or at.id not in HASH:
    return None
  for j, o in enumerate(items):
    if type(o) is _int or o[1] != n - 1 - j or not (o[0] is f[0] or o[0] == f[0]):
      return None
  return HASH[at.id]


def bytes_eq(a, b):
  """Bo: equality of two item tuples"""
  if len(a) != len(b):
    return T.FALSE
  if a == b:
    return T.TRUE
  # cut at word boundaries common to both
  n = len(a)
  cuts = {0, n}
  ra = [(i, i + w) for _, i, w in _runs(a)]
  rb = [(i, i + w) for _, i, w in _runs(b)]
  ca = {i for i, _ in ra} | {n}
  cb = {i for i, _ in rb} | {n}
  # union of word spans: keep a cut only where both sides are at a boundary
  # or one side has single bytes only (always at a boundary)
  common = sorted(ca & cb)
  out = []
  for i, j in zip(common, common[1:]):
    x, y = a[i:j], b[i:j]
    if x == y:
      continue
    if all(type(t) is _int for t in x) and all(type(t) is _int for t in y):
      return T.FALSE
    hx = hash_source(x)
    hy = hash_source(y) if hx is not None else None
    if hy is not None:
      if hx[0] is not hy[0]:
        return T.FALSE
      out.append(bytes_eq(hx[1], hy[1]))
    else:
      out.append(T.mk_eq(be_value(x), be_value(y)))
    if out[-1] is T.FALSE:
      return T.FALSE
  return T.band(*out)


class SymBytes:
  __slots__ = ('items',)
  _is_sym = True

  def __init__(self, items):
    self.items = items

  __class__ = property(lambda self: _bytes)

  def __len__(self):
    return len(self.items)

  def __bool__(self):
    return len(self.items) > 0

  def __add__(self, o):
    y = items_of(o)
    if y is None:
      return NotImplemented
    return mkbytes(self.items + y)

  def __radd__(self, o):
    y = items_of(o)
    if y is None:
      return NotImplemented
    return mkbytes(y + self.items)

  def __mul__(self, n):
    return mkbytes(self.items * n)

  __rmul__ = __mul__

  def __getitem__(self, i):
    if isinstance(i, slice):
      return mkbytes(self.items[i])
    return wrap(item_z(self.items[i]))

  def __iter__(self):
    for it in self.items:
      yield wrap(item_z(it))

  def __eq__(self, o):
    y = items_of(o)
    if y is None:
      return NotImplemented
    return wrapb(bytes_eq(self.items, y))

  def __ne__(self, o):
    y = items_of(o)
    if y is None:
      return NotImplemented
    return wrapb(T.bnot(bytes_eq(self.items, y)))

  def _cmp(self, o):
    y = items_of(o)
    n = min(len(self.items), len(y))
    return be_value(self.items[:n]), be_value(y[:n]), len(self.items), len(y)

  def __lt__(self, o):
    if items_of(o) is None:
      return NotImplemented
    a, b, la, lb = self._cmp(o)
    r = T.mk_lt(a, b)
    if la < lb:
      r = T.bor(r, T.mk_eq(a, b))
    return wrapb(r)

  def __gt__(self, o):
    if items_of(o) is None:
      return NotImplemented
    a, b, la, lb = self._cmp(o)
    r = T.mk_lt(b, a)
    if lb < la:
      r = T.bor(r, T.mk_eq(a, b))
    return wrapb(r)

  def __le__(self, o):
    r = self.__gt__(o)
    return r if r is NotImplemented else wrapb(T.bnot(to_b(r)))

  def __ge__(self, o):
    r = self.__lt__(o)
    return r if r is NotImplemented else wrapb(T.bnot(to_b(r)))

  def __contains__(self, o):
    if isinstance(o, _int):
      return any(x == o for x in self)
    y = items_of(o)
    for i in range(len(self.items) - len(y) + 1):
      if wrapb(bytes_eq(self.items[i:i + len(y)], y)):
        return True
    return False

  def __hash__(self):
    return hash(self.realise())

  def __bytes__(self):
    return self.realise()

  def realise(self):
    v = cur().realise(be_value(self.items), 'bytes')
    return v.to_bytes(len(self.items), 'big')

  def __repr__(self):
    return '<sym bytes %d>' % len(self.items)

  # methods
  def startswith(self, o):
    y = items_of(o)
    return wrapb(bytes_eq(self.items[:len(y)], y))

  def endswith(self, o):
    y = items_of(o)
    return wrapb(bytes_eq(self.items[len(self.items) - len(y):], y)) if len(y) <= len(self.items) else False

  def join(self, parts):
    out = ()
    first = True
    for p in parts:
      if not first:
        out += self.items
      first = False
      out += items_of(p)
    return mkbytes(out)

  def rjust(self, n, fill=b' '):
    if len(self.items) >= n:
      return self
    return mkbytes(items_of(fill) * (n - len(self.items)) + self.items)

  def ljust(self, n, fill=b' '):
    if len(self.items) >= n:
      return self
    return mkbytes(self.items + items_of(fill) * (n - len(self.items)))

  def hex(self):
    out = []
    for it in self.items:
      v = item_z(it)
      out.append(hexdigit(T.zfloordiv(v, 16)))
      out.append(hexdigit(T.zmod(v, 16)))
    return mkstr(out)

  def decode(self, *a):
    return mkstr([wrap(item_z(i)) if type(i) is not _int else chr(i) for i in self.items])

  def _at(self, i, y):
    return _bool(wrapb(bytes_eq(self.items[i:i + len(y)], y)))

  def find(self, o, start=0, *end):
    y = items_of(bytes([o]) if type(o) is _int else o)
    n = len(self.items)
    for i in range(*slice(start, *(end or (None,))).indices(n)):
      if i + len(y) <= n and self._at(i, y):
        return i
    return -1

  def index(self, o, *a):
    r = self.find(o, *a)
    if r < 0:
      raise ValueError('subsection not found')
    return r

  def count(self, o):
    y = items_of(bytes([o]) if type(o) is _int else o)
    n = i = 0
    while i + len(y) <= len(self.items):
      if self._at(i, y):
        n += 1
        i += len(y)
      else:
        i += 1
    return n

  def _in(self, item, chars):
    z = item_z(item)
    return _bool(wrapb(T.bor(*[T.mk_eq(z, T.zconst(c)) for c in chars]))) if len(chars) else False

  def lstrip(self, chars=None):
    chars = b' \t\n\r\x0b\f' if chars is None else bytes(chars)
    i = 0
    while i < len(self.items) and self._in(self.items[i], chars):
      i += 1
    return mkbytes(self.items[i:])

  def rstrip(self, chars=None):
    chars = b' \t\n\r\x0b\f' if chars is None else bytes(chars)
    i = len(self.items)
    while i and self._in(self.items[i - 1], chars):
      i -= 1
    return mkbytes(self.items[:i])

  def strip(self, chars=None):
    r = self.lstrip(chars)
    return r.rstrip(chars)


def hexdigit(z):
  """character (code) of a nibble"""
  if z.is_const():
    return '0123456789abcdef'[z.const()]
  code = T.zite(T.mk_lt(z, T.zconst(10)), T.zadd(z, T.zconst(48)), T.zadd(z, T.zconst(87)))
  return SymInt(code)


def int_from_bytes(data, byteorder='big', *, signed=False):
  if type(data) is SymByteArray:
    data = data.frozen()
  if not isinstance(data, (_bytes, bytearray)) and not is_sym(data):
    data = mkbytes([i if type(i) is _int else (i.z, 0, 1) for i in data])
  items = items_of(data)
  if items is None:
    raise TypeError('cannot convert to bytes')
  if type(data) is not SymBytes:
    return _int.from_bytes(data, byteorder, signed=signed)
  if byteorder == 'little':
    items = tuple(reversed(items))
  v = wrap(be_value(items))
  if signed:
    n = len(items)
    if v >= (1 << (8 * n - 1)):
      v = v - (1 << (8 * n))
  return v


# ------------------------------------------------------------------- str
def mkstr(chars):
  """chars: list of one-character str or SymInt code"""
  out = []
  conc = True
  for c in chars:
    if type(c) is _int:
      c = chr(c)
    if type(c) is not _str:
      conc = False
    out.append(c)
  if conc:
    return ''.join(out)
  return SymStr(tuple(out))


def chars_of(x):
  if type(x) is SymStr:
    return x.c
  if isinstance(x, _str):
    return tuple(x)
  return None


def char_eq(a, b):
  if type(a) is _str and type(b) is _str:
    return T.mkbool(a == b)
  x = T.zconst(ord(a)) if type(a) is _str else a.z
  y = T.zconst(ord(b)) if type(b) is _str else b.z
  return T.mk_eq(x, y)


def str_eq(a, b):
  if len(a) != len(b):
    return T.FALSE
  out = []
  for x, y in zip(a, b):
    e = char_eq(x, y)
    if e is T.FALSE:
      return T.FALSE
    out.append(e)
  return T.band(*out)


class SymStr:
  __slots__ = ('c',)
  _is_sym = True

  def __init__(self, c):
    self.c = c

  __class__ = property(lambda self: _str)

  def __len__(self):
    return len(self.c)

  def __bool__(self):
    return len(self.c) > 0

  def __add__(self, o):
    y = chars_of(o)
    if y is None:
      return NotImplemented
    return mkstr(self.c + y)

  def __radd__(self, o):
    y = chars_of(o)
    if y is None:
      return NotImplemented
    return mkstr(y + self.c)

  def __mul__(self, n):
    return mkstr(self.c * n)

  __rmul__ = __mul__

  def __getitem__(self, i):
    if isinstance(i, slice):
      return mkstr(self.c[i])
    return mkstr([self.c[i]])

  def __iter__(self):
    for c in self.c:
      yield mkstr([c])

  def __eq__(self, o):
    y = chars_of(o)
    if y is None:
      return NotImplemented
    return wrapb(str_eq(self.c, y))

  def __ne__(self, o):
    y = chars_of(o)
    if y is None:
      return NotImplemented
    return wrapb(T.bnot(str_eq(self.c, y)))

  def _code(self, c):
    return T.zconst(ord(c)) if type(c) is _str else c.z

  def _lt(self, o):
    """lexicographic"""
    y = chars_of(o)
    n = min(len(self.c), len(y))
    r = T.mkbool(len(self.c) < len(y))
    for i in range(n - 1, -1, -1):
      a, b = self._code(self.c[i]), self._code(y[i])
      r = T.bor(T.mk_lt(a, b), T.band(T.mk_eq(a, b), r))
    return r

  def __lt__(self, o):
    if chars_of(o) is None:
      return NotImplemented
    return wrapb(self._lt(o))

  def __ge__(self, o):
    if chars_of(o) is None:
      return NotImplemented
    return wrapb(T.bnot(self._lt(o)))

  def __gt__(self, o):
    if chars_of(o) is None:
      return NotImplemented
    return wrapb(SymStr(chars_of(o))._lt(mkstr(self.c)))

  def __le__(self, o):
    if chars_of(o) is None:
      return NotImplemented
    return wrapb(T.bnot(SymStr(chars_of(o))._lt(mkstr(self.c))))

  def __contains__(self, o):
    y = chars_of(o)
    for i in range(len(self.c) - len(y) + 1):
      if wrapb(str_eq(self.c[i:i + len(y)], y)):
        return True
    return False

  def __hash__(self):
    return hash(self.realise())

  def realise(self):
    return ''.join(c if type(c) is _str else chr(c.__index__()) for c in self.c)

  def __repr__(self):
    return '<sym str %d>' % len(self.c)

  def __str__(self):
    return '<sym str %d>' % len(self.c)

  def __format__(self, spec):
    return '<sym str>'

  def encode(self, *a):
    return mkbytes([ord(c) if type(c) is _str else (c.z, 0, 1) for c in self.c])

  def zfill(self, n):
    if len(self.c) >= n:
      return self
    if self.c and type(self.c[0]) is _str and self.c[0] in '+-':
      return mkstr((self.c[0],) + ('0',) * (n - len(self.c)) + self.c[1:])
    return mkstr(('0',) * (n - len(self.c)) + self.c)

  def rjust(self, n, f=' '):
    return mkstr(chars_of(f) * max(0, n - len(self.c)) + self.c)

  def ljust(self, n, f=' '):
    return mkstr(self.c + chars_of(f) * max(0, n - len(self.c)))

  def join(self, parts):
    return str_join(self, parts)

  def startswith(self, o):
    if isinstance(o, tuple):
      return any(self.startswith(x) for x in o)
    y = chars_of(o)
    return wrapb(str_eq(self.c[:len(y)], y))

  def endswith(self, o):
    y = chars_of(o)
    return wrapb(str_eq(self.c[max(0, len(self.c) - len(y)):], y)) if len(y) <= len(self.c) else False

  def isdigit(self):
    r = [T.band(T.bnot(T.mk_lt(self._code(c), T.zconst(48))), T.mk_lt(self._code(c), T.zconst(58)))
         for c in self.c]
    return wrapb(T.band(*r)) if r else False

  def count(self, o):
    n = 0
    for x in self:
      n = n + to_int(x == o)
    return n

  def find(self, o):
    y = chars_of(o)
    for i in range(len(self.c) - len(y) + 1):
      if wrapb(str_eq(self.c[i:i + len(y)], y)):
        return i
    return -1

  def index(self, o):
    r = self.find(o)
    if r < 0:
      raise ValueError
    return r

  def lower(self):
    return self

  def lstrip(self, chars=None):
    i = 0
    while i < len(self.c) and any(_bool(wrapb(char_eq(self.c[i], x))) for x in (chars or ' \t\n\r')):
      i += 1
    return mkstr(self.c[i:])

  def rstrip(self, chars=None):
    i = len(self.c)
    while i and any(_bool(wrapb(char_eq(self.c[i - 1], x))) for x in (chars or ' \t\n\r')):
      i -= 1
    return mkstr(self.c[:i])

  def strip(self, chars=None):
    return self.lstrip(chars).rstrip(chars)


def to_int(b):
  return wrap(to_z(b))


def str_join(sep, parts):
  out = ()
  s = chars_of(sep)
  first = True
  for p in parts:
    if not first:
      out += s
    first = False
    y = chars_of(p)
    if y is None:
      raise TypeError('sequence item: expected str instance')
    out += y
  return mkstr(out)


def int_to_str(x):
  """decimal digits of a symbolic int (forks on sign and digit count)"""
  if x < 0:
    return '-' + int_to_str(-x) if not is_sym(-x) else mkstr(('-',) + chars_of(int_to_str(-x)))
  n = 1
  hi = x.z.rng()[1]
  while not (hi is not None and hi < 10**n):
    if x < 10**n:
      break
    n += 1
    if n > 80:
      raise core.Abort('decimal digits')
  cs = []
  z = cur().subst.zp(x.z)
  for i in range(n - 1, -1, -1):
    d = T.zmod(T.zfloordiv(z, 10**i), 10) if i < n - 1 else T.zfloordiv(z, 10**i)
    d = T.zadd(d, T.zconst(48))
    cs.append(wrap(d))
  return mkstr([chr(c) if type(c) is _int else c for c in cs])


def int_to_base(x, base, prefix):
  if x < 0:
    r = int_to_base(-x, base, prefix)
    return mkstr(('-',) + chars_of(r))
  k = base.bit_length() - 1
  nb = x.bit_length()
  n = max(1, (nb + k - 1) // k)
  cs = list(prefix)
  for i in range(n - 1, -1, -1):
    d = T.zmod(T.zfloordiv(x.z, base**i), base)
    if base == 2:
      c = wrap(T.zadd(d, T.zconst(48)))
      cs.append(chr(c) if type(c) is _int else c)
    else:
      cs.append(hexdigit(d))
  return mkstr(cs)


def str_to_int(s, base=10):
  cs = chars_of(s)
  acc = 0
  neg = False
  if cs and cs[0] == '-':
    neg = True
    cs = cs[1:]
  if base == 2 and len(cs) > 2 and cs[0] == '0' and cs[1] == 'b':
    cs = cs[2:]
  if not cs:
    raise ValueError('invalid literal for int()')
  for c in cs:
    if type(c) is _str:
      d = _int(c, base)
    else:
      if base <= 10:
        ok = wrapb(T.band(T.bnot(T.mk_lt(c.z, T.zconst(48))), T.mk_lt(c.z, T.zconst(48 + base))))
        if not ok:
          raise ValueError('invalid literal for int()')
        d = c - 48
      else:
        if wrapb(T.band(T.bnot(T.mk_lt(c.z, T.zconst(48))), T.mk_lt(c.z, T.zconst(58)))):
          d = c - 48
        elif wrapb(T.band(T.bnot(T.mk_lt(c.z, T.zconst(97))), T.mk_lt(c.z, T.zconst(87 + base)))):
          d = c - 87
        else:
          raise ValueError('invalid literal for int()')
    acc = acc * base + d
  return -acc if neg else acc
