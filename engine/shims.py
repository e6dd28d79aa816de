"""Loading of the repository's modules for symbolic execution.

Every module under /repo is read from its current source, its AST is rewritten
so that the few operations CPython resolves inside C code (string formatting,
str/bytes methods, `type(x)`, dict displays) reach the symbolic values, and it
is executed with a builtins namespace in which int/str/bytes/pow/range/... know
about them.  Everything else is executed by CPython itself.
"""
import ast
import builtins
import copy
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import core, sym
from . import terms as T
from .sym import SymInt, SymBool, SymBytes, SymStr, is_sym

_int, _bool, _bytes, _str, _type, _dict, _set = int, bool, bytes, str, type, dict, set
_isinstance, _range, _pow, _len = isinstance, range, pow, len

REPO = os.environ.get('VERIF_REPO', '/repo')
EXECUTED = set()   # (file, function) actually executed under instrumentation


# ------------------------------------------------------------ class shims
class _Meta(type):

  def __instancecheck__(cls, x):
    return _isinstance(x, cls._real)

  def __subclasscheck__(cls, c):
    if _isinstance(c, _Meta):
      return issubclass(c._real, cls._real)
    return issubclass(c, cls._real)

  def __eq__(cls, o):
    return o is cls or o is cls._real

  def __ne__(cls, o):
    return not cls == o

  def __hash__(cls):
    return hash(cls._real)

  def __repr__(cls):
    return repr(cls._real)

  def __or__(cls, o):
    return cls._real | (o._real if _isinstance(o, _Meta) else o)

  def __getitem__(cls, k):
    return cls._real[k]

  def __getattr__(cls, k):
    return getattr(cls._real, k)


class IntShim(metaclass=_Meta):
  _real = _int
  __name__ = 'int'

  def __new__(cls, x=0, base=None):
    if base is not None:
      if type(x) is SymStr:
        return sym.str_to_int(x, base)
      return _int(x, base)
    t = type(x)
    if t is SymInt:
      return x
    if t is SymBool:
      return sym.to_int(x)
    if t is SymStr:
      return sym.str_to_int(x)
    if t is SymBytes:
      return sym.str_to_int(x.decode())
    m = getattr(t, '__int__', None)
    if m is not None and t.__module__ != 'builtins':
      return m(x)
    return _int(x)

  @staticmethod
  def from_bytes(b, byteorder='big', *, signed=False):
    return sym.int_from_bytes(b, byteorder, signed=signed)

  @staticmethod
  def to_bytes(x, *a, **k):
    return x.to_bytes(*a, **k)


class StrShim(metaclass=_Meta):
  _real = _str
  __name__ = 'str'

  def __new__(cls, x='', *a):
    if a:
      if type(x) is SymBytes:
        return x.decode()
      return _str(x, *a)
    return symstr(x)

  @staticmethod
  def join(sep, parts):
    return call_method(sep, 'join', parts)


def symstr(x):
  t = type(x)
  if t is _str or t is SymStr:
    return x
  if t is SymInt:
    return sym.int_to_str(x)
  if t is SymBool:
    return _str(_bool(x))
  if t in (list, tuple):
    parts = [symrepr(y) for y in x]
    if t is list:
      return concat(['[', call_method(', ', 'join', parts), ']'])
    if len(parts) == 1:
      return concat(['(', parts[0], ',)'])
    return concat(['(', call_method(', ', 'join', parts), ')'])
  m = t.__dict__.get('__str__')
  if m is None:
    for k in t.__mro__:
      if '__str__' in k.__dict__:
        m = k.__dict__['__str__']
        break
  if m is not None and _isinstance(m, types.FunctionType):
    return m(x)
  return symrepr(x) if _user_repr(t) else _str(x)


def _user_repr(t):
  for k in t.__mro__:
    if '__repr__' in k.__dict__:
      return _isinstance(k.__dict__['__repr__'], types.FunctionType)
  return False


def symrepr(x):
  t = type(x)
  if t is SymInt:
    return sym.int_to_str(x)
  if t is SymStr:
    return concat(["'", x, "'"])
  if t is SymBool:
    return _str(_bool(x))
  if t is SymBytes:
    return "b'<sym>'"
  if t in (list, tuple):
    return symstr(x)
  if t is SDict or t is _dict:
    parts = []
    for k, v in x.items():
      parts.append(concat([symrepr(k), ': ', symrepr(v)]))
    return concat(['{', call_method(', ', 'join', parts), '}'])
  if _user_repr(t):
    for k in t.__mro__:
      if '__repr__' in k.__dict__:
        return k.__dict__['__repr__'](x)
  return repr(x)


def concat(parts):
  cs = []
  for p in parts:
    cs.extend(sym.chars_of(p))
  return sym.mkstr(cs)


class BytesShim(metaclass=_Meta):
  _real = _bytes
  __name__ = 'bytes'

  def __new__(cls, x=b'', *a):
    t = type(x)
    if t is SymBytes:
      return x
    if t is sym.SymByteArray:
      return x.frozen()
    if t is SymInt:
      return _bytes(x.__index__())
    if t is SymStr:
      return x.encode()
    if t in (list, tuple) or hasattr(t, '__next__'):
      x = list(x)
      if any(is_sym(i) for i in x):
        return sym.mkbytes([i if type(i) is _int else (i.z, 0, 1) for i in x])
    return _bytes(x, *a)

  @staticmethod
  def fromhex(s):
    return _bytes.fromhex(s)

  @staticmethod
  def join(sep, parts):
    return call_method(sep, 'join', parts)


class ByteArrayShim(metaclass=_Meta):
  _real = bytearray
  __name__ = 'bytearray'

  def __new__(cls, x=b'', *a):
    if a:
      return sym.SymByteArray(BytesShim(x, *a) if type(x) is not SymStr else x.encode())
    if type(x) is SymStr:
      raise TypeError('string argument without an encoding')
    return sym.SymByteArray(x)

  @staticmethod
  def fromhex(x):
    return sym.SymByteArray(_bytes.fromhex(x))


class BoolShim(metaclass=_Meta):
  _real = _bool
  __name__ = 'bool'

  def __new__(cls, x=False):
    t = type(x)
    if t is SymBool:
      return x
    if t is SymInt:
      return x != 0
    return _bool(x)


class FloatShim(metaclass=_Meta):
  _real = float
  __name__ = 'float'

  def __new__(cls, x=0.0):
    return float(x)


# ------------------------------------------------------------ containers
def _symbolic_key(k):
  t = type(k)
  if getattr(t, '_is_sym', False):
    return True
  if t is tuple:
    return any(_symbolic_key(x) for x in k)
  return False


class SDict(dict):
  """dict that compares symbolic keys by solver-decided equality."""
  __slots__ = ('sk',)   # list of [key, value] entries kept outside the hash table

  def __init__(self, *a, **k):
    super().__init__()
    self.sk = None
    if a:
      src = a[0]
      if hasattr(src, 'keys'):
        for x in src.keys():
          self[x] = src[x]
      else:
        for x, y in src:
          self[x] = y
    for x, y in k.items():
      self[x] = y

  def _find(self, k):
    """('d', key) | ('s', entry) | None"""
    if not _symbolic_key(k):
      if _dict.__contains__(self, k):
        return ('d', k)
      if self.sk:
        for e in self.sk:
          if e[0] is k or _bool(e[0] == k):
            return ('s', e)
      return None
    for x in _dict.keys(self):
      if x is k or _bool(x == k):
        return ('d', x)
    for e in self.sk or ():
      if e[0] is k or _bool(e[0] == k):
        return ('s', e)
    return None

  def __contains__(self, k):
    return self._find(k) is not None

  def __getitem__(self, k):
    f = self._find(k)
    if f is None:
      if hasattr(type(self), '__missing__'):
        return self.__missing__(k)
      raise KeyError(k)
    return _dict.__getitem__(self, f[1]) if f[0] == 'd' else f[1][1]

  def get(self, k, d=None):
    f = self._find(k)
    if f is None:
      return d
    return _dict.__getitem__(self, f[1]) if f[0] == 'd' else f[1][1]

  def __setitem__(self, k, v):
    f = self._find(k)
    if f is None:
      if _symbolic_key(k):
        if self.sk is None:
          self.sk = []
        self.sk.append([k, v])
      else:
        _dict.__setitem__(self, k, v)
    elif f[0] == 'd':
      _dict.__setitem__(self, f[1], v)
    else:
      f[1][1] = v

  def __delitem__(self, k):
    f = self._find(k)
    if f is None:
      raise KeyError(k)
    if f[0] == 'd':
      _dict.__delitem__(self, f[1])
    else:
      self.sk.remove(f[1])

  def setdefault(self, k, d=None):
    f = self._find(k)
    if f is None:
      self[k] = d
      return d
    return self[k]

  def pop(self, k, *d):
    f = self._find(k)
    if f is None:
      if d:
        return d[0]
      raise KeyError(k)
    v = self[k]
    del self[k]
    return v

  def update(self, *a, **k):
    for x, y in SDict(*a, **k).items():
      self[x] = y

  def __len__(self):
    return _dict.__len__(self) + (len(self.sk) if self.sk else 0)

  def __bool__(self):
    return len(self) > 0

  def __iter__(self):
    yield from _dict.__iter__(self)
    if self.sk:
      for e in self.sk:
        yield e[0]

  def keys(self):
    return _dict.keys(self) if not self.sk else list(self)

  def values(self):
    return _dict.values(self) if not self.sk else [self[k] for k in self]

  def items(self):
    return _dict.items(self) if not self.sk else \
        list(_dict.items(self)) + [tuple(e) for e in self.sk]

  def copy(self):
    return SDict(self)

  def __eq__(self, o):
    if not _isinstance(o, _dict):
      return NotImplemented
    if len(self) != len(o):
      return False
    for k, v in self.items():
      if k not in o:
        return False
      if not (o[k] == v):
        return False
    return True

  def __ne__(self, o):
    r = self.__eq__(o)
    return r if r is NotImplemented else not r

  __hash__ = None

  def __repr__(self):
    return '{' + ', '.join('%r: %r' % kv for kv in self.items()) + '}'


class DictShim(metaclass=_Meta):
  _real = _dict
  __name__ = 'dict'

  def __new__(cls, *a, **k):
    return SDict(*a, **k)

  @staticmethod
  def fromkeys(it, v=None):
    d = SDict()
    for x in it:
      d[x] = v
    return d


# ------------------------------------------------------------ functions
def se_type(x):
  t = type(x)
  return _TYPEMAP.get(t, t)


def se_class(x):
  t = type(x)
  if t in _TYPEMAP:
    return _TYPEMAP[t]
  return x.__class__


_TYPEMAP = {
    _int: IntShim, SymInt: IntShim, _bool: BoolShim, SymBool: BoolShim,
    _str: StrShim, SymStr: StrShim, _bytes: BytesShim, SymBytes: BytesShim, sym.SymByteArray: ByteArrayShim,
    _dict: DictShim, SDict: DictShim, float: FloatShim,
}


def se_pow(b, e, m=None):
  if m is None:
    return b**e
  if is_sym(b) or is_sym(e) or is_sym(m):
    return sym.sympow(b, e, m)
  return _pow(b, e, m)


class RangeShim(metaclass=_Meta):
  _real = _range

  def __new__(cls, *a):
    return _range(*[x.__index__() if is_sym(x) else x for x in a])


def se_bin(x):
  if type(x) is SymInt:
    return sym.int_to_base(x, 2, '0b')
  return bin(x)


def se_hex(x):
  if type(x) is SymInt:
    return sym.int_to_base(x, 16, '0x')
  return hex(x)


def se_ord(x):
  if type(x) is SymStr:
    c = x.c[0]
    return ord(c) if type(c) is _str else c
  if type(x) is SymBytes:
    return x[0]
  return ord(x)


_M61 = (1 << 61) - 1


_HASHED = [False]


def se_hash(x):
  # hash() as a value; inside a __hash__ method that Python calls it has to be a plain int for the hash table
  if type(x) is SymInt and (_HASHED[0] or sys._getframe(1).f_code.co_name != '__hash__'):
    if x >= 0:
      return x % _M61
    h = -((-x) % _M61)
    return -2 if h == -1 else h
  own = type(x).__hash__
  if type(own) is types.FunctionType and (_HASHED[0] or sys._getframe(1).f_code.co_name != '__hash__') \
      and not type(x).__module__.startswith('engine.'):
    before, _HASHED[0] = _HASHED[0], True
    try:
      h = own(x)
      if type(h) in (int, SymInt):
        return h
    except TypeError:
      pass
    finally:
      _HASHED[0] = before
  return hash(x)


def se_chr(x):
  if type(x) is SymInt:
    return sym.mkstr([x])
  return chr(x)


def se_divmod(a, b):
  return divmod(a, b)


def se_abs(x):
  return abs(x)


def se_print(*a, **k):
  return None


def se_repr(x):
  return symrepr(x)


def se_format(x, spec=''):
  if spec == '':
    return symstr(x)
  if type(x) is SymInt:
    if spec == 'b':
      return sym.mkstr(sym.chars_of(se_bin(x))[2:])
    if spec in ('x',):
      return sym.mkstr(sym.chars_of(se_hex(x))[2:])
    if spec == 'd':
      return sym.int_to_str(x)
    if spec[0] == '0' and spec[-1] in 'bd' and spec[1:-1].isdigit():
      s = se_format(x, spec[-1])
      return s.zfill(_int(spec[1:-1]))
    x = x.__index__()
  return format(x, spec)


def call_method(obj, name, *a, **k):
  t = type(obj)
  if t is _str:
    if name == 'join':
      parts = list(a[0])
      if any(type(p) is SymStr for p in parts):
        return sym.str_join(obj, parts)
      return obj.join(parts)
    if name == 'format':
      return str_format(obj, a, k)
    if any(is_sym(x) for x in a):
      if name in ('zfill', 'rjust', 'ljust', 'center'):
        return getattr(obj, name)(*[x.__index__() if type(x) is SymInt else x for x in a])
      return getattr(SymStr(tuple(obj)), name)(*a, **k)
    return getattr(obj, name)(*a, **k)
  if t is _bytes:
    if name == 'join':
      parts = list(a[0])
      if any(type(p) is SymBytes or type(p) is sym.SymByteArray for p in parts):
        return SymBytes(tuple(obj)).join(parts)
      return obj.join(parts)
    if any(is_sym(x) for x in a):
      return getattr(SymBytes(tuple(obj)), name)(*a, **k)
    return getattr(obj, name)(*a, **k)
  if t is _int or t is _bool:
    a = [x.__index__() if type(x) is SymInt else x for x in a]
  return getattr(obj, name)(*a, **k)


def str_format(fmt, a, k):
  import string
  out = []
  auto = 0
  for lit, field, spec, conv in string.Formatter().parse(fmt):
    out.append(lit)
    if field is None:
      continue
    if field == '':
      v = a[auto]
      auto += 1
    elif field.isdigit():
      v = a[_int(field)]
    elif field in k:
      v = k[field]
    else:
      return fmt.format(*a, **k)
    if conv == 'r':
      v = symrepr(v)
    out.append(se_format(v, spec))
  return concat(out)


def se_mod(l, r):
  t = type(l)
  if t is _str or t is SymStr:
    if t is SymStr:
      return l
    args = r if type(r) is tuple else (r,)
    out = []
    i = n = 0
    simple = True
    while i < len(l):
      c = l[i]
      if c != '%':
        out.append(c)
        i += 1
        continue
      f = l[i + 1] if i + 1 < len(l) else ''
      if f == '%':
        out.append('%')
      elif f in 'sdir' and n < len(args):
        v = args[n]
        n += 1
        out.append(symrepr(v) if f == 'r' else symstr(v))
      else:
        simple = False
        break
      i += 2
    if simple and (n == len(args)):
      return concat(out)
    return l % r
  return l % r


def se_imod(l, r):
  return se_mod(l, r) if type(l) in (_str, SymStr) else l % r


def se_fstr(parts):
  return concat(parts)


def se_fval(v, conv, spec):
  if conv == ord('r'):
    v = symrepr(v)
  elif conv == ord('s'):
    v = symstr(v)
  if spec:
    return se_format(v, spec)
  return symstr(v)


def se_is(a, b):
  """`is` between values: symbolic numbers/strings compare by identity of
  small constants in CPython, i.e. by value here"""
  if is_sym(a) or is_sym(b):
    if a is None or b is None or a is b:
      return a is b
    if type(a) in (SymBool, _bool) and type(b) in (SymBool, _bool):
      return a == b
    if type(a) in _TYPEMAP and type(b) in _TYPEMAP and _TYPEMAP[type(a)] is _TYPEMAP[type(b)]:
      return a == b
    return False
  return a is b


def se_isnot(a, b):
  r = se_is(a, b)
  return sym.wrapb(T.bnot(sym.to_b(r))) if is_sym(r) else not r


def se_set(it=()):
  return _set(it)


def _extremum(real, less):

  def f(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if xs and not k and any(type(x) is sym.SymInt for x in xs) and \
        all(type(x) is sym.SymInt or type(x) is _int for x in xs):
      r = xs[0]
      for x in xs[1:]:
        rz, xz = sym.to_z(r), sym.to_z(x)
        r = sym.wrap(T.zite(sym.to_b(less(x, r)), xz, rz))
      return r
    return real(xs, **k)

  return f


se_max = _extremum(max, lambda x, r: x > r)
se_min = _extremum(min, lambda x, r: x < r)


METHODS = {
    'join', 'encode', 'decode', 'format', 'zfill', 'startswith', 'endswith',
    'replace', 'split', 'index', 'count', 'find', 'rjust', 'ljust', 'hex',
    'isdigit', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'to_bytes',
    'bit_length',
}


# A conditional between plain integer expressions is one value, not two paths.
_ARITH = (ast.Add, ast.Sub, ast.Mult, ast.Mod, ast.FloorDiv)


def _leaf(e):
  while _isinstance(e, ast.Attribute):
    e = e.value
  return _isinstance(e, ast.Name)


def _pure(e, leaves, divisors):
  """whether e is integer arithmetic over names and attributes of names"""
  if _isinstance(e, ast.Constant):
    return type(e.value) is _int
  if _leaf(e):
    leaves.append(e)
    return True
  if _isinstance(e, ast.UnaryOp) and _isinstance(e.op, ast.USub):
    return _pure(e.operand, leaves, divisors)
  if _isinstance(e, ast.BinOp) and _isinstance(e.op, _ARITH):
    if _isinstance(e.op, (ast.Mod, ast.FloorDiv)):
      if not (_leaf(e.right) or _isinstance(e.right, ast.Constant)):
        return False
      divisors.append(e.right)
    return _pure(e.left, leaves, divisors) and _pure(e.right, leaves, divisors)
  return False


def _pure_test(e):
  return _isinstance(e, ast.Compare) and _pure(e.left, [], []) and all(_pure(c, [], []) for c in e.comparators)


def _target(stmts):
  """(name, value expression) of a single assignment to a name"""
  if len(stmts) != 1:
    return None
  s = stmts[0]
  if _isinstance(s, ast.Assign) and len(s.targets) == 1 and _isinstance(s.targets[0], ast.Name):
    return s.targets[0].id, s.value
  if _isinstance(s, ast.AugAssign) and _isinstance(s.target, ast.Name):
    return s.target.id, ast.BinOp(left=ast.Name(id=s.target.id, ctx=ast.Load()), op=s.op, right=s.value)
  return None


def se_canmerge(c, leaves, divisors):
  if type(c) is not SymBool or core.CUR is None or core.CUR.known(c.b) is not None:
    return False
  try:
    for v in leaves():
      if type(v) is not _int and type(v) is not SymInt:
        return False
    for v in divisors():
      if type(v) is not _int or v == 0:
        return False
  except Exception:
    return False
  return True


def se_ite(c, a, b):
  return sym.wrap(T.zite(c.b, sym.to_z(a), sym.to_z(b)))


def se_ifexp(c, leaves, divisors, fa, fb):
  if se_canmerge(c, leaves, divisors):
    return se_ite(c, fa(), fb())
  return fa() if c else fb()


class Rewriter(ast.NodeTransformer):
  depth = 0
  serial = 0

  def _thunk(self, e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)

  def _tuple(self, es):
    return self._thunk(ast.Tuple(elts=[copy.deepcopy(e) for e in es], ctx=ast.Load()))

  def _arms(self, a, b):
    leaves, divisors = [], []
    if self.depth and _pure(a, leaves, divisors) and _pure(b, leaves, divisors):
      return self._tuple(leaves), self._tuple(divisors)
    return None

  def visit_ClassDef(self, node):
    d, self.depth = self.depth, 0
    self.generic_visit(node)
    self.depth = d
    return node

  def visit_Lambda(self, node):
    self.depth += 1
    self.generic_visit(node)
    self.depth -= 1
    return node

  def visit_IfExp(self, node):
    arms = self._arms(node.body, node.orelse)
    self.generic_visit(node)
    if arms is None:
      return node
    return ast.copy_location(
        self._call('_se_ifexp', node.test, arms[0], arms[1], self._thunk(node.body), self._thunk(node.orelse)), node)

  def _fresh(self):
    Rewriter.serial += 1
    return '_se_c%d' % Rewriter.serial

  def _store(self, name, value):
    return ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=value)

  def _merged(self, node, name, a, b):
    """(test assignment, merge condition, merged value)"""
    arms = self._arms(a, b)
    if arms is None:
      return None
    c = self._fresh()
    test = self.visit(copy.deepcopy(node.test))
    return (c, self._store(c, test), self._call('_se_canmerge', self._name(c), *arms),
            self._call('_se_ite', self._name(c), self.visit(copy.deepcopy(a)), self.visit(copy.deepcopy(b))))

  def visit_If(self, node):
    one = _target(node.body)
    two = _target(node.orelse) if node.orelse else (one and (one[0], ast.Name(id=one[0], ctx=ast.Load())))
    m = None
    if one and two and one[0] == two[0]:
      m = self._merged(node, one[0], one[1], two[1])
      done = m and [self._store(one[0], m[3])]
    elif len(node.body) == 1 and len(node.orelse) == 1 and _isinstance(node.body[0], ast.Return) and \
        _isinstance(node.orelse[0], ast.Return) and node.body[0].value is not None and node.orelse[0].value is not None:
      m = self._merged(node, None, node.body[0].value, node.orelse[0].value)
      done = m and [ast.Return(value=m[3])]
    if m is None:
      self.generic_visit(node)
      return node
    body, orelse = [self.visit(s) for s in node.body], [self.visit(s) for s in node.orelse]
    rest = ast.If(test=self._name(m[0]), body=body, orelse=orelse)
    return [ast.copy_location(m[1], node), ast.copy_location(ast.If(test=m[2], body=done, orelse=[rest]), node)]

  def visit_While(self, node):
    one = _target(node.body)
    if one and not node.orelse and _isinstance(node.body[0], ast.AugAssign) and \
        _isinstance(node.body[0].op, (ast.Add, ast.Sub)) and _pure_test(node.test):
      m = self._merged(node, one[0], one[1], ast.Name(id=one[0], ctx=ast.Load()))
      if m is not None:
        self.generic_visit(node)
        # the first turn as a value; whether there is another one is asked again
        return [ast.copy_location(m[1], node),
                ast.copy_location(ast.If(test=m[2], body=[self._store(one[0], m[3])], orelse=[]), node), node]
    self.generic_visit(node)
    return node

  def _returns(self, stmts):
    """`if c: return a` followed by `return b`"""
    out = list(stmts)
    for i in range(len(out) - 1):
      a, b = out[i], out[i + 1]
      if _isinstance(a, ast.If) and not a.orelse and len(a.body) == 1 and _isinstance(a.body[0], ast.Return) and \
          a.body[0].value is not None and _isinstance(b, ast.Return) and b.value is not None and \
          _pure(a.body[0].value, [], []) and _pure(b.value, [], []):
        a.orelse = [b]
        return out[:i + 1]
    return out

  def _name(self, n):
    return ast.Name(id=n, ctx=ast.Load())

  def _call(self, fn, *args):
    return ast.Call(func=self._name(fn), args=list(args), keywords=[])

  def visit_JoinedStr(self, node):
    parts = []
    for v in node.values:
      if _isinstance(v, ast.Constant):
        parts.append(v)
      else:
        val = self.visit(v.value)
        spec = ast.Constant(value='')
        if v.format_spec is not None:
          spec = self.visit(v.format_spec)
        parts.append(self._call('_se_fval', val, ast.Constant(value=v.conversion), spec))
    return ast.copy_location(
        self._call('_se_fstr', ast.List(elts=parts, ctx=ast.Load())), node)

  def visit_BinOp(self, node):
    self.generic_visit(node)
    if _isinstance(node.op, ast.Mod):
      return ast.copy_location(self._call('_se_mod', node.left, node.right), node)
    return node

  def visit_Call(self, node):
    self.generic_visit(node)
    f = node.func
    if _isinstance(f, ast.Name) and f.id == 'type' and len(node.args) == 1 and not node.keywords:
      return ast.copy_location(self._call('_se_type', node.args[0]), node)
    if _isinstance(f, ast.Attribute) and f.attr in METHODS:
      new = ast.Call(
          func=self._name('_se_method'),
          args=[f.value, ast.Constant(value=f.attr)] + node.args,
          keywords=node.keywords)
      return ast.copy_location(new, node)
    return node

  def visit_Attribute(self, node):
    self.generic_visit(node)
    if node.attr == '__class__' and _isinstance(node.ctx, ast.Load):
      return ast.copy_location(self._call('_se_class', node.value), node)
    return node

  def visit_Dict(self, node):
    self.generic_visit(node)
    return ast.copy_location(self._call('_se_dict', node), node)

  def visit_DictComp(self, node):
    self.generic_visit(node)
    pair = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
    gen = ast.GeneratorExp(elt=pair, generators=node.generators)
    return ast.copy_location(self._call('_se_dict', gen), node)

  def visit_Compare(self, node):
    self.generic_visit(node)
    if len(node.ops) == 1 and _isinstance(node.ops[0], (ast.Is, ast.IsNot)):
      c = node.comparators[0]
      if _isinstance(c, ast.Constant) and c.value is None:
        return node
      fn = '_se_is' if _isinstance(node.ops[0], ast.Is) else '_se_isnot'
      return ast.copy_location(self._call(fn, node.left, c), node)
    return node

  def visit_ExceptHandler(self, node):
    self.generic_visit(node)
    if node.type is None:   # executor control flow is not the code's business
      node.type = self._name('Exception')
    return node

  def visit_AnnAssign(self, node):
    if node.value is None:
      return node
    node.value = self.visit(node.value)
    return node

  def visit_arguments(self, node):
    node.defaults = [self.visit(d) for d in node.defaults]
    node.kw_defaults = [self.visit(d) if d is not None else None for d in node.kw_defaults]
    return node   # annotations are left alone

  def visit_FunctionDef(self, node):
    node.decorator_list = [self.visit(d) for d in node.decorator_list]
    node.args = self.visit(node.args)
    self.depth += 1
    body = []
    for st in self._returns(node.body):
      v = self.visit(st)
      body += v if _isinstance(v, list) else [v]
    self.depth -= 1
    node.body = body
    node.returns = None
    for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
      a.annotation = None
    mark = ast.Expr(value=ast.Call(
        func=self._name('_se_mark'), args=[ast.Constant(value=node.name)], keywords=[]))
    pos = 0
    if node.body and _isinstance(node.body[0], ast.Expr) and \
        _isinstance(node.body[0].value, ast.Constant):
      pos = 1
    node.body.insert(pos, mark)
    return node


def make_builtins(modfile):
  b = dict(builtins.__dict__)
  inrepo = modfile.startswith(REPO + os.sep)
  rel = os.path.relpath(modfile, REPO) if modfile.startswith(REPO) else modfile

  def mark(fn):
    if inrepo:
      EXECUTED.add((rel, fn))

  b.update({
      'int': IntShim, 'str': StrShim, 'bytes': BytesShim, 'bytearray': ByteArrayShim, 'bool': BoolShim,
      'float': FloatShim, 'dict': DictShim,
      'pow': se_pow, 'range': RangeShim, 'bin': se_bin, 'hex': se_hex, 'ord': se_ord,
      'chr': se_chr, 'hash': se_hash, 'print': se_print, 'max': se_max, 'min': se_min, 'repr': se_repr, 'format': se_format,
      '_se_ifexp': se_ifexp, '_se_ite': se_ite, '_se_canmerge': se_canmerge, '_se_type': se_type, '_se_class': se_class, '_se_mod': se_mod,
      '_se_method': call_method, '_se_dict': SDict, '_se_fstr': se_fstr,
      '_se_fval': se_fval, '_se_is': se_is, '_se_isnot': se_isnot, '_se_mark': mark,
  })
  return b


_CODE = {}


def compile_module(path):
  st = os.stat(path)
  key = (path, st.st_mtime_ns, st.st_size)
  c = _CODE.get(key)
  if c is None:
    with open(path, 'rb') as f:
      src = f.read()
    import warnings
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      tree = ast.parse(src, path)
      tree = Rewriter().visit(tree)
      ast.fix_missing_locations(tree)
      c = _CODE[key] = compile(tree, path, 'exec', dont_inherit=True)
  return c


def exec_module(mod, path):
  code = compile_module(path)
  mod.__dict__['__builtins__'] = make_builtins(path)
  exec(code, mod.__dict__)


class Loader(importlib.abc.Loader):

  def __init__(self, path):
    self.path = path

  def create_module(self, spec):
    return None

  def exec_module(self, module):
    exec_module(module, self.path)


HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')


def locate(fullname):
  """file of starks.X: the package itself, else misc/ (same layout as the
  misc tests expect)"""
  if fullname == 'starks':
    return os.path.join(REPO, 'starks', '__init__.py'), True
  if fullname.startswith('starks.') and fullname.count('.') == 1:
    n = fullname.split('.')[1]
    for d in ('starks', 'misc'):
      p = os.path.join(REPO, d, n + '.py')
      if os.path.isfile(p):
        return p, False
  if fullname == 'harness':
    return os.path.join(HARNESS, '__init__.py'), True
  if fullname.startswith('harness.') and fullname.count('.') == 1:
    p = os.path.join(HARNESS, fullname.split('.')[1] + '.py')
    if os.path.isfile(p):
      return p, False
  return None, False


class Alias(importlib.abc.Loader):
  """X for a module of misc/, when a script there imports its neighbour"""

  def __init__(self, name):
    self.name = name

  def create_module(self, spec):
    return importlib.import_module(self.name)

  def exec_module(self, module):
    pass


class Finder(importlib.abc.MetaPathFinder):

  def find_spec(self, fullname, path, target=None):
    if '.' not in fullname and os.path.isfile(os.path.join(REPO, 'misc', fullname + '.py')):
      return importlib.machinery.ModuleSpec(fullname, Alias('starks.' + fullname))
    p, pkg = locate(fullname)
    if p is None:
      return None
    spec = importlib.util.spec_from_file_location(
        fullname, p, loader=Loader(p),
        submodule_search_locations=[os.path.dirname(p)] if pkg else None)
    return spec


def install():
  sys.dont_write_bytecode = True
  sys.meta_path.insert(0, Finder())


def purge():
  """forget the loaded repository modules (fresh module state)"""
  for k in list(sys.modules):
    if k == 'starks' or k.startswith('starks.') or getattr(sys.modules[k], '__file__', None) and \
        os.path.dirname(sys.modules[k].__file__) == os.path.join(REPO, 'misc'):
      del sys.modules[k]
