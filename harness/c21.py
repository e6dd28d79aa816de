"""C21  binary-field elements as integers, and floating-point numbers built on them."""
from engine.runner import Case
from harness.common import seq  # noqa
from .c06 import MODULI, _reduce

BOUNDS = {
    'quick': 'F_{2^3} and F_{2^4} with a fixed modulus: every pair of elements; floating-point operands with every significand, exponent, '
             'zero flag and sign; exponents 0 to 7 in powers; integers below 2^12 in the binary conversion',
    'thorough': 'additionally F_{2^5}'}
OUTSIDE = 'larger fields; odd characteristic (not meaningful for these operations); equality of floating-point numbers (the tests fix that it compares the zero flags only)'
ASSUMPTIONS = ['the moduli listed are irreducible']


def _fq(env, m):
  P = env.get('polynomial', 'polynomials_over')(env.field(2))
  return env.get('finitefield', 'FiniteField')(2, m, P(MODULI[2, m]))


def _bits(x, m):
  cs = [int(c) for c in x.poly]
  return cs + [0] * (m - len(cs))


def _num(bits):
  return sum(b * 2**i for i, b in enumerate(bits))


def order(env, m):
  Fq = _fq(env, m)
  a, b = env.ints('a', m, 0, 1), env.ints('b', m, 0, 1)
  r = Fq(a).LT(Fq(b))
  env.check(env.iff(r == 1, _num(a) <= _num(b)), 'comparison as integers')
  env.check(env.any([r == 0, r == 1]), 'a bit')


def plus(env, m):
  Fq = _fq(env, m)
  a, b = env.ints('a', m, 0, 1), env.ints('b', m, 0, 1)
  x, y = Fq(a), Fq(b)
  r = x.Regular_Binary_Addition(y)
  env.check(type(r) is Fq, 'an element')
  c = 0
  bits = []
  for u, v in zip(a, b):
    s = u + v + c
    bits.append(s % 2)
    c = s // 2
  bits.append(c)
  want = _reduce(bits, 2, m)
  got = _bits(r, m)
  env.check(env.all([len(got) == m] + [g == w % 2 for g, w in zip(got, want)]), 'sum as integers')
  env.check(env.implies(_num(a) + _num(b) < 2**m, _num(got) == _num(a) + _num(b)), 'exact without a carry out')
  env.check(env.all([g == w for g, w in zip(_bits(x, m) + _bits(y, m), a + b)]), 'operands unchanged')


def binary(env, lo, hi):
  n = env.int('n', lo, hi)
  for mod in ('floatingpoint',):
    l = env.get(mod, 'num_to_binary_list')(n)
    env.check(_num(l) == n, 'binary digits')
    env.check(env.all([env.any([d == 0, d == 1]) for d in l]), 'digits are bits')
    env.check(env.all([l[-1] == 1]) if l else n == 0, 'no leading zero')


def power_list(env):
  f = env.get('finitefield', 'num_to_binary_list_pow')
  for i in range(9):
    env.check(f(i) == [0] * i + [1], 'power of two')


def strings(env, n, k):
  f = env.get('finitefield', 'add_binary_nums')
  a, b = env.ints('a', n, 0, 1), env.ints('b', k, 0, 1)
  x = ''.join('1' if t == 1 else '0' for t in reversed(a))
  y = ''.join('1' if t == 1 else '0' for t in reversed(b))
  r = f(x, y)
  env.check(_num([int(t) for t in r]) == _num(a) + _num(b), 'sum of binary strings')


def two_pow(env, m):
  Fq = _fq(env, m)
  a = env.ints('a', m, 0, 1)
  r = Fq(a).two_pow()
  got = _bits(r, m)
  n = _num(a)
  for e in range(2**m):
    w = [0] * e + [1]
    w = [t % 2 for t in _reduce(w, 2, m)]
    env.check(env.implies(n == e, env.all([g == t for g, t in zip(got, w)])), 'power of two')


def _float(env, Fq, Fp, m, tag, z=None):
  v, p = env.ints(tag + 'v', m, 0, 1), env.ints(tag + 'p', m, 0, 1)
  zf = env.int(tag + 'z', 0, 1) if z is None else z
  return Fp(Fq(v), Fq(p), zf, env.int(tag + 's', 0, 1)), v, p


def _same(env, a, b, sign=True, m=3):
  cs = [x == y for x, y in zip(_bits(a.v, m) + _bits(a.p, m), _bits(b.v, m) + _bits(b.p, m))]
  return env.all(cs + [a.z == b.z] + ([a.s == b.s] if sign else []))


def _make(env, m):
  Fq = _fq(env, m)
  return Fq, env.get('floatingpoint', 'FloatingPoint')(Fq)


def product(env, m, what):
  Fq, Fp = _make(env, m)
  x, xv, xp = _float(env, Fq, Fp, m, 'x', 0 if what == 'value' else None)
  y, yv, yp = _float(env, Fq, Fp, m, 'y', 0 if what == 'value' else None)
  if what == 'value':
    r = x * y
    env.check(_is(env, r.v, _mulbits(xv, yv, m), m), 'significand of a product')
    env.check(r.s == (x.s ^ y.s), 'sign of a product')
    env.check(r.z == 0, 'a product of nonzero numbers')
    q = y * x
    env.check(_same(env, r, q, m=m), 'multiplication commutes')
    nz = _num(xv) * _num(yv) != 0
    if nz:
      d = max(0, _deg(xv) + _deg(yv) - (m - 1))
      env.check(_is(env, r.p, [a + b + c for a, b, c in zip(xp, yp, _low(d, m))], m), 'exponent of a product')
  else:
    env.assume(x.z + y.z >= 1)
    r = x * y
    env.check(env.all([r.z == 1, _num(_bits(r.v, m)) == 0, _num(_bits(r.p, m)) == 0]), 'zero times a number')
    env.check(r.s == (x.s ^ y.s), 'sign of a product')


def _low(n, m):
  return [(n >> i) & 1 for i in range(m)]


def _deg(bits):
  d = -1
  for i, b in enumerate(bits):
    if b == 1:
      d = i
  return d


def _mulbits(a, b, m):
  out = [0] * (2 * m - 1)
  for i, x in enumerate(a):
    for j, y in enumerate(b):
      out[i + j] = out[i + j] + x * y
  return _reduce(out, 2, m)


def _is(env, x, want, m):
  got = _bits(x, m)
  return env.all([len(got) == m] + [g == w % 2 for g, w in zip(got, want)])


def quotient(env, m, what):
  Fq, Fp = _make(env, m)
  y, yv, yp = _float(env, Fq, Fp, m, 'y')
  if what == 'zero':
    x = Fp(Fq([1]), Fq([1]), env.int('xz', 0, 1), env.int('xs', 0, 1))
    env.assume(env.any([y.z == 1, _num(yv) == 0]))
    env.check(env.raises(lambda: x / y, ZeroDivisionError), 'division by zero raises')
    return
  env.assume(env.all([y.z == 0, _num(yv) != 0]))
  x, xv, xp = _float(env, Fq, Fp, m, 'x')
  r = x / y
  env.check(r.s == (x.s ^ y.s), 'sign of a quotient')
  env.check(r.z == x.z, 'zero flag of a quotient')
  if x.z == 1:
    env.check(env.all([_num(_bits(r.v, m)) == 0, _num(_bits(r.p, m)) == 0]), 'zero divided')
  else:
    env.check(_is(env, r.v * y.v, xv, m), 'significand of a quotient')
    one = Fp(Fq([1]), Fq([0]), 0, 0)
    if _num(xv) != 0:
      env.check(_same(env, r, x * (one / y), m=m), 'a quotient is the product with the reciprocal')


def total(env, m, what):
  Fq, Fp = _make(env, m)
  x, xv, xp = _float(env, Fq, Fp, m, 'x')
  y, yv, yp = _float(env, Fq, Fp, m, 'y')
  if what == 'neutral':
    env.assume(x.z + y.z >= 1)
    r = x + y
    env.check(_same(env, r, y if x.z == 1 else x, m=m), 'zero is neutral')
    return
  env.assume(x.z + y.z == 0)
  if what == 'minus':
    s0 = y.s
    r = x - y
    env.check(env.all([y.s == s0, y.z == 0, _is(env, y.v, yv, m), _is(env, y.p, yp, m), _is(env, x.v, xv, m)]), 'operands unchanged')
    env.check(_same(env, r, x + Fp(y.v, y.p, y.z, y.s ^ 1), m=m), 'a difference is the sum with the negation')
    return
  r, q = x + y, y + x
  env.check(_same(env, r, q, sign=False, m=m), 'addition commutes')
  env.check(env.iff(r.z == 1, _num(_bits(r.v, m)) == 0), 'the zero flag tells a zero significand')
  px, py = _num(xp), _num(yp)
  if px == py:
    env.check(_is(env, r.v, [a + b for a, b in zip(xv, yv)], m), 'significands of equal exponent')
    env.check(_is(env, r.p, xp, m), 'exponent kept')
    if _num(xv) != _num(yv):
      env.check(r.s == (x.s if _num(xv) > _num(yv) else y.s), 'sign of the larger')
  else:
    hi, lo = (x, y) if px > py else (y, x)
    env.check(r.s == hi.s, 'sign of the larger')
    delta = hi.p - lo.p
    far = _num(_bits(delta, m)) > m
    if far:
      env.check(_same(env, r, Fp(hi.v, hi.p, r.z, hi.s), m=m), 'a much larger number absorbs')
    else:
      env.check(_same(env, r, Fp(hi.v * delta.two_pow() + lo.v, lo.p, r.z, hi.s), m=m), 'aligned sum')


def fixed(env, m):
  Fq, Fp = _make(env, m)
  x, xv, xp = _float(env, Fq, Fp, m, 'x')
  v, s = x.Float_to_Fix()
  if x.z == 1:
    env.check(env.all([_num(_bits(v, m)) == 0, s == 0]), 'zero as a fixed number')
  else:
    env.check(_is(env, v, _mulbits(xv, _bits(Fq(xp).two_pow(), m), m), m), 'significand times two to the exponent')
    env.check(s == x.s, 'sign kept')


def power(env, m, neg):
  Fq, Fp = _make(env, m)
  x, xv, xp = _float(env, Fq, Fp, m, 'x', 0)
  env.assume(_num(xv) != 0)
  kb = env.ints('k', m, 0, 1)
  r = x**Fp(Fq(kb), Fq([0]), 0, 1 if neg else 0)
  w = Fp(Fq([1]), Fq([0]), 0, 0)
  k = env.concrete(_num(kb))
  for _ in range(k):
    w = w * x
  if neg:
    w = Fp(Fq([1]), Fq([0]), 0, 0) / w
  env.check(_same(env, r, w, m=m), 'a power is the repeated product')


def CASES(tier):
  th = tier == 'thorough'
  cs = []

  def add(fn, w=1, **p):
    cs.append(Case(fn, p, weight=w, budget_s=60 if not th else 500, path_s=40))

  for m in (3, 4, 5) if th else (3, 4):
    add('order', m=m)
    add('plus', 2, m=m)
    add('two_pow', m=m)
    add('fixed', m=m)
  for m in (3, 4) if th else (3,):
    for w in ('value', 'zero'):
      add('product', 3, m=m, what=w)
      add('quotient', 3, m=m, what=w)
    for w in ('neutral', 'minus', 'sum'):
      add('total', 3, m=m, what=w)
    for neg in (0, 1):
      add('power', 3, m=m, neg=neg)
  add('binary', lo=0, hi=4095)
  add('power_list')
  for n, k in ((1, 1), (3, 3), (4, 2), (1, 4)):
    add('strings', n=n, k=k)
  return cs
