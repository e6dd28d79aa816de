"""Path exploration.

A harness is an ordinary Python function h(env) that calls the real code on
symbolic inputs.  It is re-executed once per feasible path; the decisions taken
at symbolic branches are recorded, and the alternatives whose path condition
the solver finds satisfiable are explored depth first.
"""
import time
import traceback
from . import terms as T
from . import lower as L
from .terms import TRUE, FALSE, ATOMS

CUR = None  # the active Path
now = time.time   # kept: harnesses may stub time.time


class PathEnd(BaseException):
  """Control flow of the executor; not catchable by `except Exception`."""

  def __init__(self, *a):
    super().__init__(*a)
    if CUR is not None and CUR.ended is None:
      CUR.ended = self


class Infeasible(PathEnd):
  pass


class Abort(PathEnd):
  """Executor limit reached on this path (inconclusive)."""

  def __init__(self, why):
    super().__init__(why)
    self.why = why


class Timeout(PathEnd):
  pass


class Violated(PathEnd):
  pass


class ApiMissing(Exception):
  """A name the harness drives does not exist any more."""


def is_sym(x):
  return getattr(type(x), '_is_sym', False)


class Opts:

  def __init__(self, **kw):
    self.timeout_ms = 10000      # one solver query
    self.assert_timeout_ms = 60000
    self.max_paths = 100000
    self.max_real = 4096         # values enumerated by one realisation
    self.budget_s = 300.0
    self.path_s = 120.0
    self.order = None
    self.__dict__.update(kw)


class Path:

  def __init__(self, prefix, opts, result):
    self.prefix = prefix
    self.pos = 0
    self.decisions = []   # (choice, [unexplored alternatives])
    self.pc = []          # asserted booleans
    self.pcset = set()
    self.subst = T.Subst()
    self.model = {}       # satisfies pc when model_ok
    self.model_ok = True
    self.opts = opts
    self.res = result
    self.inputs = []      # (name, kind, term)
    self._hok = (None, True, None)
    self.hashes = []      # hash applications on this path
    self.fresh = 0
    self.unknown = 0
    self.incomplete = []
    self.decided = {}
    self.checks = 0
    self.deadline = now() + opts.path_s
    self.ended = None
    self.notes = {}

  # -- constraints
  def _add(self, b):
    if b is TRUE:
      return
    if b.kind == 'and':
      for x in b.args:
        self._add(x)
      return
    if b.id in self.pcset:
      return
    self.pcset.add(b.id)
    self.pc.append(b)
    self.decided[b.id] = True
    self.decided[T.bnot(b).id] = False
    self._learn(b)

  def _learn(self, b):
    """Gaussian-style substitution from an equality."""
    b = self.subst.bo(b)
    if b.kind == 'eq':
      d = b.args[0]
      if len(d.t) <= 2:
        # x = c
        for m, c in d.t.items():
          if len(m) == 2 and m[1] == 1 and abs(c) == 1:
            rest = -d.t.get((), 0) * c
            if (len(d.t) == 1 or () in d.t) and ATOMS[m[0]].kind == 'var':
              self.subst.add(m[0], T.zconst(rest))
              return
        # x = y
        if len(d.t) == 2 and () not in d.t:
          ms = sorted(d.t)
          if all(len(m) == 2 and m[1] == 1 and ATOMS[m[0]].kind == 'var' for m in ms) and \
              d.t[ms[0]] == -d.t[ms[1]]:
            x, y = ATOMS[ms[0][0]], ATOMS[ms[1][0]]
            if (x.lo, x.hi) == (y.lo, y.hi):
              self.subst.add(y.id, T.zatom(x))
              return
    elif b.kind == 'eqm':
      p, q = b.args
      if not T.isprime(p) or len(q.t) > 200:
        return
      # a variable of the whole field occurring exactly once, linearly
      count = {}
      for m in q.t:
        for i in range(0, len(m), 2):
          count[m[i]] = count.get(m[i], 0) + 1
      inner = set()
      for aid in count:
        if ATOMS[aid].kind != 'var':
          for d in ATOMS[aid].data:
            if isinstance(d, T.ZP):
              T.atoms_of_zp(d, inner, set())
            elif isinstance(d, T.Bo):
              T.atoms_of_bo(d, inner, set())
      best = None
      for m, c in q.t.items():
        if len(m) == 2 and m[1] == 1 and count[m[0]] == 1 and m[0] not in inner:
          a = ATOMS[m[0]]
          if a.kind == 'var' and a.lo == 0 and a.hi == p - 1:
            if best is None or m[0] > best[0]:
              best = (m[0], m, c)
      if best is not None:
        aid, m, c = best
        rest = {mm: cc for mm, cc in q.t.items() if mm != m}
        ci = pow(-c, -1, p)
        self.subst.add(aid, T.zmod(T.zscale(T.ZP(rest), ci), p))

  def assume(self, b):
    b = self.subst.bo(b)
    if b is TRUE:
      return
    if b is FALSE:
      raise Infeasible()
    v = self._val(b)
    if v is not True and (v is False or self.pos >= len(self.prefix)):
      r = self._sat(b)
      if r == 'unsat':
        raise Infeasible()
      if v is False:
        self._use_model()
    self._add(b)

  def _val(self, b):
    """truth of b under the current model, None if no model"""
    if not self.model_ok:
      return None
    return T.Evaluator(self.model).bo(b)

  def _slice(self, b):
    """conjuncts of pc sharing variables (transitively) with b"""
    vs = _vars(b)
    rest = list(self.pc)
    out = []
    changed = True
    while changed and rest:
      changed = False
      keep = []
      for c in rest:
        cv = _vars(c)
        if cv & vs:
          out.append(c)
          if not cv <= vs:
            vs = vs | cv
            changed = True
        else:
          keep.append(c)
      rest = keep
    return out

  def _sat(self, b, timeout=None):
    """sat/unsat/unknown of pc and b; updates the model when sat"""
    self._last_model = None
    for _ in range(60):
      cs = self._slice(b)
      r, m = L.decide(cs + [b], timeout or self.opts.timeout_ms, self.opts.order)
      if r != 'sat' or len(self.hashes) < 2:
        break
      base = dict(self.model)
      base.update(m)
      ax = self._hash_axioms(base, m)
      if not ax:
        break
      n = len(self.pc)
      for a in ax:
        self._add(a)
      if len(self.pc) == n:
        break
    else:
      r = 'unknown'
    if r == 'sat':
      self._last_model = m
    elif r == 'unknown':
      self.unknown += 1
    return r

  def _hashes_ok(self):
    """whether the current model has no hash collision"""
    key = (id(self.model), len(self.model), len(self.hashes))
    if self._hok[0] != key:
      self._hok = (key, not self._hash_axioms(self.model, None), self.model)
    return self._hok[1]

  def new_hash(self, algo, items, out):
    """a hash application; the current model gets the real value"""
    self.hashes.append((algo, items, out))
    if self.model_ok and not out.is_const():
      from . import sym
      n = out.single()
      if n is not None and n.id not in self.model:
        m = dict(self.model)
        m[n.id] = int.from_bytes(algo.real(sym.eval_bytes(items, T.Evaluator(self.model))), 'big')
        self.model = m

  def _hash_axioms(self, model, changed):
    """functional consistency and collision freedom violated by a model"""
    from . import sym
    ev = T.Evaluator(model)
    by_out, by_arg, bad = {}, {}, []
    for h in self.hashes:
      algo, items, out = h
      o = ev.zp(out)
      a = (algo.name, sym.eval_bytes(items, ev))
      g = by_out.setdefault((algo.name, o), [a, h])
      if g[0] != a:
        bad.append((g[1], h))
      g = by_arg.setdefault(a, [o, h])
      if g[0] != o:
        bad.append((g[1], h))
    out = []
    for (al1, i1, o1), (al2, i2, o2) in bad:
      vs = set()
      eo = T.mk_eq(o1, o2)
      if al1 is al2 and len(i1) == len(i2):
        ax = T.biff(eo, sym.bytes_eq(i1, i2))
      else:
        ax = T.bnot(eo)
      if changed is not None and not (_vars(ax) & set(changed)):
        continue
      out.append(ax)
    return out

  def _use_model(self):
    m = self._last_model
    if m is None:
      self.model_ok = False
      return
    new = dict(self.model)
    new.update(m)
    self.model = new

  def known(self, b):
    """True/False when b follows syntactically from the path, else None"""
    if b is TRUE:
      return True
    if b is FALSE:
      return False
    v = self.decided.get(b.id)
    if v is not None:
      return v
    s = self.subst.bo(b)
    if s is TRUE:
      return True
    if s is FALSE:
      return False
    v = self.decided.get(s.id)
    return v

  def branch(self, b):
    if now() > self.deadline:
      raise Timeout()
    v = self.known(b)
    if v is not None:
      return v
    b0 = b
    b = self.subst.bo(b)
    nb = T.bnot(b)
    if self.pos < len(self.prefix):
      choice = self.prefix[self.pos]
      self.pos += 1
      self.decisions.append((choice, None))
      if isinstance(choice, tuple):
        assert choice[0] == 'f', choice
        choice = choice[1]
        self._forced(b0, b, nb, choice)
        if self.pos == len(self.prefix):
          self._refresh()
        return choice
      self._add(b if choice else nb)
      self.model_ok = False
      if self.pos == len(self.prefix):
        self._refresh()
      return choice
    self.res.branches += 1
    mv = self._val(b)
    if mv is not None and len(self.hashes) > 1 and not self._hashes_ok():
      mv = None
    feas = {}
    models = {}
    if mv is not None:
      feas[mv] = True
      models[mv] = 'cur'
      o = not mv
      r = self._sat(b if o else nb)
      feas[o] = r != 'unsat'
      models[o] = self._last_model
    else:
      for o in (True, False):
        r = self._sat(b if o else nb)
        feas[o] = r != 'unsat'
        models[o] = self._last_model
        if o and not feas[o]:
          # the path is feasible, so the other side must be
          feas[False] = True
          models[False] = None
          break
    if feas[True] and feas[False]:
      choice = True if mv is None else mv
      self.decisions.append((choice, [not choice]))
      self.pos += 1
      self.prefix = self.prefix + [choice]
    elif feas[True] or feas[False]:
      choice = feas[True]
      # forced: a recorded decision without alternative
      self._forced(b0, b, nb, choice)
      self.decisions.append((('f', choice), None))
      self.prefix = self.prefix + [('f', choice)]
      self.pos += 1
      if models.get(choice) != 'cur':
        self._last_model = models.get(choice)
        if self._last_model is not None:
          self._use_model()
      return choice
    else:
      raise Infeasible()
    self._add(b if choice else nb)
    if models.get(choice) != 'cur':
      self._last_model = models.get(choice)
      self._use_model()
    return choice

  def _forced(self, b0, b, nb, choice):
    self.decided[b.id] = choice
    self.decided[nb.id] = not choice
    self.decided[b0.id] = choice
    self._learn(b if choice else nb)

  def _decide_all(self, cs, timeout):
    for _ in range(60):
      r, m = self._decide_all1(cs, timeout)
      if r != 'sat' or len(self.hashes) < 2:
        return r, m
      ax = [a for a in self._hash_axioms(m, None) if a.id not in self.pcset]
      if not ax:
        return r, m
      for a in ax:
        self._add(a)
      cs = list(cs) + ax
    return 'unknown', None

  def _decide_all1(self, cs, timeout):
    """decide a conjunction component by component"""
    cs = [b for b in cs if b is not TRUE]
    model = {}
    rest = cs
    unknown = False
    while rest:
      vs = _vars(rest[0])
      comp = [rest[0]]
      others = rest[1:]
      ch = True
      while ch:
        ch = False
        keep = []
        for c in others:
          cv = _vars(c)
          if cv & vs:
            comp.append(c)
            if not cv <= vs:
              vs = vs | cv
              ch = True
          else:
            keep.append(c)
        others = keep
      r, m = L.decide(comp, timeout, self.opts.order)
      if r == 'unsat':
        return 'unsat', None
      if r == 'unknown':
        unknown = True
      else:
        model.update(m)
      rest = others
    return ('unknown', None) if unknown else ('sat', model)

  def _refresh(self):
    """recompute a model for the whole pc after replaying a prefix"""
    r, m = self._decide_all(self.pc, self.opts.timeout_ms)
    if r == 'unsat':
      raise Infeasible()
    if r == 'sat':
      self.model = m
      self.model_ok = True
    else:
      self.model_ok = False
      self.unknown += 1

  def full_model(self, extra=()):
    r, m = self._decide_all(list(self.pc) + list(extra), self.opts.assert_timeout_ms)
    return m if r == 'sat' else None

  def realise(self, z, what='value'):
    """Fork over the feasible values of an int term."""
    z = self.subst.zp(z)
    if z.is_const():
      return z.const()
    n = 0
    lo, hi = z.rng()
    while True:
      n += 1
      if n > self.opts.max_real:
        self.incomplete.append('realisation of %s stopped after %d values' % (what, n - 1))
        raise Abort('too many values for %s' % what)
      if self.pos < len(self.prefix):
        # replaying: decisions of realisation are recorded as ('v', value, taken)
        d = self.prefix[self.pos]
        assert isinstance(d, tuple) and d[0] in ('v', 'fv'), d
        self.pos += 1
        self.decisions.append((d, None))
        c = self.subst.bo(T.mk_eq(z, T.zconst(d[1])))
        if d[0] == 'fv':
          self._forced(c, c, T.bnot(c), True)
          if self.pos == len(self.prefix):
            self._refresh()
          return d[1]
        self._add(c if d[2] else T.bnot(c))
        self.model_ok = False
        if self.pos == len(self.prefix):
          self._refresh()
        if d[2]:
          return d[1]
        zz = self.subst.zp(z)
        if zz.is_const():
          return zz.const()
        continue
      if not self.model_ok:
        self._refresh()
        if not self.model_ok:
          raise Abort('no model for realisation')
      v = T.Evaluator(self.model).zp(z)
      c = self.subst.bo(T.mk_eq(z, T.zconst(v)))
      nc = T.bnot(c)
      r = self._sat(nc)
      self.res.branches += 1
      if r == 'unsat':
        self._forced(c, c, nc, True)
        self.decisions.append((('fv', v), None))
        self.prefix = self.prefix + [('fv', v)]
        self.pos += 1
        return v
      self.decisions.append((('v', v, True), [('v', v, False)]))
      self.prefix = self.prefix + [('v', v, True)]
      self.pos += 1
      self._add(c)
      return v

  # -- property assertions
  def check(self, b, label, info=None):
    self.checks += 1
    self.res.checks += 1
    self.res.labels[label] = self.res.labels.get(label, 0) + 1
    raw = b
    v = self.known(b)
    if v is True:
      if raw is TRUE:
        self.res.simplified += 1
      self.res.discharged += 1
      if raw is TRUE:
        return
    if v is not True:
      nb = T.bnot(self.subst.bo(b))
    else:
      # decided by the path condition: have the solver confirm it
      nb = T.bnot(raw)
    if self._val(nb) is True and (len(self.hashes) < 2 or self._hashes_ok()):
      self._last_model = self.model
      r = 'sat'
    else:
      r = self._sat(nb, self.opts.assert_timeout_ms)
    if r == 'unsat':
      if v is not True:
        self.res.discharged += 1
      return
    if r == 'unknown':
      if v is True:
        return
      self.res.inconclusive.append('assertion %r: solver gave no answer' % label)
      return
    m = self.full_model([nb])
    self.res.candidates.append((label, self.concretise(m if m is not None else self._last_model),
                                str(info) if info else ''))
    raise Violated()

  # -- concrete inputs of a model
  def concretise(self, model):
    if model is None:
      return None
    ev = T.Evaluator(model)
    hmap = None
    out = {}
    for name, kind, term in self.inputs:
      if kind == 'int':
        out[name] = ev.zp(term)
      elif kind == 'bytes':
        out[name] = self._conc_bytes(ev, name, term)
      else:
        raise AssertionError(kind)
    return out

  def _conc_bytes(self, ev, name, sb):
    # values equal to a modelled hash output stand for the real hash
    from . import sym
    raw = sym.eval_bytes(sb, ev)
    if not self.hashes:
      return raw
    return self._rehash(ev, raw, 0)

  def _rehash(self, ev, raw, depth):
    """replace modelled hash outputs inside raw by real hash values"""
    if depth > 40:
      return raw
    tab = getattr(ev, '_htab', None)
    if tab is None:
      tab = ev._htab = {}
      for algo, items, out in self.hashes:
        if out.is_const():
          continue
        n = algo.size
        tab[ev.zp(out).to_bytes(n, 'big')] = (algo, items)
    memo = ev.__dict__.setdefault('_hmemo', {})
    if len(raw) in (32, 48) and raw in tab:
      if raw in memo:
        return memo[raw]
      algo, items = tab[raw]
      arg = self._real_items(ev, items, depth + 1)
      memo[raw] = algo.real(arg)
      return memo[raw]
    if len(raw) > 32 and len(raw) % 32 == 0:
      return b''.join(self._rehash(ev, raw[i:i + 32], depth + 1)
                      for i in range(0, len(raw), 32))
    return raw

  def _real_items(self, ev, items, depth):
    from . import sym
    raw = sym.eval_bytes(items, ev)
    # chunk on 32-byte runs that are hash outputs of the model
    out = b''
    i = 0
    tab = ev._htab
    while i < len(raw):
      c = raw[i:i + 32]
      if len(c) == 32 and c in tab:
        out += self._rehash(ev, c, depth)
        i += 32
      else:
        out += raw[i:i + 1]
        i += 1
    return out


_VARS = {}


def _vars(b):
  r = _VARS.get(b.id)
  if r is None:
    acc, bacc = set(), set()
    T.atoms_of_bo(b, acc, bacc)
    r = frozenset(a for a in acc if ATOMS[a].kind == 'var')
    _VARS[b.id] = r
  return r


class Result:

  def __init__(self, name):
    self.name = name
    self.paths = 0
    self.infeasible = 0
    self.branches = 0
    self.checks = 0
    self.discharged = 0
    self.simplified = 0
    self.labels = {}
    self.candidates = []     # (label, inputs, info)
    self.inconclusive = []
    self.models = []         # concrete inputs of completed paths
    self.reached = 0         # paths on which at least one assertion was reached
    self.complete = True
    self.functions = set()
    self.wall = 0.0
    self.missing = []
    self.timeouts = []
    self.identities = 0
    self.ident_sample = []
    self.ident = {}

  def dump(self):
    d = dict(self.__dict__)
    d['functions'] = sorted(self.functions)
    d.pop('ident_sample')
    return d


def explore(name, run, opts, want_models=3, on_path=None):
  """run(path) executes the harness once.  Returns Result."""
  global CUR
  res = Result(name)
  t0 = now()
  stack = [[]]
  seen_cand = set()
  while stack:
    if now() - t0 > opts.budget_s:
      res.complete = False
      res.inconclusive.append('time budget of %.0f s used up with %d paths pending' %
                              (opts.budget_s, len(stack)))
      break
    if res.paths >= opts.max_paths:
      res.complete = False
      res.inconclusive.append('path limit')
      break
    prefix = stack.pop()
    p = Path(prefix, opts, res)
    CUR = p
    finished = False
    exc = None
    try:
      run(p)
    except PathEnd as e:
      exc = e
    except (Exception, RecursionError) as e:
      exc = e
    if p.ended is not None:
      exc = p.ended      # swallowed by a handler of the code under test
    try:
      if exc is None:
        finished = True
      elif isinstance(exc, Infeasible):
        res.infeasible += 1
      elif isinstance(exc, Violated):
        pass
      elif isinstance(exc, Abort):
        res.inconclusive.append('path abandoned: %s' % exc.why)
      elif isinstance(exc, Timeout):
        CUR = None
        m = p.full_model()
        res.timeouts.append(p.concretise(m))
        res.inconclusive.append('path ran longer than %.0f s' % opts.path_s)
      elif isinstance(exc, ApiMissing):
        res.missing.append(str(exc))
        res.inconclusive.append('name not found: %s' % exc)
        res.paths += 1
        break
      else:
        tb = ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__, limit=-6))
        p.ended = None
        m = p.full_model() if p.pc else p.model
        if m is None:
          res.inconclusive.append('exception on a path without model: %s' % tb[-600:])
        else:
          res.candidates.append(('exception %s' % type(exc).__name__, p.concretise(m),
                                 tb[-1500:]))
    finally:
      CUR = None
    res.paths += 1
    if p.incomplete:
      res.complete = False
      res.inconclusive.extend(p.incomplete)
    if p.checks and (finished):
      res.reached += 1
    if finished and len(res.models) < want_models:
      m = p.model if p.model_ok else p.full_model()
      c = p.concretise(m)
      if c is not None:
        res.models.append(c)
    if len(res.candidates) >= 6:
      res.complete = False
      break
    for i in range(len(p.decisions) - 1, len(prefix) - 1, -1):
      alts = p.decisions[i][1]
      if alts:
        base = [d[0] for d in p.decisions[:i]]
        for a in alts:
          stack.append(base + [a])
  res.wall = now() - t0
  return res
