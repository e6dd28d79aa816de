"""C26  the blockchain: bookkeeping, validity of chains, consensus."""
import hashlib
import json
from engine.runner import Case
from harness.common import seq  # noqa

BOUNDS = {
    'quick': 'every sequence of up to 4 operations (transactions, blocks) with arbitrary amounts and proofs; chains of 1 to 4 blocks with arbitrary '
             'proofs, amounts, time stamps, and every replacement of one field of one block; every answer (status, chain, claimed length) '
             'of up to 2 neighbours; up to 40 pending transactions; names with letters outside ASCII; the HTTP endpoints with arbitrary amounts and every subset of fields',
    'thorough': 'sequences of up to 6 operations, chains of 5 blocks, 3 neighbours'}
OUTSIDE = 'longer chains; the genesis block and the transactions of the last block (nothing commits to them); concurrent requests'
ASSUMPTIONS = ['SHA-256 is collision-free; the proof-of-work predicate is a given function of its three arguments (decided for the real one '
               'separately)', 'the network answers anything']


def _chain_class(env):
  return env.get('blockchain', 'Blockchain')


def _clock(env):
  t = [100]

  def now():
    t[0] += 1
    return t[0]

  env.clock = now


def _digest(block):
  return hashlib.sha256(json.dumps(block, sort_keys=True).encode()).hexdigest()


def _tx(env, i, top=99):
  return {'sender': 's%d' % i, 'recipient': 'r%d' % i, 'amount': env.int('amount%d' % i, 0, top)}


class Pow:
  """a proof-of-work predicate given by the harness in place of the real one"""

  def __init__(self, env, fn):
    self.C, self.fn = _chain_class(env), fn

  def __enter__(self):
    self.real = self.C.__dict__['valid_proof']
    self.C.valid_proof = staticmethod(self.fn)
    return self.C

  def __exit__(self, *a):
    self.C.valid_proof = self.real


def _chain(env, C, n, proofs=None):
  """a chain of n blocks made by the class itself"""
  _clock(env)
  b = C()
  for i in range(1, n):
    t = _tx(env, i, 9)
    b.new_transaction(t['sender'], t['recipient'], t['amount'])
    b.new_block(proofs[i] if proofs else env.int('proof%d' % i, 0, 9), None)
  return b


def _copy(chain):
  return [dict(b, transactions=[dict(t) for t in b['transactions']]) for b in chain]


def digest(env, kind):
  """the hash of a block is that of its sorted JSON text"""
  C = _chain_class(env)
  a = {'index': env.int('i', 0, 9), 'timestamp': env.int('t', 0, 99), 'transactions': [_tx(env, 1)], 'proof': env.int('p', 0, 9),
       'previous_hash': env.choice('h', ['1', 'ab', ''])}
  if kind == 'text':
    env.check(C.hash(a) == _digest(a), 'SHA-256 of the sorted JSON text')
    b = {k: a[k] for k in reversed(sorted(a))}
    env.check(C.hash(b) == C.hash(a), 'the order of the fields does not matter')
  else:
    b = dict(a)
    if kind == 'amount':
      b['transactions'] = [dict(a['transactions'][0], amount=env.int('x', 0, 99))]
      same = b['transactions'][0]['amount'] == a['transactions'][0]['amount']
    elif kind == 'missing':
      b['transactions'] = []
      same = False
    elif kind == 'previous_hash':
      b['previous_hash'] = env.choice('x', ['1', 'ab', '', 'abc'])
      same = b['previous_hash'] == a['previous_hash']
    else:
      b[kind] = env.int('x', 0, 99)
      same = b[kind] == a[kind]
    env.check(env.iff(C.hash(a) == C.hash(b), same), 'different blocks have different hashes')


TEXTS = ['a', 'A', '\u00e9', '\u00ea', 'e\u0301', '\u540d', '"', '\\', '', 'a ', '\U0001f600', 'a\x00']


def texts(env, where):
  """names of any letters enter the hash"""
  C = _chain_class(env)
  out = []
  for k in ('u', 'v'):
    s = env.choice(k, TEXTS)
    t = {'sender': 's', 'recipient': 'r', 'amount': 5}
    b = {'index': 1, 'timestamp': 3, 'transactions': [t], 'proof': 7, 'previous_hash': 'h'}
    if where == 'previous_hash':
      b[where] = s
    else:
      t[where] = s
    out.append((s, C.hash(b), _digest(b)))
  (s, h, d), (t, g, _) = out
  env.check(h == d, 'SHA-256 of the sorted JSON text')
  env.check((h == g) == (s == t), 'different blocks have different hashes')


def pending(env, n):
  """any number of transactions goes into the next block"""
  C = _chain_class(env)
  _clock(env)
  b = C()
  k = env.concrete(env.int('k', 0, n))
  ts = [{'sender': 's%d' % i, 'recipient': 'r', 'amount': i} for i in range(k)]
  if k:
    ts[-1]['amount'] = env.int('amount', 0, 10**12)
  for t in ts:
    env.check(b.new_transaction(t['sender'], t['recipient'], t['amount']) == 2, 'the block a transaction goes into')
  env.check(b.current_transactions == ts, 'pending')
  env.check(b.new_block(5, None)['transactions'] == ts, 'all of them, in order')
  env.check(b.current_transactions == [], 'none is left')
  env.check(b.new_block(6, None)['transactions'] == [], 'nothing twice')


def _solved(last, h, zeros=4):
  """the first proof whose text has exactly so many leading zeros"""
  p = 0
  while True:
    x = hashlib.sha256(('%d%d%s' % (last, p, h)).encode()).hexdigest()
    if x[:zeros] == '0' * zeros and (zeros > 3 or x[zeros] != '0'):
      return p
    p += 1


def solved(env, last, h):
  """the real predicate at texts with four, and with fewer, leading zeros"""
  C = _chain_class(env)
  n = env.choice('zeros', [1, 2, 3, 4])
  p = _solved(last, h, n)
  env.check(bool(C.valid_proof(last, p, h)) == (n == 4), 'four leading zeros')
  env.check(not C.valid_proof(last, _solved(last, '', 4), h), 'the hash of the block is part of the text')


def bookkeeping(env, ops):
  """every sequence of operations"""
  C = _chain_class(env)
  _clock(env)
  b = C()
  env.check(len(b.chain) == 1 and b.chain[0]['index'] == 1 and b.chain[0]['transactions'] == [], 'a first block')
  env.check(b.last_block is b.chain[-1], 'last block')
  pending, blocks = [], [_copy(b.chain)[0]]
  for i in range(ops):
    op = env.choice('op%d' % i, ['tx', 'block', 'given'])
    if op == 'tx':
      t = _tx(env, i)
      r = b.new_transaction(t['sender'], t['recipient'], t['amount'])
      env.check(r == len(blocks) + 1, 'the block a transaction goes into')
      pending.append(t)
    else:
      p = env.int('proof%d' % i, 0, 99)
      prev = _digest(blocks[-1])
      r = b.new_block(p, None if op == 'block' else prev)
      want = {'index': len(blocks) + 1, 'transactions': pending, 'proof': p, 'previous_hash': prev}
      env.check(sorted(r) == ['index', 'previous_hash', 'proof', 'timestamp', 'transactions'], 'fields of a block')
      for k in want:
        env.check(r[k] == want[k], 'new block: ' + k)
      env.check(b.last_block is b.chain[-1] and b.chain[-1] == r, 'appended')
      blocks.append(dict(want, timestamp=r['timestamp']))
      pending = []
    env.check(b.chain == blocks, 'no block changes afterwards')
    env.check(b.current_transactions == pending, 'pending transactions, in order')
  with Pow(env, lambda *a: True):
    env.check(b.valid_chain(b.chain), 'the chain is valid')


def proofs(env, n):
  """valid exactly when every proof of work is, with the right arguments"""
  C = _chain_class(env)
  ok = [env.bool('ok%d' % i) for i in range(n)]
  # the proofs are increasing numbers; block i is accepted for (proof of i - 1, its own, hash of i - 1) if ok[i]
  b = _chain(env, C, n, proofs=[100] + [100 + i for i in range(1, n)])
  hs = [C.hash(x) for x in b.chain]

  def pred(last, proof, h):
    return env.any([env.all([last == 99 + i, proof == 100 + i, h == hs[i - 1], ok[i]]) for i in range(1, n)])

  with Pow(env, lambda *a: bool(pred(*a))):
    env.check(env.iff(b.valid_chain(b.chain), env.all(ok[1:])), 'valid exactly when every proof of work is')


def tampered(env, n, k, field, own=0):
  """a block that others build on cannot be altered"""
  with Pow(env, lambda *a: True) as C:
    b = _chain(env, C, n)
    c = _copy(b.chain)
    env.check(b.valid_chain(c), 'the chain is valid')
    if field == 'amount':
      v = env.int('v', 0, 999)
      env.assume(v != c[k]['transactions'][0]['amount'])
      c[k]['transactions'][0]['amount'] = v
    elif field == 'sender':
      c[k]['transactions'][0]['sender'] = 'mallory'
    elif field == 'drop':
      c[k]['transactions'] = []
    elif field == 'add':
      c[k]['transactions'].append(_tx(env, 77))
    elif field == 'previous_hash':
      c[k]['previous_hash'] = env.choice('v', ['1', '', C.hash(c[k]), C.hash(c[0])] if k != 1 else ['1', '', C.hash(c[k])])
    else:
      v = env.int('v', 0, 999)
      env.assume(v != c[k][field])
      c[k][field] = v
    env.check(env.not_(b.valid_chain(c)), 'an altered block is refused')
    if own:
      # by a node with a shorter chain of its own, too
      o = C()
      for i in range(1, own):
        o.new_block(50 + i, None)
      env.check(env.not_(o.valid_chain(c)), 'an altered block is refused by another node')
      o.register_node('http://n:1')
      mine = _copy(o.chain)
      env.http = lambda url, *a, **kw: Answer(200, {'chain': c, 'length': n})
      r = o.resolve_conflicts()
      env.check(env.all([not r, o.chain == mine]), 'and not adopted')


def order(env, n):
  """blocks cannot be left out, repeated or exchanged"""
  with Pow(env, lambda *a: True) as C:
    b = _chain(env, C, n, proofs=list(range(n)))
    m = env.concrete(env.int('len', 1, n))
    idx = [env.concrete(env.int('at%d' % i, 0, n - 1)) for i in range(m)]
    c = [b.chain[i] for i in idx[:m]]
    want = all(j == i + 1 for i, j in zip(idx[:m], idx[1:m]))
    env.check(bool(b.valid_chain(c)) == want, 'valid exactly when the blocks follow each other')


def pow_(env, hi):
  """the first proof that the predicate accepts for the last block"""
  C = _chain_class(env)
  _clock(env)
  b = C()
  b.chain[0]['proof'] = env.int('last', 0, 999)
  t = env.int('t', 0, hi)
  h = C.hash(b.last_block)

  def pred(last, proof, x):
    env.check(env.all([last == b.chain[0]['proof'], x == h]), 'asked about the last block')
    return bool(proof >= t)

  with Pow(env, pred):
    env.check(b.proof_of_work(b.last_block) == t, 'the first valid proof')


def predicate(env, last, proof):
  """the real predicate: four leading zeros of the hash of the three texts"""
  C = _chain_class(env)
  p = env.int('p', *proof)
  l = env.int('l', *last)
  h = env.choice('h', ['1', 'abc', '00' * 32])
  want = hashlib.sha256((str(l) + str(p) + h).encode()).hexdigest()[:4] == '0000'
  env.check(env.iff(C.valid_proof(l, p, h), want), 'four leading zeros')


class Answer:

  def __init__(self, status, data):
    self.status_code, self.data = status, data
    self.ok = status == 200
    self.text = ''

  def json(self):
    return self.data


def consensus(env, own, sizes, after=0):
  """the longest strictly longer valid chain of the network is adopted, and nothing else"""
  with Pow(env, lambda *a: True) as C:
    _clock(env)
    b = C()
    for i in range(1, own):
      b.new_block(i, None)
    if after:
      b.new_transaction('a', 'b', env.int('pending', 0, 9))
    mine = _copy(b.chain)
    answers = {}
    good = []
    for j, n in enumerate(sizes):
      o = C()
      for i in range(1, n):
        o.new_block(10 * j + i + env.int('x%d_%d' % (j, i), 0, 5), None)
      ch = _copy(o.chain)
      ok = True
      if n > 1:
        kind = env.choice('kind%d' % j, ['valid', 'bad link'])
        if kind == 'bad link':
          ch[env.choice('at%d' % j, range(1, n))]['previous_hash'] = 'nonsense'
          ok = False
      st = env.choice('status%d' % j, [200, 404 if j % 2 else 500])
      claim = env.int('claim%d' % j, 0, 99)
      answers['http://n%d:5000/chain' % j] = Answer(st, {'chain': ch, 'length': claim})
      b.register_node('http://n%d:5000' % j)
      if ok and st == 200 and n > own:
        good.append((n, ch))
    env.http = lambda url, *a, **k: answers[url]
    r = b.resolve_conflicts()
    top = max((n for n, _ in good), default=0)
    env.check(bool(r) == bool(good), 'replaced exactly when a valid longer chain is known')
    if good:
      env.check(env.any([b.chain == ch for n, ch in good if n == top]), 'the longest valid one is adopted')
    else:
      env.check(b.chain == mine, 'the own chain is kept')
    env.check(len(b.current_transactions) == after, 'pending transactions stay')


def nodes(env):
  """addresses of nodes"""
  C = _chain_class(env)
  _clock(env)
  b = C()
  b.register_node('http://192.168.0.5:5000')
  b.register_node('http://192.168.0.5:5000/some/path')
  env.check(set(b.nodes) == {'192.168.0.5:5000'}, 'host and port, once')
  b.register_node('192.168.0.6')
  env.check(set(b.nodes) == {'192.168.0.5:5000', '192.168.0.6'}, 'an address without scheme')
  env.check(env.raises(lambda: b.register_node('')), 'an empty address is refused')


def _server(env):
  import flask
  _clock(env)
  m = env.mod('run_blockchain')
  return m, env.attr(m, 'blockchain'), flask


def _post(flask, data):
  flask.request.get_json = lambda *a, **k: data


def endpoints(env, n):
  """mining and posting transactions over HTTP"""
  with Pow(env, lambda last, p, h: bool(p >= 2)):
    m, b, flask = _server(env)
    pend = []
    for i in range(n):
      t = {'sender': 'a%d' % i, 'recipient': 'b%d' % i, 'amount': env.int('m%d' % i, 0, 99)}
      _post(flask, dict(t))
      out, st = m.new_transaction()
      env.check(st == 201 and '2' in out['message'], 'created, for the next block')
      pend.append(t)
    env.check(b.current_transactions == pend, 'transactions wait for the next block')
    out, st = m.mine()
    reward = {'sender': '0', 'recipient': m.node_identifier, 'amount': 1}
    env.check(st == 200 and len(b.chain) == 2, 'one block is mined')
    env.check(b.chain[1]['transactions'] == pend + [reward], 'with the transactions and one reward')
    env.check(b.chain[1]['previous_hash'] == _digest(b.chain[0]) and b.chain[1]['proof'] == 2, 'link and proof of work')
    env.check(b.valid_chain(b.chain), 'a valid chain')
    for k in ('index', 'transactions', 'proof', 'previous_hash'):
      env.check(out[k] == b.chain[1][k], 'the block is reported')
    out, st = m.full_chain()
    env.check(st == 200 and out['length'] == 2 and out['chain'] == b.chain, 'the chain is reported')


def missing(env):
  """a transaction without one of its fields is refused"""
  m, b, flask = _server(env)
  t = {'sender': 'a', 'recipient': 'b', 'amount': env.int('m', 0, 99)}
  keep = {k: v for k, v in t.items() if env.choice('has ' + k, [True, False])}
  _post(flask, keep)
  out, st = m.new_transaction()
  if len(keep) == 3:
    env.check(st == 201 and b.current_transactions == [t], 'accepted')
  else:
    env.check(st == 400 and b.current_transactions == [], 'refused')


def remote(env, n):
  """registration and consensus over HTTP"""
  with Pow(env, lambda *a: True) as C:
    m, b, flask = _server(env)
    _post(flask, {})
    env.check(m.register_nodes()[1] == 400 and not b.nodes, 'no list of nodes')
    _post(flask, {'nodes': ['http://n0:1']})
    out, st = m.register_nodes()
    env.check(st == 201 and out['total_nodes'] == ['n0:1'], 'registered')
    o = C()
    for i in range(1, n):
      o.new_block(env.int('x%d' % i, 0, 9), None)
    mine = _copy(b.chain)
    env.http = lambda url, *a, **k: Answer(200, {'chain': _copy(o.chain), 'length': n})
    out, st = m.consensus()
    if n > 1:
      env.check(st == 200 and out['new_chain'] == o.chain and b.chain == o.chain, 'replaced')
    else:
      env.check(st == 200 and out['chain'] == mine and b.chain == mine, 'kept')


def CASES(tier):
  th = tier == 'thorough'
  cs = []

  def add(fn, w=1, **p):
    cs.append(Case(fn, p, weight=w, budget_s=60 if not th else 600, path_s=60,
                   fresh=fn in ('endpoints', 'missing', 'remote')))

  for k in ('text', 'amount', 'missing', 'previous_hash', 'index', 'timestamp', 'proof'):
    add('digest', kind=k)
  for f in ('sender', 'recipient', 'previous_hash'):
    add('texts', where=f)
  add('pending', n=40 if not th else 200)
  for last, h in ((100, 'abc'), (7, '1'), (12345, 'f' * 64)):
    add('solved', last=last, h=h)
  for n in (1, 2, 3, 4) + ((5, 6) if th else ()):
    add('bookkeeping', ops=n, w=n)
  for n in (2, 3, 4) + ((5,) if th else ()):
    add('proofs', n=n)
    add('order', n=n)
    for k in range(1, n):
      for f in ('index', 'timestamp', 'proof', 'amount', 'sender', 'drop', 'add', 'previous_hash'):
        if k < n - 1 or f == 'previous_hash':
          add('tampered', n=n, k=k, field=f)
          if f in ('amount', 'proof', 'previous_hash', 'timestamp'):
            for own in range(1, n) if n < 4 else (n - 2, n - 1):
              add('tampered', n=n, k=k, field=f, own=own)
  add('pow_', hi=3)
  for last, proof in (((0, 9), (0, 9)), ((10, 99), (0, 9)), ((0, 9), (100, 999)), ((100, 100), (0, 99))):
    add('predicate', last=last, proof=proof)
  for own in (1, 2, 3):
    for sizes in ([], [1], [2], [3], [4], [1, 2], [2, 3], [3, 2], [3, 4], [4, 3], [3, 3], [4, 4]) + \
        (([2, 3, 4], [4, 3, 2], [3, 4, 3]) if th else ()):
      add('consensus', own=own, sizes=sizes, after=own % 2)
  add('nodes')
  for n in (0, 1, 2):
    add('endpoints', n=n)
  add('missing')
  for n in (1, 2, 3):
    add('remote', n=n)
  return cs
