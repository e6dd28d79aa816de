#!/usr/bin/env python3
"""chooses the sequences of harness/seqs.py:  python3-vt tools/seqs.py [c01 ...]
For every case function: one of its cases twice (on different inputs), and pairs of cases that differ in one
parameter. Kept are those that are decided completely within a few seconds on the current tree."""
import importlib
import json
import os
import pprint
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from engine import runner, core, shims, lower, recheck, symenv, stubs  # noqa
from engine.runner import Case

LIMIT, PER_FN, PER_PROPERTY = float(os.environ.get("SEQ_LIMIT", 6)), 4, int(os.environ.get("SEQ_KEEP", 16))


def candidates(cases):
  by = {}
  for c in cases:
    by.setdefault(c.fn, []).append(c)
  out = []
  for fn, cs in by.items():
    cs = [c for c in cs if c.fn != 'seq' and not c.opts.get('fresh')]
    cs.sort(key=lambda c: c.opts.get('weight', 1))
    cand, names = [], set()
    for a in cs[:40]:
      for b in cs[:40]:
        if a is b:
          continue
        diff = [k for k in set(a.params) | set(b.params) if a.params.get(k) != b.params.get(k)]
        if len(diff) == 1:
          cand.append((diff[0], a, b))
    pick = [(cs[0], cs[0])] if cs else []
    if len(cs) > 4:
      pick.append((cs[len(cs) // 2], cs[len(cs) // 2]))
    per = {}
    for k, a, b in cand:
      per.setdefault(k, []).append((a, b))
    for k, ps in sorted(per.items()):
      pick += [ps[0], ps[len(ps) // 2]][:1 if len(per) > 3 else 2]
    out.append((fn, pick))
  return out


def main():
  path = os.path.join(VERIF, 'harness', 'seqs.py')
  ns = {}
  exec(open(path).read(), ns)
  old = ns['SEQS']
  ids = sys.argv[1:] or ['c%02d' % i for i in range(1, 32)]
  for module in ids:
    hm = importlib.import_module('harness.' + module)
    for lib in getattr(hm, 'PRELOAD', ()):
      importlib.import_module(lib)
    chosen, cases, keep = [], [], []
    for fn, pick in candidates(hm.CASES('quick')):
      for a, b in pick:
        steps = [[a.fn, a.params], [b.fn, b.params]]
        if steps not in chosen:
          chosen.append(steps)
          cases.append(Case('seq', {'steps': [[module] + s for s in steps]}, fresh=True, budget_s=LIMIT + 2, weight=1))
    res = runner.run_cases(module, cases, 'quick', 1, 8, 600.0, False, ())
    count = {}
    ranked = []
    for s, r in zip(chosen, res):
      if r is None or r[0] != 'ok':
        continue
      d = r[1]
      if d['candidates']:
        print('CANDIDATE', module, s, d['candidates'][:1])
        continue
      if d['complete'] and not d['inconclusive'] and d['reached'] and d['wall'] < LIMIT:
        ranked.append((d['wall'], s))
    # one of every function first, then a second one, ...
    rank = []
    for w, s in ranked:
      n = count.get(s[0][0], 0)
      count[s[0][0]] = n + 1
      if n < PER_FN and not (n > 0 and w > LIMIT / 2):
        rank.append((n, s))
    keep = [s for n, s in sorted(rank, key=lambda x: x[0])][:PER_PROPERTY]
    print(module, len(chosen), 'tried', len(ranked), 'complete', len(keep), 'kept', flush=True)
    old[module] = keep
    with open(path, 'w') as f:
      f.write('"""written by tools/seqs.py: cases that are run one after the other in one process"""\nSEQS = ')
      f.write(pprint.pformat(old, width=150) + '\n')


main()
