"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import CLAIMED, DECLINED  # noqa: E402

ROOT = os.path.dirname(HERE)
TECH = 'symbolic execution of the real Python source, assertions decided by SMT (z3) and by a finite-field normal-form solver'
NOTE = ('Decided for every value within the stated bounds, on the current source, along every feasible path; '
        'counterexamples are replayed on plain Python before being reported. Trusted: the symbolic executor, '
        'z3, the finite-field back end (its unsat answers are cross-checked on samples), and the stubs listed in the evidence. ')


def line(pid, p):
  over = p.get('over', ['inputs'])
  return {
      'id': pid, 'title': p['title'], 'statement': p['statement'],
      'quantifier': {'over': over, 'text': p['forall']},
      'why_tests_cant': p['why'],
      'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}


with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
  allp = dict(CLAIMED)
  allp.update(DECLINED)
  for pid in sorted(allp):
    assert len(allp[pid]['title']) <= 80, pid
    f.write(json.dumps(line(pid, allp[pid])) + '\n')

man = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': [{
        'property': pid,
        'quick_cmd': './check %s' % pid,
        'thorough_cmd': './check %s --tier thorough' % pid,
        'technique': CLAIMED[pid].get('technique', TECH),
        'level': 'model_checking',
        'level_note': NOTE + CLAIMED[pid].get('note', ''),
    } for pid in sorted(CLAIMED)],
    'not_applicable': [{'property': pid, 'reason': DECLINED[pid]['reason']} for pid in sorted(DECLINED)],
    'notes': 'No hooks: the checks execute /repo\'s source symbolically as it stands. See DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
  json.dump(man, f, indent=1)
  f.write('\n')


# ---- DESIGN.md ----
import ast  # noqa: E402
import textwrap  # noqa: E402
from design_props import HOW  # noqa: E402


def harness(pid):
  """bounds, outside, assumptions and case functions of a harness, read from its source"""
  path = os.path.join(ROOT, 'harness', pid.lower() + '.py')
  tree = ast.parse(open(path).read())
  vals = {}
  for node in tree.body:
    if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
      try:
        vals[node.targets[0].id] = ast.literal_eval(node.value)
      except ValueError:
        pass
  called = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
  cases = []
  for node in tree.body:
    if isinstance(node, ast.FunctionDef) and not node.name.startswith('_') and node.name != 'CASES' and node.name not in called:
      doc = (ast.get_docstring(node) or '').split('\n\n')[0].replace('\n', ' ').strip()
      cases.append((node.name, ' '.join(doc.split())))
  return vals, cases


def wrap(text, indent=''):
  return textwrap.fill(text, 140, subsequent_indent=indent, break_long_words=False, break_on_hyphens=False)


out = [open(os.path.join(HERE, 'design_head.md')).read().rstrip(), '', '## The properties', '']
for pid in sorted(CLAIMED):
  p = CLAIMED[pid]
  how, oracle = HOW[pid]
  vals, cases = harness(pid)
  out += ['### %s  %s' % (pid, p['title']), '', wrap(p['statement']), '']
  out.append(wrap('* **How.** ' + how, '  '))
  out.append(wrap('* **Oracle.** ' + oracle, '  '))
  out.append(wrap('* **Bounds (quick).** ' + vals['BOUNDS']['quick'] + '.', '  '))
  out.append(wrap('* **Bounds (thorough).** ' + vals['BOUNDS']['thorough'] + '.', '  '))
  out.append(wrap('* **Outside.** ' + vals['OUTSIDE'] + '.', '  '))
  if vals.get('ASSUMPTIONS'):
    out.append(wrap('* **Assumed.** ' + '; '.join(vals['ASSUMPTIONS']) + '.', '  '))
  out.append(wrap('* **Why not tests.** ' + p['why'], '  '))
  out.append(wrap('* **Cases.** ' + '; '.join('`%s`' % n + (' (%s)' % d if d else '') for n, d in cases) + '.', '  '))
  out.append('')
out += ['## Not applicable', '']
for pid in sorted(DECLINED):
  out.append(wrap('* **%s %s.** %s' % (pid, DECLINED[pid]['title'], DECLINED[pid]['reason']), '  '))
out.append('')
rows = ['| planted | property | needs | caught |', '|---|---|---|---|']
missed = json.load(open(os.path.join(HERE, 'missed.json')))
seeded = os.path.join(ROOT, 'seeded')
for name in sorted(os.listdir(seeded) if os.path.isdir(seeded) else []):
  meta = json.load(open(os.path.join(seeded, name, 'meta.json')))
  rows.append('| %s | %s | %s | %s |' % (name, meta['property'], meta['needs'].replace('|', '/'), missed.get(name, 'yes')))
tail = open(os.path.join(HERE, 'design_tail.md')).read()
out.append(tail.replace('@SEEDED@', '\n'.join(rows)).rstrip())
if os.path.isdir(seeded):
  with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out) + '\n')
