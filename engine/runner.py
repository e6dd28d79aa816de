"""Decides one property:  python3-vt -m engine.runner ID [--tier quick|thorough]
[--only SUBSTRING] [--jobs N] [-v]

exit 0: held on everything explored;  exit 1 and a VIOLATION line: broken.
"""
import argparse
import json
import multiprocessing as mp
import os
import random
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
now = time.time

REAL_PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable

QUICK_TOTAL = 150.0
THOROUGH_TOTAL = 820.0


class Case:

  def __init__(self, fn, params=None, **opts):
    self.fn = fn
    self.params = params or {}
    self.opts = opts

  @property
  def name(self):
    return '%s(%s)' % (self.fn, ', '.join('%s=%s' % (k, _short(v)) for k, v in self.params.items()))


def _short(v):
  s = repr(v)
  return s if len(s) < 40 else s[:36] + '...'


def _worker(module, case, opts, conn, seed):
  """one case in its own process"""
  try:
    os.setpgid(0, 0)
  except OSError:
    pass
  try:
    sys.setrecursionlimit(12000)
    import resource
    lim = 12 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    # the repository prints a lot
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    random.seed(seed)
    for k in list(sys.modules):
      if k == 'harness' or k.startswith('harness.') or k == 'starks' or k.startswith('starks.'):
        del sys.modules[k]
    from engine import core, shims, stubs, lower, recheck
    from engine import terms as T
    from engine.env import STATE
    from engine.symenv import SymEnv
    stubs.install_common()
    stubs.install_symbolic()
    shims.install()
    import importlib
    o = core.Opts(**{k: v for k, v in opts.items() if k in core.Opts().__dict__})
    fresh = opts.get('fresh', False)
    holder = {'fn': None}

    def run(path):
      if fresh:
        shims.purge()
      env = SymEnv(path)
      STATE['env'] = env
      try:
        if holder['fn'] is None or fresh:
          m = importlib.import_module('harness.' + module)
          holder['fn'] = getattr(m, case.fn)
        old = signal.signal(signal.SIGALRM, _on_alarm)
        signal.alarm(int(o.path_s) + 5)
        try:
          holder['fn'](env, **case.params)
        finally:
          signal.alarm(0)
      finally:
        STATE['env'] = None

    def _on_alarm(sig, frm):
      raise core.Timeout()

    res = core.explore(case.name, run, o, want_models=opts.get('models', 3))
    res.ident = recheck.run(res.ident_sample, opts.get('recheck_s', 5.0))
    res.functions = {'%s:%s' % (f, n) for f, n in shims.EXECUTED}
    d = res.dump()
    d['solver'] = lower.STATS.dump()
    conn.send(('ok', _plain(d)))
  except BaseException as e:   # noqa
    try:
      conn.send(('err', ''.join(traceback.format_exception(type(e), e, e.__traceback__, limit=-8))))
    except Exception:
      pass
  finally:
    conn.close()
    os._exit(0)


def _plain(x):
  if isinstance(x, dict):
    return {str(k): _plain(v) for k, v in x.items()}
  if isinstance(x, (list, tuple, set)):
    return [_plain(v) for v in x]
  if type(x) is bytes:
    return 'hex:' + x.hex()
  if type(x) is int and abs(x) > 1 << 200:
    return 'int:%d' % x
  if type(x) in (int, float, str, bool) or x is None:
    return x
  return str(x)


def run_cases(module, cases, tier, seed, jobs, total, verbose=False, known=()):
  ctx = mp.get_context('fork')
  t0 = now()
  pending = list(enumerate(cases))
  # long ones first
  pending.sort(key=lambda ic: -ic[1].opts.get('weight', 1))
  running = {}
  results = [None] * len(cases)
  confirmed = 0
  while pending or running:
    if confirmed >= 3:
      # enough counterexamples reproduced on the real code
      for i, c in pending:
        results[i] = ('skip', 'not started: violations already confirmed')
      for i, (p, r, ts, lim, c) in running.items():
        results[i] = ('skip', 'stopped: violations already confirmed')
        try:
          os.killpg(p.pid, signal.SIGKILL)
        except OSError:
          pass
        p.kill()
        p.join(5)
      break
    while pending and len(running) < jobs:
      left = total - (now() - t0)
      if left < 2:
        for i, c in pending:
          results[i] = ('skip', 'not started: total time used up')
        pending = []
        break
      i, c = pending.pop(0)
      opts = dict(c.opts)
      dflt = 30.0 if tier == 'quick' else 300.0
      opts['budget_s'] = min(opts.get('budget_s', dflt), max(2.0, left - 8))
      opts.setdefault('path_s', 20.0 if tier == 'quick' else 120.0)
      opts['path_s'] = min(opts['path_s'], opts['budget_s'])
      opts.setdefault('assert_timeout_ms', 10000 if tier == 'quick' else 60000)
      r, w = ctx.Pipe(False)
      p = ctx.Process(target=_worker, args=(module, c, opts, w, seed))
      p.start()
      w.close()
      running[i] = (p, r, now(), opts['budget_s'] + opts['path_s'] + 25, c)
    done = []
    for i, (p, r, ts, lim, c) in running.items():
      if r.poll(0.005):
        try:
          results[i] = r.recv()
        except EOFError:
          results[i] = ('err', 'worker died')
        done.append(i)
      elif not p.is_alive():
        results[i] = ('err', 'worker ended without a result (exit %s)' % p.exitcode)
        done.append(i)
      elif now() - ts > lim or now() - t0 > total + 10:
        results[i] = ('skip', 'stopped after %.0f s' % (now() - ts))
        done.append(i)
    for i in done:
      p, r, ts, lim, c = running.pop(i)
      try:
        os.killpg(p.pid, signal.SIGKILL)
      except OSError:
        pass
      try:
        p.kill()
      except Exception:
        pass
      p.join(5)
      r.close()
      if results[i][0] == 'ok':
        d = results[i][1]
        for label, inputs in [(x[0], x[1]) for x in d['candidates'][:1]] + [
            ('', m) for m in d['timeouts'][:1]]:
          if inputs is None:
            continue
          o = replay_one(module, c, inputs, 15)
          if o['outcome'] in BAD and not any(
              c.name == k['case'] and o.get('label', '') == k['label'] for k in known):
            confirmed += 1
            break
      if verbose:
        s, d = results[i]
        print('  %-70s %6.1fs %s' % (c.name[:70], now() - ts,
              s if s != 'ok' else 'paths=%d checks=%d cand=%d inc=%d reached=%d q=%d' % (
                  d['paths'], d['checks'], len(d['candidates']), len(d['inconclusive']),
                  d['reached'], d['solver']['queries'])), flush=True)
        if s != 'ok':
          print(d)
        elif d['inconclusive']:
          for x in d['inconclusive'][:4]:
            print('      inc:', x[:600])
        if s == 'ok':
          for x in d['candidates'][:3]:
            print('      cand:', x[0], str(x[1])[:300], x[2][-700:])
    if not done:
      time.sleep(0.01)
  return results


def replay_one(module, case, inputs, limit=60):
  obj = {'module': module, 'function': case.fn, 'params': case.params, 'inputs': inputs,
         'limit': limit}
  p = subprocess.Popen([REAL_PY, '-B', os.path.join(HERE, 'replay.py'), '--batch'],
                       stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       env=dict(os.environ, VERIF_REPO=REPO), start_new_session=True)
  try:
    out, _ = p.communicate((json.dumps(obj) + '\n').encode(), timeout=limit + 20)
  except subprocess.TimeoutExpired:
    os.killpg(p.pid, signal.SIGKILL)
    p.communicate()
    return {'outcome': 'hang', 'label': 'no answer within %d s' % limit}
  lines = out.decode(errors='replace').strip().splitlines()
  if not lines:
    return {'outcome': 'crash', 'label': 'replay process died (exit %s)' % p.returncode}
  return json.loads(lines[-1])


def replay_batch(module, items, deadline):
  """items: [(case, inputs)] -> outcomes (None when not run)"""
  out = [None] * len(items)
  if not items:
    return out
  n = min(8, len(items))
  chunks = [list(range(i, len(items), n)) for i in range(n)]
  procs = []
  for ch in chunks:
    data = ''.join(json.dumps({'module': module, 'function': items[i][0].fn,
                               'params': items[i][0].params, 'inputs': items[i][1],
                               'limit': 20}) + '\n' for i in ch)
    f = tempfile.TemporaryFile()
    f.write(data.encode())
    f.seek(0)
    g = tempfile.TemporaryFile()
    p = subprocess.Popen([REAL_PY, '-B', os.path.join(HERE, 'replay.py'), '--batch'], stdin=f,
                         stdout=g, stderr=subprocess.DEVNULL,
                         env=dict(os.environ, VERIF_REPO=REPO), start_new_session=True)
    procs.append((ch, p, g))
  for ch, p, g in procs:
    try:
      p.wait(timeout=max(1.0, deadline - now()))
    except subprocess.TimeoutExpired:
      os.killpg(p.pid, signal.SIGKILL)
      p.wait()
    g.seek(0)
    for i, line in zip(ch, g.read().decode(errors='replace').splitlines()):
      try:
        out[i] = json.loads(line)
      except ValueError:
        pass
  return out


BAD = ('check', 'exception', 'hang', 'crash')


def load_known(pid):
  out = []
  p = os.path.join(VERIF, 'known_findings.txt')
  if os.path.exists(p):
    for line in open(p):
      m = re.match(r'KNOWN-FINDING: property=(\S+) case="([^"]*)" label="([^"]*)" (.*)$', line.strip())
      if m and m.group(1) == pid:
        out.append({'case': m.group(2), 'label': m.group(3), 'text': m.group(4)})
  return out


def main(argv=None):
  ap = argparse.ArgumentParser()
  ap.add_argument('id')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--only')
  ap.add_argument('--jobs', type=int, default=8)
  ap.add_argument('-v', action='store_true')
  a = ap.parse_args(argv)
  tier = 'thorough' if a.tier == 'thorough' else 'quick'
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  t0 = now()
  module = a.id.lower()
  # imported once in the parent so that workers start quickly
  from engine import core, shims, lower, recheck, symenv, stubs  # noqa
  import importlib
  try:
    hm = importlib.import_module('harness.' + module)
    for lib in getattr(hm, 'PRELOAD', ()):      # third-party libraries, before the workers fork
      try:
        importlib.import_module(lib)
      except Exception:
        pass
  except Exception:
    print('harness for %s cannot be loaded' % a.id)
    traceback.print_exc()
    return 2
  cases = list(hm.CASES(tier))
  # cases of the list one after the other in one process (chosen by tools/seqs.py)
  from harness.seqs import SEQS
  cases += [Case('seq', {'steps': [[module] + list(s) for s in steps]}, fresh=True, weight=2,
                 budget_s=40.0 if tier == 'quick' else 200.0) for steps in SEQS.get(module, ())]
  if a.only:
    cases = [c for c in cases if a.only in c.name]
  total = float(getattr(hm, 'TOTAL', {}).get(tier, QUICK_TOTAL if tier == 'quick' else THOROUGH_TOTAL))
  known = load_known(a.id)
  results = run_cases(module, cases, tier, seed, a.jobs, total, a.v, known)
  replay_until = now() + 120

  violations, inconclusive, known_hit = [], [], []
  stats = lower.Stats()
  tot = dict(paths=0, branches=0, checks=0, discharged=0, simplified=0, identities=0, infeasible=0)
  ident = dict(asked=0, unsat=0, sat=0, unknown=0, skip=0, time=0.0)
  functions, missing, vacuous = set(), [], []
  per_case = []
  models = []
  replayed = 0
  samples = []
  complete_cases = 0
  for c, r in zip(cases, results):
    if r is None or r[0] != 'ok':
      inconclusive.append('%s: %s' % (c.name, (r[1] if r else 'no result')[-400:]))
      per_case.append({'case': c.name, 'status': 'no result'})
      continue
    d = r[1]
    stats.merge(d['solver'])
    for k in tot:
      tot[k] += d[k]
    for k in ident:
      ident[k] += d['ident'][k]
    functions.update(d['functions'])
    missing.extend(d['missing'])
    cs = {'case': c.name, 'paths': d['paths'], 'assertions': d['checks'],
          'discharged': d['discharged'], 'complete': bool(d['complete']) and not d['inconclusive'],
          'queries': d['solver']['queries'], 'solver_s': round(d['solver']['time'], 2),
          'wall_s': round(d['wall'], 2)}
    per_case.append(cs)
    if cs['complete']:
      complete_cases += 1
    for x in d['inconclusive']:
      inconclusive.append('%s: %s' % (c.name, x[:400]))
    if d['reached'] == 0 and not d['candidates'] and not d['missing'] and not d['inconclusive']:
      vacuous.append(c.name)
    for m in d['models']:
      models.append((c, m))
    seen_labels = {}
    for label, inputs, info in d['candidates']:
      if inputs is None:
        inconclusive.append('%s: %s: no concrete inputs' % (c.name, label))
        continue
      if seen_labels.get(label, 0) >= 2 or now() > replay_until and violations:
        continue
      o = replay_one(module, c, inputs, 20)
      replayed += 1
      if o['outcome'] in BAD:
        seen_labels[label] = seen_labels.get(label, 0) + 1
        violations.append((c, inputs, o, info))
      elif o['outcome'] == 'missing':
        missing.append(o.get('label', ''))
      else:
        inconclusive.append('%s: candidate %r did not reproduce (%s) inputs=%s %s' % (
            c.name, label, o['outcome'], str(inputs)[:200], info[-300:]))
    for inputs in d['timeouts'][:2]:
      if inputs is not None and not violations and now() < replay_until + 120:
        o = replay_one(module, c, inputs, 20)
        replayed += 1
        if o['outcome'] in BAD:
          violations.append((c, inputs, o, 'path did not end'))
  # path models: the real code must agree with the symbolic verdict
  validated = 0
  limit = now() + (25 if tier == 'quick' else 60)
  outs = replay_batch(module, models, limit)
  for (c, m), o in zip(models, outs):
    if o is None:
      continue
    if o['outcome'] == 'ok':
      validated += 1
      if len(samples) < 4:
        samples.append({'case': c.name, 'inputs': _clip(m), 'outcome': 'assertions hold on replay'})
    elif o['outcome'] in BAD and not any(v[0] is c for v in violations):
      o2 = replay_one(module, c, m, 20)
      if o2['outcome'] in BAD:
        violations.append((c, m, o2, 'replay of a path model'))
    elif o['outcome'] == 'missing':
      missing.append(o.get('label', ''))
  if ident['sat']:
    inconclusive.append('normal form and solver disagree on %d equalities' % ident['sat'])

  # known findings
  real = []
  for v in violations:
    c, inputs, o, info = v
    k = next((k for k in known if c.name == k['case'] and o.get('label', '') == k['label']), None)
    if k:
      known_hit.append(k)
    else:
      real.append(v)
  if real and all(v[2]['outcome'] == 'hang' for v in real):
    # a slow machine is not a hang
    c, inputs, o, info = real[0]
    o = replay_one(module, c, inputs, 90)
    real = [(c, inputs, o, info)] + real[1:] if o['outcome'] in BAD else []
  shown = set()
  for k in known_hit:
    if k['text'] not in shown:
      shown.add(k['text'])
      print('KNOWN-FINDING: property=%s %s' % (a.id, k['text']))

  rc = 0
  rdir = os.path.join(VERIF, 'evidence', 'replay')
  if real:
    rc = 1
    os.makedirs(rdir, exist_ok=True)
    c, inputs, o, info = real[0]
    path = os.path.join(rdir, '%s.json' % a.id)
    with open(path, 'w') as f:
      json.dump({'property': a.id, 'module': module, 'function': c.fn, 'params': c.params,
                 'inputs': inputs, 'outcome': o, 'note': info,
                 'how': '%s %s %s' % (REAL_PY, os.path.join(HERE, 'replay.py'), path)}, f, indent=1)
    for c, inputs, o, info in real[:6]:
      print('%s: %s %s\n  inputs %s' % (c.name, o['outcome'], o.get('label', ''), str(_clip(inputs))))
      if o.get('info'):
        print('  ' + str(o['info'])[-600:].replace('\n', '\n  '))
    print('VIOLATION property=%s replay=%s' % (a.id, path))

  wall = now() - t0
  bounds = getattr(hm, 'BOUNDS', {})
  bounds = bounds.get(tier, bounds) if isinstance(bounds, dict) else bounds
  ev = {
      'property': a.id, 'tier': tier, 'seed': seed, 'level': 'model_checking',
      'coverage': {
          'states': tot['paths'],
          'transitions': tot['branches'],
          'traces_validated_against_impl': validated,
          'samples': samples or [{'note': 'no path completed'}],
          'explanation': 'Bounded symbolic execution of the current source of the listed functions; '
                         'states = symbolic paths executed to the end, transitions = branch and '
                         'realisation points put to the solver, traces = models of completed paths '
                         'replayed on the uninstrumented code with all assertions holding.',
          'exhaustive': complete_cases == len(cases) and not inconclusive,
          'assertions_reached': tot['checks'], 'assertions_discharged': tot['discharged'],
          'assertions_closed_by_normal_form': tot['simplified'],
          'infeasible_paths': tot['infeasible'],
          'solver_queries': stats.queries, 'solver_unsat': stats.unsat, 'solver_sat': stats.sat,
          'solver_unknown': stats.unknown, 'solver_time_s': round(stats.time, 2),
          'solver_by_backend': stats.by,
          'normal_form_equalities': tot['identities'],
          'normal_form_equalities_re_asked': ident['asked'],
          'normal_form_equalities_confirmed_by_solver': ident['unsat'],
          'normal_form_recheck_time_s': round(ident['time'], 2),
          'functions_encoded': sorted(functions),
          'bounds': bounds, 'outside': getattr(hm, 'OUTSIDE', ''),
          'cases': per_case, 'cases_complete': complete_cases,
          'inconclusive': inconclusive[:40], 'inconclusive_count': len(inconclusive),
          'names_not_found': sorted(set(missing)), 'vacuous_cases': vacuous,
          'candidates_replayed': replayed,
          'known_findings_hit': sorted(shown),
      },
      'assumptions': list(getattr(hm, 'ASSUMPTIONS', [])),
      'wall_s': round(wall, 2),
      'violations': len(real),
  }
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  with open(os.path.join(VERIF, 'evidence', '%s.json' % a.id), 'w') as f:
    json.dump(ev, f, indent=1)
  print('%s %s: %d/%d cases complete, %d paths, %d assertions (%d discharged), %d queries '
        '(%.1f s), %d traces replayed, %d inconclusive, %d violations, %.1f s' % (
            a.id, tier, complete_cases, len(cases), tot['paths'], tot['checks'], tot['discharged'],
            stats.queries, stats.time, validated, len(inconclusive), len(real), wall))
  for x in inconclusive[:(20 if a.v else 6)]:
    print('  inconclusive: %s' % x[:(1200 if a.v else 300)])
  for x in vacuous:
    print('  vacuous: %s' % x)
  for x in sorted(set(missing)):
    print('  name not found: %s' % x)
  return rc


def _clip(m):
  return {k: (v if not isinstance(v, str) or len(v) < 200 else v[:200] + '...') for k, v in m.items()}


if __name__ == '__main__':
  sys.exit(main())
