"""Runs a harness on concrete inputs against the real, uninstrumented modules.

usage: replay.py REPLAY.json            (one case; human-readable outcome)
       replay.py --batch  < json lines  (one outcome line per case)
"""
import importlib.abc
import importlib.machinery
import importlib.util
import io
import json
import os
import signal
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.setrecursionlimit(6000)


class Alias(importlib.abc.Loader):

  def __init__(self, name):
    self.name = name

  def create_module(self, spec):
    return importlib.import_module(self.name)

  def exec_module(self, module):
    pass


class MiscFinder(importlib.abc.MetaPathFinder):
  """starks.X for the modules of misc/ (the layout misc's own tests expect)"""

  def find_spec(self, fullname, path, target=None):
    if '.' not in fullname and os.path.isfile(os.path.join(REPO, 'misc', fullname + '.py')):
      return importlib.machinery.ModuleSpec(fullname, Alias('starks.' + fullname))
    if fullname.startswith('starks.') and fullname.count('.') == 1:
      n = fullname.split('.')[1]
      if not os.path.isfile(os.path.join(REPO, 'starks', n + '.py')):
        p = os.path.join(REPO, 'misc', n + '.py')
        if os.path.isfile(p):
          return importlib.util.spec_from_file_location(fullname, p)
    return None


sys.meta_path.insert(0, MiscFinder())

from engine import stubs  # noqa
from engine.env import STATE, ConcEnv, ApiMissing, AssumeFailed, CheckFailed  # noqa

stubs.install_common()


class Hang(BaseException):
  pass


HUNG = []


def _alarm(sig, frm):
  HUNG.append(1)
  raise Hang()


def classify(e):
  """is this exception the code's fault, or does the harness use an interface
  that is no longer there?"""
  tb = traceback.extract_tb(e.__traceback__)
  last = tb[-1].filename if tb else ''
  in_harness = last.startswith(os.path.join(VERIF, 'harness')) or last.startswith(HERE)
  msg = str(e)
  if isinstance(e, (ImportError, ApiMissing)) and in_harness:
    return 'missing'
  if in_harness and isinstance(e, AttributeError) and 'NoneType' not in msg:
    return 'missing'
  if in_harness and isinstance(e, TypeError) and (
      'argument' in msg and ('positional' in msg or 'keyword' in msg or 'required' in msg)):
    return 'missing'
  if in_harness and isinstance(e, AssertionError):
    return 'harness'
  return 'exception'


def run_case(case):
  import importlib as il
  limit = int(case.get('limit', 60))
  env = ConcEnv({k: (bytes.fromhex(v[4:]) if isinstance(v, str) and v.startswith('hex:') else
                     int(v[4:]) if isinstance(v, str) and v.startswith('int:') else v)
                 for k, v in case['inputs'].items()})
  out = io.StringIO()
  old = sys.stdout
  signal.signal(signal.SIGALRM, _alarm)
  HUNG.clear()
  # again every few seconds: the code may swallow the first one
  signal.setitimer(signal.ITIMER_REAL, limit, 5)
  STATE['env'] = env
  try:
    sys.stdout = out
    mod = il.import_module('harness.' + case['module'])
    fn = getattr(mod, case['function'])
    fn(env, **case['params'])
    res = {'outcome': 'ok', 'checks': env.checks}
  except CheckFailed as e:
    res = {'outcome': 'check', 'label': e.label, 'info': e.info}
  except AssumeFailed:
    res = {'outcome': 'assume'}
  except Hang:
    res = {'outcome': 'hang', 'label': 'no answer within %d s' % limit}
  except ApiMissing as e:
    res = {'outcome': 'missing', 'label': str(e)}
  except (Exception, SystemExit) as e:
    res = {'outcome': classify(e), 'label': 'exception %s' % type(e).__name__,
           'info': traceback.format_exc(limit=-5)[-1500:]}
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)
    STATE['env'] = None
    sys.stdout = old
  if HUNG:
    res = {'outcome': 'hang', 'label': 'no answer within %d s' % limit}
  return res


def main():
  if sys.argv[1:] == ['--batch']:
    for line in sys.stdin:
      r = run_case(json.loads(line))
      print(json.dumps(r), flush=True)
    return 0
  case = json.load(open(sys.argv[1]))
  r = run_case(case)
  print('%s.%s(%s)' % (case['module'], case['function'],
                       ', '.join('%s=%r' % kv for kv in case['params'].items())))
  print('inputs: %s' % case['inputs'])
  print('outcome: %s %s' % (r['outcome'], r.get('label', '')))
  if r.get('info'):
    print(r['info'])
  return 0 if r['outcome'] in ('ok', 'assume', 'missing') else 1


if __name__ == '__main__':
  sys.exit(main())
