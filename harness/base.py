"""Shared by the harnesses (Jython 2.7): what a case is, how its paths are
judged, and how a solver model becomes a concrete run of the real code."""
import json
import os
import random
import sys
import threading
import time
import traceback
from fractions import Fraction

import symx
from symx import Sym, var, assume, path, S, Infeasible, Unsupported

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
REPO = os.environ.get('VERIF_REPO', '/repo')


class Outcome(object):
  """What a path showed: ok, and on what inputs."""

  def __init__(self, ok, inputs=None, observed=None, expected=None):
    self.ok, self.inputs = ok, inputs
    self.observed, self.expected = observed, expected


def inputs(d):
  """Register the symbolic inputs of this path (dicts, lists, Syms, atoms)."""
  p = path()
  if p is not None:
    p.notes['inputs'] = d
  return d


def concretise(v, model):
  if isinstance(v, Sym):
    return symx.value(v, model)
  if isinstance(v, dict):
    return dict((k, concretise(x, model)) for k, x in v.items())
  if isinstance(v, (list, tuple)):
    return [concretise(x, model) for x in v]
  return v


def to_json(v):
  if isinstance(v, Fraction):
    return {'frac': [str(v.numerator), str(v.denominator)]}
  if isinstance(v, bool) or v is None:
    return v
  if isinstance(v, (int, long)):
    return int(v) if abs(v) < 10 ** 15 else {'int': str(v)}
  if isinstance(v, dict):
    return dict((str(k), to_json(x)) for k, x in v.items())
  if isinstance(v, (list, tuple, set, frozenset)):
    return [to_json(x) for x in v]
  if isinstance(v, (str, unicode, float)):
    return v
  return repr(v)


def from_json(v):
  if isinstance(v, dict):
    if set(v) == set(['frac']):
      return Fraction(int(v['frac'][0]), int(v['frac'][1]))
    if set(v) == set(['int']):
      return int(v['int'])
    return dict((str(k), from_json(x)) for k, x in v.items())
  if isinstance(v, list):
    return [from_json(x) for x in v]
  if isinstance(v, unicode):
    return str(v) if all(ord(c) < 128 for c in v) else v
  return v


def int_poly(p):
  """A positive multiple of p with plain int coefficients."""
  den = 1
  for c in p:
    if isinstance(c, Fraction):
      den = den * c.denominator // symx.gcd(den, c.denominator)
  r = []
  for c in p:
    c = c * den
    r.append(int(c))
  return r


class Sink(object):
  def write(self, s):
    pass

  def flush(self):
    pass


class Timeout(Exception):
  pass


def limited(fn, seconds):
  """fn() in a thread; Timeout when it does not come back."""
  box = []

  def go():
    try:
      box.append((True, fn()))
    except BaseException as e:
      box.append((False, e, traceback.format_exc()))
  t = threading.Thread(target=go)
  t.setDaemon(True)
  t.start()
  t.join(seconds)
  if not box:
    raise Timeout('no answer in %s s' % seconds)
  if box[0][0]:
    return box[0][1]
  e = box[0][1]
  e.tb = box[0][2]
  raise e


HISTORY = [0]     # how many concrete runs this process made


def replay_safe(mod, case, inp, seconds=60):
  """mod.replay on concrete inputs -> dict(violated, observed, expected)."""
  save = symx.ENG.path
  symx.ENG.path = None
  try:
    try:
      if seconds is None:
        return mod.replay(case, inp)
      return limited(lambda: mod.replay(case, inp), seconds)
    except Timeout as e:
      return {'violated': True, 'observed': 'does not terminate: %s' % e,
              'expected': 'an answer', 'hang': True}
    except Exception as e:
      return {'violated': None, 'observed': 'replay itself failed: %r' % e,
              'tb': getattr(e, 'tb', traceback.format_exc())}
  finally:
    symx.ENG.path = save


def run_case(mod, case, deadline, seen=None):
  """Explore one case; returns a JSON-able record."""
  symx.ENG.reset_vars()
  st0 = dict(symx.STATS)
  t0 = time.time()
  rec = {'id': case['id'], 'paths': 0, 'ok': 0, 'validated': 0, 'cut': 0,
         'unresolved': 0, 'nonrepro': 0, 'bad': [], 'sample': None, 'ran': [],
         'unresolved_why': []}
  limit = float(os.environ.get('VERIF_LIMIT') or case.get('limit', 1e9))
  dl = min(deadline, t0 + limit)
  nval = case.get('validate', 12)
  first = [seen is not None]
  rng = random.Random(SEED)

  def fn():
    if first[0]:
      first[0] = False
      sys.setprofile(trace_functions(seen))
      try:
        return mod.run(case)
      finally:
        sys.setprofile(None)
    return mod.run(case)
  for r in symx.explore(fn, max_paths=case.get('max_paths', 100000),
                        deadline=dl, budget=case.get('budget', 400000), seed=SEED):
    if r.kind == 'cut':
      rec['cut'] += r.val
      break
    rec['paths'] += 1
    p = r.path
    inp = p.notes.get('inputs')
    suspect = False
    why = None
    if r.kind == 'ok':
      o = r.val
      if o.inputs is not None:
        inp = o.inputs
      if o.ok:
        if not p.unsure:
          rec['ok'] += 1
        else:
          rec['unresolved'] += 1
          rec['unresolved_why'].append('solver unknown')
      else:
        suspect = True
        why = {'observed': to_json(o.observed), 'expected': to_json(o.expected)}
    elif r.kind == 'exc':
      suspect = True
      why = {'observed': 'raised %r' % (r.val[0],), 'tb': r.val[1][-1500:]}
    else:
      rec['unresolved'] += 1
      rec['unresolved_why'].append('%s %s' % (r.kind, r.val))
    if inp is None:
      if suspect:
        rec['unresolved'] += 1
        rec['unresolved_why'].append('no inputs: %s' % why)
      continue
    if suspect or r.kind != 'ok' or rec['validated'] < nval:
      m = None
      if not suspect and rec['validated'] % 2 == 0:
        m = p.diverse_model(rng)
      if m is None:
        v, m = p.rational_model(search=suspect)
      if m is None:
        if suspect:
          if v == 'unsat':
            symx.STATS['pruned'] += 1
            rec['paths'] -= 1
            continue
          rec['unresolved'] += 1
          rec['unresolved_why'].append('suspect without a rational model (%s)' % v)
        continue
      models = [m]
      if not suspect:
        for _ in range(case.get('models', 1) - 1):
          m2 = p.diverse_model(rng)
          if m2 is not None:
            models.append(m2)
      stop = False
      for m in models:
        c = concretise(inp, m)
        t1 = time.time()
        rp = replay_safe(mod, case, c, case.get('replay_s', 60))
        if rp.get('violated') is False and rec['validated'] < 2 and time.time() - t1 < 1:
          # the same request once more
          HISTORY[0] += 1
          rec['ran'].append(to_json(c))
          rp = replay_safe(mod, case, c, case.get('replay_s', 60))
        if rp.get('violated'):
          rec['bad'].append({'case': case['id'], 'inputs': to_json(c),
                             'why': why, 'replay': to_json(rp),
                             'earlier': HISTORY[0]})
        HISTORY[0] += 1
        rec['ran'].append(to_json(c))
        if rp.get('violated'):
          if len(rec['bad']) >= 2 or rp.get('hang'):
            stop = True
            break
        elif rp.get('violated') is None:
          rec['unresolved'] += 1
          rec['unresolved_why'].append(str(rp.get('observed'))[:300] + str(rp.get('tb'))[-600:])
        else:
          rec['validated'] += 1
          if rec['sample'] is None:
            rec['sample'] = {'inputs': to_json(c),
                             'observed': to_json(rp.get('observed'))}
          if suspect:
            rec['nonrepro'] += 1
            rec['unresolved_why'].append('did not reproduce: %s on %s' % (why, to_json(c)))
      if stop:
        rec['stopped'] = True
        break
  rec['wall_s'] = time.time() - t0
  rec['stats'] = dict((k, symx.STATS[k] - st0[k]) for k in symx.STATS)
  rec['unresolved_why'] = rec['unresolved_why'][:4]
  return rec


def trace_functions(seen):
  root = os.path.realpath(REPO)

  def prof(frame, event, arg):
    if event == 'call':
      co = frame.f_code
      f = co.co_filename
      if f.startswith(root) and co.co_name[:1] not in '<':
        seen.add('%s:%s' % (f[len(root) + 1:], co.co_name))
  return prof


def worker(mod, spec):
  """spec: {tier, claims, deadline, out}"""
  out = open(spec['out'], 'w')
  real = sys.stdout
  sys.stdout = Sink()
  if hasattr(mod, 'setup'):
    mod.setup()
  cases = mod.cases(spec['tier'])
  out.write(json.dumps({'meta': getattr(mod, 'META', {}), 'cases': len(cases)}) + '\n')
  out.flush()
  todo = sorted(enumerate(cases), key=lambda t: (-t[1].get('prio', 0), t[1].get('w', 1)))
  seen = set()
  n = 0
  for i, case in todo:
    if time.time() > spec['deadline']:
      break
    try:
      os.mkdir(os.path.join(spec['claims'], str(i)))
    except OSError:
      continue
    try:
      n += 1
      rec = run_case(mod, case, spec['deadline'], seen if n % 4 == 1 and not case.get('notrace') else None)
    except BaseException as e:
      rec = {'id': case['id'], 'error': repr(e), 'tb': traceback.format_exc()[-3000:]}
    out.write(json.dumps(rec) + '\n')
    out.flush()
  out.write(json.dumps({'functions': sorted(seen)}) + '\n')
  out.close()
  sys.stdout = real
  symx.ENG.solver.close()
