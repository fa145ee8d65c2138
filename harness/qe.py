"""Quantifier elimination: systems with sympy symbols as parameters.

The real procedure runs once per system on symbolic parameters; its answer is
a list of sign assignments, i.e. a formula D over the parameters.  The solver
decides, for all real parameter values, that D holds exactly when some real x
meets the system.
"""
import json
import os
import sys
import traceback
from fractions import Fraction
import base
from base import Outcome, REPO
sys.path.insert(0, REPO + '/highschool_qe')
import symx
from symx import var, assume, path
import polys
import sympy
import sexp
import cohenhorm
import muchnik
import sympywrapper
import cachedsympywrapper

X = sympy.Symbol('x')
SYM = dict((n, sympy.Symbol(n)) for n in 'abcdxy')


def E(text):
  return sympy.sympify(text, locals=SYM).expand()


# (lesser, equal, greater), by size; parameters a, b, c, d, y; x is eliminated
LINEAR = [
  ('', 'a*x+b', ''), ('a*x+b', '', ''), ('', '', 'a*x+b'), ('a*x-1', '', 'x'), ('', 'x-a', ''),
  ('', 'x-a,x-b', ''), ('x-a', 'x-b', ''), ('', 'x-b', 'x-a'), ('x-a', '', 'x-b'), ('x-a,x-b', '', ''),
  ('', '', 'x-a,x-b'), ('2*x-a', '', '3*x+b'), ('-x+a', '', 'b-2*x'), ('-x+a', 'b-2*x', ''), ('x-a', '', 'x+a'),
  ('', 'a*x+1', 'x-1'), ('', 'a*x+1', 'x-b'), ('a', 'x-b', ''), ('', 'a', 'x-b'), ('a', '', ''), ('', 'a', ''),
  ('x-a', 'x-a', ''), ('x-a', 'a', 'x'), ('x-a*b', '', 'x-1'), ('a*x+b', '', 'x-1'), ('', 'a*x+b,x-1', ''),
  ('x-1', '', 'x-a'), ('y-x', 'x-1', ''), ('x-y', 'x-1', ''), ('', '3*x-a', '2-x'), ('x-a', '', 'x-b,x-1'),
  ('a*x+b', '', 'c*x+d'), ('', 'a*x+b,c*x+d', ''),
]
SCALAR = [
  ('x-1', '', 'x-2'), ('x-2', '', 'x-1'), ('x-1', 'x-2', ''), ('', 'x-1,x-2', ''), ('', 'x**2-2', ''),
  ('x**2-2', '', 'x-1'), ('x**2-2', '', 'x-2'), ('', 'x**2+1', ''), ('x**2+1', '', ''), ('', '', 'x**2+1'),
  ('', 'x**2-2*x+1', 'x-2'), ('', 'x**2-2*x+1', ''), ('x**2-2*x+1', '', ''), ('', 'x**3-x', 'x-1'),
  ('', 'x**3-x', 'x'), ('x**3-x', '', 'x-2'), ('-1', 'x-1', ''), ('1', 'x-1', ''), ('', '0', 'x'), ('', '5', 'x'),
  ('-x**2+1', '', '2-x**2'), ('x**2-1', 'x', ''), ('x**2-1', 'x', 'x-1'), ('', 'x**2-x', '-x**2+x'),
  ('x**2-x', '', '-2*x+1'), ('', 'x**2-2,x**3-2*x', ''), ('', 'x**2-2,x**3-x', ''), ('x**4-2', '', 'x-1'),
  ('', 'x**4-5*x**2+4', 'x-2'), ('', 'x**4-5*x**2+4', 'x-1'), ('2*x**2-3*x+1', '', '4*x-3'),
]
QUAD = [
  ('', 'x**2-a', ''), ('x**2-a', '', ''), ('', '', 'x**2-a'), ('', '-x**2+a', ''), ('', '', '-x**2+a'),
  ('', 'x**2-a', 'x-1'), ('x-1', 'x**2-a', ''), ('x**2-a', '', 'x-1'), ('x-a', 'x**2-2', ''), ('', 'x**2-a,x-1', ''),
  ('', 'x**2+a*x+1', ''), ('x**2+a*x+1', '', ''), ('', 'x**2-2*x+a', 'x-1'), ('', 'x**2-a', 'x-a'),
  ('', 'a*x**2-1', ''), ('a*x**2-1', '', ''), ('', 'a*x**2+x', ''), ('', 'a*x**2+x+1', ''), ('', 'x**2-a', 'x-b'),
  ('x-a', 'x**2-b', ''), ('x**2-a', '', 'x-b'), ('', 'x**2-a,x-b', ''), ('', 'x**2-a', 'a-1'), ('a-1', 'x**2-a', 'x'),
  ('', '2*x**2-a', '1-x'), ('-3*x**2+a', '', ''), ('', 'x**2-2*a*x+a**2', ''), ('x**2-2*a*x+a**2', '', ''),
  ('x**2-1', '', 'x-a'), ('-x**2+a', 'x-b', ''),
]
QUAD2 = [
  ('', 'x**2+a*x+b', ''), ('x**2+a*x+b', '', ''), ('', '', 'x**2+a*x+b'), ('', 'a*x**2+b*x+c', ''),
  ('', 'x**2+a*x+b', 'x-1'), ('x**2-a', '', 'x**2-b'), ('', 'x**2-a,x**2-b', ''), ('x-a', '', 'x**2-b,x'),
  ('', '-x**2+a*x+b', 'x'), ('a*x**2+b', '', ''),
]
CUBIC = [
  ('', 'x**3-a', ''), ('x**3-a', '', 'x-1'), ('', 'x**3-x+a', ''), ('', 'x**3-x+a', 'x-1'), ('x**3-a*x', '', 'x-1'),
  ('', 'x**3-a*x', 'x'), ('', '-x**3+a', 'x-2'), ('', 'x**3+a*x**2', 'x'), ('', 'x**3-x,x-a', ''), ('', 'x**3+a*x+1', ''),
]


# a divisor with negative leading coefficient, every difference of degrees
SIGNS = [('', 'a-x', 'x**3-2'), ('x**3-2', 'a-x', ''), ('', 'a*x+1', 'x**3-1'), ('x**3-1', 'a*x+1', ''),
         ('x**3+1', '', '1-a*x')]
for _g, _d in (('1-x', 1), ('-2*x+1', 1), ('-x**2+3*x-2', 2), ('2-x**2', 2), ('-x**3+x', 3)):
  for _f, _e in (('x**2-2', 2), ('x**3-2', 3), ('x**3-x**2-2*x', 3), ('x**4-2', 4), ('x**4-3*x**2+1', 4),
                 ('x**2-a', 2), ('x**3-a', 3), ('-x**3+a', 3)):
    if _e >= _d and not ('a' in _f and _d > 1):
      SIGNS += [(_f, _g, ''), ('', _g, _f), (_f, '', _g)]
HEAVY = ['x**4-3*x**2+1', 'x**3-x**2-2*x']


def exprs(t):
  return [[E(s) for s in part.split(',') if s] for part in t]


def tid(t, case=None):
  if case:
    extra = ''
    if case.get('var'):
      extra += ' in %s' % case['var']
    if case.get('prev'):
      extra += ' after %s' % ', '.join(tid(p) for p in case['prev'])
    return tid(t) + extra
  return 'L[%s]E[%s]G[%s]' % tuple(t)


# cost the procedure itself more than some seconds: thorough only
SLOW = {
  'cohen': ['x**3-a*x||x-1', 'x-a||x-b,x-1', 'x-a||x**2-b,x', '|x**3-x+a|x-1', '|x**3-x,x-a|'],
  'muchnik': ['|x**2+a*x+b|', '||x**2+a*x+b', '|a*x**2+b*x+c|', 'x-a||x**2-b,x', '|x**2-a,x**2-b|', '|x**2-a|x-b',
              'x**2-a||x-b', '|a*x+b,c*x+d|', 'a*x+b||c*x+d', '|x**2+a*x+b|x-1', '|-x**2+a*x+b|x', 'x-a|x**2-b|',
              'x**2-a||x**2-b', 'x**2+a*x+b||', '|x**2-2*a*x+a**2|', '|x**2-a,x-b|', '|x**3-x+a|x-1', '|x**3-x+a|',
              'x**3-a*x||x-1', '|x**3-a*x|x', '|x**3+a*x**2|x', '|x**3-x,x-a|', '|x**3+a*x+1|', 'x-a||x-b,x-1', '|x**2-2*x+a|x-1'],
}


# found by a random search over products of small factors, with the seconds they took
MORE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'qe_more.json')))
QUICK = 2.0
NAMES = ['A', 'z', 'ab', 'x1']

# one object used for a sequence of systems; the last one is judged
SEQ = [
  [('', 'x-a', ''), ('', '', 'x-a')], [('', 'a*x+1', 'x-1'), ('', 'a*x+1', 'x-1')], [('x-a', '', ''), ('', 'x-a', 'x-1')],
  [('', 'a*x+b', ''), ('a*x+b', '', '')], [('', 'x-1', 'x-2'), ('x-1', '', 'x-2')], [('', 'x**2-2', ''), ('x**2-2', '', 'x-1')],
  [('x-a', '', 'x'), ('', 'x-a', ''), ('x-a', '', 'x')], [('a', 'x-b', ''), ('', 'a', 'x-b')],
  [('', 'x**2-a', ''), ('', 'x**2-a', '')], [('', 'x**2-1', ''), ('', 'x**2+1', '')], [('', '5', 'x'), ('', '0', 'x')],
  [('', 'x**3-x', ''), ('', 'x**3-x', 'x-1')], [('', 'x**3-x,x', ''), ('', 'x', 'x**3-x')],
]


def sequences(who, tier):
  out = []
  for i, seq in enumerate(SEQ):
    if who == 'complex':
      seq = [('', q, ','.join(s for s in (l, g) if s)) for l, q, g in seq]
    out.append({'t': seq[-1], 'prev': seq[:-1], 'cached': 1 - i % 2 if len(params(seq[-1])) < 2 else 1,
                'var': None if i % 3 else NAMES[i % len(NAMES)]})
  return out


def more(who, tier):
  """generated systems, the eliminated variable under different names"""
  out = []
  for i, (t, seconds) in enumerate(MORE[who]):
    if seconds <= QUICK or tier == 'thorough':
      out.append({'t': tuple(t), 'prev': None, 'cached': 1, 'var': NAMES[i % len(NAMES)] if i % 2 else None,
                  'w': 1 + seconds})
  return out


def cases(who, tier):
  big = tier == 'thorough'
  out = []
  for c in sequences(who, tier) + more(who, tier):
    out.append(dict(c, id='%s/%d' % (tid(c['t'], c), c['cached']), w=c.get('w', 1), loud=False,
                    limit=600 if big else 100, validate=2, replay_s=600 if big else 100))
  for w, group in ((1, SCALAR), (1, LINEAR), (2, QUAD), (2, SIGNS), (6, QUAD2), (8, CUBIC)):
    for i, t in enumerate(group):
      slow = '|'.join(t) in SLOW[who]
      if slow and not big:
        continue
      if group is SIGNS and who == 'muchnik' and not big and [h for h in HEAVY if h in t] and i % 3:
        continue
      small = w == 1 and len(params(t)) < 2
      # the plain wrapper and the full printed report only where they are affordable
      for cached in ((1, 0) if big and w < 6 and not slow else (i % 2 if small else 1,)):
        out.append({'id': tid(t) + '/%d' % cached, 't': t, 'cached': cached, 'w': 100 if slow else w,
                    'loud': small, 'limit': 600 if big else 100, 'validate': 2, 'replay_s': 600 if slow else 100})
  seen = set()
  return [c for c in out if not (c['id'] in seen or seen.add(c['id']))]


class Capture(object):
  def __init__(self):
    self.t = []

  def write(self, s):
    self.t.append(s)

  def flush(self):
    pass


def solve(who, t, quiet, case):
  """The real procedure on system t: (assignments, printed verdict or None)

  'var' is the name of the eliminated variable, 'prev' the systems the same
  objects have been used for before (t itself: with the very same lists).
  """
  if quiet:
    muchnik.Muchniker.pprint_diagram = lambda s, d: None
    muchnik.Muchniker.pprint_clause = lambda s, d, l: None
    cohenhorm.CohenHormander.pprint_diagram = lambda s, d: None
  v = sympy.Symbol(str(case.get('var') or 'x'))
  alg = (cachedsympywrapper.CachedSympyWrapper if case['cached'] else sympywrapper.SympyWrapper)(v)
  proc = cohenhorm.CohenHormander(alg) if who == 'cohen' else muchnik.Muchniker(alg)

  def lists(t):
    return [[e.subs(X, v) for e in part] for part in exprs(t)]
  given = lists(t)
  for s in case.get('prev') or []:
    call(who, proc, given if tuple(s) == tuple(t) else lists(s))
  r, text = call(who, proc, given)
  verdict = None
  if who != 'cohen':
    tail = text.strip().split('\n')[-1]
    verdict = True if tail.startswith('Satisf') else False if tail.startswith('Unsat') else None
  return [tuple(list(p) for p in d) for d in r], verdict


def call(who, proc, lists):
  L, Q, G = lists
  cap = Capture()
  real = sys.stdout
  sys.stdout = cap
  try:
    if who == 'complex':
      r = proc.complex_full(Q, G)
    else:
      r = proc.real_full(L, Q, G)
  finally:
    sys.stdout = real
  return r, ''.join(cap.t)


def setup(case):
  return dict((k, case.get(k)) for k in ('cached', 'var', 'prev'))


def params(t):
  s = set()
  for part in exprs(t):
    for e in part:
      s |= set(v.name for v in e.free_symbols)
  return sorted(s - set(['x']))


def run_real(who, case):
  t = case['t']
  ps = params(t)
  vs = dict((n, var('p_' + n)) for n in ps)
  base.inputs(dict(setup(case), t=list(t), params=vs))
  try:
    D, verdict = solve(who, t, True, case)
  except Exception as e:
    return Outcome(False, observed='raised %r' % e, expected='an answer')
  env = dict((n, symx.smt(v)) for n, v in vs.items())
  L, Q, G = exprs(t)

  def phi(env):
    return sexp.conj(['(< %s 0.0)' % sexp.term(e, env) for e in L] +
                     ['(= %s 0.0)' % sexp.term(e, env) for e in Q] +
                     ['(> %s 0.0)' % sexp.term(e, env) for e in G])
  if not ps and who == 'muchnik':
    d = 'true' if verdict else 'false'
  else:
    d = sexp.disj([sexp.conj(['(< %s 0.0)' % sexp.term(e, env) for e in lo] +
                             ['(= %s 0.0)' % sexp.term(e, env) for e in eq] +
                             ['(> %s 0.0)' % sexp.term(e, env) for e in hi]) for lo, eq, hi in D])
  qenv = dict(env)
  qenv['x'] = 'x!q'
  some = '(exists ((x!q Real)) %s)' % phi(qenv)
  # every assignment is sound, and together they miss nothing
  sound = path().holds(['(=> %s %s)' % (d, some)])
  if sound is False:
    return Outcome(False, observed='an assignment holds', expected='no x meets the system')
  fenv = dict(env)
  fenv['x'] = symx.smt(var('p_x'))
  complete = path().holds(['(=> %s %s)' % (phi(fenv), d)])
  if complete is False:
    return Outcome(False, observed='no assignment holds', expected='some x meets the system')
  return Outcome(True)


def replay_real(who, case, inp):
  t = tuple(inp['t'])
  env = dict((n, Fraction(v)) for n, v in inp['params'].items())
  text = '%s %s with %s' % (who, tid(t, inp), ', '.join('%s=%s' % kv for kv in sorted(env.items())))
  sig = '%s:%s' % (who, tid(t))
  L, Q, G = exprs(t)
  flat = [(e, s) for part, s in ((L, -1), (Q, 0), (G, 1)) for e in part]
  ps = []
  for e, _ in flat:
    co = sympy.Poly(e, X).all_coeffs()[::-1]
    ps.append(base.int_poly([sexp.value(c, env) for c in co]))
  want = False
  for vec, _ in polys.cells([strip(p) for p in ps]):
    if all(v == s for v, (_, s) in zip(vec, flat)):
      want = True
  try:
    D, verdict = solve(who, t, not case.get('loud'), inp)
  except Exception as e:
    return {'violated': True, 'sig': sig + ':raises', 'observed': text + ': raised %s: %s' % (
        e.__class__.__name__, str(e)[:300]), 'expected': want}
  if not env and who == 'muchnik':
    got = verdict
  else:
    got = any(all(sexp.value(e, env) < 0 for e in lo) and all(sexp.value(e, env) == 0 for e in eq) and
              all(sexp.value(e, env) > 0 for e in hi) for lo, eq, hi in D)
  return {'violated': got != want, 'sig': sig, 'observed': text + ': %s' % got, 'expected': want}


def strip(p):
  p = list(p)
  while p and p[-1] == 0:
    p.pop()
  return p
