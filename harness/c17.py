"""Truth of GRF atoms and goals at full and partial points (GRF/grf.sage)."""
import itertools
import sys
from fractions import Fraction
import base
from base import Outcome
import symx
from symx import var, assume, path, Sym
import sexp
import grfenv
from grfenv import SMT, HOLDS, OPS, NEG, P, at, smt_poly

NS = grfenv.load()
META = {
  'functions': ['RCF_Atom.__init__', 'RCF_Atom.negate', 'RCF_Atom.eval_on_dict', 'RCF_Atom.update_ring',
                'RCF_Atom.quotient_ring_inject', 'RCF_Goal.eval_on_dict', 'RCF_Goal.add_goal_hyp'],
  'bounds': {
    'quick': 'atoms over <= 3 variables of degree <= 2 with symbolic coefficients, all six relations, negated up to '
             'twice, every subset of the variables given a (symbolic) value, earlier evaluations at other points; '
             'goals with <= 2 hypotheses, all mixes of relations; goals after <= 2 promotions with Groebner reduction '
             '(concrete polynomials), every subset of variables; every real value',
    'thorough': 'as quick with three hypotheses and all mixes',
  },
  'outside': ['polynomial arithmetic itself (Sage)'],
  'assumptions': ['Sage polynomial arithmetic, substitution and Groebner reduction are exact (stand-in: exact sparse '
                  'polynomials and sympy Groebner bases, grevlex)',
                  'the linking coefficients of symbolic templates are non-zero, so that the variables occur'],
}
N = 3


def cases(tier):
  big = tier == 'thorough'
  out = []

  def add(cid, **kw):
    kw.update({'id': cid, 'limit': 200 if big else 40, 'validate': 6, 'w': 1})
    out.append(kw)
  for t in ATOMS:
    for o in OPS:
      add('atom/%s/%s' % (t, o), kind='atom', t=t, op=o)
  mixes = [(a, b) for a in OPS for b in OPS]
  for k, m in enumerate(mixes):
    add('goal1/%s/%s' % m, kind='goal', hyps=[('l1', m[1])], main=('l0', m[0]))
  for k, m in enumerate(itertools.product(OPS, repeat=3)):
    if big or k % 9 == 0:
      add('goal2/%s/%s/%s' % m, kind='goal', hyps=[('l1', m[1]), ('m', m[2])], main=('l0', m[0]))
  add('goal0', kind='goal', hyps=[], main=('q', '<'))
  for k, (hs, main) in enumerate(PROMOTE):
    add('promote%d' % k, kind='promote', hyps=hs, main=main)
  return out


def C(s):
  """concrete polynomial in x0, x1, x2"""
  return eval(s, dict(zip(('x', 'y', 'z'), RING().gens())))


_R = []


def RING():
  if not _R:
    _R.append(NS['QE_Factory'](N).R)
  return _R[0]


# (left, right) from generators and coefficients
ATOMS = {
  'l0': lambda x, y, z, c: (c(0) * x + c(1), c(2) * 1),
  'l1': lambda x, y, z, c: (c(0) * y + x, x * 2 + c(1) - x),
  'm': lambda x, y, z, c: (c(0) * x * y + c(1), z),
  'q': lambda x, y, z, c: (x * x + c(0) * y * y, c(1) * z + c(2)),
  'c': lambda x, y, z, c: (x - x + c(0), c(1)),
}
# promoted hypotheses (polynomial, op) and the main goal, for the Groebner route
PROMOTE = [
  ([('x-y', '='), ('x**2-1', '>')], ('x+z', '>')),
  ([('x**2-1', '>'), ('x-y', '=')], ('x+z', '>')),
  ([('x-y', '='), ('x-z', '=')], ('x', '>')),
  ([('x-y', '='), ('x-z', '<')], ('z', '<=')),
  ([('x*y-1', '='), ('x**2*y-z', '>=')], ('y', '!=')),
  ([('z', '!='), ('x+z', '=')], ('x-1', '<')),
  ([('x-y', '='), ('y-x', '=')], ('z', '=')),
]


class Coefs(object):
  def __init__(self, tag, vals=None):
    self.tag, self.vals, self.used = tag, vals, []

  def __call__(self, i):
    if self.vals is not None:
      return self.vals[i]
    while len(self.used) <= i:
      v = var('%s%d' % (self.tag, len(self.used)))
      assume(v != 0)
      self.used.append(v)
    return self.used[i]


def build(t, op, c):
  x, y, z = RING().gens()
  l, r = ATOMS[t](x, y, z, c)
  if not isinstance(l, P):
    l = RING()(l)
  return NS['RCF_Atom'](l, op, r), l - r


def subsets():
  return [tuple(i for i in range(N) if k >> i & 1) for k in range(2 ** N)]


def point(vals, keep):
  g = RING().gens()
  return dict((g[i], vals[i]) for i in keep)


def truth(p, op, vals):
  """by definition, on symbolic or concrete values"""
  names = [g.name() for g in RING().gens()]
  tot = 0
  for m, c in p.t.items():
    v = c
    for n, e in m:
      for _ in range(e):
        v = v * vals[names.index(n)]
    tot = tot + v
  return bool(HOLDS[op](tot))


def needed(p):
  names = [g.name() for g in RING().gens()]
  return set(names.index(n) for m in p.t for n, _ in m)


def atom_round(a, p, op, vals, other):
  """Every check on one atom; None or what is wrong.  other: an unrelated
  point asked first."""
  full = (0, 1, 2)
  a.eval_on_dict(point(other, full))
  for k in range(3):
    for keep in subsets():
      if k and keep != full:
        continue
      d = point(vals, keep)
      if not d:
        continue
      got = a.eval_on_dict(d)
      if needed(p) <= set(keep):
        if got not in (True, False):
          return 'negated %d times at %s: %r' % (k, keep, got), 'a truth value'
        want = truth(p, op, vals)
        if (got is True) != want:
          return 'negated %d times at %s: %r' % (k, keep, got), want
      elif got is not None:
        return 'negated %d times at %s: %r' % (k, keep, got), None
    if a.op not in OPS:
      return 'relation %r' % a.op, 'a relation'
    if k < 2:
      a.negate()
      op = NEG[op]
  return None


def run(case):
  vals = [var('v%d' % i) for i in range(N)]
  other = [var('w%d' % i) for i in range(N)]
  if case['kind'] == 'atom':
    c = Coefs('c')
    a, p = build(case['t'], case['op'], c)
    base.inputs({'c': c.used, 'vals': vals, 'other': other})
    bad = atom_round(a, p, case['op'], vals, other)
    if bad:
      return Outcome(False, observed=bad[0], expected=bad[1])
    return Outcome(True)
  cs = [Coefs('c%d_' % k) for k in range(1 + len(case['hyps']))]
  goal, parts = make(case, cs)
  base.inputs({'c': [c.used for c in cs], 'vals': vals})
  for keep in subsets():
    if not keep:
      continue
    if case['kind'] == 'goal' and len(case['hyps']) > 1 and keep not in ((0, 1, 2), (0,), (1,), (0, 1)):
      continue
    got = goal.eval_on_dict(point(vals, keep))
    if len(keep) == N:
      want = holds(parts, vals)
      if bool(got) != want:
        return Outcome(False, observed='%r at a full point' % got, expected=want)
    elif got is True:
      env = {}
      for i, g in enumerate(RING().gens()):
        env[g.name()] = symx.smt(vals[i] if i in keep else var('f%d' % i))
      f = sexp.disj([SMT[parts[0][1]] % smt_poly(parts[0][0], env)] +
                    [SMT[NEG[o]] % smt_poly(p, env) for p, o in parts[1:]])
      fs = [var('f%d' % i) for i in range(N)]
      base.inputs({'c': [c.used for c in cs], 'vals': [vals[i] if i in keep else fs[i] for i in range(N)]})
      if path().holds([f]) is False:
        return Outcome(False, inputs={'c': [c.used for c in cs], 'keep': list(keep),
                                      'vals': [vals[i] if i in keep else fs[i] for i in range(N)]},
                       observed='True with only %s known' % (keep,), expected='undecided')
      base.inputs({'c': [c.used for c in cs], 'vals': vals})
  return Outcome(True)


def make(case, cs):
  """the real goal object, and [(polynomial, op)] main first"""
  if case['kind'] == 'goal':
    m, p = build(case['main'][0], case['main'][1], cs[0])
    parts = [(p, case['main'][1])]
    hs = []
    for (t, o), c in zip(case['hyps'], cs[1:]):
      h, hp = build(t, o, c)
      hs.append(h)
      parts.append((hp, o))
    return NS['RCF_Goal'](main_goal=m, goal_hyps=hs), parts
  x = C('x')
  m = NS['RCF_Atom'](C(case['main'][0]), case['main'][1], 0)
  goal = NS['RCF_Goal'](main_goal=m)
  parts = [(C(case['main'][0]), case['main'][1])]
  for p, o in case['hyps']:
    h = NS['RCF_Atom'](C(p), o, 0)
    goal.add_goal_hyp(h, use_gbs=True)
    parts.append((C(p), o))
  return goal, parts


def holds(parts, vals):
  return truth(parts[0][0], parts[0][1], vals) or any(not truth(p, o, vals) for p, o in parts[1:])


def replay(case, inp):
  vals = inp['vals']
  if case['kind'] == 'atom':
    a, p = build(case['t'], case['op'], Coefs('', inp['c']))
    text = '[%s %s 0] at %s' % (p, case['op'], [str(v) for v in vals])
    try:
      bad = atom_round(a, p, case['op'], vals, inp['other'])
    except Exception as e:
      bad = 'raised %r' % e, 'a truth value'
  else:
    goal, parts = make(case, [Coefs('', c) for c in inp['c']])
    text = 'goal %s at %s' % ([('%s' % p, o) for p, o in parts], [str(v) for v in vals])
    bad = None
    for keep in subsets():
      if not keep:
        continue
      want = holds(parts, vals)
      try:
        got = goal.eval_on_dict(point(vals, keep))
      except Exception as e:
        bad = 'raised %r' % e, want
        break
      if (len(keep) == N and bool(got) != want) or (got is True and not want):
        bad = '%r with %s known' % (got, keep), want
        break
  sig = '%s:%s' % (case['id'], text)
  if bad:
    return {'violated': True, 'sig': sig, 'observed': text + ': ' + str(bad[0]), 'expected': str(bad[1])}
  return {'violated': False, 'sig': sig, 'observed': text, 'expected': 'the same'}
