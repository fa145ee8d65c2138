"""Promotion of hypotheses keeps the meaning of the sequent (GRF/grf.sage)."""
import itertools
import sys
from fractions import Fraction
import base
from base import Outcome
import symx
from symx import var, path
import sexp
import grfenv
from grfenv import SMT, HOLDS, OPS, NEG, at, smt_poly

NS = grfenv.load()
META = {
  'functions': ['RCF_GD_Decide.assert_hyps', 'RCF_GD_Decide.assert_goal', 'RCF_GD_Decide.promote_right',
                'RCF_Goal.add_goal_hyp', 'RCF_Atom.quotient_ring_inject', 'RCF_Goal.goal_polys'],
  'bounds': {
    'quick': 'sequents of 3 or 4 hypotheses over three variables from a list of equation/inequality templates '
             '(degree <= 3, shared leading terms, repeated and contradictory equations), promoted in every order (4: '
             'selected orders), with and without Groebner reduction, after another problem in the same session; '
             'compared after every promotion; every real value of the variables',
    'thorough': 'all orders of 4, more templates',
  },
  'outside': ['polynomial arithmetic and Groebner bases themselves (Sage)'],
  'assumptions': ['Groebner bases and normal forms are those of Sage for degrevlex (stand-in: sympy, grevlex)'],
}
SETS = [
  ([('x-y', '='), ('x-z', '='), ('y+z', '>')], ('x', '>')),
  ([('x-y', '='), ('x-y', '='), ('y-x', '=')], ('x-z', '<=')),
  ([('x**2-y', '='), ('x*y-1', '='), ('x**3+z', '<')], ('y-z', '!=')),
  ([('x*y-z', '='), ('x**2*y-x', '>='), ('y**2-1', '=')], ('z**2-1', '=')),
  ([('x+y+z', '='), ('x-y', '<'), ('x*y*z', '!=')], ('z', '>=')),
  ([('x**2+y**2-1', '='), ('x+y-2', '>'), ('x-y', '=')], ('x', '<')),
  ([('x', '='), ('x-1', '='), ('y', '>')], ('z', '=')),
  ([('2*x-3*y', '='), ('y**2-x*z', '<='), ('x-z/2', '=')], ('x*z', '>=')),
  ([('x', '>'), ('y', '<='), ('z', '!=')], ('x*y', '<=')),
  ([('x**2-2', '='), ('x**3-2*x', '='), ('x**4-4', '>=')], ('x-y', '>')),
]
FOUR = [
  ([('x-y', '='), ('y-z', '='), ('x-z', '='), ('x**2-1', '>')], ('x*y*z', '>')),
  ([('x*y-1', '='), ('x-z', '>'), ('y*z-x', '='), ('z', '!=')], ('x', '>=')),
  ([('x**2-y', '='), ('y**2-z', '='), ('x**4-z', '<'), ('y', '=')], ('x', '=')),
]


def cases(tier):
  big = tier == 'thorough'
  out = []
  for k, (h, m) in enumerate(SETS + FOUR):
    perms = list(itertools.permutations(range(len(h))))
    if len(h) == 4 and not big:
      perms = perms[::5]
    for g in (True, False):
      out.append({'id': 'set%d/%s' % (k, 'gb' if g else 'plain'), 'hyps': h, 'main': m, 'orders': [list(p) for p in perms],
                  'gb': g, 'limit': 300 if big else 60, 'validate': 4, 'models': 2, 'w': len(h)})
  return out


def ring():
  return NS['QE_Factory'](3)


def poly(q, s):
  return eval(s, dict(zip(('x', 'y', 'z'), q.x), __builtins__={})) if '/' not in s else \
    eval(grfenv.preparse(s), dict(zip(('x', 'y', 'z'), q.x), Integer=grfenv.Integer))


def start(case):
  d = NS['RCF_GD_Decide'](3)
  A = NS['RCF_Atom']
  hs = [A(poly(d.q, p), o, 0) for p, o in case['hyps']]
  d.assert_hyps(*hs)
  d.assert_goal(A(poly(d.q, case['main'][0]), case['main'][1], 0))
  return d, hs


def states(case, order):
  """[(goal atoms promoted so far (given indices), decision object)] after
  each promotion"""
  e, _ = start(case)      # an earlier problem of the session
  promote(e, 1, case['gb'])
  d, hs = start(case)
  done = []
  left = list(range(len(hs)))
  yield done, left, d
  for i in order:
    k = left.index(i)
    promote(d, k, case['gb'])
    left = left[:k] + left[k + 1:]
    done = done + [i]
    yield done, left, d


def promote(d, k, gb):
  if gb:
    d.promote_right(k)
  else:
    h = d.hyps[k]
    d.hyps = d.hyps[:k] + d.hyps[k + 1:]
    d.goal.add_goal_hyp(h)


def run(case):
  names = ['x0', 'x1', 'x2']
  vals = [var('v%d' % i) for i in range(3)]
  env = dict(zip(names, [symx.smt(v) for v in vals]))
  q = ring()
  base.inputs({'order': case['orders'][0], 'vals': vals})

  def f(p, o):
    return SMT[o] % smt_poly(p, env)
  want = [f(poly(q, p), o) for p, o in case['hyps']]
  main = f(poly(q, case['main'][0]), case['main'][1])
  for order in case['orders']:
    inp = {'order': order, 'vals': vals}
    try:
      for done, left, d in states(case, order):
        if len(d.hyps) != len(left) or len(d.goal.goal_hyps) != len(done):
          return Outcome(False, inputs=inp, observed='%d and %d' % (len(d.hyps), len(d.goal.goal_hyps)),
                         expected='%d and %d' % (len(left), len(done)))
        claims = []
        for h, i in zip(d.hyps, left):
          claims.append('(= %s %s)' % (f(h.poly, h.op), want[i]))
        g = sexp.conj([f(h.poly, h.op) for h in d.goal.goal_hyps])
        claims.append('(= %s %s)' % (g, sexp.conj([want[i] for i in done])))
        mg = d.goal.main_goal
        claims.append('(=> %s (= %s %s))' % (g, f(mg.poly, mg.op), main))
        if path().holds([sexp.conj(claims)]) is False:
          return Outcome(False, inputs=inp, observed='another sequent after promoting %s' % done)
    except symx.Unsupported:
      raise
    except Exception as e:
      return Outcome(False, inputs=inp, observed='raised %r' % e)
  return Outcome(True)


def replay(case, inp):
  env = dict(zip(['x0', 'x1', 'x2'], [Fraction(v) for v in inp['vals']]))
  q = ring()

  def t(p, o):
    return HOLDS[o](at(p, env))
  want = [t(poly(q, p), o) for p, o in case['hyps']]
  main = t(poly(q, case['main'][0]), case['main'][1])
  text = '%s |- %s promoted in order %s at %s' % (case['hyps'], case['main'], inp['order'],
                                                  dict((k, str(v)) for k, v in sorted(env.items())))
  sig = '%s:%s' % (case['id'], inp['order'])
  try:
    for done, left, d in states(case, inp['order']):
      show = text + ' (promoted %s): %s' % (done, str(d))
      l = [t(h.poly, h.op) for h in d.hyps]
      r = [t(h.poly, h.op) for h in d.goal.goal_hyps]
      if l != [want[i] for i in left]:
        return {'violated': True, 'sig': sig, 'observed': show, 'expected': 'remaining %s' % [want[i] for i in left]}
      if all(r) != all(want[i] for i in done) or len(r) != len(done):
        return {'violated': True, 'sig': sig, 'observed': show, 'expected': 'promoted %s' % [want[i] for i in done]}
      if all(r) and t(d.goal.main_goal.poly, d.goal.main_goal.op) != main:
        return {'violated': True, 'sig': sig, 'observed': show, 'expected': 'goal %s' % main}
  except Exception as e:
    return {'violated': True, 'sig': sig, 'observed': text + ': raised %r' % e, 'expected': 'a sequent'}
  return {'violated': False, 'sig': sig, 'observed': text, 'expected': 'the same sequent'}
