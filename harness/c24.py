"""Local search sampling (GRF/local_search.py)."""
import itertools
import sys
from fractions import Fraction
import base
from base import Outcome
import symx
from symx import var, assume, path, Sym
import grfenv
from grfenv import HOLDS, OPS, P

NS = grfenv.load()
LS = sys.modules['local_search']
META = {
  'functions': ['VarOrder.var_order', 'VarOrder.dict2vect', 'VarOrder.vect2dict', 'perturb', 'perturb_dict',
                'truth_sig', 'choose_atom_true', 'choose_atom_random', 'eval_poly', 'get_num_flipping_func',
                'get_symb_flipping_func', 'local_search_sampling', 'RCF_GD_Decide.sample_points',
                'RCF_GD_Decide.get_all_hyp_atoms', 'RCF_GD_Decide.get_hidden_hyp_atoms', 'RCF_GD_Decide.get_goal',
                'RCF_GD_Decide.k_sample_points_in_ball'],
  'bounds': {
    'quick': 'points of 1..3 variables, histories of <= 4 conversions over changing variable sets; atoms of degree <= 2 '
             'in <= 2 variables, six relations, symbolic margin; root-finding results arbitrary; <= 3 hidden and <= 2 '
             'promoted hypotheses; random offsets of the sampling run from two positions of their range',
    'thorough': 'histories of 5, more atoms',
  },
  'outside': ['convergence of scipy fsolve (any vector may come back)', 'which points are found',
              'get_num_falsifying_func (never called)', 'floating-point rounding'],
  'assumptions': ['Sage polynomial arithmetic (stand-in)', 'numbers are exact'],
}
FR3 = [Fraction(1, 2), Fraction(7, 8)]
POLYS = ['A', 'A - B', 'A*B - 1', 'A^2 - 2', '2*A + B', 'A^2 + B^2 - 1', '-B', 'B^2 - A']


def cases(tier):
  big = tier == 'thorough'
  out = []

  def add(cid, **kw):
    kw.update({'id': cid, 'limit': 300 if big else 60, 'validate': 3, 'w': 1})
    out.append(kw)
  sets = ['0', '1', '01', '02', '012', '12']
  hist = list(itertools.product(sets, repeat=2)) + [h for h in itertools.product(sets, repeat=3)][::4]
  hist += [h for h in itertools.product(sets, repeat=4)][::29 if not big else 5]
  if big:
    hist += [h for h in itertools.product(sets, repeat=5)][::41]
  for h in hist:
    add('order/' + '-'.join(h), kind='order', hist=list(h))
  for k, p in enumerate(POLYS):
    for o in OPS if big else OPS[k % 2::2]:
      add('flip/%d/%s' % (k, o), kind='flip', p=p, op=o)
  for n in (1, 2, 3):
    add('perturb/%d' % n, kind='perturb', n=n)
    add('ball/%d' % n, kind='ball', n=n)
  atoms = [(p, OPS[(i * 5 + 1) % 6]) for i, p in enumerate(POLYS)]
  for k in range(8):
    for nh in (0, 1, 2, 3):
      hs = [atoms[(k + 2 * j) % 8] for j in range(nh)]
      gh = [atoms[(k + 5 + j) % 8] for j in range(k % 3)]
      add('choose/%d/%d' % (k, nh), kind='choose', hyps=hs, ghyps=gh)
  lin = [('A', '>'), ('B - A', '<='), ('A + B', '='), ('A - 3', '!=')]
  for k, g in enumerate([('A', '>'), ('A', '<='), ('A - 1', '='), ('2*A + 1', '!='), ('-A', '<'), ('A + 2', '>=')]):
    for nh in (0, 1, 2):
      add('search/%d/%d' % (k, nh), kind='search', goal=g, hyps=[lin[(k + j) % 4] for j in range(nh)],
          ghyps=[lin[(k + 2) % 4]] if k % 2 else [])
  return out


def poly(q, text):
  env = dict(zip('ABC', q.x))
  return eval(compile(grfenv.preparse(text), text, 'eval'), {'Integer': grfenv.Integer}, env)


class Fixed(object):
  """offsets cycle through two positions; the choice made is symbolic"""

  def __init__(self, choices=None):
    self.k, self.log, self.play = 0, [], choices

  def uniform(self, a, b):
    self.k += 1
    a, b = Fraction(a), Fraction(b)
    return a + (b - a) * FR3[(self.k // 2) % 2]

  def choice(self, l):
    if not len(l):
      raise IndexError('list index out of range')
    if self.play is not None:
      i = int(self.play.pop(0)) if self.play else 0
    else:
      i = path().choose(len(l)) if path() is not None else 0
    self.log.append(i)
    return l[i]

  def random(self):
    return self.uniform(0, 1)

  def __getattr__(self, n):
    raise symx.Unsupported('random.' + n)


def val(v):
  if isinstance(v, P):
    return v.constant()
  return v


def by_name(d):
  return dict((k.name(), val(v)) for k, v in d.items())


def same(a, b):
  """a == b decided here, for plain and symbolic numbers"""
  return bool(a == b)


# -- the judged runs; each returns None or (observed, expected) ---------------

def do_order(case, vals):
  q = NS['QE_Factory'](3)
  LS.VarOrder.order = None
  k = 0
  for h in case['hist']:
    D = {}
    for c in h:
      D[q.x[int(c)]] = vals[k][int(c)]
    v = LS.VarOrder.dict2vect(D)
    if len(v) != len(D):
      return 'vector of %d for %d variables' % (len(v), len(D)), len(D)
    back = by_name(LS.VarOrder.vect2dict(v))
    want = by_name(D)
    if sorted(back) != sorted(want):
      return 'variables %s' % sorted(back), sorted(want)
    for n in want:
      if not same(back[n], want[n]):
        return '%s = %s after conversion %d' % (n, back[n], k), want[n]
    k += 1
  return None


def do_flip(case, pt, margin, other, choices):
  q = NS['QE_Factory'](2)
  p = poly(q, case['p'])
  A = NS['RCF_Atom'](p, case['op'], 0)
  LS.random = Fixed(choices)
  LS.VarOrder.order = None
  LS.VarOrder.dict2vect({q.x[0]: pt[0], q.x[1]: pt[1]})
  v = LS.VarOrder.dict2vect({q.x[0]: pt[0], q.x[1]: pt[1]})
  w = LS.VarOrder.dict2vect({q.x[0]: other[0], q.x[1]: other[1]})
  f = LS.get_num_flipping_func(A, v, margin)
  r = f(w)
  r = [val(c) for c in r]
  s = LS.get_symb_flipping_func(A, v, margin)
  before = ev(p, pt)
  after = ev(p, other)
  bad = None
  if len(r) != len(v):
    bad = '%d equations' % len(r), len(v)
  elif all(same(c, 0) for c in r):
    if before > 0 and not after < 0 or before < 0 and not after > 0 or same(before, 0) and same(after, 0):
      bad = 'a solution with the same sign', 'the other sign'
  if not bad:
    z = ev(s, other)
    if z < 0:
      bad = 'negative objective', 'a square'
    elif same(z, 0) and (before > 0 and not after < 0 or before < 0 and not after > 0 or
                         same(before, 0) and same(after, 0)):
      bad = 'a minimum with the same sign', 'the other sign'
  return bad, LS.random.log


def ev(p, pt):
  tot = 0
  for m, c in p.t.items():
    t = c
    for n, e in m:
      for _ in range(e):
        t = t * pt[int(n[1:])]
    tot = tot + t
  return tot


def do_perturb(case, vals, e, offs):
  q = NS['QE_Factory'](3)
  d = grfenv.DRAWS
  d.start(offs)
  LS.random = NS['random'] = d
  gens = q.x[:case['n']]
  D = dict(zip(gens, vals))
  near = lambda a, b: a - b <= e and b - a <= e
  if case['kind'] == 'ball':
    g = NS['RCF_GD_Decide'](3)
    g.q = q
    pts = g.k_sample_points_in_ball(D, 2, e)
    if len(pts) != 2:
      return '%d points' % len(pts), 2
  else:
    v = LS.perturb(list(vals), e)
    if len(v) != len(vals) or not all(near(a, b) for a, b in zip(v, vals)):
      return 'perturbed vector %s' % v, 'within the distance'
    pts = [LS.perturb_dict(D, e)]
  for n in pts:
    if sorted(by_name(n)) != sorted(by_name(D)):
      return 'variables %s' % sorted(by_name(n)), sorted(by_name(D))
    if not all(near(n[g_], D[g_]) for g_ in gens):
      return 'perturbed point %s' % n, 'within the distance'
  if by_name(D) != dict((g_.name(), v) for g_, v in zip(gens, vals)):
    return 'point changed', 'unchanged'
  return None


def problem(case, goal=('A', '>')):
  g = NS['RCF_GD_Decide'](2)
  Atom = NS['RCF_Atom']
  mk = lambda l: [Atom(poly(g.q, p), o, 0) for p, o in l]
  g.hyps = mk(case['hyps'])
  g.goal = NS['RCF_Goal'](main_goal=mk([goal])[0], goal_hyps=mk(case['ghyps']))
  return g


def do_choose(case, pt, choices):
  g = problem(case)
  LS.random = Fixed(choices)
  LS.VarOrder.order = None
  D = {g.q.x[0]: pt[0], g.q.x[1]: pt[1]}
  v = LS.VarOrder.dict2vect(D)
  truth = [bool(HOLDS[a.op](ev(a.poly, pt))) for a in g.hyps]
  more = [bool(HOLDS[a.op](ev(a.poly, pt))) for a in g.goal.goal_hyps]
  log = LS.random.log
  sig = LS.truth_sig(g, D)
  if [bool(s) for s in sig] != truth + more:
    return ('signature %s' % (sig,), truth + more), log
  a = LS.choose_atom_true(g, v)
  if any(truth):
    if a not in [h for h, t in zip(g.hyps, truth) if t]:
      return ('chose %s' % a, 'a true hidden hypothesis'), log
  elif a is not None:
    return ('chose %s' % a, 'none'), log
  if g.hyps:
    a = LS.choose_atom_random(g, v)
    if a not in g.hyps:
      return ('chose %s' % a, 'a hidden hypothesis'), log
  return None, log


def do_search(case, pt, found, choices):
  g = problem(case, case['goal'])
  LS.random = Fixed(choices)
  LS.VarOrder.order = None
  x = g.q.x
  D = {x[0]: pt[0], x[1]: pt[1]}
  calls = []

  def fsolve(f, v, *a, **kw):
    k = len(calls)
    calls.append(list(v))
    if len(f(list(v))) != len(v):
      raise ValueError('not a square system')
    s = {x[0]: found[k % 2][0], x[1]: found[k % 2][1]}
    return LS.VarOrder.dict2vect(s)
  grfenv.HOOK['fsolve'] = fsolve
  pts = g.sample_points(D)
  log = LS.random.log
  if not pts:
    return ('no points', 'points'), log
  if not all(same(by_name(pts[0])[n], w) for n, w in (('x0', pt[0]), ('x1', pt[1]))):
    return ('first point %s' % pts[0], 'the given one'), log
  eps = Fraction(1, 50)
  near = lambda a, b: a - b <= eps and b - a <= eps
  mg = g.goal.main_goal
  seen = {}
  for d in pts:
    e = by_name(d)
    if sorted(e) != ['x0', 'x1']:
      return ('point %s' % d, 'values for x0, x1'), log
    key = (symx.smt(e['x0']), symx.smt(e['x1']))
    if key in seen:
      continue
    seen[key] = 1
    w = [e['x0'], e['x1']]
    if path() is not None:
      # neighbours of the given point do not depend on what was found
      if not ('b0' in key[0] or 'c0' in key[0]):
        continue
    elif near(w[0], pt[0]) and near(w[1], pt[1]):
      continue
    if HOLDS[mg.op](ev(mg.poly, w)):
      return ('searched point %s makes the goal true' % e, 'false'), log
  return None, log


def run(case):
  k = case['kind']
  if k == 'order':
    vals = [[var('v%d_%d' % (i, j)) for j in range(3)] for i in range(len(case['hist']))]
    inp = {'vals': vals}
    base.inputs(inp)
    fn = lambda: (do_order(case, vals), {})
  elif k == 'flip':
    pt, other, m = [var('a0'), var('a1')], [var('b0'), var('b1')], var('margin')
    assume(m > 0)
    inp = {'pt': pt, 'other': other, 'margin': m}
    base.inputs(inp)
    fn = lambda: (lambda r: (r[0], {'choices': r[1]}))(do_flip(case, pt, m, other, None))
  elif k in ('perturb', 'ball'):
    vals, e = [var('v%d' % i) for i in range(case['n'])], var('e')
    assume(e > 0)
    inp = {'vals': vals, 'e': e}
    base.inputs(inp)
    fn = lambda: (do_perturb(case, vals, e, None), {'offs': list(grfenv.DRAWS.log)})
  elif k == 'choose':
    pt = [var('a0'), var('a1')]
    inp = {'pt': pt}
    base.inputs(inp)
    fn = lambda: (lambda r: (r[0], {'choices': r[1]}))(do_choose(case, pt, None))
  else:
    pt = [var('a0'), Fraction(1, 3)]
    found = [[var('b0'), Fraction(2)], [var('c0'), Fraction(-1)]]
    inp = {'pt': pt, 'found': found}
    base.inputs(inp)
    fn = lambda: (lambda r: (r[0], {'choices': r[1]}))(do_search(case, pt, found, None))
  try:
    bad, more = fn()
    inp = dict(inp, **more)
    if k in ('perturb', 'ball'):
      inp['offs'] = list(grfenv.DRAWS.log)
  except (symx.Unsupported, symx.Infeasible):
    raise
  except Exception as ex:
    bad = 'raised %r' % ex, 'an answer'
    inp = dict(inp, choices=list(getattr(LS.random, 'log', [])))
  return Outcome(bad is None, inputs=inp, observed=bad and bad[0], expected=bad and bad[1])


def fr(v):
  return [fr(x) for x in v] if isinstance(v, list) else Fraction(v)


def replay(case, inp):
  k = case['kind']
  ch = inp.get('choices', [])
  try:
    if k == 'order':
      bad = do_order(case, fr(inp['vals']))
    elif k == 'flip':
      bad, _ = do_flip(case, fr(inp['pt']), fr(inp['margin']), fr(inp['other']), list(ch))
    elif k in ('perturb', 'ball'):
      bad = do_perturb(case, fr(inp['vals']), fr(inp['e']), fr(inp.get('offs', [])))
    elif k == 'choose':
      bad, _ = do_choose(case, fr(inp['pt']), list(ch))
    else:
      bad, _ = do_search(case, fr(inp['pt']), fr(inp['found']), list(ch))
  except Exception as ex:
    bad = 'raised %r' % ex, 'an answer'
  text = '%s %s' % (dict((a, case[a]) for a in ('hist', 'p', 'op', 'hyps', 'ghyps', 'goal') if a in case),
                    base.to_json(inp))
  if bad:
    return {'violated': True, 'sig': case['id'], 'observed': '%s: %s' % (text, bad[0]), 'expected': str(bad[1])}
  return {'violated': False, 'sig': case['id'], 'observed': text, 'expected': 'as stated'}
