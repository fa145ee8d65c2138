"""Hypothesis selection (GRF/grf.sage: bad subsets, candidate sets, the
automatic filtering loop)."""
import itertools
import sys
from fractions import Fraction
import base
from base import Outcome
import symx
from symx import var, assume, path, Sym
import grfenv
from grfenv import DRAWS, HOLDS, OPS

NS = grfenv.load()
META = {
  'functions': ['RCF_GD_Decide.bad_subsets_on_dict', 'RCF_GD_Decide.good_hyps', 'RCF_GD_Decide.weight_hyps',
                'RCF_GD_Decide.promote_right', 'RCF_GD_Decide.check', 'RCF_Goal.eval_on_dict',
                'RCF_Atom.eval_on_dict'],
  'bounds': {
    'quick': '<= 3 hypotheses and <= 3 points with arbitrary (symbolic) values for selection of one round, <= 3 '
             'hypotheses and 2 cell points (one more drawn around the second) for the whole loop; any truth pattern; ties of the optimiser '
             'broken in every way',
    'thorough': '4 hypotheses, 3 points; loop with 3 cell points',
  },
  'outside': ['where the sample points come from (other properties)', 'the interactive dialogue'],
  'assumptions': ['the 0-1 optimiser returns some optimum of the problem it is given (stand-in: exhaustive)'],
}
REL = ['>', '<=', '=', '!=', '<', '>=']
DEG = [1, 2, 1, 3]


def cases(tier):
  big = tier == 'thorough'
  out = []

  def add(cid, **kw):
    kw.update({'id': cid, 'limit': 500 if big else 70, 'validate': 5, 'w': 1})
    out.append(kw)
  for h in range(0, 5 if big else 4):
    for p in range(1, 4):
      if h * p > (12 if big else 6):
        continue
      for r in range(2 if h * p > 4 else 3):
        add('bads/%d/%d/%d' % (h, p, r), kind='bads', h=h, p=p, rot=r)
  for h in range(1, 4 if not big else 5):
    subs = [s for k in range(h + 1) for s in itertools.combinations(range(h), k)]
    ls = [list(l) for k in range(0, 3) for l in itertools.combinations(subs, k)]
    for k in range(0, len(ls), 6):
      add('good/%d/%d' % (h, k), kind='good', h=h, lists=[[list(b) for b in l] for l in ls[k:k + 6]])
  for h in range(0, 4):
    for p in range(1, 3 if not big else 4):
      if h * p > (6 if not big else 9):
        continue
      for r in range(2):
        add('loop/%d/%d/%d' % (h, p, r), kind='loop', h=h, p=p, rot=r, extra=(h * p <= 4))
  return out


def problem(h, rot):
  """a decision object with h hypotheses: hypothesis i is about variable i+1
  (and, weakly, shares the goal's variable so that weights differ)"""
  d = NS['RCF_GD_Decide'](h + 1)
  xs = d.q.x
  A = NS['RCF_Atom']
  d.goal = NS['RCF_Goal'](main_goal=A(xs[0], REL[rot % 6], 0))
  hs = []
  for i in range(h):
    p = xs[i + 1]
    hs.append(A(p if (i + rot) % 2 else p - xs[0], REL[(rot + i + 1) % 6], 0))
  d.hyps = list(hs)
  return d, hs


def pts(d, vals):
  return [dict(zip(d.q.x, v)) for v in vals]


def truth_of(a, d):
  """by definition, from the polynomial and relation given at the start"""
  return bool(HOLDS[a[1]](a[0].substitute(d).constant()))


def spec_of(atoms):
  return [(a.poly, a.op) for a in atoms]


def excluded(c, t):
  return not set(c) <= set(t)


def subsets(n):
  return [s for k in range(n + 1) for s in itertools.combinations(range(n), k)]


def judge_bads(case, d, hs, vals):
  P = pts(d, vals)
  sg, sh = spec_of([d.goal.main_goal])[0], spec_of(hs)
  lss = sys.modules['local_search']
  NS['lss'].local_search_sampling = lambda prob, p, *a: P[1:]
  try:
    got = d.bad_subsets_on_dict(P[0])
    raised = None
  except symx.Unsupported:
    raise
  except Exception as e:
    raised, got = e, None
  if truth_of(sg, P[0]):
    if raised or got is not None:
      return 'goal true at the point: %r' % (raised or got), None
    return None
  ts = []
  for p in P:
    if not truth_of(sg, p):
      ts.append([i for i, a in enumerate(sh) if truth_of(a, p)])
  if any(len(t) == len(sh) for t in ts):
    if raised is None or 'Counterexample' not in str(raised):
      return 'all hypotheses true at a bad point: %r' % (raised or got), 'Counterexample'
    return None
  if raised is not None:
    return 'raised %r' % raised, 'bad subsets for %s' % ts
  if got is None:
    return 'None', 'bad subsets for %s' % ts
  for c in subsets(len(sh)):
    a = all(excluded(c, t) for t in ts)
    b = all(excluded(c, t) for t in got)
    if a != b:
      return 'bad subsets %s %s %s' % (got, 'allow' if b else 'rule out', list(c)), 'true sets %s' % ts
  return None


def judge_good(d, h, bads):
  w = d.weight_hyps()
  if len(w) != h or any(not (x > 0) for x in w):
    return 'weights %s' % w, '%d positive weights' % h
  ok = [c for c in subsets(h) if all(excluded(c, b) for b in bads)]
  try:
    got = d.good_hyps(bads)
  except symx.Unsupported:
    raise
  except Exception as e:
    if ok:
      return 'raised %r' % e, 'a candidate set'
    return None
  if not ok:
    return 'candidate %s' % got, 'infeasible'
  if sorted(set(got)) != sorted(got) or tuple(sorted(got)) not in ok:
    return 'candidate %s does not rule out %s' % (got, bads), 'one of %s' % ok
  best = min(sum(w[i] for i in c) for c in ok)
  if sum(w[i] for i in got) != best:
    return 'candidate %s of weight %s' % (got, sum(w[i] for i in got)), best
  return None


class FakeQ(object):
  """the cell points of every round are the same"""

  def __init__(self, P, x):
    self.P, self.x, self.polys, self.asked = P, x, [], 0

  def install_polys(self, p, *ps):
    self.polys += [p] + list(ps)

  def sample_pt_dicts(self, *a, **kw):
    self.asked += 1
    return self.P

  def __getattr__(self, n):
    if n[:2] == '__':
      raise AttributeError(n)
    raise symx.Unsupported('QE_Factory.' + n)


def judge_loop(case, d, hs, vals):
  P = pts(d, vals)
  n = case['p']
  sg, sh = spec_of([d.goal.main_goal])[0], spec_of(hs)
  d.q = FakeQ(P[:n], d.q.x)
  NS['lss'].local_search_sampling = lambda prob, p, *a: P[n:] if p is P[n - 1] else []
  raised = None
  try:
    d.check(partial=True, interactive=False)
  except symx.Unsupported:
    raise
  except Exception as e:
    raised = e
  right = list(d.goal.goal_hyps)
  left = list(d.hyps)
  if [h for h in hs if h in left] != left:
    return 'remaining hypotheses out of order or duplicated', 'a sublist of the given ones'
  if sorted(map(id, right + left)) != sorted(map(id, hs)):
    return '%d promoted and %d remaining of %d' % (len(right), len(left), len(hs)), 'each hypothesis once'
  idx = [[i for i, h in enumerate(hs) if h is r][0] for r in right]

  def goal_at(p):
    return truth_of(sg, p) or any(not truth_of(sh[i], p) for i in idx)
  if raised is not None:
    if 'Counterexample' not in str(raised):
      return 'raised %r after promoting %s' % (raised, idx), 'a filtered sequent or a counterexample'
    if not any(not truth_of(sg, p) and all(truth_of(a, p) for a in sh) for p in P):
      return 'counterexample claimed', 'no sample point makes the hypotheses true and the goal false'
    return None
  if any(not truth_of(sg, p) and all(truth_of(a, p) for a in sh) for p in P[:n]):
    return 'finished', 'a counterexample at a cell point'
  for p in P[:n]:
    if not goal_at(p):
      return 'finished with the goal false at a cell point, promoted %s' % idx, 'true at every cell point'
  # every promoted hypothesis was needed by some bad point
  for i in idx:
    if not any(not truth_of(sg, p) and not truth_of(sh[i], p) for p in P):
      return 'promoted %d' % i, 'it rules out no bad point'
  want = [sg[0]]
  if not any(q == sg[0] for q in d.q.polys):
    return 'goal polynomial not installed', 'installed'
  return None


def setup():
  pass


def vals_for(case, conc=None):
  n = case['p'] + (1 if case['kind'] == 'loop' and case.get('extra') else 0)
  if conc is not None:
    return [[Fraction(v) for v in r] for r in conc]
  return [[var('v%d_%d' % (i, j)) for j in range(case['h'] + 1)] for i in range(n)]


def run(case):
  grfenv.HOOK['pick'] = DRAWS.pick
  if case['kind'] == 'good':
    base.inputs({'b': 0, 'draws': []})
    for k, b in enumerate(case['lists']):
      DRAWS.start()
      d, hs = problem(case['h'], k)
      bad = judge_good(d, case['h'], b)
      if bad:
        return Outcome(False, inputs={'b': k, 'draws': list(DRAWS.log)}, observed=bad[0], expected=bad[1])
    return Outcome(True)
  DRAWS.start()
  vals = vals_for(case)
  base.inputs({'vals': vals, 'draws': []})
  d, hs = problem(case['h'], case['rot'])
  bad = (judge_bads if case['kind'] == 'bads' else judge_loop)(case, d, hs, vals)
  return Outcome(bad is None, inputs={'vals': vals, 'draws': list(DRAWS.log)}, observed=bad and bad[0],
                 expected=bad and bad[1])


def replay(case, inp):
  grfenv.HOOK['pick'] = DRAWS.pick
  DRAWS.start(inp['draws'])
  if case['kind'] == 'good':
    b = case['lists'][inp['b']]
    d, hs = problem(case['h'], inp['b'])
    bad = judge_good(d, case['h'], b)
    text = '%d hypotheses, bad subsets %s' % (case['h'], b)
  else:
    vals = vals_for(case, inp['vals'])
    d, hs = problem(case['h'], case['rot'])
    text = '%s |- %s at points %s' % ([str(h) for h in hs], d.goal.main_goal, [[str(v) for v in r] for r in vals])
    bad = (judge_bads if case['kind'] == 'bads' else judge_loop)(case, d, hs, vals)
  sig = '%s:%s' % (case['kind'], text)
  if bad:
    return {'violated': True, 'sig': sig, 'observed': text + ': ' + str(bad[0]), 'expected': str(bad[1])}
  return {'violated': False, 'sig': sig, 'observed': text, 'expected': 'as specified'}
