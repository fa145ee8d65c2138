"""Projection and lifting: sample points for strict inequalities (GRF/grf.sage)."""
import itertools
from fractions import Fraction
import base
from base import Outcome
import symx
from symx import var, path
import sexp
import grfenv
import unis
from grfenv import smt_poly, at, DRAWS, HOLDS, OPS

NS = grfenv.load()
META = {
  'functions': ['QE_Factory.sample_pt_dicts', 'QE_Factory.projection_phase', 'QE_Factory.bm_proj',
                'QE_Factory.filter_proj_set', 'QE_Factory.pure_poly_base', 'QE_Factory.compute_proj_ord',
                'ProjOrd.compute_proj_ord', 'QE_Factory.iso_root_intvls', 'QE_Factory.base_phase',
                'QE_Factory.sector_sps', 'QE_Factory.lifting_phase', 'QE_Factory.lift_level',
                'QE_Factory.stack_over_cell', 'QE_Factory.sp_dict', 'RCF_Goal.eval_on_dict', 'RCF_Atom.eval_on_dict'],
  'bounds': {
    'quick': 'families of 1..3 polynomials in 1..3 variables (lines, conics, quadrics, products, powers and shared '
             'factors), with and without goal and ambient hypotheses; every point of R^n (solver); random draws at '
             'three positions of their interval; one projection step for generic polynomials of degree <= 3 whose '
             'coefficients are variables',
    'thorough': 'more families, four polynomials',
  },
  'outside': ['other polynomials', 'other random draws (a sector is sign-invariant: C18 has every draw)',
              'points where some polynomial vanishes'],
  'assumptions': ['resultants, discriminants and factorisation (sympy), root isolation (Sturm bisection): stand-ins'],
}
FRAC = Fraction(1, 2)


def dense(p):
  vs = p.variables()
  if not vs:
    return [p.constant()]
  n = vs[0].name()
  out = [Fraction(0)] * (p.degree(vs[0]) + 1)
  for m, c in p.t.items():
    out[dict(m).get(n, 0)] += Fraction(c)
  return out


POINTS = [True]
grfenv.HOOK['roots'] = lambda p: unis.rational_roots(dense(p))
grfenv.HOOK['intervals'] = lambda p: unis.isolate(dense(p), POINTS[0])
grfenv.HOOK['floor'] = grfenv._floor


class Fixed(object):
  """random draws at a fixed position of the interval"""
  at = FRAC

  def uniform(self, a, b):
    a, b = Fraction(a), Fraction(b)
    return grfenv.exact(a + (b - a) * self.at)

  def choice(self, l):
    return l[int(len(l) * self.at)]

  def random(self):
    return self.uniform(0, 1)

  def randint(self, a, b):
    return a + int((b - a) * self.at)

  def __getattr__(self, n):
    raise symx.Unsupported('random.' + n)


RND = Fixed()
NS['random'] = RND

A, B, C, D = 'x0', 'x1', 'x2', 'x3'
# families: (number of variables, polynomials)
ONE = [(1, ['A^2 - 2', 'A - 1']), (1, ['A^3 - A', '2*A - 1']), (1, ['A^2 + 1']), (1, ['(A - 1)^2*(A + 2)', 'A^2 - 3']),
       (1, ['3*A^2', 'A - 4', '-A^2 + 7']), (1, ['A^4 - 5*A^2 + 6', 'A']), (1, ['A - 1/3', 'A - 2/5', '4*A^2 - 1'])]
TWO = [(2, ['A^2 + B^2 - 1', 'A - B']), (2, ['B - A^2', 'B - 1']), (2, ['A*B - 1']), (2, ['A*B - 1', 'A + B - 3']),
       (2, ['A*B', 'A - 1', 'B + 1']), (2, ['A^2*B', 'B - A']), (2, ['3*A^2', '-2*B', 'A - B - 1']),
       (2, ['A^2 + B^2 - 4', '(A - 1)^2 + B^2 - 4']), (2, ['A^2 + B^2 - 1', '(A - 5)^2 + (B - 5)^2 - 1']),
       (2, ['A*B^2 - 1', 'B - 2']), (2, ['A - 2', 'A*B - 1']), (2, ['B^2 - A', 'A^2 - B']), (2, ['A^2 + B^2 + 1', 'A']),
       (2, ['(A - B)^2*((A - 5)^2 + (B - 5)^2 - 1)']), (2, ['(A + B)*(A^2 + B^2 - 1)', '(A + B)*(A - 3)']),
       (2, ['(A - B)*(A + 2*B - 3)', '(A - B)*(2*A + B - 9)']), (2, ['A^2 - B^2', 'A - 7']),
       (2, ['B^2 - A^3 + A', 'A - 2']), (2, ['(A*B - 1)*(A*B - 2)', 'A - B']), (2, ['5', 'A - B', '0']),
       (2, ['2*A^2 - 2*B', 'B - A^2', 'A - B^2']), (2, ['A^2 - 2*B^2', 'B - 3'])]
THREE = [(3, ['A^2 + B^2 + C^2 - 1', 'A + B + C - 1']), (3, ['A*B - C']), (3, ['A*B - C', 'A + B', 'C - 1']),
         (3, ['A^2 + B^2 - C', 'C - 1', 'A']), (3, ['A*B*C', 'A - B']), (3, ['A + B + C', 'A - B', 'C - 2']),
         (3, ['A*C - B', 'B*C - A']), (3, ['A^2*C + B', 'A - 1']), (3, ['A - C', 'B - C', 'A + B - 1']),
         (3, ['(A - 3)^2 + (B - 3)^2 + (C - 3)^2 - 1']), (3, ['A^2 - B*C']), (3, ['C - 1', 'C - 2'])]
MORE = [(2, ['A^2 + B^2 - 1', 'A - B', 'A + B', 'A*B']), (2, ['A^3 + B^3 - 3*A*B', 'A - B']),
        (2, ['A^4 + B^4 - 1', 'A - B']), (3, ['A*B*C - 1', 'A - B']), (3, ['A^2 + B^2 + C^2 - 4', 'A*B - C']),
        (3, ['A^2 + B^2 - C^2', 'A - C + 1']), (3, ['A^2 + B^2 + C^2 - 1', 'A*B', 'C'])]
# goals: indices into the family with relations: (main, hypotheses)
GOALS = [((0, '>'), []), ((0, '<='), []), ((-1, '>'), [(0, '<')]), ((-1, '<'), [(0, '>=')]), ((0, '!='), [(-1, '>')]),
         ((-1, '='), [])]
# one projection step, the last variable eliminated; irreducible, coprime
STEP = [(4, ['A*D^2 + B*D + C']), (4, ['A*D + B', 'D^2 - C']), (3, ['C^3 + A*C + B']), (3, ['A*C + B', 'C - 1']),
        (4, ['A*D + B', 'C*D + 1']), (3, ['A*B - 1', 'C - A']), (3, ['A*C^2 - B', 'A - B']), (4, ['A*D + B', 'D - C']),
        (3, ['C^2 - A', 'C^2 - B']), (4, ['D^2 + A*D + B', 'D - C']), (3, ['C^2 + A^2 - 1', 'C^2 + B^2 - 1']),
        (2, ['A*B^2 + B - 1', 'B + A']), (2, ['A', 'B^2 - A']), (2, ['B^3 - A*B + 1', 'B - A'])]


def cases(tier):
  big = tier == 'thorough'
  out = []

  def add(cid, **kw):
    kw.update({'id': cid, 'limit': 400 if big else 80, 'validate': 2})
    out.append(kw)
  fams = ONE + TWO + THREE + (MORE if big else [])
  for k, (n, ps) in enumerate(fams):
    for j, at_ in enumerate(('1/2', '1/9', '8/9')):
      if not big and j and (k + j) % 2:
        continue
      add('cells/%d/%s' % (k, at_), kind='cells', n=n, ps=ps, at=at_, points=(k + j) % 2 == 0, goal=None, num=1 + k % 2,
          w=3 ** n)
    for g, (m, hs) in enumerate(GOALS):
      if (k + g) % 3 and not big or len(ps) < 2 and hs:
        continue
      add('goal/%d/%d' % (k, g), kind='cells', n=n, ps=ps, at='1/2', points=g % 2 == 0, goal=[m, hs], num=1, w=3 ** n)
  for k, (n, ps) in enumerate(STEP):
    add('step/%d' % k, kind='step', n=n, ps=ps, w=9)
  return out


def poly(q, text):
  env = dict(zip('ABCD', q.x))
  r = eval(compile(grfenv.preparse(text), text, 'eval'), {'Integer': grfenv.Integer}, env)
  return r if isinstance(r, grfenv.P) else q.R(r)


def build(case):
  q = NS['QE_Factory'](case['n'])
  return q, [poly(q, t) for t in case['ps']]


def names(case):
  return ['x%d' % i for i in range(case['n'])]


def goal_of(case, ps):
  Atom = NS['RCF_Atom']
  (i, o), hs = case['goal']
  return NS['RCF_Goal'](main_goal=Atom(ps[i], o, 0), goal_hyps=[Atom(ps[j], r, 0) for j, r in hs])


def samples(case):
  """sample points as {name: Fraction}"""
  q, ps = build(case)
  RND.at = Fraction(case['at'])
  POINTS[0] = case['points']
  q.install_polys(*ps)
  goal = goal_of(case, ps) if case['goal'] else None
  ambient = [NS['RCF_Atom'](q.x[0], '<', 0), NS['RCF_Atom'](q.x[-1], '>', 0)] if case['goal'] else []
  ds = q.sample_pt_dicts(goal=goal, ambient_hyps=ambient, num_sps=case['num'])
  out = []
  for d in ds:
    e = dict((k.name(), v.constant() if isinstance(v, grfenv.P) else v) for k, v in d.items())
    e = dict((k, Fraction(v)) for k, v in e.items())
    if sorted(e) != names(case):
      raise ValueError('sample point %s' % d)
    out.append(e)
  return ps, out


def sgn(v):
  return (v > 0) - (v < 0)


def false_goal(case, sv):
  """goal false where the polynomials have these signs"""
  if not case['goal']:
    return True
  (i, o), hs = case['goal']
  return all(HOLDS[r](sv[j]) for j, r in hs) and not HOLDS[o](sv[i])


def step(case):
  q, ps = build(case)
  q.install_polys(*ps)
  n = case['n']
  q.proj_sets[n - 1] = q.filter_proj_set(q.proj_sets[n - 1])
  q.bm_proj(n - 1)
  return ps, q.x[n - 1], list(q.proj_sets[n - 2])


def run(case):
  vals = dict((n, var('v_' + n)) for n in names(case))
  env = dict((n, symx.smt(v)) for n, v in vals.items())
  inp = {'vals': vals}
  base.inputs(inp)
  sp = lambda p: smt_poly(p, env)
  try:
    if case['kind'] == 'cells':
      ps, pts = samples(case)
    else:
      ps, x, low = step(case)
      if any(x.name() in [v.name() for v in p.variables()] for p in low):
        return Outcome(False, inputs=inp, observed='projection %s' % low, expected='without %s' % x)
  except symx.Unsupported:
    raise
  except Exception as e:
    return Outcome(False, inputs=inp, observed='raised %r' % e)
  if case['kind'] == 'step':
    apart = ['(not (= %s 0.0))' % sp(p) for p in low]
    zero = lambda p: '(= %s 0.0)' % sp(p)
    claims = []
    for p in ps:
      d = p.degree(x)
      claims.append(zero(p.coefficient({x: d})))
      if d > 1:
        claims.append('(and %s %s)' % (zero(p), zero(p.derivative(x))))
    for p, r in itertools.combinations(ps, 2):
      claims.append('(and %s %s)' % (zero(p), zero(r)))
    for c in claims:
      if path().holds(['(not %s)' % sexp.conj(apart + [c])]) is False:
        return Outcome(False, inputs=inp, observed='projection %s' % low, expected='some of them zero where %s' % c)
    return Outcome(True)
  seen = set(tuple(sgn(at(p, e)) for p in ps) for e in pts)
  for sv in itertools.product((1, -1), repeat=len(ps)):
    if sv in seen or not false_goal(case, sv):
      continue
    c = sexp.conj(['(%s %s 0.0)' % ('>' if s > 0 else '<', sp(p)) for s, p in zip(sv, ps)])
    if path().holds(['(not %s)' % c]) is False:
      return Outcome(False, inputs=inp, observed='no sample with signs %s' % (sv,), expected='one')
  return Outcome(True)


def replay(case, inp):
  e = dict((n, Fraction(v)) for n, v in inp['vals'].items())
  sig = case['id']
  try:
    if case['kind'] == 'cells':
      ps, pts = samples(case)
      sv = tuple(sgn(at(p, e)) for p in ps)
      seen = set(tuple(sgn(at(p, s)) for p in ps) for s in pts)
      bad = 0 not in sv and sv not in seen and false_goal(case, sv)
      return {'violated': bad, 'sig': sig, 'expected': 'a sample point with the signs %s that %s have at %s' % (
        sv, case['ps'], dict((k, str(v)) for k, v in sorted(e.items()))),
        'observed': '%d sample points with signs %s%s' % (len(pts), sorted(seen), ' (goal %s)' % case['goal']
                                                         if case['goal'] else '')}
    ps, x, low = step(case)
  except Exception as ex:
    return {'violated': True, 'sig': sig, 'observed': '%s: raised %r' % (case['ps'], ex), 'expected': 'sample points'}
  text = 'projection of %s eliminating %s: %s at %s' % (case['ps'], x, low, dict((k, str(v)) for k, v in sorted(e.items())))
  bad = any(x.name() in [v.name() for v in p.variables()] for p in low)
  if not bad and all(at(p, e) != 0 for p in low):
    bad = any(at(p.coefficient({x: p.degree(x)}), e) == 0 for p in ps)
    bad = bad or any(at(p, e) == 0 and p.degree(x) > 1 and at(p.derivative(x), e) == 0 for p in ps)
    bad = bad or len([p for p in ps if at(p, e) == 0]) > 1
  return {'violated': bool(bad), 'sig': sig, 'observed': text, 'expected': 'zero where roots meet or escape'}
