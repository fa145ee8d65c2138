"""Muchnik complex quantifier elimination.

Parameters are complex (a pair of reals each).  The answer D is a disjunction
of conjunctions 'coefficient polynomial = 0 / != 0'.  The solver decides for
every complex parameter value
  complete:  system(x, parameters)  =>  D                (x complex as well)
  sound:     D  =>  O, where O says, by a case split on leading coefficients,
             that the gcd of the equations does not divide the product of the
             inequations to a large enough power.
"""
from fractions import Fraction
import sympy
import base
from base import Outcome
import symx
from symx import var, path
import sexp
import qe

META = {
  'functions': ['muchnik.Muchniker.complex_full', 'muchnik_sequence', 'complex_extend',
                'c_assignment_all_zero', '_c_full_assignment', '_diagram_copy', '_poly_deg_key',
                'sympywrapper.SympyWrapper', 'cachedsympywrapper.CachedSympyWrapper'],
  'bounds': {
    'quick': 'listed systems of up to 3 equations and inequations, degree <= 4 in the eliminated variable, '
             'up to 4 parameters; every complex value of the parameters and of the eliminated variable',
    'thorough': 'the same list and the expensive systems, both algebra wrappers, longer solver limits',
  },
  'outside': ['other systems and higher degrees', 'the printed report (stubbed in the symbolic run, '
              'real in the replays of small systems)', 'inputs that are not expanded polynomials'],
  'assumptions': ['blist.sortedset as in stubs/blist.py', 'sympy algebra is exact'],
}

SYSTEMS = [
  # parameterless
  ('x-1', ''), ('x-1,x-2', ''), ('x-1', 'x-1'), ('x-1', 'x-2'), ('x**2+1', ''), ('x**2+1', 'x**2+1'),
  ('x**2+1', 'x**4-1'), ('x**4-1', 'x**2+1'), ('x**2-2*x+1', 'x-1'), ('x**2-2*x+1', 'x-2'), ('x**3-x', 'x**2-x'),
  ('x**3-x', 'x**2-1,x'), ('x**3-x**2', 'x**2-x'), ('', 'x'), ('', '0'), ('', '5'), ('5', ''), ('0', 'x'),
  ('x**2-3*x+2,x**2-4*x+3', ''), ('x**2-3*x+2,x**2-4*x+3', 'x-1'), ('x**2-3*x+2,x**2-4*x+3', 'x-2'),
  ('x**4-2*x**2+1', 'x-1'), ('x**4-2*x**2+1', 'x**2-1'), ('x**3-2', 'x**2-2'), ('x**4-x**3', 'x**3-x'),
  ('x**3-3*x**2+3*x-1', 'x-1'), ('x**3+x**2', 'x'), ('x**4-2*x**3+x**2', 'x**2-x'), ('x**2-2,x**4-4', ''),
  # parameters
  ('a', ''), ('', 'a'), ('x-a', ''), ('', 'x-a'), ('x-a', 'x-1'), ('x-a,x-1', ''), ('x-y,x-1', ''), ('x-a,x-b', ''),
  ('x-a', 'x-b'), ('', 'x-a,x-b'), ('a*x-1', ''), ('a*x+b', ''), ('', 'a*x+b'), ('a*x+b', 'x'), ('a*x+b', 'a'),
  ('a*x+b', 'x-1'), ('a*x+b,x-1', ''), ('a,x-b', ''), ('x-b', 'a'), ('a*x+1', 'x-a'), ('a*x', 'x'), ('a*x-a', 'x-1'),
  ('a*x+b,c*x+d', ''), ('a*x+b', 'c*x+d'),
  ('x**2-a', ''), ('x**2-a', 'x'), ('x**2-a', 'x-1'), ('x**2-a', 'x**2-1'), ('x**2-a,x-1', ''), ('x**2-a,x-b', ''),
  ('x**2-a', 'x-b'), ('x**2+a*x+1', 'x-1'), ('x**2+a*x+1', ''), ('a*x**2-1', ''), ('a*x**2+x', 'x'),
  ('a*x**2+x+1', 'x+1'), ('a*x**2+b', ''), ('a*x**2+b', 'x'), ('x**2-2*a*x+a**2', 'x-a'), ('x**2-2*a*x+a**2', 'x-1'),
  ('x**2-2*x+a', 'x-1'), ('x**2-a*x', 'x-a'), ('x**2-a*x', 'x'), ('x**2-a,x**2-b', ''), ('2*x**2-a', '3*x-1'),
  ('x**2-1', 'x-a'), ('x**2+1', 'x-a'), ('x**2-1,x-a', ''), ('x**2+1,x-a', ''), ('a*x**2+b*x+c', ''),
  ('x**2+a*x+b', ''), ('x**2+a*x+b', 'x'), ('x**2+a*x+b', 'x-1'), ('x**2+a*x+b', 'x**2-1'),
  ('x**3-a', ''), ('x**3-a', 'x'), ('x**3-a', 'x-1'), ('x**3-a*x', 'x'), ('x**3-a*x**2', 'x'), ('x**3-x+a', ''),
  ('a*x**3-1', ''), ('a*x**3+x', 'x'), ('x**3-a,x-1', ''), ('x**4-a', 'x'),
]
SLOW = ['x**4-x**3|x**3-x', 'x**2+a*x+1|x-1', 'x**2-2*a*x+a**2|x-1', 'x**3-a*x**2|x', 'x**2+a*x+b|x', 'a*x**2+b*x+c|', 'x**2-2*x+a|x-1', 'x**2+a*x+b|x-1', 'x**2+a*x+b|x**2-1', 'x**3-x+a|', 'a*x+b|c*x+d']


def tid(t, case=None):
  text = qe.tid(t, case)
  return text.replace('L[]', '').replace('G[', 'N[')


def cases(tier):
  big = tier == 'thorough'
  out = []
  for c in qe.sequences('complex', tier) + qe.more('complex', tier):
    out.append(dict(c, id='%s/%d' % (tid(c['t'], c), c['cached']), w=c.get('w', 1), loud=False,
                    limit=600 if big else 100, validate=2, replay_s=600 if big else 100))
  for i, t in enumerate(SYSTEMS):
    slow = '|'.join(t) in SLOW
    if slow and not big:
      continue
    full = ('', t[0], t[1])
    np = len(qe.params(full))
    small = np < 2 and '*' not in t[0] + t[1]
    for cached in ((1, 0) if big and not slow else (i % 2 if small else 1,)):
      out.append({'id': 'E[%s]N[%s]/%d' % (t[0], t[1], cached), 't': full, 'cached': cached,
                  'w': 100 if slow else 1 + np, 'loud': small, 'limit': 600 if big else 100,
                  'validate': 2, 'replay_s': 600 if slow else 100})
  seen = set()
  return [c for c in out if not (c['id'] in seen or seen.add(c['id']))]


# ---- parametric oracle: polynomials are coefficient lists, low to high
def co(e):
  return sympy.Poly(e, qe.X).all_coeffs()[::-1]


def mulp(f, g):
  r = [sympy.Integer(0)] * (len(f) + len(g) - 1) if f and g else []
  for i, a in enumerate(f):
    for j, b in enumerate(g):
      r[i + j] = (r[i + j] + a * b).expand()
  return r


def prem(f, g):
  """lead(g)**k f mod g; lead(g) != 0 is assumed by the caller"""
  f = list(f)
  while len(f) >= len(g):
    l = f[-1]
    if l != 0:
      f = [(c * g[-1]).expand() for c in f]
      s = len(f) - len(g)
      for i, c in enumerate(g):
        f[s + i] = (f[s + i] - l * c).expand()
    f.pop()
  while f and f[-1] == 0:
    f.pop()
  return f


def norm(p, known):
  """[(conditions, p without leading zeros)]; conditions {expr: is zero}"""
  p = list(p)
  out = []
  while p:
    l = p[-1]
    if not l.free_symbols:
      if l != 0:
        return out + [(known, p)]
      p.pop()
      continue
    if l in known:
      if not known[l]:
        return out + [(known, p)]
      p.pop()
      continue
    k1 = dict(known)
    k1[l] = False
    out.append((k1, list(p)))
    known = dict(known)
    known[l] = True
    p.pop()
  return out + [(known, [])]


def gcds(f, g, known):
  """g and f normalised"""
  if not g:
    return [(known, f)]
  if not f:
    return [(known, g)]
  if len(f) < len(g):
    f, g = g, f
  out = []
  for k, r in norm(prem(f, g), known):
    out += gcds(g, r, k)
  return out


def oracle(eqs, neqs):
  """[(known, [exprs of which one must be non-zero])] covering all cases"""
  Q = [sympy.Integer(1)]
  for q in neqs:
    Q = mulp(Q, co(q))
  states = [({}, [])]
  for e in eqs:
    nxt = []
    for k, g in states:
      for k2, p in norm(co(e), k):
        nxt += gcds(p, g, k2)
    states = nxt
  out = []
  for k, g in states:
    if not g:
      out.append((k, Q))
    elif len(g) == 1:
      out.append((k, []))
    else:
      R = prem(Q, g)
      for _ in range(len(g) - 2):
        R = prem(mulp(R, prem(Q, g)), g)
      out.append((k, R))
  return out


# ---- complex terms
J = sympy.Symbol('J!')


def pair(e, names):
  sub = dict((qe.SYM[n], sympy.Symbol(n + 're') + J * sympy.Symbol(n + 'im')) for n in names)
  c = sympy.Poly(e.subs(sub).expand(), J).all_coeffs()[::-1]
  z = sympy.Integer(0)
  return sum(c[0::4], z) - sum(c[2::4], z), sum(c[1::4], z) - sum(c[3::4], z)


def zero(e, names, env):
  re, im = pair(e, names)
  return sexp.conj(['(= %s 0.0)' % sexp.term(x, env) for x in (re.expand(), im.expand()) if x != 0] or ['true'])


def run(case):
  t = case['t']
  ps = qe.params(t)
  vs = {}
  for n in ps + ['x']:
    for part in ('re', 'im'):
      vs[n + part] = var('p_' + n + part)
  pv = dict((k, v) for k, v in vs.items() if k[0] != 'x')
  base.inputs(dict(qe.setup(case), t=list(t), params=pv))
  try:
    D, verdict = qe.solve('complex', t, True, case)
  except Exception as e:
    return Outcome(False, observed='raised %r' % e, expected='an answer')
  env = dict((n, symx.smt(v)) for n, v in vs.items())
  _, Q, N = qe.exprs(t)
  names = ps + ['x']
  if not ps:
    d = 'true' if verdict else 'false'
  else:
    d = sexp.disj([sexp.conj([zero(e, ps, env) for e in z] + ['(not %s)' % zero(e, ps, env) for e in nz])
                   for z, nz in D])
  o = sexp.disj([sexp.conj([zero(e, ps, env) if is0 else '(not %s)' % zero(e, ps, env)
                            for e, is0 in sorted(k.items(), key=str)] +
                           [sexp.disj(['(not %s)' % zero(r, ps, env) for r in R if r != 0])])
                 for k, R in oracle(Q, N)])
  if path().holds(['(=> %s %s)' % (d, o)]) is False:
    return Outcome(False, observed='an assignment holds', expected='no x meets the system')
  phi = sexp.conj([zero(e, names, env) for e in Q] + ['(not %s)' % zero(e, names, env) for e in N])
  if path().holds(['(=> %s %s)' % (phi, d)]) is False:
    return Outcome(False, observed='no assignment holds', expected='some x meets the system')
  return Outcome(True)


# ---- exact replay over the Gaussian rationals
class G(object):
  def __init__(self, re, im=0):
    self.re, self.im = Fraction(re), Fraction(im)

  def __add__(self, o):
    return G(self.re + o.re, self.im + o.im)

  def __sub__(self, o):
    return G(self.re - o.re, self.im - o.im)

  def __mul__(self, o):
    return G(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

  def __div__(self, o):
    n = o.re * o.re + o.im * o.im
    return self * G(o.re / n, -o.im / n)

  def zero(self):
    return self.re == 0 and self.im == 0


def gval(e, env, names):
  re, im = pair(e, names)
  return G(sexp.value(re, env), sexp.value(im, env))


def strip(p):
  p = list(p)
  while p and p[-1].zero():
    p.pop()
  return p


def rem(f, g):
  f = strip(f)
  while len(f) >= len(g):
    q = f[-1] / g[-1]
    s = len(f) - len(g)
    for i, c in enumerate(g):
      f[s + i] = f[s + i] - q * c
    f.pop()
    f = strip(f)
  return f


def gmul(f, g):
  r = [G(0)] * max(0, len(f) + len(g) - 1)
  for i, a in enumerate(f):
    for j, b in enumerate(g):
      r[i + j] = r[i + j] + a * b
  return strip(r)


def satisfiable(eqs, neqs):
  g = []
  for p in eqs:
    p = strip(p)
    while p:
      g, p = p, (rem(g, p) if g else [])
  Q = [G(1)]
  for q in neqs:
    Q = gmul(Q, strip(q))
  if not g:
    return bool(Q)
  if len(g) == 1:
    return False
  R = [G(1)]
  for _ in range(len(g)):
    R = rem(gmul(R, Q), g)
  return bool(R)


def replay(case, inp):
  t = tuple(inp['t'])
  env = dict((n, Fraction(v)) for n, v in inp['params'].items())
  ps = qe.params(t)
  text = 'complex %s with %s' % (tid(t, inp), ', '.join('%s=%s' % kv for kv in sorted(env.items())))
  sig = 'complex:%s' % tid(t)
  _, Q, N = qe.exprs(t)
  want = satisfiable([[gval(c, env, ps) for c in co(e)] for e in Q], [[gval(c, env, ps) for c in co(e)] for e in N])
  try:
    D, verdict = qe.solve('complex', t, not case.get('loud'), inp)
  except Exception as e:
    return {'violated': True, 'sig': sig + ':raises', 'observed': text + ': raised %s: %s' % (
        e.__class__.__name__, str(e)[:300]), 'expected': want}
  if not ps:
    got = verdict
  else:
    got = any(all(gval(e, env, ps).zero() for e in z) and not any(gval(e, env, ps).zero() for e in nz) for z, nz in D)
  return {'violated': got != want, 'sig': sig, 'observed': text + ': %s' % got, 'expected': want}
