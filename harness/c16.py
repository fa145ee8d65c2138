"""The algebra the elimination procedures are built on.

Both wrappers, called in histories on several instances (same and different
eliminated variable).  Every answer is compared with the defining identity,
written out from the coefficient table of the polynomial; the solver decides
the identity for every value of all symbols.
"""
import itertools
from fractions import Fraction
import sympy
import base
from base import Outcome
import symx
from symx import var, path
import sexp
import qe
import sympywrapper
import cachedsympywrapper

META = {
  'functions': ['sympywrapper.SympyWrapper.*', 'cachedsympywrapper.CachedSympyWrapper.*'],
  'bounds': {
    'quick': 'listed polynomials in x, y with up to 4 further symbols, degree <= 4; every ordered pair of calls on '
             'two instances (same or different eliminated variable), then the whole call list twice; every value '
             'of all symbols',
    'thorough': 'more polynomial pairs and all triples of calls on a reduced call list',
  },
  'outside': ['LS (only a sort key)', 'pseudo-division by a polynomial without the eliminated variable',
              'longer histories'],
  'assumptions': ['the sympy operations the wrappers forward to are deterministic'],
}

# polynomials: {(power of x, power of y): coefficient text}
POLYS = {
  'lin': {(1, 0): 'a', (0, 0): 'b'},
  'lin2': {(1, 0): '2', (0, 0): '-3'},
  'xy': {(1, 0): '1', (0, 1): '-1'},
  'xy1': {(1, 1): '1', (0, 0): '1'},
  'quad': {(2, 0): 'a', (1, 0): 'b', (0, 0): 'c'},
  'quady': {(2, 0): '1', (0, 1): '-1'},
  'neg': {(2, 0): '-3', (1, 0): '1', (0, 2): '2'},
  'cub': {(3, 0): '1', (1, 0): 'a', (0, 0): '-2'},
  'cubm': {(3, 0): '-2', (2, 1): '1', (0, 3): '1'},
  'mixed': {(2, 2): '1', (1, 1): 'a', (0, 0): '-1'},
  'high': {(4, 0): '1', (2, 0): '-5', (0, 1): 'b'},
  'const': {(0, 0): '5'},
  'mconst': {(0, 0): '-2/3'},
  'par': {(0, 0): 'a'},
  'y': {(0, 1): '1'},
  'y2': {(0, 2): '-1', (0, 0): 'b'},
  'zero': {},
  'x': {(1, 0): '1'},
}
X, Y = qe.SYM['x'], qe.SYM['y']


EXPR = {}
COEF = {}


def expr(name):
  if name not in EXPR:
    EXPR[name] = expr1(name)
  return EXPR[name]


def coeffs(name, v):
  if (name, v) not in COEF:
    COEF[name, v] = coeffs1(name, v)
  return list(COEF[name, v])


def expr1(name):
  r = sympy.Integer(0)
  for (i, j), c in POLYS[name].items():
    r = r + sympy.sympify(c, locals=qe.SYM) * X ** i * Y ** j
  return r.expand()


def coeffs1(name, v):
  """coefficients in variable v, low to high, no leading zero"""
  k = 0 if v == 'x' else 1
  out = []
  for ij, c in POLYS[name].items():
    while len(out) <= ij[k]:
      out.append(sympy.Integer(0))
    o = Y ** ij[1] if k == 0 else X ** ij[0]
    out[ij[k]] = out[ij[k]] + sympy.sympify(c, locals=qe.SYM) * o
  return out


PAIRS = [('lin', 'xy'), ('quad', 'lin'), ('quady', 'xy1'), ('cub', 'quady'), ('neg', 'lin2'), ('cubm', 'neg'),
         ('mixed', 'xy'), ('high', 'quad'), ('const', 'lin2'), ('par', 'y'), ('zero', 'quady'), ('y2', 'mconst'),
         ('xy', 'xy1'), ('cub', 'lin'), ('quad', 'quady'), ('zero', 'par')]
MORE = [('cub', 'quad'), ('high', 'mixed'), ('cubm', 'cub'), ('high', 'neg'), ('mixed', 'lin'), ('y', 'y2'),
        ('neg', 'high'), ('const', 'mconst'), ('cubm', 'mixed'), ('lin', 'lin2')]
UNARY = ['LT', 'LC', 'degree', 'p_tail', 'has_variable', 'derivative']


def cases(tier):
  big = tier == 'thorough'
  out = []
  for p, q in PAIRS + (MORE if big else []):
    for kind in ('plain', 'cached'):
      out.append({'id': '%s,%s/%s' % (p, q, kind), 'p': p, 'q': q, 'kind': kind, 'w': 1 if kind == 'plain' else 3,
                  'triples': big, 'limit': 60 if not big else 600, 'validate': 1, 'replay_s': 100})
  return out


def calls(p, q, v):
  out = [(op, (n,)) for n in (p, q) for op in UNARY]
  for f, g in ((p, q), (q, p), (p, p)):
    if len(coeffs(g, v)) > 1:
      out.append(('pseudo_div', (f, g)))
  for n in (p, q):
    out.append(('div', (n, v)))
    if len(POLYS[n]) == 1 and (0, 0) in POLYS[n] and not expr(n).free_symbols:
      out.append(('sign', (n,)))
  return out


def plans(case):
  """histories: lists of (instance, op, args); the last answer is judged, in the long one each"""
  p, q = case['p'], case['q']
  cx, cy = calls(p, q, 'x'), calls(p, q, 'y')
  long_ = [(0,) + c for c in cx] + [(1,) + c for c in cy] + [(0,) + c for c in reversed(cx)] + \
          [(2,) + c for c in cx] + [(1,) + c for c in reversed(cy)]
  yield long_
  if case['kind'] == 'plain':
    return
  one = [(0,) + c for c in cx]
  for a in one + [(1,) + c for c in cy]:
    for b in one:
      yield [a, b]
  if case['triples']:
    few = [c for c in one if c[1] in ('LT', 'pseudo_div', 'p_tail', 'degree')][:7]
    for h in itertools.product(few, few, few):
      yield list(h)


INST = 'xyx'


def judge(v, op, args, r):
  """list of (kind, got, want) goals; kind 'eq' = equal expressions for all values"""
  ps = [coeffs(a, v) for a in args]
  es = [expr(a) for a in args]
  V = qe.SYM[v]
  p = ps[0]
  d = len(p) - 1
  z = sympy.Integer(0)
  if op == 'degree':
    return [('is', r, d if d >= 0 else -sympy.oo)]
  if op == 'LC':
    return [('eq', r, p[-1] if p else z)]
  if op == 'LT':
    return [('eq', r, p[-1] * V ** d if p else z)]
  if op == 'p_tail':
    return [('eq', r, sum([c * V ** i for i, c in enumerate(p[:-1])], z))]
  if op == 'derivative':
    return [('eq', r, sum([i * c * V ** (i - 1) for i, c in enumerate(p) if i], z))]
  if op == 'has_variable':
    return [('is', bool(r), bool(es[0].free_symbols))]
  if op == 'sign':
    s = sexp.num(es[0])
    return [('is', int(r), (s > 0) - (s < 0))]
  q = ps[1]
  Q, R = r
  k = max(0, len(p) - len(q) + 1) if op == 'pseudo_div' else 0
  low = sympy.Poly(R, V).degree() < len(q) - 1 if R != 0 else True
  return [('eq', Q * es[1] + R, q[-1] ** k * es[0]), ('is', low, True)]


def make(kind):
  W = sympywrapper.SympyWrapper if kind == 'plain' else cachedsympywrapper.CachedSympyWrapper
  return [W(qe.SYM[v]) for v in INST]


class Memo(object):
  """the sympy module with its (pure) functions tabulated"""

  def __init__(self, mod):
    self.mod, self.tab = mod, {}

  def __getattr__(self, name):
    f = getattr(self.mod, name)
    if isinstance(f, type) or not callable(f):
      return f

    def g(*args):
      k = (name, args)
      if k not in self.tab:
        self.tab[k] = f(*args)
      return self.tab[k]
    return g


def shim():
  if getattr(sympywrapper, 'sympy', None) is sympy:
    sympywrapper.sympy = Memo(sympy)


def unshim():
  if isinstance(getattr(sympywrapper, 'sympy', None), Memo):
    sympywrapper.sympy = sympy


def evaluate(case, histories, decide):
  for h in histories:
    inst = make(case['kind'])
    for n, (i, op, args) in enumerate(h):
      want = None
      try:
        r = getattr(inst[i], op)(*[expr(a) for a in args])
        if n < len(h) - 1 and len(h) <= 3:
          continue
        for kind, got, want in judge(INST[i], op, args, r):
          if not decide(kind, got, want):
            return h[:n + 1], got, want
      except Exception as e:
        return h[:n + 1], 'raised %r' % e, want
  return None


def run(case):
  hs = list(plans(case))
  base.inputs({'history': hs[0]})
  memo = {}
  env = dict((n, symx.smt(var(n))) for n in qe.SYM)

  def decide(kind, got, want):
    if kind == 'is':
      return got == want
    key = (got, want)
    if key not in memo:
      memo[key] = path().holds(['(= %s %s)' % (sexp.term(got, env), sexp.term(want, env))]) is not False
    return memo[key]
  shim()
  try:
    bad = evaluate(case, hs, decide)
  finally:
    unshim()
  if bad:
    return Outcome(False, observed='%s after %s' % (bad[1], bad[0]), expected=str(bad[2]), inputs={'history': bad[0]})
  for i, w in enumerate(make(case['kind'])):
    if w.e_var() != qe.SYM[INST[i]] or w.zero() != 0:
      return Outcome(False, observed=(w.e_var(), w.zero()), expected=INST[i])
  return Outcome(True)


def replay(case, inp):
  def decide(kind, got, want):
    if kind == 'is':
      return got == want
    return (sympy.sympify(got) - want).expand() == 0
  bad = evaluate(case, [[(i, op, tuple(a)) for i, op, a in inp['history']]], decide)
  for i, w in enumerate(make(case['kind'])):
    if w.e_var() != qe.SYM[INST[i]] or w.zero() != 0:
      bad = bad or ('e_var/zero', (w.e_var(), w.zero()), INST[i])
  if bad:
    return {'violated': True, 'sig': '%s:%s' % (case['id'], bad[0][-1]),
            'observed': '%s after the calls %s' % (bad[1], bad[0]), 'expected': str(bad[2])}
  return {'violated': False, 'sig': case['id'], 'observed': 'all identities hold', 'expected': 'all identities hold'}
