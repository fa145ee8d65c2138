"""Reduction of sequents to one variable (vts/examples_parser.py)."""
import itertools
import sys
from fractions import Fraction
import base
from base import Outcome, REPO
sys.path.insert(0, REPO + '/vts')
import symx
from symx import var, path
import sympy
import sexp
import examples_parser

META = {
  'functions': ['examples_parser.make_univariate'],
  'bounds': {
    'quick': 'lists of <= 3 relations of all six kinds; sides of degree <= 4 in up to 4 variables, with rational '
             'coefficients; every value of the variable',
    'thorough': 'every pair of sides with every relation',
  },
  'outside': ['reading and writing the example files', 'sides that are not polynomials',
              'relations that sympy collapses to true or false before they reach the function'],
  'assumptions': ['sympy substitution and expansion are exact'],
}
REL = {'<=': sympy.Le, '<': sympy.Lt, '=': sympy.Eq, '!=': sympy.Ne, '>=': sympy.Ge, '>': sympy.Gt}
OPS = ['<=', '<', '=', '!=', '>=', '>']
CLS = dict((c.__name__, o) for o, c in (('<=', sympy.LessThan), ('<', sympy.StrictLessThan), ('=', sympy.Equality),
                                        ('!=', sympy.Unequality), ('>=', sympy.GreaterThan),
                                        ('>', sympy.StrictGreaterThan)))
HOLDS = {'<=': lambda v: v <= 0, '<': lambda v: v < 0, '=': lambda v: v == 0, '!=': lambda v: v != 0,
         '>=': lambda v: v >= 0, '>': lambda v: v > 0}
SMT = {'<=': '(<= %s %s)', '<': '(< %s %s)', '=': '(= %s %s)', '!=': '(not (= %s %s))', '>=': '(>= %s %s)',
       '>': '(> %s %s)'}
NAMES = ['x', 'y', 'z_1', 'u', 'Xa', 'x1', 'x_2', 'xx', 'X', 'a', 'A', 'b', 'n', 'skoX', 'skoY', '_Zs0',
         'longVariableName1', 'longVariableName2', 'v10', 'v1']
SYM = dict((n, sympy.Symbol(n)) for n in NAMES)
SIDES = ['0', 'x', 'y', '3', '-2/3', 'x+y', 'x*y', 'y-z_1', '2*x*y**2-u', '(x+1)*(y-2)', 'x**3-y**2+1', 'z_1**2',
         '-(x-u)**2', 'x/3+y/2', 'y*z_1*u-4', 'x**2*y**2', 'Xa-y', '-x', '5*y-7*x', 'u*(y+z_1*(x-1))']


def cases(tier):
  big = tier == 'thorough'
  pairs = [(l, r) for l in SIDES for r in SIDES if l != r and (set(names(l)) | set(names(r)))]
  if not big:
    pairs = [p for i, p in enumerate(pairs) if i % 3 == 0 or '0' in p]
  singles = []
  for i, (l, r) in enumerate(pairs):
    for o in OPS if big else [OPS[i % 6], OPS[(i // 6 + 3) % 6]]:
      singles.append([(o, l, r)])
  lists = [[(OPS[(i + k * j) % 6],) + pairs[(i * 7 + k * 11) % len(pairs)] for k in range(3)]
           for i in range(24) for j in (1, 2)] + [[]]
  # other names, alone and several at once; many variables, many relations
  named = []
  for i, n in enumerate(NAMES):
    m, k = NAMES[(i + 1) % len(NAMES)], NAMES[(i + 7) % len(NAMES)]
    named += [[(OPS[i % 6], n, '1')], [(OPS[(i + 1) % 6], '%s+%s' % (n, m), k)],
              [(OPS[(i + 2) % 6], '%s*%s-%s**2' % (n, m, k), '4'), (OPS[(i + 3) % 6], m, '%s/2' % n)],
              [(OPS[(i + 4) % 6], 'x', '2*%s-3' % m), (OPS[(i + 5) % 6], n, '5'), (OPS[i % 6], k, '-x')]]
  named.append([('<=', '+'.join(NAMES[:9]), '*'.join(NAMES[9:13]))])
  named.append([(OPS[i % 6], n, str(i + 1)) for i, n in enumerate(NAMES)])
  named.append([(OPS[i % 6], '12345678901234567891*%s' % n, '%s**7+%d/9007199254740993' % (NAMES[i - 1], i))
                for i, n in enumerate(NAMES)])
  out = []
  for name, items in (('one', singles), ('list', lists), ('named', named)):
    for k in range(0, len(items), 40):
      out.append({'id': '%s/%d' % (name, k), 'items': items[k:k + 40], 'validate': 3, 'w': 1, 'limit': 60 if not big else 300})
  return out


def names(t):
  return [s.name for s in E(t).free_symbols]


def E(t):
  return sympy.sympify(t, locals=SYM)


def real(item):
  return examples_parser.make_univariate([REL[o](E(l), E(r)) for o, l, r in item])


def the_variable():
  """the variable everything is reduced to, by a separate call"""
  s = examples_parser.make_univariate([sympy.Eq(SYM['y'], 3)])[0].free_symbols
  return set(v.name for v in s)


def usable(item):
  """the relations really are relations of the intended kind (sympy may collapse or flip them)"""
  for o, l, r in item:
    if CLS.get(REL[o](E(l), E(r)).__class__.__name__) is None:
      return False
  return True


def run(case):
  v = var('v')
  base.inputs({'item': case['items'][0], 'v': v})
  # every variable stands for the same number
  env = dict((n, symx.smt(v)) for n in NAMES)
  the = the_variable()
  for item in case['items']:
    if not usable(item):
      continue
    inp = {'item': item, 'v': v}
    try:
      got = real(item)
    except Exception as e:
      return Outcome(False, inputs=inp, observed='raised %r' % e)
    if len(got) != len(item):
      return Outcome(False, inputs=inp, observed=len(got))
    goals = []
    for g, (o, l, r) in zip(got, item):
      if g is not True and g is not False and hasattr(g, 'lhs'):
        if len(g.free_symbols) > 1 or g.rhs != 0:
          return Outcome(False, inputs=inp, observed=str(g), expected='one variable, right-hand side 0')
      one = dict(env)
      for s in getattr(g, 'free_symbols', ()):
        if s.name not in the:
          return Outcome(False, inputs=inp, observed='variable %s' % s, expected=sorted(the))
        one[s.name] = symx.smt(v)
      try:
        gt = sexp.formula(g, one)
      except (symx.Unsupported, KeyError, AttributeError) as e:
        return Outcome(False, inputs=inp, observed='%r' % (g,))
      goals.append('(= %s %s)' % (gt, SMT[o] % (sexp.term(E(l), env), sexp.term(E(r), env))))
    if any(path().holds([sexp.conj(goals[k:k + 3])]) is False for k in range(0, len(goals), 3)):
      return Outcome(False, inputs=inp, observed='another meaning')
  return Outcome(True)


def replay(case, inp):
  item = [tuple(m) for m in inp['item']]
  v = Fraction(inp['v'])
  env = dict((n, v) for n in NAMES)
  sig = 'uni:%s' % (item,)
  if not usable(item):
    return {'violated': False, 'sig': sig, 'observed': 'collapsed', 'expected': 'collapsed'}
  try:
    got = real(item)
  except Exception as e:
    return {'violated': True, 'sig': sig, 'observed': '%s: raised %r' % (item, e), 'expected': 'relations'}
  if len(got) != len(item):
    return {'violated': True, 'sig': sig, 'observed': '%s -> %s' % (item, got), 'expected': 'as many relations'}
  syms = set()
  for g, (o, l, r) in zip(got, item):
    want = HOLDS[o](sexp.value(E(l), env) - sexp.value(E(r), env))
    if hasattr(g, 'lhs'):
      if len(g.free_symbols) > 1 or g.rhs != 0:
        return {'violated': True, 'sig': sig, 'observed': '%s %s %s became %s' % (l, o, r, g),
                'expected': 'one variable, right-hand side 0'}
      syms |= set(s.name for s in g.free_symbols)
    one = dict((n, v) for n in NAMES + sorted(syms))
    try:
      have = sexp.truth(g, one)
    except (ValueError, KeyError, AttributeError) as e:
      return {'violated': True, 'sig': sig, 'observed': '%s %s %s became %r' % (l, o, r, g), 'expected': 'a relation'}
    if have != want:
      return {'violated': True, 'sig': sig, 'expected': want,
              'observed': '%s %s %s became %s, which is %s at %s' % (l, o, r, g, have, v)}
  if syms - the_variable():
    return {'violated': True, 'sig': sig, 'observed': 'variables %s' % sorted(syms), 'expected': 'one variable'}
  return {'violated': False, 'sig': sig, 'observed': 'same meaning', 'expected': 'same meaning'}
