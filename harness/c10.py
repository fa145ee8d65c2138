"""Sequent to satisfiability goals (vts/checker.py)."""
import itertools
import sys
from fractions import Fraction
import base
from base import Outcome, REPO
sys.path.insert(0, REPO + '/vts')
import symx
from symx import var, path
import sympy
import sexp
import checker

META = {
  'functions': ['checker.vts_preformat', 'checker.negate_relations', 'checker.rewrite_to_less',
                'checker.make_relation_map'],
  'bounds': {
    'quick': 'sequents of <= 3 antecedents and <= 3 succedents (some of 5 + 4, 1 + 6); every mix of the six relations for up to 2+1 and 1+2 '
             'members, selected mixes above; opaque left-hand sides (one solver variable each) plus sums, products, '
             'negations and shared sides; every value of all symbols',
    'thorough': 'every mix for up to 2+2 members',
  },
  'outside': ['relations whose right-hand side is not 0 (the goal map documents that it assumes 0)',
              'sequents whose antecedent or succedent is empty after dropping true members (documented refusal)'],
  'assumptions': ['succedents are a conjunction, as vts_preformat documents', 'sympy keeps the relations it is given'],
}
REL = {'<=': sympy.Le, '<': sympy.Lt, '=': sympy.Eq, '!=': sympy.Ne, '>=': sympy.Ge, '>': sympy.Gt}
OPS = ['<=', '<', '=', '!=', '>=', '>']
SMT = {'<=': '(<= %s 0.0)', '<': '(< %s 0.0)', '=': '(= %s 0.0)', '!=': '(not (= %s 0.0))', '>=': '(>= %s 0.0)',
       '>': '(> %s 0.0)'}
HOLDS = {'<=': lambda v: v <= 0, '<': lambda v: v < 0, '=': lambda v: v == 0, '!=': lambda v: v != 0,
         '>=': lambda v: v >= 0, '>': lambda v: v > 0}
SYM = dict((n, sympy.Symbol(n)) for n in ('p', 'q', 'r', 's', 't', 'u', 'x', 'a'))
DISTINCT = (('p', 'q', 'r'), ('s', 't', 'u'))
SIDES = [  # antecedent sides, succedent sides
  (('p', 'q'), ('p', 'r')), (('x', '-x'), ('x-1', '1-x')), (('x**2-a', '2*x'), ('-3*x+a', 'x**3')),
  (('x-a', 'x-a'), ('a-x', 'x-a')), (('x/2-1/3', '-x**2'), ('x*a', '-a')),
]

LONGER = ['x**9-3*x**4*a+12345678901234567891', 'a*p*q*r*s', '-x**2+x-1/9007199254740993', 'x**12', 'p-q', 'p+q', '-p-q',
          '(x+1)*(x-a)', 'x**2+1', '7*x', '-7*x', 'a**3*x**3-u*t']
ALIKE = [('x-a', 'a-x'), ('x+a', 'x-a'), ('x', '2*x'), ('x**2', 'x'), ('x', '-x'), ('x*(x-1)', 'x**2-x'), ('x-1', 'x-2'),
         ('p', 'q'), ('x/3', 'x/2'), ('x**2-a', 'x**2-a-1'), ('p*q', 'p+q'), ('x', 'x+1/100000000000000000000')]


def cases(tier):
  big = tier == 'thorough'
  out = []

  def add(name, seqs):
    for k in range(0, len(seqs), 72):
      out.append({'id': '%s/%d' % (name, k), 'seqs': seqs[k:k + 72], 'validate': 3, 'w': 1,
                  'limit': 60 if not big else 300})
  A, S = DISTINCT

  def mixes(a, s, names=DISTINCT):
    return [([(names[0][i], o) for i, o in enumerate(m[:a])], [(names[1][i], o) for i, o in enumerate(m[a:])])
            for m in itertools.product(OPS, repeat=a + s)]
  add('mix11', mixes(1, 1))
  add('mix21', mixes(2, 1))
  add('mix12', mixes(1, 2))
  two = mixes(2, 2)
  add('mix22', two if big else [m for i, m in enumerate(two) if i % 7 == 0])
  rot = [([(A[i], OPS[(k + i) % 6]) for i in range(3)], [(S[i], OPS[(k * 2 + i * j) % 6]) for i in range(3)])
         for k in range(6) for j in (1, 2, 3)]
  add('mix33', rot)
  for n, names in enumerate(SIDES):
    ms = mixes(2, 2, names)
    add('sides%d' % n, mixes(1, 1, names) + (ms if big else [m for i, m in enumerate(ms) if i % 23 == 0]))
  # longer sequents, long and large polynomials, sides alike at a glance
  L = LONGER
  n = len(L)
  wide = [([(L[(k + i * j) % n], OPS[(k + i) % 6]) for i in range(a)], [(L[(k * 3 + i * 5 + 1) % n], OPS[(k * j + i * 5) % 6])
                                                                        for i in range(b)])
          for k in range(n) for j, a, b in ((1, 5, 4), (2, 4, 1), (3, 1, 6))]
  add('wide', wide)
  alike = []
  for k, (e, f) in enumerate(ALIKE):
    for i, o in enumerate(OPS):
      o2 = OPS[(i + k) % 6]
      alike += [([(e, o), (f, o)], [(e, o2), (f, o2)]), ([(f, o)], [(e, o), (f, o2)])]
  add('alike', alike)
  # true members are dropped, repeated members do not matter
  add('true', [([('p', o), 'T', ('q', o2)], ['T', ('s', o2), ('s', o2)]) for o in OPS for o2 in OPS] +
      [([('p', o), ('p', o)], [('s', o), ('p', o)]) for o in OPS])
  return out


def rel(m):
  if m == 'T':
    return sympy.true
  e, o = m
  return REL[o](sympy.sympify(e, locals=SYM), 0)


def real(seq):
  """The real pipeline: list of goals {'le': [...], ...}"""
  big_or = checker.vts_preformat([rel(m) for m in seq[0]], [rel(m) for m in seq[1]])
  return [checker.make_relation_map(f) for f in big_or]


KIND = {'le': '<=', 'lt': '<', 'eq': '=', 'ne': '!='}


def run(case):
  # rel() may collapse (e.g. -x**2 <= 0 never does for plain symbols); the members are used as given
  names = sorted(SYM)
  vs = dict((n, var('v_' + n)) for n in names)
  env = dict((n, symx.smt(v)) for n, v in vs.items())
  base.inputs({'seq': case['seqs'][0], 'vals': vs})
  for seq in case['seqs']:
    inp = {'seq': seq, 'vals': vs}
    try:
      goals = real(seq)
      for g in goals:
        if sorted(g) != ['eq', 'le', 'lt', 'ne']:
          return Outcome(False, inputs=inp, observed=sorted(g))
      got = sexp.disj([sexp.conj([SMT[KIND[k]] % sexp.term(e, env) for k in sorted(g) for e in g[k]]) for g in goals])
    except Exception as e:
      return Outcome(False, inputs=inp, observed='raised %r' % e, expected='goals')

    def m(x):
      return 'true' if x == 'T' else SMT[x[1]] % sexp.term(sympy.sympify(x[0], locals=SYM), env)
    want = sexp.conj([m(x) for x in seq[0]] + ['(not %s)' % sexp.conj([m(x) for x in seq[1]])])
    if path().holds(['(= %s %s)' % (got, want)]) is False:
      return Outcome(False, inputs=inp, observed='goals are not the refutation of the sequent')
  return Outcome(True)


def replay(case, inp):
  seq = [[m if m == 'T' else tuple(m) for m in part] for part in inp['seq']]
  env = dict((n, Fraction(v)) for n, v in inp['vals'].items())

  def t(m):
    return True if m == 'T' else HOLDS[m[1]](sexp.value(sympy.sympify(m[0], locals=SYM), env))
  want = all(t(m) for m in seq[0]) and not all(t(m) for m in seq[1])
  text = 'sequent %s |- %s at %s' % (seq[0], seq[1], dict((k, str(v)) for k, v in sorted(env.items())))
  sig = 'seq:%s' % (seq,)
  try:
    goals = real(seq)
    got = any(all(HOLDS[KIND[k]](sexp.value(e, env)) for k in g for e in g[k]) for g in goals)
  except Exception as e:
    return {'violated': True, 'sig': sig, 'observed': text + ': raised %r' % e, 'expected': want}
  return {'violated': got != want, 'sig': sig, 'observed': text + ': some goal holds: %s (%s)' % (got, goals),
          'expected': want}
