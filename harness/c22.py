"""Meaning of the sequent language's terms and relations (GRF/smt2.py)."""
import itertools
from fractions import Fraction
import base
from base import Outcome
import symx
from symx import var, path
import sexp
import grfenv
import terms
from grfenv import smt_poly, at

NS = grfenv.load(smt2=True)
META = {
  'functions': ['ParseSMT.fmlsTokenList', 'ParseSMT.processCommands', 'ParseSMT.clearContext', 'SMTContext.get_ring_var',
                'SMTContext.add_antecedent', 'SMTContext.add_succedent', 'RCF_Atom.__init__', 'RCF_Atom.update_ring',
                'QE_Factory.__init__'],
  'bounds': {
    'quick': 'every nesting of two operators out of + * - / unary - (division by constants), six relations, decimals of '
             '<= 6 digits with and without fraction digits, dyadic ~ decimals, <= 13 variables, names with _ . : - and '
             'leading digits or 41 letters, numerals of 21 digits, chains of 8 operators, four layouts, up to three parses by one parser and a cleared parser; every value of the '
             'variables',
    'thorough': 'three nested operators',
  },
  'outside': ['division by a non-constant', 'numerals without a dot (read as names)', '~ before a decimal that is no '
              'binary fraction (depends on the Sage release)', 'quoted symbols, declarations'],
  'assumptions': ['Sage polynomial arithmetic, sage_eval on decimals (stand-in, exact)', 'pyparsing'],
}
R = terms.REL
VARS = ['x', 'y_1', 'zeta', 'v-2', 'a.b', 'n:1', '2x', 'X', 'e', 'x0', 'x1', 'sequent', 'ant_10']
NUMS = ['2.', '0.5', '3.0', '~2.', '1.1', '10.25', '0.', '~0.5', '7.', '0.125', '12.034', '100.', '1.0', '~3.75']
MORE = ['longVariableName1', 'longVariableName2', 'longvariablename1', 'a' * 40 + 'b', 'a' * 40 + 'c', 'xx', 'x_', 'skoX',
        'skoY', 'skoXY', '_Zs0', '_Zs1', 'v1', 'v10', 'x10', 'x11', 'E1', 'E2']
VARS_ALL = VARS + MORE
DIGITS = ['123456789.', '1048577.5', '0.0009765625', '123456789012345678901.', '~1048577.25', '0.00001', '65536.0625',
          '~123456789.', '007.', '00.50', '10.10', '99999.99999']
LAY = [' ', '  ', '\n', '\n\t ']
UN, BIN = ['neg'], ['+', '*', '-', '/']


def fill(shape, leaves):
  """replace every None of a shape; the divisor of / is a constant"""
  def go(s, const):
    if s is None:
      return next(leaves[1]) if const else next(leaves[0])
    if s[0] == 'neg':
      return ('neg', go(s[1], const))
    return (s[0], go(s[1], const), go(s[2], const or s[0] == '/'))
  return go(shape, False)


def shapes(d):
  if d == 0:
    return [None]
  out = []
  for s in shapes(d - 1):
    out.append(('neg', s))
    for o in BIN:
      out.append((o, s, None))
      out.append((o, None, s))
      if d == 2:
        out.append((o, s, s))
  return out


def nonzero_divisors(t):
  if isinstance(t, str):
    return True
  if t[0] == '/':
    try:
      if terms.value(t[2], {}) == 0:
        return False
    except ZeroDivisionError:
      return False
  return all(nonzero_divisors(s) for s in t[1:])


def formulas(depth):
  mix = itertools.cycle([v for p in zip(VARS, NUMS) for v in p])
  con = itertools.cycle([n for n in NUMS if n != '0.'])
  rel = itertools.cycle(R)
  out = []
  for s in shapes(depth):
    for side in (0, 1):
      t = fill(s, (mix, con))
      while not nonzero_divisors(t):
        t = fill(s, (mix, con))
      u = next(mix)
      out.append((next(rel), t, u) if side == 0 else (next(rel), u, t))
  return out


def cases(tier):
  big = tier == 'thorough'
  out = []

  def add(cid, **kw):
    kw.update({'id': cid, 'limit': 300 if big else 60, 'validate': 3, 'w': 1})
    out.append(kw)
  fs = [(o, v, n) for o in R for v, n in (('x', '1.5'), ('0.', 'y_1'), ('2x', 'x1'), ('3.', '3.0'))]
  fs += [(R[i % 6], 'x', n) for i, n in enumerate(NUMS)]
  fs += formulas(1) + formulas(2)
  if big:
    fs += formulas(3)
  extra = []
  for i, n in enumerate(MORE):
    m, k = MORE[(i + 1) % len(MORE)], MORE[(i + 5) % len(MORE)]
    extra += [(R[i % 6], ('-', n, m), ('*', '2.', k)), (R[(i + 1) % 6], ('*', n, ('+', n, m)), '0.5')]
  for i, d in enumerate(DIGITS):
    extra += [(R[i % 6], ('+', 'x', d), ('*', d, 'y_1')), (R[(i + 3) % 6], ('-', 'zeta', ('/', 'x', '8.')), d)]
  for i in range(6):
    l = r = 'x'
    for j in range(8 if not big else 14):
      o, f = BIN[(i + j * (i + 1) + j // 3) % 3], VARS[:4][(i + j) % 4] if j % 2 else NUMS[(i * 3 + j) % 14]
      l, r = (o, l, f), (o, f, r)
      if (i + j) % 4 == 3:
        l, r = ('neg', l), ('neg', r)
    extra += [(R[i], l, 'x1'), (R[(i + 2) % 6], 'X', r)]
  fs += extra
  # interleave so that every batch has fresh and old variables
  n = 12
  for k in range(0, len(fs), n):
    b = fs[k:k + n]
    add('list/%d' % (k // n), how='list', groups=[b], sp=LAY[(k // n) % 4])
    if (k // n) % 2 == 0:
      add('hist/%d' % (k // n), how='list', groups=[b[:3], b[3:7], b[7:]], sp=LAY[(k // n + 1) % 4])
    if (k // n) % 3 == 0:
      add('clear/%d' % (k // n), how='clear', groups=[b[4:], b[:5]], sp=' ')
    if (k // n) % 3 == 1:
      add('seq/%d' % (k // n), how='seq', groups=[b[:4], b[4:5]], sp=LAY[(k // n + 2) % 4])
  return out


def norm(case):
  return [[terms.tup(f) for f in g] for g in case['groups']]


def go(case):
  """[(formula, atom polynomial, op, {name: ring variable})] for every formula"""
  gs = norm(case)
  sp = case['sp']
  P = NS['ParseSMT'](interactive=False)
  res = []
  if case['how'] == 'seq':
    box = []
    NS['RCF_GD_Decide'].check = lambda self, *a, **kw: box.append([(h.poly, h.op) for h in self.hyps] + [
      (self.goal.main_goal.poly, self.goal.main_goal.op)])
    ctx = P.processCommands(terms.sequent('a label', gs[0], gs[1], sp))
    vm = dict((k, v.name()) for k, v in ctx.var_map.items())
    fs = gs[0] + gs[1]
    if len(box) != 1 or len(box[0]) != len(fs):
      raise ValueError('%d formulas for %d' % (len(box[0]) if box else 0, len(fs)))
    return [(f, p, o, vm) for f, (p, o) in zip(fs, box[0])]
  for k, g in enumerate(gs):
    if case['how'] == 'clear' and k:
      vm = dict((n, v.name()) for n, v in P.context.var_map.items())
      res = [(f, p, o, vm) for f, p, o, _ in res]
      P.clearContext()
    l = P.fmlsTokenList(sp.join(terms.text(f, sp) for f in g))
    if len(l) != len(g):
      raise ValueError('%d formulas for %d' % (len(l), len(g)))
    res += [(f, a.poly, a.op, None) for f, a in zip(g, l)]
  vm = dict((n, v.name()) for n, v in P.context.var_map.items())
  return [(f, p, o, v or vm) for f, p, o, v in res]


def run(case):
  gs = norm(case)
  nm = sorted(set(n for g in gs for f in g for n in names(f)))
  vals = dict((n, var('v%d' % i)) for i, n in enumerate(nm))
  env = dict((n, symx.smt(v)) for n, v in vals.items())
  inp = {'vals': vals}
  base.inputs(inp)
  try:
    claims = []
    for f, p, o, vm in go(case):
      if len(set(vm.values())) != len(vm):
        return Outcome(False, inputs=inp, observed='variables %s' % vm, expected='one ring variable each')
      renv = dict((vm[n], env[n]) for n in nm if n in vm)
      claims.append('(= %s %s)' % (grfenv.SMT[o] % smt_poly(p, renv), formula(f, env)))
  except symx.Unsupported:
    raise
  except Exception as e:
    return Outcome(False, inputs=inp, observed='raised %r' % e)
  for c in claims:
    if path().holds([c]) is False:
      return Outcome(False, inputs=inp, observed='another meaning', expected=c)
  return Outcome(True)


def is_var(t):
  return t in VARS_ALL


terms.is_var = is_var
names = terms.names
formula = terms.formula


def replay(case, inp):
  env = dict((n, Fraction(v)) for n, v in inp['vals'].items())
  text = '%s at %s' % ([terms.text(f) for g in norm(case) for f in g],
                       dict((k, str(v)) for k, v in sorted(env.items())))
  try:
    for k, (f, p, o, vm) in enumerate(go(case)):
      sig = '%s:%d' % (case['id'], k)
      show = '%s at %s: %s %s 0 with %s' % (terms.text(f), dict((n, str(v)) for n, v in sorted(env.items())), p, o, vm)
      if len(set(vm.values())) != len(vm):
        return {'violated': True, 'sig': sig, 'observed': show, 'expected': 'one ring variable each'}
      renv = dict((vm[n], env[n]) for n in env if n in vm)
      got, want = grfenv.HOLDS[o](at(p, renv)), terms.truth(f, env)
      if got != want:
        return {'violated': True, 'sig': sig, 'observed': show, 'expected': want}
  except Exception as e:
    return {'violated': True, 'sig': case['id'], 'observed': text + ': raised %r' % e, 'expected': 'atoms'}
  return {'violated': False, 'sig': case['id'], 'observed': text, 'expected': 'the same meaning'}
