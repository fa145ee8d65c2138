"""Meaning of parsed GRF sequents (vts/grf_parser.py)."""
import itertools
import sys
from fractions import Fraction
import base
from base import Outcome, REPO
sys.path.insert(0, REPO + '/vts')
import symx
from symx import var, path
import sympy
import sexp
import grf_parser

META = {
  'functions': ['grf_parser.term', 'grf_parser.rln', 'grf_parser.cmd', 'doInt', 'doReal', 'doVariable', 'proc_*'],
  'bounds': {
    'quick': 'every term of operator depth <= 2 over {+ * - / unary -} with leaves from 3 variable names and 7 numerals '
             '(leaf mixes thinned at depth 2), depth-4 chains, the six relations, sequents of <= 9 + 9 formulas, chains of 8 operators, numerals of '
             '21 digits, names alike in 40 letters, '
             'layout variants, texts with several sequents; every value of the variables',
    'thorough': 'all leaf mixes at depth 2',
  },
  'outside': ['decimal literals that are not binary fractions of <= 53 bits (kept as floating point by design)',
              'values that divide by zero', 'malformed text'],
  'assumptions': ['pyparsing delivers the tokens of the grammar'],
}
# trees: ('+', l, r), ('neg', l), leaf text
VARS = ['x', 'y_1', '_Zs0']
NUMS = ['3', '-2', '0', '7.', '-4.', '1.5', '-0.25']
BIN = ['+', '*', '-', '/']
REL = ['<=', '<', '=', '!=', '>=', '>']
SMT = {'<=': '(<= %s %s)', '<': '(< %s %s)', '=': '(= %s %s)', '!=': '(not (= %s %s))', '>=': '(>= %s %s)',
       '>': '(> %s %s)'}
HOLDS = {'<=': lambda a, b: a <= b, '<': lambda a, b: a < b, '=': lambda a, b: a == b, '!=': lambda a, b: a != b,
         '>=': lambda a, b: a >= b, '>': lambda a, b: a > b}
ODD = ['sympy', 'pyp', 'doInt', 'proc_le', 'term', 'I', 'E', 'S', 'N', 'pi', 'lambda', 'x', 'sequent1', 'antecedent_',
       'X', 'Q', 'beta', 'gamma', 'oo', 'zoo', 'int', 'rln', 'None', 'True']

LONG = ['12345678901234567890', '-100000000000000000001', '9007199254740993', '007', '-010', '100', '2147483648',
        '100.50', '0.0009765625', '1048577.5', '123456.75', '0.0000152587890625', '-1048577.25', '00.5', '-0.', '0.0',
        '1234567.', '-9007199254740993.', '12345678901234567890.', '1125899906842623.5', '10.0', '-1.000', '65536.0625',
        '-0.000030517578125', '8.125']
SIMILAR = [['longVariableName1', 'longvariablename1', 'longVariableName2', 'longVariableName'],
           ['a' * 40 + 'b', 'a' * 40 + 'c', 'a' * 41], ['x', 'X', 'xx', 'x_', 'x1', 'x_1', 'x11', '_x'],
           ['skoX', 'skoY', 'skoXY', 'skoSMX', 'skoSMY'], ['_Zs0', '_Zs00', '_Zs1', '_Zs10', 'Zs0', '_zs0'],
           ['v1', 'v01', 'v10', 'v100', 'v_1', 'V1'], ['p', 'q', 'r', 's', 't', 'u', 'w']]


def text(t, sp=' '):
  if isinstance(t, str):
    return t
  if t[0] == 'neg':
    return '(-%s%s)' % (sp, text(t[1], sp))
  return '(%s%s%s%s%s)' % (t[0], sp, text(t[1], sp), sp, text(t[2], sp))


def is_var(t):
  return t[0].isalpha() or t[0] == '_'


def leaf(t):
  """exact value of a numeral"""
  return Fraction(t[:-1] if t.endswith('.') else t)


def smt(t, env, sides):
  if isinstance(t, str):
    return env[t] if is_var(t) else symx.smt(leaf(t))
  a = smt(t[1], env, sides)
  if t[0] == 'neg':
    return '(- %s)' % a
  b = smt(t[2], env, sides)
  if t[0] == '/':
    sides.append('(not (= %s 0.0))' % b)
  return '(%s %s %s)' % (t[0], a, b)


def value(t, env):
  if isinstance(t, str):
    return env[t] if is_var(t) else leaf(t)
  a = value(t[1], env)
  if t[0] == 'neg':
    return None if a is None else -a
  b = value(t[2], env)
  if a is None or b is None or (t[0] == '/' and b == 0):
    return None
  return {'+': lambda: a + b, '*': lambda: a * b, '-': lambda: a - b, '/': lambda: a / b}[t[0]]()


def numeric_div0(t):
  """does some division have a divisor that is 0 whatever the variables are?"""
  if isinstance(t, str):
    return False
  if t[0] == '/':
    d = t[2]
    vs = sorted(set(names(d)))
    vals = [value(d, dict((v, Fraction(k + 2 + 3 * i, 7)) for i, v in enumerate(vs))) for k in range(5)]
    if all(v is None or v == 0 for v in vals):
      return True
  return any(numeric_div0(s) for s in t[1:])


def leaves(t):
  return [t] if isinstance(t, str) else [n for s in t[1:] for n in leaves(s)]


def inexact(t):
  """a decimal literal together with a division by something that is no power of two"""
  if not any(not is_var(l) and '.' in l and not l.endswith('.') for l in leaves(t)):
    return False

  def divs(u):
    if isinstance(u, str):
      return []
    return (leaves(u[2]) if u[0] == '/' else []) + [l for s in u[1:] for l in divs(s)]
  return any(not is_var(l) and l not in ('-2', '-4.', '-0.25') for l in divs(t))


def names(t):
  if isinstance(t, str):
    return [t] if is_var(t) else []
  return [n for s in t[1:] for n in names(s)]


def depth1(leaves):
  return [(o, a, b) for o in BIN for a in leaves for b in leaves] + [('neg', a) for a in leaves]


def cases(tier):
  big = tier == 'thorough'
  out = []

  def add(name, items, n=60, **kw):
    for k in range(0, len(items), n):
      c = {'id': '%s/%d' % (name, k), 'items': items[k:k + n], 'validate': 3, 'models': 1, 'w': 1,
           'limit': 60 if not big else 300, 'kind': 'seqs'}
      c.update(kw)
      out.append(c)
  L = VARS[:2] + NUMS
  terms = depth1(L)
  inner = L[:1] + [(o, 'x', 'y_1') for o in BIN] + [(o, 'y_1', 'x') for o in ('-', '/')] + \
          [(o, '3', 'x') for o in BIN] + [(o, 'x', '-2') for o in BIN] + [('neg', 'x'), ('neg', '7.'), ('neg', '-2')] + \
          [('/', '1.5', '3'), ('-', '3', '-2')]
  d2 = [(o, a, b) for o in BIN for a in inner for b in inner] + [('neg', a) for a in inner]
  d2 = d2 if big else d2[::3]
  chains = []
  for ops in itertools.product(BIN + ['neg'], repeat=3):
    l = r = 'x'
    for k, o in enumerate(ops):
      f = ['y_1', '3', '_Zs0'][k]
      l = ('neg', l) if o == 'neg' else (o, l, f)
      r = ('neg', r) if o == 'neg' else (o, f, r)
    chains += [l, r]

  def as_seq(t, k):
    """t on the left and on the right of relations"""
    o = REL[k % 6]
    f = (o, t, '_Zs0') if k % 2 else (o, '_Zs0', t)
    return ([f], []) if k % 4 < 2 else ([], [f])
  for name, ts in (('depth1', terms), ('depth2', d2), ('chain', chains)):
    add(name, [[as_seq(t, k)] for k, t in enumerate(ts)
               if not numeric_div0(t) and not inexact(t)])
  rels = [(o, a, b) for o in REL for a, b in (('x', 'y_1'), ('y_1', 'x'), ('x', '0'), ('0', 'x'), ('3', 'x'),
                                              (('-', 'x', 'y_1'), ('*', '-2', 'x')))]
  add('rels', [[([r], [])] for r in rels] + [[([], [r])] for r in rels])
  many = [[(rels[k:k + 3], rels[k + 7:k + 10][::-1])] for k in range(0, 24, 2)]
  many += [[(rels[k:k + 2], [])] for k in range(0, 9)] + [[([], rels[k:k + 2])] for k in range(0, 9)]
  many += [[([rels[0]], [rels[9]]), ([rels[20]], [rels[3], rels[30]]), ([], [rels[5]])]]
  add('sequents', many)
  for k, lay in enumerate(('\n', '  ', '\t', '\n    \n')):
    add('layout%d' % k, [m for m in many[k::4]] + [[([(REL[i % 6], t, 'x')], [])] for i, t in enumerate(chains[k::12])
                                                   if not numeric_div0(t)], lay=lay)
  add('names', [[([('<', ('+', n, '3'), ('*', '1.5', n))], [('>=', n, '0'), ('=', ('-', '7.', n), '-2')]),
                ([('<=', ('+', 'x', '3'), 'y_1')], [('!=', 'x', ('/', 'x', '3')), ('>', 'x', '-0.25')])] for n in ODD],
      n=1)
  # long numerals, and names that differ only late, in case or in length
  add('numerals', [[([(REL[k % 6], ('+', 'x', n), ('*', n, 'y_1'))], [(REL[(k + 1) % 6], n, 'x'),
                                                                     (REL[(k + 3) % 6], ('-', 'y_1', 'x'), n)])]
                   for k, n in enumerate(LONG)])
  sims = []
  for k, g in enumerate(SIMILAR):
    m = len(g)
    for i in range(m):
      a, b, c = g[i], g[(i + 1) % m], g[(i + 2) % m]
      sims.append([([(REL[(i + k) % 6], ('-', a, b), '3'), (REL[(i + k + 1) % 6], c, ('*', a, b))],
                    [(REL[(i + k + 2) % 6], ('+', b, ('*', '-2', c)), a)]),
                   ([], [(REL[(i + k + 3) % 6], c, a)])])
  add('similar', sims)
  wide = 9 if not big else 25
  add('wide', [[([rels[(k + i) % len(rels)] for i in range(wide)], [rels[(k + 5 * i) % len(rels)] for i in range(wide - k)])]
               for k in range(4)], n=1)
  deep = []
  for k in range(6):
    l = r = 'x'
    for i in range(8 if not big else 12):
      o = BIN[(i * (k + 1) + i // 3) % 3]
      f = ('y_1', '3', '_Zs0', '-2', 'x')[(i + k) % 5]
      l, r = (o, l, f), (o, f, r)
      if (i + k) % 4 == 3:
        l, r = ('neg', l), ('neg', r)
    deep += [l, r]
  add('deep', [[as_seq(t, k)] for k, t in enumerate(deep)], n=3)
  return out


def source(seqs, sp):
  out = []
  for i, (a, s) in enumerate(seqs):
    out.append('(sequent%s"label %d"%s(antecedent%s%s)%s(succedent%s%s))' % (
      sp, i, sp, sp, sp.join(text(f, sp) for f in a), sp, sp, sp.join(text(f, sp) for f in s)))
  return (sp + '\n').join(out)


def parse(seqs, sp):
  """[(antecedent relations, succedent relations)] by the real grammar"""
  out = []
  for r, _, _ in grf_parser.cmd.scanString(source(seqs, sp)):
    out.append((list(r['antecedent']['fmls']), list(r['succedent']['fmls'])))
  return out


def fix(seqs):
  def tup(t):
    return t if isinstance(t, str) else tuple(tup(x) for x in t)
  return [([tup(f) for f in a], [tup(f) for f in s]) for a, s in seqs]


def run(case):
  sp = case.get('lay', ' ')
  allv = sorted(set(n for seqs in case['items'] for a, s in seqs for f in list(a) + list(s) for n in names(f)))
  vs = dict((n, var('v_' + n)) for n in allv)
  env = dict((n, symx.smt(v)) for n, v in vs.items())
  base.inputs({'seqs': case['items'][0], 'lay': sp, 'vals': vs})
  for seqs in case['items']:
    inp = {'seqs': seqs, 'lay': sp, 'vals': vs}
    try:
      got = parse(seqs, sp)
    except Exception as e:
      return Outcome(False, inputs=inp, observed='raised %r' % e)
    if [(len(a), len(s)) for a, s in got] != [(len(a), len(s)) for a, s in seqs]:
      return Outcome(False, inputs=inp, observed='shape', expected='one relation per formula')
    goals = []
    sides = []
    for (ga, gs), (wa, ws) in zip(got, seqs):
      for g, w in zip(ga + gs, list(wa) + list(ws)):
        try:
          gt = sexp.formula(g, env)
        except (symx.Unsupported, KeyError, AttributeError) as e:
          return Outcome(False, inputs=inp, observed='%r parsed as %r' % (text(w), g))
        goals.append('(= %s %s)' % (gt, SMT[w[0]] % (smt(w[1], env, sides), smt(w[2], env, sides))))
    if path().holds(['(=> %s %s)' % (sexp.conj(sides or ['true']), sexp.conj(goals))]) is False:
      return Outcome(False, inputs=inp, observed='another meaning')
  return Outcome(True)


def replay(case, inp):
  seqs = fix(inp['seqs'])
  env = dict((n, Fraction(v)) for n, v in inp['vals'].items())
  src = source(seqs, inp['lay'])
  sig = 'grf:%s' % src
  try:
    got = parse(seqs, inp['lay'])
  except Exception as e:
    return {'violated': True, 'sig': sig, 'observed': '%s: raised %r' % (src, e), 'expected': 'parsed'}
  if [(len(a), len(s)) for a, s in got] != [(len(a), len(s)) for a, s in seqs]:
    return {'violated': True, 'sig': sig, 'observed': '%s: parsed as %s' % (src, got), 'expected': 'one relation each'}
  for (ga, gs), (wa, ws) in zip(got, seqs):
    for g, w in zip(ga + gs, wa + ws):
      l, r = value(w[1], env), value(w[2], env)
      if l is None or r is None:
        continue
      want = HOLDS[w[0]](l, r)
      try:
        have = sexp.truth(g, env)
      except (symx.Unsupported, KeyError, AttributeError) as e:
        return {'violated': True, 'sig': sig, 'observed': '%s parsed as %r' % (text(w), g), 'expected': 'a relation'}
      if have != want:
        return {'violated': True, 'sig': sig, 'expected': want, 'observed': '%s parsed as %s, which is %s at %s' % (
          text(w), g, have, dict((k, str(v)) for k, v in sorted(env.items())))}
  return {'violated': False, 'sig': sig, 'observed': 'same meaning', 'expected': 'same meaning'}
