"""Symbolic polynomials as integer coefficient lists (vts/isym.py)."""
import itertools
import sys
from fractions import Fraction
import base
from base import Outcome, REPO
sys.path.insert(0, REPO + '/vts')
import symx
from symx import var, path
import sympy
import isym

META = {
  'functions': ['isym.convert', 'isym.convert_rationals_to_ints', 'isym.convert_back'],
  'bounds': {
    'quick': 'expressions of <= 3 nested + - * with powers <= 3 over one variable, integers and fractions (written '
             'expanded, factored or cancelling), coefficient lists of length <= 5 (sparse ones <= 12) back and forth; every real value of '
             'the variable',
    'thorough': 'four operators; lists of length 6',
  },
  'outside': ['more than one variable, irrational or float coefficients (refused)', 'degrees above 26'],
  'assumptions': ['sympy expansion is exact'],
}
NUMS = ['2', '-1', '1/3', '-5/4', '3', '1/6', '-7', '2/9', '1', '10/3', '-1/2', '100000000000']
BIG = ['9007199254740993', '-1152921504606846977', '100000000000000000001', '-36893488147419103233/7',
       '5/9007199254740993', '9223372036854775807', '2147483648', '-9223372036854775809', '1/100000000000000000003',
       '1' + '0' * 40 + '1']


def shapes(d):
  if d == 0:
    return [None]
  out = []
  for s in shapes(d - 1):
    for o in '+-*':
      out.append((o, s, None))
      out.append((o, None, s))
    out.append(('^', s, 2))
    if d == 1:
      out.append(('^', s, 3))
  return out


def fill(s, it):
  if s is None:
    return next(it)
  if s[0] == '^':
    return ('^', fill(s[1], it), s[2])
  return (s[0], fill(s[1], it), fill(s[2], it))


def deg(t):
  if isinstance(t, str):
    return 1 if t == 'x' else 0
  if t[0] == '^':
    return deg(t[1]) * t[2]
  a, b = deg(t[1]), deg(t[2])
  return a + b if t[0] == '*' else max(a, b)


def exprs(big):
  it = itertools.cycle([v for n in NUMS for v in ('x', n, 'x')])
  out = ['x'] + NUMS + ['0']
  for d in (1, 2, 3) + ((4,) if big else ()):
    l = shapes(d)
    if d > 2:
      l = l[::2 if big else 3]
    for s in l:
      t = fill(s, it)
      if deg(t) <= 12:
        out.append(t)
  # high powers, sparse and in products
  X = lambda n: 'x' if n == 1 else ('^', 'x', n)
  for n in (5, 7, 10, 11, 13):
    out.append(('-', ('*', '-2/3', X(n)), X(2)))
    out.append(('*', X(n), ('+', ('*', '3', X(n - 3)), '-1/2')))
    out.append(('+', '1/7', ('-', X(n - 1), ('*', '5', X(n)))))
    out.append(('-', ('*', X(n), ('-', 'x', '2')), X(n + 1)))
    out.append(('-', ('-', '4/9', X(n)), ('*', '1/6', X(n // 2))))
  # cancelling ones
  out += [('-', 'x', 'x'), ('-', ('^', ('+', 'x', '1'), 2), ('+', ('^', 'x', 2), ('*', '2', 'x'))),
          ('-', ('*', ('-', 'x', '1'), ('+', 'x', '1')), ('^', 'x', 2)),
          ('-', ('^', ('-', 'x', '1/3'), 3), ('^', 'x', 3)), ('*', '0', ('+', 'x', '1')),
          ('-', ('*', '1/6', 'x'), ('*', '1/10', ('^', 'x', 3))), ('-', ('*', '-3', ('^', 'x', 3)), '1/7')]
  # nothing left, however it is written
  out += [('-', ('^', ('+', 'x', '1'), 2), ('+', ('+', ('^', 'x', 2), ('*', '2', 'x')), '1')),
          ('-', ('*', 'x', ('-', 'x', '1')), ('-', ('^', 'x', 2), 'x')),
          ('-', ('*', ('-', 'x', '1/2'), ('+', 'x', '1/2')), ('-', ('^', 'x', 2), '1/4')),
          ('-', ('^', ('-', 'x', '2'), 3), ('*', ('-', 'x', '2'), ('^', ('-', '2', 'x'), 2))),
          ('*', ('-', ('*', 'x', ('+', 'x', '1')), ('+', ('^', 'x', 2), 'x')), ('+', 'x', '3'))]
  # integers and fractions beyond machine words and double precision
  for n in BIG:
    out += [n, ('+', ('*', n, 'x'), '1'), ('-', ('^', 'x', 2), n), ('-', ('*', n, ('^', 'x', 3)), ('*', '2/3', 'x')),
            ('*', ('-', 'x', n), ('+', ('*', n, 'x'), '1/5'))]
  return out


def lists(big):
  vals = [0, 1, -2, 3, -7, 40000000000]
  out = []
  for n in range(1, 7 if big else 6):
    it = list(itertools.product(vals, repeat=n))
    step = max(1, len(it) // 40) | 1
    out += [list(l) for l in it[::step] if l[-1] != 0]
  # longer and sparse ones
  for n in (7, 9, 11, 12) + ((14, 17, 21) if big else ()):
    for k in range(4):
      out.append([vals[(3 * k + i * (k + 1)) % 6] if i % (k + 1) == 0 else 0 for i in range(n - 1)] + [(-3, 2, 1, -1)[k]])
    out.append([0] * (n - 1) + [5])
    out.append([-4] + [0] * (n - 2) + [-6])
  big_ones = [2 ** 31, -2 ** 31, 2 ** 53 + 1, -2 ** 60 - 1, 2 ** 63 - 1, 2 ** 63, 10 ** 20 + 1, -3 ** 90]
  for i, b in enumerate(big_ones):
    out += [[b], [1, b], [b, 0, -1], [big_ones[(i + 3) % 8], 5, 0, b], [0, b, b + 1, 2 * b]]
  return out + [[]]


def cases(tier):
  big = tier == 'thorough'
  out = []
  for kind, items in (('expr', exprs(big)), ('list', lists(big))):
    for k in range(0, len(items), 25):
      out.append({'id': '%s/%d' % (kind, k // 25), 'kind': kind, 'items': items[k:k + 25], 'validate': 3, 'w': 1,
                  'limit': 60 if not big else 300})
  return out


def tup(t):
  return tuple(tup(x) for x in t) if isinstance(t, (list, tuple)) else t


def sym_of(t, name):
  x = sympy.Symbol(name.rstrip('+'), real=True) if name.endswith('+') else sympy.Symbol(name)
  if isinstance(t, str):
    return x if t == 'x' else sympy.Rational(t)
  if t[0] == '^':
    return sym_of(t[1], name) ** t[2]
  a, b = sym_of(t[1], name), sym_of(t[2], name)
  return a + b if t[0] == '+' else a - b if t[0] == '-' else a * b


def smt(t, v):
  if isinstance(t, str):
    return v if t == 'x' else symx.smt(Fraction(t))
  if t[0] == '^':
    return '(* %s)' % ' '.join([smt(t[1], v)] * t[2])
  return '(%s %s %s)' % (t[0], smt(t[1], v), smt(t[2], v))


def value(t, v):
  if isinstance(t, str):
    return v if t == 'x' else Fraction(t)
  if t[0] == '^':
    return value(t[1], v) ** t[2]
  a, b = value(t[1], v), value(t[2], v)
  return a + b if t[0] == '+' else a - b if t[0] == '-' else a * b


def coefs(t):
  """coefficients of the expression, by this file's own arithmetic"""
  if isinstance(t, str):
    return [Fraction(0), Fraction(1)] if t == 'x' else trim([Fraction(t)])
  if t[0] == '^':
    r = [Fraction(1)]
    for _ in range(t[2]):
      r = mul(r, coefs(t[1]))
    return r
  a, b = coefs(t[1]), coefs(t[2])
  if t[0] == '*':
    return mul(a, b)
  s = 1 if t[0] == '+' else -1
  n = max(len(a), len(b))
  return trim([(a[i] if i < len(a) else 0) + s * (b[i] if i < len(b) else 0) for i in range(n)])


def mul(a, b):
  if not a or not b:
    return []
  r = [Fraction(0)] * (len(a) + len(b) - 1)
  for i, p in enumerate(a):
    for j, q in enumerate(b):
      r[i + j] += p * q
  return trim(r)


def trim(l):
  while l and l[-1] == 0:
    l.pop()
  return l


def horner(l, v):
  r = '0.0'
  for c in reversed(l):
    r = '(+ %s (* %s %s))' % (symx.smt(Fraction(c)), v, r)
  return r


def shape_of(l):
  """None or what is wrong with the form of a coefficient list"""
  if not isinstance(l, list) or not all(isinstance(c, (int, long)) for c in l):
    return 'not a list of integers: %r' % (l,)
  if l and l[-1] == 0:
    return 'leading zero: %r' % (l,)
  return None


def convert(kind, item, k):
  """(coefficient list, degree wanted, positive factor)"""
  name = ('x', 'y', 'z_1', 'x+')[k % 4]
  if kind == 'expr':
    t = tup(item) if not isinstance(item, str) else item
    if isinstance(t, str) and t.lstrip('-').isdigit() and abs(int(t)) < 1000 and k % 2:
      l = isym.convert(int(t))
    else:
      l = isym.convert(sym_of(t, name))
    want = coefs(t)
  else:
    back = isym.convert_back(list(item))
    l = isym.convert(back)
    want = [Fraction(c) for c in item]
  bad = shape_of(l)
  if not bad and len(l) != len(want):
    bad = '%d coefficients, not %d' % (len(l), len(want))
  if bad:
    raise ValueError(bad)
  if not l:
    return l, 1
  f = Fraction(l[-1]) / want[-1]
  if f <= 0 or kind == 'list' and f != 1:
    raise ValueError('multiple %s' % f)
  return l, f


def tx(item):
  return tup(item) if not isinstance(item, str) else item


def run(case):
  v = var('v')
  base.inputs({'k': 0, 'v': v})
  for k, item in enumerate(case['items']):
    inp = {'k': k, 'v': v}
    try:
      l, f = convert(case['kind'], item, k)
    except symx.Unsupported:
      raise
    except Exception as e:
      return Outcome(False, inputs=inp, observed='raised %r' % e)
    s = symx.smt(v)
    want = smt(tx(item), s) if case['kind'] == 'expr' else horner(item, s)
    if path().holds(['(= %s (* %s %s))' % (horner(l, s), symx.smt(f), want)]) is False:
      return Outcome(False, inputs=inp, observed='%s for %s' % (l, item), expected='a positive multiple')
  return Outcome(True)


def replay(case, inp):
  k = inp['k']
  item = case['items'][k]
  v = Fraction(inp['v'])
  sig = '%s:%d' % (case['id'], k)
  try:
    l, f = convert(case['kind'], item, k)
  except Exception as e:
    return {'violated': True, 'sig': sig, 'observed': '%s: %s' % (item, e), 'expected': 'integer coefficients'}
  got = sum(c * v ** i for i, c in enumerate(l))
  want = value(tx(item), v) if case['kind'] == 'expr' else sum(c * v ** i for i, c in enumerate(item))
  return {'violated': got != f * want, 'sig': sig, 'expected': 'value %s times %s' % (want, f),
          'observed': '%s -> %s, value %s at %s' % (item, l, got, v)}
