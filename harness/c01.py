"""The virtual-term-substitution decision: true exactly when some real number
satisfies every listed sign condition."""
import itertools
from fractions import Fraction
import base
from base import Outcome
import symx
from symx import var, assume, path
import vtsmodel as vm
import uni_vts
import isym
import sympy

META = {
  'functions': ['uni_vts.internal_vts', 'uni_vts.sign_conditions_lookup',
                'uni_vts.get_discri_der_signs', 'uni_vts.evaluate_on_sign_assignment',
                'uni_vts.e_close_evaluate_on_sign_assignment', 'uni_vts.tarski_query',
                'uni_vts.signed_remainder_sequence', 'uni_vts.make_product_list',
                'uni_vts.pick_sign_of_goal', 'matrix_of_signs.get_matrix_inverse',
                'isym.vts'],
  'bounds': {
    'quick': 'systems of 1 polynomial of degree <= 3 (every pattern of real roots with multiplicity, '
             'or one complex pair), 2 polynomials of degrees (<=2, <=2), 3 linear polynomials, sparse ones of the '
             'form a (x^n - c^n) with n <= 9 alone or with a line, some concrete pairs with a symbolic line; every '
             'relation combination or a listed subset; leading coefficients and roots symbolic reals; the symbolic '
             'entry on systems of <= 5 of 17 expressions, every real point',
    'thorough': 'as quick with every relation combination, plus 1 polynomial of degree 4, 2 of '
                'degrees (3, 1) and 3 of degrees (2, 1, 1)',
  },
  'outside': ['higher degrees and longer systems', 'irrational coefficients on replay',
              'zero polynomials (the root library rejects them)',
              'more than five simultaneous sign-table polynomials (the code raises, documented)'],
  'assumptions': ['z3rcf.MkRoots returns the distinct real roots, in any order',
                  'two different symbolic coefficient expressions print differently (dictionary keys '
                  'are made from the text of coefficients)'],
}

FN = 'internal_vts'


def cases(tier):
  out = []
  seen = set()
  big = tier == 'thorough'

  def add(ps, rels, w, limit=9, orders=2, fix=None, **kw):
    key = '|'.join(''.join(map(str, m)) + 'c' * c + l for m, c, l in ps) + '#' + \
        ','.join('+'.join(r) for r in rels) + \
        ('@' + ','.join('%s=%s' % t for t in sorted(fix.items())) if fix else '')
    if len(key) > 90:
      key = key[:80] + '%08x' % (hash(key) & 0xffffffff)
    if key in seen:
      return
    seen.add(key)
    d = {'id': key, 'polys': ps, 'rels': rels, 'w': w, 'limit': limit * (8 if big else 4),
         'orders': orders, 'validate': 4, 'fix': fix}
    d.update(kw)
    out.append(d)

  R = vm.NAMES
  each = [(r,) for r in R]
  # no condition, constants
  add([], [()], 1)
  add([((), 0, 'a')], each, 1)
  # one polynomial
  for deg in (1, 2):
    for (m,) in vm.arrangements((deg,)):
      add([(m, 0, 'a')], each, deg ** 3, prio=1)
  for (m,) in vm.arrangements((3,)):
    if len(m) < 3 or big:
      add([(m, 0, 'a')], each, 27)
    if len(m) == 3:
      add([(m, 0, 'a')], each, 27, fix={'u': 1, 'g1': 1})
      add([(m, 0, 'a')], each, 27, fix={'u': -2, 'g2': 1})
  for (m,) in vm.arrangements((4,)) + (vm.arrangements((5,)) if big else []):
    if len(m) < 4:
      add([(m, 0, 'a')], each, 40, orders=1, fix={'u': -1, 'g1': 1} if len(m) == 3 else {'u': -1})
  add([((), 1, 'a')], each, 4)
  add([((1,), 1, 'a')], each, 9, fix={'u': 1})
  add([((1, 1), 1, 'a')], each, 9, fix={'u': 1, 'g1': 1, 'y0': 1})
  # the same polynomial under two relations
  for (m,) in vm.arrangements((1,)) + vm.arrangements((2,)):
    for rs in itertools.combinations(R, 2):
      add([(m, 0, 'a'), (m, 0, 'a')], [rs], 6)
  # two polynomials
  all2 = list(itertools.product(R, R))
  some2 = [('lt', 'lt'), ('le', 'le'), ('eq', 'lt'), ('eq', 'le'), ('ne', 'le'), ('lt', 'ne'),
           ('eq', 'ne'), ('le', 'lt'), ('eq', 'eq')]
  for a in vm.arrangements((1, 0)) + vm.arrangements((1, 1)):
    for k in range(0, 16, 8):
      add([(a[0], 0, 'a'), (a[1], 0, 'b')], all2[k:k + 8], 8, prio=1)
  for i, a in enumerate(vm.arrangements((2, 1))):
    n = len(a[0])
    fix = {'u': 1, 'g1': 1} if n == 3 else None
    if big or n < 3:
      for k in range(0, 16, 4):
        add([(a[0], 0, 'a'), (a[1], 0, 'b')], all2[k:k + 4], 20, orders=1)
    if n == 3:
      for k in range(0, 16, 8):
        add([(a[0], 0, 'a'), (a[1], 0, 'b')], all2[k:k + 8], 20, orders=1, fix=fix)
  for i, a in enumerate(vm.arrangements((2, 2))):
    n = len(a[0])
    fix = {'u': -1}
    for k in range(2, n):
      fix['g%d' % k] = k
    rels = all2 if big else [some2[(i + j) % 9] for j in range(3)]
    add([(a[0], 0, 'a'), (a[1], 0, 'b')], rels, 40, orders=1, fix=fix)
  # three linear ones
  all3 = list(itertools.product(R, R, R))
  for i, a in enumerate(vm.arrangements((1, 1, 1))):
    rels = all3 if big else [all3[(7 * i + 11 * j) % 64] for j in range(6)]
    for k in range(0, len(rels), 6):
      add([(a[0], 0, 'a'), (a[1], 0, 'b'), (a[2], 0, 'd')], rels[k:k + 6], 12, orders=1)
  # a cubic and a line
  for i, a in enumerate(vm.arrangements((3, 1))):
    n = len(a[0])
    fix = {'u': 1}
    for k in range(1, n - 1):
      fix['g%d' % k] = k
    rels = some2 if big else [some2[(2 * i + j) % 9] for j in range(2)]
    if big or i % 2 == 0:
      add([(a[0], 0, 'a'), (a[1], 0, 'b')], rels, 60, orders=1, fix=fix)
  # sparse polynomials of higher degree
  for n in (5, 7, 9):
    add([((1,), 0, 'a^%d' % n)], each, n)
    for i, a in enumerate(vm.arrangements((1, 1))):
      add([(a[0], 0, 'a^%d' % n), (a[1], 0, 'b')], all2 if big else all2[i % 3::3], 4 * n, orders=1, fix={'u': -1})
  # concrete polynomials whose coefficient texts run together, a symbolic line
  F = Fraction
  for i, (ms, fix) in enumerate((
      (((1, 0), (0, 1)), {'u': F(-11), 'g1': F(120, 11), 'a': F(1), 'b': F(11)}),
      (((1, 1, 0), (0, 0, 1)), {'u': F(-2), 'g1': F(3), 'g2': F(20), 'a': F(1), 'b': F(1)}),
      (((1, 0, 1), (0, 1, 0)), {'u': F(-2), 'g1': F(24, 11), 'g2': F(9, 11), 'a': F(1), 'b': F(11)}),
      (((1, 0), (0, 1)), {'u': F(-1), 'g1': F(2), 'a': F(1), 'b': F(1)}),
      (((1, 0), (0, 1)), {'u': F(-1), 'g1': F(2), 'a': F(-1), 'b': F(1)}),
      (((1, 0), (0, 1)), {'u': F(-3), 'g1': F(6), 'a': F(2), 'b': F(2)}))):
    ms = [m + (0,) for m in ms] + [(0,) * len(ms[0]) + (1,)]
    rels = all3 if big else [p + (R[(i + j) % 4],) for j, p in enumerate(all2)]
    for k in range(0, len(rels), 8):
      add([(m, 0, l) for m, l in zip(ms, 'abd')], rels[k:k + 8], 5, orders=1, fix=fix)
  if big:
    for i, a in enumerate(vm.arrangements((2, 1, 1))):
      n = len(a[0])
      fix = {'u': 1}
      for k in range(1, n - 1):
        fix['g%d' % k] = k
      add([(a[0], 0, 'a'), (a[1], 0, 'b'), (a[2], 0, 'd')],
          [all3[(7 * i + 11 * j) % 64] for j in range(4)], 60, orders=1, fix=fix)
  return out + entry_cases(big)


# polynomials handed to the symbolic entry: rational coefficients, constant first; a list of lists is a product
POOL = [['0', '1'], ['-1', '1'], ['1/2', '-2/3'], ['-1', '0', '1'], [['-1', '1'], ['2', '1']], ['1', '0', '1'], ['3'],
        ['-5/4'], ['0', '0', '1'], ['-9007199254740993', '2'], [['1', '-3'], ['0', '1'], ['1', '1']], ['0', '0', '0', '-1/7'],
        ['2', '-3', '0', '1'], ['1/3', '0', '-1'], ['-100000000000000000001', '0', '3'], ['0', '-1'], ['1', '1']]


def entry_cases(big):
  n = len(POOL)
  out = []
  for k in range(n):
    for rels in (('le',), ('lt', 'eq'), ('ne', 'ne'), ('eq', 'le'), ('lt', 'le', 'ne'), ('le', 'le', 'lt'),
                 ('eq', 'ne', 'lt', 'le'), ('lt', 'lt', 'lt'), ('eq', 'eq'), ('ne', 'le', 'eq', 'lt', 'le')):
      out.append([(r, POOL[(k + i * (1 + k % 5)) % n]) for i, r in enumerate(rels)])
    out.append([('le', POOL[k]), ('lt', POOL[k]), ('ne', POOL[k])])
    out.append([('eq', POOL[k]), ('eq', POOL[k]), ('le', POOL[(k + 1) % n])])
  out = [[]] + out
  out = out if big else out[::2]
  return [{'id': 'entry/%d' % k, 'kind': 'entry', 'items': out[k:k + 12], 'w': 1, 'limit': 60, 'validate': 0}
          for k in range(0, len(out), 12)]


def entry_coefs(q):
  if not isinstance(q[0], (list, tuple)):
    return [Fraction(c) for c in q]
  r = [Fraction(1)]
  for f in q:
    r = vm.mul(r, [Fraction(c) for c in f])
  return list(r)


def entry_expr(q):
  x = sympy.Symbol('x')
  if isinstance(q[0], (list, tuple)):
    return sympy.Mul(*[entry_expr(f) for f in q])
  return sum((sympy.Rational(c) * x ** i for i, c in enumerate(q)), sympy.Integer(0))


def horner(p, v):
  r = '0.0'
  for c in reversed(p):
    r = '(+ %s (* %s %s))' % (symx.smt(Fraction(c)), v, r)
  return r


RELTEXT = {'le': '(<= %s 0.0)', 'lt': '(< %s 0.0)', 'eq': '(= %s 0.0)', 'ne': '(not (= %s 0.0))'}


def run_entry(case, name, sym_fn):
  """the symbolic entry asks the decision procedure the very question it is asked, and returns its answer"""
  v = var('v')
  t = symx.smt(v)

  def conj(l):
    return '(and true %s)' % ' '.join(l)
  real = getattr(uni_vts, name)
  base.inputs({'item': [], 'v': v})
  for item in case['items']:
    inp = {'item': item, 'v': v}
    d = vm.split([r for r, _ in item], [entry_expr(q) for _, q in item])
    for answer in (True, False):
      seen = []

      def stand_in(le, lt, eq, ne):
        seen.append(dict(zip(vm.NAMES, (le, lt, eq, ne))))
        return answer
      setattr(uni_vts, name, stand_in)
      try:
        got = sym_fn(*[list(d[r]) for r in vm.NAMES])
      except symx.Unsupported:
        raise
      except Exception as e:
        return Outcome(False, inputs=inp, observed='raised %r' % e)
      finally:
        setattr(uni_vts, name, real)
      if len(seen) != 1:
        raise symx.Unsupported('the procedure was called %d times' % len(seen))
      if bool(got) != answer:
        return Outcome(False, inputs=inp, observed=got, expected=answer)
      have = conj([RELTEXT[r] % horner(p, t) for r in vm.NAMES for p in seen[0][r]])
      want = conj([RELTEXT[r] % horner(entry_coefs(q), t) for r, q in item])
      if path().holds(['(= %s %s)' % (have, want)]) is False:
        return Outcome(False, inputs=inp, observed='asked %s' % seen[0], expected='the given conditions')
  return Outcome(True)


def replay_entry(inp, name, sym_fn):
  """the system, and the system at the point of the model"""
  v = Fraction(inp['v'])
  item = [(r, q) for r, q in inp['item']]
  pin = [('eq', [str(-v), '1'])]
  for it in (item, item + pin, pin + item):
    d = vm.split([r for r, _ in it], [entry_expr(q) for _, q in it])
    want = vm.concrete_oracle(vm.split([r for r, _ in it], [base.int_poly(entry_coefs(q)) for _, q in it]))
    text = 'sympy entry of %s for %s' % (name, dict((r, map(str, d[r])) for r in vm.NAMES))
    try:
      got = sym_fn(*[d[r] for r in vm.NAMES])
    except Exception as e:
      if len(it) > 5 or it is not item:
        continue
      return {'violated': True, 'sig': text, 'observed': text + ' raised %r' % e, 'expected': want}
    if bool(got) != want:
      return {'violated': True, 'sig': text, 'observed': text + ' = %s' % got, 'expected': want}
  return {'violated': False, 'sig': '', 'observed': want, 'expected': want}


def run(case):
  if case.get('kind') == 'entry':
    return run_entry(case, FN, getattr(isym, FN.replace('internal_', '')))
  pts, rps = vm.system(case)
  rels = case['rels'][path().choose(len(case['rels']))]
  vm.ORDER[0] = path().choose(case.get('orders', 1))
  vm.EPS_ON[0] = True
  vm.REGISTERED[:] = rps
  ps = [rp.coefs() for rp in rps]
  base.inputs({'rels': list(rels), 'polys': ps})
  slc = dict((id(rp), 1 if rp.lc > 0 else -1) for rp in rps)
  want = vm.oracle(len(pts), rps, [slc[id(rp)] for rp in rps], rels)
  d = vm.split(rels, ps)
  got = getattr(uni_vts, FN)(d['le'], d['lt'], d['eq'], d['ne'])
  return Outcome(bool(got) == want, observed=bool(got), expected=want)


def replay(case, inp):
  vm.EPS_ON[0] = False
  if 'item' in inp:
    return replay_entry(inp, FN, getattr(isym, FN.replace('internal_', '')))
  return replay_with(inp, FN, getattr(isym, FN.replace('internal_', '')))


def replay_with(inp, name, sym_fn):
  ps = [base.int_poly(p) for p in inp['polys']]
  d = vm.split(inp['rels'], ps)
  want = vm.concrete_oracle(d)
  text = '%s(le=%s, lt=%s, eq=%s, ne=%s)' % (name, d['le'], d['lt'], d['eq'], d['ne'])
  try:
    got = getattr(uni_vts, name)(*[[list(p) for p in d[r]] for r in vm.NAMES])
  except Exception as e:
    return {'violated': True, 'observed': text + ' raised %r' % e, 'expected': want}
  if bool(got) != want:
    return {'violated': True, 'observed': text + ' = %s' % got, 'expected': want}
  # the same question through the sympy front door, with rational coefficients
  x = sympy.Symbol('x')
  sd = vm.split(inp['rels'], [sum(sympy.Rational(int(c.numerator), int(c.denominator)) * x ** i
                                  if hasattr(c, 'numerator') else sympy.Integer(c) * x ** i
                                  for i, c in enumerate(p)) for p in inp['polys']])
  try:
    got = sym_fn(sd['le'], sd['lt'], sd['eq'], sd['ne'])
  except Exception as e:
    return {'violated': True, 'observed': 'sympy entry of ' + text + ' raised %r' % e, 'expected': want}
  return {'violated': bool(got) != want, 'observed': text + ' = %s' % got, 'expected': want}
