"""Dense polynomial arithmetic: product, product table, derivative, value."""
import itertools
import sys
import base
from base import Outcome, REPO
sys.path.insert(0, REPO + '/vts')
import symx
from symx import var, assume, path, Sym
import polys
import uni_vts

META = {
  'functions': ['uni_vts.multiply', 'uni_vts.make_product_list', 'uni_vts.derivative',
                'uni_vts.evaluate_poly'],
  'bounds': {
    'quick': 'product: degrees up to (9, 9); product table: up to 3 polynomials of degree <= 2, 4 of degrees '
             '(1, 0, 0, 0); derivative and value: degree <= 20; every coefficient and the point arbitrary reals',
    'thorough': 'product: degrees up to (16, 16); product table: up to 4 polynomials; derivative and '
                'value: degree <= 30',
  },
  'outside': ['higher degrees, longer tables'],
  'assumptions': ['coefficients form a commutative ring'],
}


def cases(tier):
  big = tier == 'thorough'
  out = []
  K = 16 if big else 9
  for m in range(-1, K + 1):
    for n in range(-1, K + 1):
      out.append({'id': 'mul_%d_%d' % (m, n), 'kind': 'mul', 'd': [m, n], 'w': (m + 1) * (n + 1)})
  for d in range(-1, (31 if big else 21)):
    out.append({'id': 'der_%d' % d, 'kind': 'der', 'd': [d], 'w': d})
    out.append({'id': 'val_%d' % d, 'kind': 'val', 'd': [d], 'w': d})
  for n in range(0, 5):
    for ds in itertools.product((0, 1, 2), repeat=n):
      if n == 3 and not big and sum(ds) > 4:
        continue
      if n == 4 and sum(ds) > (5 if big else 1):
        continue
      out.append({'id': 'tab_' + ''.join(map(str, ds)), 'kind': 'tab', 'd': list(ds),
                  'w': 3 ** n * (1 + sum(ds))})
  for kind, ds in (('mul', [1, 1]), ('mul', [2, 1]), ('mul', [2, 2]), ('der', [3]), ('val', [3]), ('tab', [1]),
                   ('tab', [2, 1]), ('tab', [1, 1])):
    out.append({'id': 'h%s_%s' % (kind, ''.join(map(str, ds))), 'kind': kind, 'd': ds, 'w': 3, 'hist': HIST})
  for c in out:
    c['limit'] = 30 if big else 10
    c['validate'] = 4
    c['models'] = 3
  return out


def ref_mul(a, b):
  if not a or not b:
    return []
  return polys.mul(a, b)


def ref_pow(p, k):
  r = [1]
  for _ in range(k):
    r = ref_mul(r, p)
  return r


def reference(kind, ps, x):
  if kind == 'mul':
    return ref_mul(ps[0], ps[1])
  if kind == 'der':
    return [c * i for i, c in enumerate(ps[0])][1:]
  if kind == 'val':
    return [polys.ev(ps[0], x)]
  out = []
  for ex in itertools.product((0, 1, 2), repeat=len(ps)):
    r = [1]
    for p, e in zip(ps, ex):
      r = ref_mul(r, ref_pow(p, e))
    out.append(r)
  return out


# calls made before the one that is judged
HIST = ['same', 'last', 'first', 'x', 'all']
OTHER = [5, -7, 3, -2, 1, 4]


def warm(how, kind, ps, x):
  o = [OTHER[k:k + len(p)] for k, p in enumerate(ps)]
  if how in ('same', 'all'):
    call(kind, ps, x)
  if how in ('last', 'all'):
    call(kind, ps[:-1] + o[-1:], x)
  if how in ('first', 'all'):
    call(kind, o[:1] + ps[1:], x)
  if how in ('x', 'all'):
    call(kind, ps, 3)
  if how == 'all':
    call(kind, ps[::-1], x)


def call(kind, ps, x):
  if kind == 'mul':
    return uni_vts.multiply(ps[0], ps[1])
  if kind == 'der':
    return uni_vts.derivative(ps[0])
  if kind == 'val':
    return [uni_vts.evaluate_poly(ps[0], x)]
  return uni_vts.make_product_list(ps)


def zero(v):
  if isinstance(v, Sym) and not v.n:
    return True
  return bool(v == 0)


def differ(got, want):
  """first difference between two polynomials as functions, or None"""
  n = max(len(got), len(want))
  for i in range(n):
    a = got[i] if i < len(got) else 0
    b = want[i] if i < len(want) else 0
    if not zero(a - b):
      return 'coefficient %d' % i
  return None


def judge(kind, got, want):
  if kind != 'tab':
    return differ(list(got), want)
  if len(got) != len(want):
    return '%d entries for %d' % (len(got), len(want))
  for i, (g, w) in enumerate(zip(got, want)):
    bad = differ(g, w)
    if bad:
      return 'entry %d: %s' % (i, bad)
  return None


def run(case):
  ps = [[var('p%d_%d' % (k, i)) for i in range(d + 1)] for k, d in enumerate(case['d'])]
  x = var('x')
  inp = base.inputs({'ps': ps, 'x': x, 'before': None})
  given = [list(p) for p in ps]
  if case.get('hist'):
    inp['before'] = case['hist'][path().choose(len(case['hist']))]
    warm(inp['before'], case['kind'], given, x)
  got = call(case['kind'], given, x)
  want = reference(case['kind'], ps, x)
  if case['kind'] == 'tab' and len(got) != len(want):
    return Outcome(False, observed='%d entries' % len(got), expected='%d entries' % len(want))
  pairs = zip(got, want) if case['kind'] == 'tab' else [(got, want)]
  claims = []
  for g, w in pairs:
    for i in range(max(len(g), len(w))):
      claims.append('(= %s %s)' % (symx.smt(g[i] if i < len(g) else 0),
                                   symx.smt(w[i] if i < len(w) else 0)))
  ok = path().holds(claims)
  return Outcome(ok is not False, observed='a coefficient differs' if ok is False else None,
                 expected='the exact product/derivative/value')


def replay(case, inp):
  ps = [base.int_poly(p) for p in inp['ps']]
  x = inp['x']
  text = '%s%s at %s' % (case['kind'], ps, x)
  given = [list(p) for p in ps]
  try:
    if inp.get('before'):
      text += ' after calls about ' + inp['before']
      warm(inp['before'], case['kind'], given, x)
    got = call(case['kind'], given, x)
  except Exception as e:
    return {'violated': True, 'observed': text + ' raised %r' % e, 'expected': 'an answer'}
  bad = judge(case['kind'], got, reference(case['kind'], ps, x))
  return {'violated': bad is not None, 'observed': '%s -> %s' % (text, got), 'expected': bad or 'exact'}
