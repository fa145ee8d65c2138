"""Every real root gets derivative sign conditions that it meets and no other
root of the polynomial meets."""
import sys
import itertools
import base
from base import Outcome, REPO
import symx
from symx import var, assume, path, Sym
import vtsmodel as vm
import polys
import uni_vts
import z3rcf

META = {
  'functions': ['uni_vts.get_discri_der_signs', 'uni_vts.DiscDerSigns', 'uni_vts.evaluate_poly',
                'uni_vts.derivative'],
  'bounds': {
    'quick': 'polynomials with up to 4 distinct real roots, degree <= 5 (every multiplicity pattern), '
             'optionally one complex pair; all roots symbolic (one or two pinned at 4 roots)',
    'thorough': 'up to 5 distinct real roots, degree <= 6',
  },
  'outside': ['more roots or higher degree', 'a list of roots that is not the root list of the polynomial'],
  'assumptions': ['z3rcf.MkRoots returns the distinct real roots, in any order',
                  'two different symbolic coefficient expressions print differently'],
}


def cases(tier):
  big = tier == 'thorough'
  out = []
  for deg in range(0, 7 if big else 6):
    for (m,) in vm.arrangements((deg,)):
      n = len(m)
      if n > (5 if big else 4):
        continue
      fixes = [None]
      if n == 3:
        fixes = [None, {'u': 0, 'g1': 1}]
      if n >= 4:
        f = dict(('g%d' % i, i) for i in range(2, n - 1))
        f['u'] = 1
        fixes = [f]
      for fix in fixes:
        out.append({'id': '%s%s' % (''.join(map(str, m)), '@' if fix else ''), 'm': m, 'c': 0,
                    'fix': fix, 'w': 3 ** n, 'limit': (100 if big else 12), 'validate': 6})
  for m in ((1,), (1, 1), (2, 1), (1, 2)):
    out.append({'id': '%sc' % ''.join(map(str, m)), 'm': m, 'c': 1, 'fix': None, 'w': 9,
                'limit': 100 if big else 10, 'validate': 6})
  return out


def build(case):
  pts, (p,) = vm.system({'polys': [(case['m'], case['c'], 'a')], 'fix': case['fix']})
  return pts, p


def facts(d):
  """the (derivative, sign) conditions an entry carries"""
  return [(q, d.get_sign(q)) for q in d.get_all_polies()]


def sign(v):
  if bool(v > 0):
    return 1
  if bool(v < 0):
    return -1
  return 0


def orders(n):
  """orders in which the roots are handed over"""
  l = [list(o) for o in itertools.permutations(range(n))]
  return l if n <= 3 else [l[0], l[-1]] + l[7:-1:len(l) // 4]


def judge(p, roots, entries, same_point):
  if len(entries) != len(roots):
    return '%d entries for %d roots' % (len(entries), len(roots))
  left = list(range(len(roots)))
  at = []
  for d in entries:
    hit = [i for i in left if same_point(d.point, roots[i])]
    if len(hit) != 1:
      return 'an entry is not about one of the roots'
    left.remove(hit[0])
    at.append(hit[0])
  memo = {}

  def sg(q, i):
    k = (tuple(map(str, q)), i)
    if k not in memo:
      memo[k] = sign(polys.ev(q, roots[i]))
    return memo[k]
  for d, i in zip(entries, at):
    fs = facts(d)
    for q, s in fs:
      if sg(q, i) != s:
        return 'root %d: listed sign %s of %s is wrong' % (i, s, len(q))
    for l, want in (('neg_polies', -1), ('zer_polies', 0), ('pos_polies', 1)):
      for q in getattr(d, l, []):
        if sg(q, i) != want:
          return 'root %d: a derivative is wrongly in %s' % (i, l)
    for j in range(len(roots)):
      if j != i and all(sg(q, j) == s for q, s in fs):
        return 'roots %d and %d are not told apart' % (i, j)
  return None


def run(case):
  pts, p = build(case)
  co = p.coefs()
  vm.REGISTERED[:] = [p]
  roots = p.roots()
  inp = base.inputs({'p': co, 'order': []})
  os = orders(len(roots))
  inp['order'] = os[path().choose(len(os))]
  vm.ORDER[0] = 0
  given = [roots[i] for i in inp['order']]
  if case['m']:
    bool(p.lc > 0)
  entries = uni_vts.get_discri_der_signs(given, list(co))
  bad = judge(co, roots, entries, lambda a, b: a is b or bool(a == b))
  return Outcome(bad is None, observed=bad, expected='distinct truthful conditions')


def replay(case, inp):
  p = base.int_poly(inp['p'])
  roots = z3rcf.MkRoots(p) if len(p) > 1 else []
  roots = sorted(roots, cmp=lambda a, b: -1 if a < b else 1)
  given = [roots[i] for i in inp['order']] if len(inp['order']) == len(roots) else list(roots)
  text = 'get_discri_der_signs(roots of %s in order %s)' % (p, inp['order'])
  try:
    entries = uni_vts.get_discri_der_signs(given, list(p))
  except Exception as e:
    return {'violated': True, 'observed': text + ' raised %r' % e, 'expected': 'one entry per root'}
  bad = judge(p, roots, entries, lambda a, b: bool(a == b))
  return {'violated': bad is not None, 'observed': '%s: %s' % (text, bad or 'fine'),
          'expected': 'distinct truthful conditions'}
