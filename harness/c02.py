"""The test-point decision: true exactly when some real number satisfies every
listed sign condition."""
import itertools
import vtsmodel as vm
import c01
from base import Outcome
import isym

META = dict(c01.META)
META['functions'] = ['uni_vts.internal_ts', 'uni_vts.evaluate', 'uni_vts.evaluate_poly',
                     'isym.ts']
META['bounds'] = {
  'quick': 'systems of 1 polynomial of degree <= 4, 2 polynomials of degrees (<=3, <=2), 3 polynomials '
           'of degrees (2, 1, 1), 1 or 2 of the form a (x^n - c^n) with n up to 13; every relation combination or a listed subset; all roots and '
           'leading coefficients symbolic; the symbolic entry on systems of <= 5 of 17 expressions, every real point',
  'thorough': 'as quick with every relation combination, 1 polynomial of degree 5, 2 of (3, 3), 4 linear',
}
META['assumptions'] = ['z3rcf.MkRoots returns the distinct real roots, in any order',
                       'z3rcf infinitesimals behave as a positive infinitesimal over the reals']
META['outside'] = ['higher degrees and longer systems', 'zero polynomials (the root library rejects them)']


def cases(tier):
  out = []
  seen = set()
  big = tier == 'thorough'
  R = vm.NAMES

  def add(ps, rels, w, limit=6):
    key = '|'.join(''.join(map(str, m)) + 'c' * c + l for m, c, l in ps) + '#' + \
        ','.join('+'.join(r) for r in rels)
    if len(key) > 90:
      key = key[:80] + '%08x' % (hash(key) & 0xffffffff)
    if key in seen:
      return
    seen.add(key)
    out.append({'id': key, 'polys': ps, 'rels': rels, 'w': w, 'orders': 2,
                'limit': limit * (8 if big else 1), 'validate': 4})
  each = [(r,) for r in R]
  all2 = list(itertools.product(R, R))
  all3 = list(itertools.product(R, R, R))
  add([], [()], 1)
  add([((), 0, 'a')], each, 1)
  for deg in range(1, 6 if big else 5):
    for (m,) in vm.arrangements((deg,)):
      add([(m, 0, 'a')], each, deg)
  add([((), 1, 'a')], each, 2)
  add([((1,), 1, 'a')], each, 3)
  add([((1, 1), 1, 'a')], each, 3)
  for (m,) in vm.arrangements((1,)) + vm.arrangements((2,)) + vm.arrangements((3,)):
    add([(m, 0, 'a'), (m, 0, 'a')], list(itertools.combinations(R, 2)), 3)
  for degs in ((1, 0), (1, 1), (2, 1), (2, 2), (3, 1)):
    for i, a in enumerate(vm.arrangements(degs)):
      if sum(degs) < 4 or big:
        rels = all2
      else:
        rels = [all2[(i + 3 * j) % 16] for j in range(5)]
      add([(a[0], 0, 'a'), (a[1], 0, 'b')], rels, 3 * sum(degs))
  for i, a in enumerate(vm.arrangements((1, 1, 1))):
    rels = all3 if big else [all3[(7 * i + 11 * j) % 64] for j in range(12)]
    add([(a[0], 0, 'a'), (a[1], 0, 'b'), (a[2], 0, 'd')], rels, 8)
  for i, a in enumerate(vm.arrangements((2, 1, 1))):
    if big or i % 3 == 0:
      add([(a[0], 0, 'a'), (a[1], 0, 'b'), (a[2], 0, 'd')],
          [all3[(7 * i + 11 * j) % 64] for j in range(4)], 12)
  # sparse polynomials of high degree
  for n in (5, 9, 13):
    add([((1,), 0, 'a^%d' % n)], each, n)
    for a in vm.arrangements((1, 1)):
      add([(a[0], 0, 'a^%d' % n), (a[1], 0, 'b')], all2 if big else all2[n % 3::3], 2 * n)
  add([((1, 0), 0, 'a^5'), ((0, 1), 0, 'b^7')], all2[::3], 12)
  add([((1,), 1, 'a^5')], each, 9)
  if big:
    for i, a in enumerate(vm.arrangements((3, 2)) + vm.arrangements((3, 3))):
      add([(a[0], 0, 'a'), (a[1], 0, 'b')], [all2[(i + 3 * j) % 16] for j in range(3)], 20)
  return out + c01.entry_cases(big)


def run(case):
  c01.FN = 'internal_ts'
  return c01.run(case)


def replay(case, inp):
  vm.EPS_ON[0] = False
  if 'item' in inp:
    return c01.replay_entry(inp, 'internal_ts', isym.ts)
  return c01.replay_with(inp, 'internal_ts', isym.ts)
