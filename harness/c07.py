"""Sign of a polynomial at a chosen root of another one, and just right of it."""
import base
from base import Outcome
import symx
from symx import var, assume, path
import vtsmodel as vm
import polys
import uni_vts
import z3rcf

META = {
  'functions': ['uni_vts.evaluate_single_on_sign_assignment',
                'uni_vts.e_close_evaluate_single_on_sign_assignment',
                'uni_vts.get_discri_der_signs', 'uni_vts.make_product_list', 'uni_vts.tarski_query',
                'uni_vts.pick_sign_of_goal', 'matrix_of_signs.get_matrix_inverse'],
  'bounds': {
    'quick': 'root-defining polynomial with <= 2 distinct real roots (degree <= 4) or 3 roots (one gap '
             'symbolic), goal of degree <= 3 over at most 3 points, leading coefficients symbolic',
    'thorough': 'root-defining polynomial with <= 3 distinct roots all symbolic, goal of degree <= 3',
  },
  'outside': ['higher degrees', 'more than five sign-table polynomials (raises, documented)'],
  'assumptions': ['z3rcf.MkRoots returns the distinct real roots, in any order',
                  'two different symbolic coefficient expressions print differently'],
}


def cases(tier):
  big = tier == 'thorough'
  out = []
  seen = set()

  def add(pm, qm, pc, qc, fix, w):
    key = 'p%s%s_q%s%s%s' % (''.join(map(str, pm)), 'c' * pc, ''.join(map(str, qm)), 'c' * qc,
                             '@' if fix else '')
    if key in seen:
      return
    seen.add(key)
    out.append({'id': key, 'pm': pm, 'qm': qm, 'pc': pc, 'qc': qc, 'fix': fix, 'w': w,
                'limit': 120 if big else 32, 'validate': 5})
  for dp in (1, 2, 3, 4):
    for dq in (0, 1, 2, 3):
      for a in vm.arrangements((dp, dq)):
        n = len(a[0])
        npr = sum(1 for m in a[0] if m)
        nq = n - npr
        if n > (4 if big else 3) or npr > 3:
          continue
        if dp == 4 and (npr > 2 or dq > 1):
          continue
        if dp == 3 and dq == 3 and not big:
          continue
        if n >= 3 or npr == 3 or dp + dq >= 4:
          fix = {'u': 1 if dq % 2 else -1}
          for k in range(1, n - 1):
            fix['g%d' % k] = k
        else:
          fix = None
        if big and n <= 3 and fix:
          add(a[0], a[1], 0, 0, None, 200)
        add(a[0], a[1], 0, 0, fix, 5 ** npr + 3 * dq)
  for np, nq, a, fix in ((5, 1, ((1,), (1,)), None), (7, 1, ((1, 0), (0, 1)), None), (1, 5, ((1, 0), (0, 1)), None),
                         (1, 7, ((0, 1), (1, 0)), None), (1, 5, ((1,), (1,)), None), (9, 1, ((0, 1), (1, 0)), {'u': -1}),
                         (1, 5, ((1, 1), (1, 0)), {'u': -1}), (1, 5, ((1, 0, 1), (0, 1, 0)), {'u': 1, 'g1': 1}),
                         (3, 3, ((1, 0), (0, 1)), None), (1, 9, ((1,), (1,)), None), (3, 1, ((1, 1), (0, 1)), {'u': 1})):
    out.append({'id': 'p%s^%d_q%s^%d' % (''.join(map(str, a[0])), np, ''.join(map(str, a[1])), nq), 'pm': a[0],
                'qm': a[1], 'pc': 0, 'qc': 0, 'np': np, 'nq': nq, 'fix': fix, 'w': 20,
                'limit': 120 if big else 32, 'validate': 3})
  add((1,), (0,), 0, 1, None, 4)
  add((1, 1), (0, 0), 0, 1, {'u': 1}, 8)
  add((1,), (1,), 1, 0, {'u': 1, 'y0': 1}, 8)
  add((1, 0), (0, 1), 1, 0, {'u': 0, 'y0': 2}, 8)
  return out


def run(case):
  pts, (p, q) = vm.system({'polys': [(case['pm'], case['pc'], 'a^%d' % case.get('np', 1)),
                                     (case['qm'], case['qc'], 'b^%d' % case.get('nq', 1))],
                           'fix': case['fix']})
  pc, qc = p.coefs(), q.coefs()
  base.inputs({'p': pc, 'q': qc})
  vm.REGISTERED[:] = [p, q]
  sb = 1 if q.lc > 0 else -1
  idx = [i for i, m in enumerate(case['pm']) if m]
  entries = uni_vts.get_discri_der_signs([pts[i] for i in idx], list(pc))
  for d in entries:
    d.set_origin_poly(list(pc))
  for d in entries:
    here = [i for i in idx if d.point is pts[i] or bool(d.point == pts[i])]
    if len(here) != 1:
      return Outcome(False, observed='entry without a root', expected='a root')
    i = here[0]
    got = uni_vts.evaluate_single_on_sign_assignment(d, list(qc))
    want = q.sign_in_cell(2 * i + 1, sb)
    if got != want:
      return Outcome(False, observed='at root %d: %s' % (i, got), expected=want)
    got = uni_vts.e_close_evaluate_single_on_sign_assignment(d, list(qc))
    want = q.sign_in_cell(2 * i + 2, sb)
    if got != want:
      return Outcome(False, observed='right of root %d: %s' % (i, got), expected=want)
  return Outcome(True)


def replay(case, inp):
  p, q = base.int_poly(inp['p']), base.int_poly(inp['q'])
  text = 'signs of %s at the roots of %s' % (q, p)
  try:
    roots = z3rcf.MkRoots(p)
    entries = uni_vts.get_discri_der_signs(list(roots), list(p))
    for d in entries:
      d.set_origin_poly(list(p))
    seen = []
    for d in entries:
      a = uni_vts.evaluate_single_on_sign_assignment(d, list(q))
      b = uni_vts.e_close_evaluate_single_on_sign_assignment(d, list(q))
      seen.append((d.point, a, b))
  except Exception as e:
    return {'violated': True, 'observed': text + ' raised %r' % e, 'expected': 'signs'}
  seen.sort(cmp=lambda s, t: -1 if s[0] < t[0] else 1)
  got = [[a, b] for _, a, b in seen]
  want = []
  cl = polys.cells([p, q])
  for k, (vec, point) in enumerate(cl):
    if point and vec[0] == 0:
      want.append([vec[1], cl[k + 1][0][1]])
  return {'violated': got != want, 'observed': '%s: %s' % (text, got), 'expected': want}
