"""Tarski query: the sum of the signs of q at the distinct real roots of p."""
import sys
import base
from base import Outcome, REPO
sys.path.insert(0, REPO + '/vts')
import symx
from symx import var, assume, path
import polys
from polys import RootPoly, chain
import uni_vts


META = {
  'functions': ['uni_vts.tarski_query', 'uni_vts.signed_remainder_cauchy_index',
                'uni_vts.signed_remainder_sequence', 'uni_vts.signed_pseudo_remainder',
                'uni_vts.multiply', 'uni_vts.derivative'],
  'bounds': {
    'quick': 'p of degree <= 3 (every multiplicity pattern over <= 3 distinct real points, or one real '
             'root and a complex pair), or degree <= 5 over two points; q of degree <= 2 (degree 3 over two points, or a complex pair times a line); '
             'sparse p or q of degree up to 11; all roots, complex pairs and leading coefficients symbolic reals',
    'thorough': 'p of degree <= 4 over <= 4 distinct points, two complex pairs; q of degree <= 2',
  },
  'outside': ['higher degrees', 'p constant zero'],
  'assumptions': ['coefficients form an ordered field (ints, rationals and z3rcf numbers do)'],
}


def comp(n, tot):
  """all n-tuples of multiplicities >= 0 with sum tot"""
  if n == 0:
    return [()] if tot == 0 else []
  return [(i,) + r for i in range(tot + 1) for r in comp(n - 1, tot - i)]


def shapes(maxp, maxq, n, pp=0, qp=0):
  """(p mults, q mults) over n points, every point used"""
  out = []
  for dp in range(0, maxp + 1):
    for pm in comp(n, dp):
      for dq in range(0, maxq + 1):
        for qm in comp(n, dq):
          if all(a or b for a, b in zip(pm, qm)):
            if dp + 2 * pp >= 1:
              out.append((pm, qm, pp, qp))
  return out


def cases(tier):
  out = []
  seen = set()

  def add(pm, qm, pp, qp, limit):
    k = 'p%s%s_q%s%s' % (''.join(map(str, pm)), 'c' * pp, ''.join(map(str, qm)), 'c' * qp)
    if k in seen:
      return
    seen.add(k)
    d = sum(pm) + 2 * pp
    out.append({'id': k, 'pm': pm, 'qm': qm, 'pp': pp, 'qp': qp,
                'w': d * (sum(qm) + 1) + 5 * (pp + qp), 'limit': limit,
                'validate': 3})
  big = tier == 'thorough'
  lim = 60 if big else 12
  # p or q with a factor x^n - c^n
  for np, nq, pm, qm in ((5, 1, (1,), (1,)), (5, 1, (1,), (0,)), (5, 1, (1, 0), (0, 1)), (5, 1, (0, 1), (1, 0)),
                         (7, 1, (1, 0), (0, 1)), (9, 1, (0, 1), (1, 0)), (3, 1, (1, 0), (0, 2)), (5, 1, (2,), (1,)),
                         (1, 5, (1, 0), (0, 1)), (1, 5, (1,), (1,)), (1, 7, (0, 1), (1, 0)), (1, 5, (1, 1), (1, 0)),
                         (5, 5, (1, 0), (0, 1)), (3, 3, (1, 0), (0, 1)), (5, 3, (0, 1), (1, 0)), (3, 7, (1,), (1,)),
                         (11, 1, (1, 0), (0, 1)), (3, 1, (1, 1), (1, 0)), (1, 9, (1, 0), (0, 1))):
    out.append({'id': 'p%s^%d_q%s^%d' % (''.join(map(str, pm)), np, ''.join(map(str, qm)), nq), 'pm': pm, 'qm': qm,
                'pp': 0, 'qp': 0, 'np': np, 'nq': nq, 'w': 5 * np, 'limit': lim, 'validate': 3})
  for pm, qm in (((1,), (1,)), ((1,), (0,)), ((2,), (1,)), ((1, 1), (1, 0)), ((1, 1), (0, 0)), ((2, 1), (1, 0)),
                 ((1, 1), (1, 1))):
    out.append({'id': 'h_p%s_q%s' % (''.join(map(str, pm)), ''.join(map(str, qm))), 'pm': pm, 'qm': qm,
                'pp': 0, 'qp': 0, 'w': 3, 'limit': lim, 'validate': 6, 'hist': HIST})
  for n in range(0, 4):
    for s in shapes(3, 2, n):
      add(*(s + (lim,)))
  for n in range(0, 3):
    for s in shapes(1, 1, n, 1, 0) + shapes(2, 1, n, 0, 1):
      add(*(s + (lim,)))
  for n in range(1, 3):
    for s in shapes(3, 4 if big else 3, n):
      add(*(s + (lim,)))
  for s in shapes(5, 1, 2):
    add(*(s + (lim,)))
  if big:
    for n in range(0, 5):
      for s in shapes(4, 2, n):
        add(*(s + (lim,)))
    for n in range(0, 3):
      for s in shapes(2, 1, n, 1, 0) + shapes(0, 1, n, 2, 0) + shapes(3, 1, n, 0, 1):
        add(*(s + (lim,)))
  return out


# requests made before the one that is judged
HIST = ['same', 'swap', 'q', 'p', 'both']
OTHER = [5, -7, 3, -2, 1, 4]


def warm(how, p, q):
  p1, q1 = OTHER[:len(p)], OTHER[1:len(q) + 1]
  for a, b in {'same': [(p, q)], 'swap': [(q, p)], 'q': [(p, q1)], 'p': [(p1, q)],
               'both': [(p1, q1), (p, q1), (p, q)]}[how]:
    if len(a) > 1:
      uni_vts.tarski_query(a, b)
      uni_vts.signed_remainder_cauchy_index(a, b)


def build(case):
  n = len(case['pm'])
  pts = chain(n)
  scale = (['u'] if n else []) + ['g%d' % i for i in range(1, n)]
  a, b = var('a'), var('b')
  assume(a != 0)
  assume(b != 0)

  def pairs(k, tag):
    r = []
    for i in range(k):
      x, y = var('x%s%d' % (tag, i)), var('y%s%d' % (tag, i))
      assume(y > 0)
      r.append((pts[0] + x if pts else x, y))
      scale.extend(['x%s%d' % (tag, i), 'y%s%d' % (tag, i)])
    return r
  p = RootPoly(pts, enumerate(case['pm']), a, pairs(case['pp'], 'p'), case.get('np', 1))
  q = RootPoly(pts, enumerate(case['qm']), b, pairs(case['qp'], 'q'), case.get('nq', 1))
  pos = [v for v in scale if v[0] in 'gy']
  if pos:
    symx.ENG.set_scale(scale, pos[0])
  return p, q


def run(case):
  p, q = build(case)
  pc, qc = p.coefs(), q.coefs()
  inp = base.inputs({'p': pc, 'q': qc, 'before': None})
  P, Q = list(pc), list(qc)
  if case.get('hist'):
    inp['before'] = case['hist'][path().choose(len(case['hist']))]
    warm(inp['before'], P, Q)
  sb = 1 if b_pos(q) else -1
  want = 0
  for i in range(len(case['pm'])):
    if case['pm'][i]:
      want += q.sign_in_cell(2 * i + 1, sb)
  got = uni_vts.tarski_query(P, Q)
  if got != want:
    return Outcome(False, observed='query %s' % got, expected=want)
  # the Cauchy index of q/p: jumps of q/p over the poles
  want = 0
  sa = 1 if p.lc > 0 else -1
  for i, (m, k) in enumerate(zip(case['pm'], case['qm'])):
    if m > k and (m - k) % 2:
      want += p.sign_in_cell(2 * i + 2, sa) * q.sign_in_cell(2 * i + 2, sb)
  got = uni_vts.signed_remainder_cauchy_index(P, Q)
  return Outcome(got == want, observed='index %s' % got, expected=want)


def b_pos(q):
  return bool(q.lc > 0)


def expected(p, q):
  tot = 0
  for vec, point in polys.cells([p, q]):
    if point and vec[0] == 0:
      tot += vec[1]
  return tot


def replay(case, inp):
  p, q = base.int_poly(inp['p']), base.int_poly(inp['q'])
  want = expected(p, q)
  P, Q = list(p), list(q)
  after = ''
  try:
    if inp.get('before'):
      warm(inp['before'], P, Q)
      after = ' after requests about %s' % inp['before']
    got = uni_vts.tarski_query(P, Q)
  except Exception as e:
    return {'violated': True, 'observed': 'tarski_query(%s, %s)%s raised %r' % (p, q, after, e), 'expected': want}
  if got != want:
    return {'violated': True, 'observed': 'tarski_query(%s, %s)%s = %s' % (p, q, after, got), 'expected': want}
  want = 0
  cl = polys.cells([p, q])
  for k, (vec, point) in enumerate(cl):
    if point and vec[0] == 0:
      l, r = cl[k - 1][0], cl[k + 1][0]
      sl, sr = l[0] * l[1], r[0] * r[1]
      # a sign change across the point that is a pole of q/p
      if sl != sr and pole(p, q, cl, k):
        want += sr
  try:
    got = uni_vts.signed_remainder_cauchy_index(P, Q)
  except Exception as e:
    return {'violated': True, 'observed': 'signed_remainder_cauchy_index(%s, %s) raised %r' % (p, q, e), 'expected': want}
  return {'violated': got != want, 'observed': 'signed_remainder_cauchy_index(%s, %s)%s = %s' % (p, q, after, got), 'expected': want}


def pole(p, q, cl, k):
  """does q/p still have a pole at this point after cancelling?"""
  g = polys.gcd_poly(p, q)
  red = polys.divmod_poly(p, g)[0] if len(g) > 1 else p
  if len(red) < 2:
    return False
  # which root of p*q is it?  compare with the cells of (p, q, red)
  c2 = polys.cells([p, q, red])
  return c2[k][0][2] == 0
