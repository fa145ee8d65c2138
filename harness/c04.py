"""Signed pseudo-remainders and remainder sequences."""
import sys
import base
from base import Outcome, REPO
sys.path.insert(0, REPO + '/vts')
import symx
from symx import var, assume, path, Sym
import polys
import uni_vts

META = {
  'functions': ['uni_vts.signed_pseudo_remainder', 'uni_vts.signed_remainder_sequence'],
  'bounds': {
    'quick': 'remainder: dividend of degree <= 4 and divisor of degree <= 3, every coefficient an '
             'arbitrary real (divisor leading coefficient non-zero, dividend may have zero leading '
             'coefficients); sequence: degrees (<=3, <=2) with arbitrary or partly pinned coefficients; listed sparse '
             'forms of degree up to 11',
    'thorough': 'dividend of degree <= 5, divisor <= 4; sequences up to degrees (4, 3) with one pinned '
                'polynomial',
  },
  'outside': ['higher degrees', 'a zero divisor (raises)', 'a zero polynomial as second element of a '
              'sequence (raises)'],
  'assumptions': ['coefficients form an ordered field (ints, rationals and z3rcf numbers do)'],
}


def cases(tier):
  big = tier == 'thorough'
  out = []
  M, N = (5, 4) if big else (4, 3)
  for m in range(-1, M + 1):
    for n in range(0, N + 1):
      out.append({'id': 'rem_%d_%d' % (m, n), 'kind': 'rem', 'm': m, 'n': n,
                  'w': (m + 2) * (n + 1), 'limit': 60 if big else 12, 'validate': 6, 'prio': 1})
  seqs = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (2, 0, 0), (2, 1, 0), (1, 2, 0), (2, 2, 1),
          (3, 1, 0), (3, 2, 1), (3, 2, 2), (1, 3, 0), (3, 3, 2), (2, 3, 1), (4, 3, 3), (2, 4, 1),
          (4, 1, 1)]
  if big:
    seqs += [(2, 2, 0), (4, 2, 1), (4, 3, 1), (4, 3, 2), (5, 4, 3), (3, 4, 2), (5, 4, 4)]
  for kind, m, n in (('rem', 1, 1), ('rem', 2, 1), ('rem', 3, 2), ('seq', 1, 1), ('seq', 2, 1), ('seq', 1, 2)):
    out.append({'id': 'h%s_%d_%d' % (kind, m, n), 'kind': kind, 'm': m, 'n': n, 'pin': 0, 'w': 4,
                'limit': 60 if big else 12, 'validate': 6, 'hist': HIST})
  for kind, f, g in FORMS:
    out.append({'id': '%s[%s/%s]' % (kind, f, g), 'kind': kind, 'f': f, 'g': g, 'w': 10,
                'limit': 60 if big else 12, 'validate': 4})
  for m, n, pin in seqs:
    out.append({'id': 'seq_%d_%d_%d' % (m, n, pin), 'kind': 'seq', 'm': m, 'n': n, 'pin': pin,
                'w': 5 * (m + n), 'limit': 120 if big else 15, 'validate': 6})
  return out


# sparse and high-degree: numbers are fixed, names symbolic
FORMS = [
  ('rem', 'a,0,0,b,0,0,0,0,c', 'd,0,e'), ('rem', '0,0,0,0,0,0,0,a', 'b,1'), ('rem', 'a,0,0,0,0,0,1', '1,0,0,b'),
  ('rem', '1,1,1,1,1,1,1,1,a', '-1,0,b'), ('rem', 'a,0,b,0,c,0,1', 'd'), ('rem', 'a,b,c', '1,0,0,0,0,d'),
  ('rem', 'a,0,0,0,0,0,0,0,0,0,0,1', '0,b'), ('rem', 'a,b,0,0,0,0,0', 'c,1'), ('rem', '0,0,0,a,0,0,b', '0,0,0,c'),
  ('rem', '-1,0,0,0,0,0,0,0,0,a', '-1,b'), ('rem', 'a,1,0,0,0,2', 'b,0,0,0,-3'), ('rem', '0,0,0,0,0,a', '0,0,1,b'),
  ('seq', 'a,0,0,0,0,1', '0,0,0,0,5'), ('seq', 'a,b,0,0,0,1', 'b,0,0,0,5'), ('seq', 'a,0,0,0,0,0,0,1', '0,b'),
  ('seq', 'a,0,0,0,0,0,1', '1,0,0,b'), ('seq', '0,0,0,0,0,a', '0,0,0,b'), ('seq', '-1,0,0,0,a', '0,0,0,b'),
  ('seq', '1,0,0,a', '1,0,0,0,0,b'), ('seq', 'a,0,0,-1', 'b'), ('seq', '0,0,0,0,1', 'a,0,1'), ('seq', 'a,0,1', 'a,0,1'),
  ('seq', 'a,0,0,0,0,0,0,0,0,-2', '1,b'), ('seq', '-6,11,-6,a', '11,-12,b'), ('seq', '4,0,-5,0,a', '0,-10,0,b'),
]


def form(text, vs):
  r = []
  for t in text.split(','):
    r.append(vs.setdefault(t, var('v_' + t)) if t.isalpha() else int(t))
  return r


PIN = [[3, -1, 2, 1, -2, 1], [-2, 5, -1, 1, 3, 2], [1, 0, -3, 2, 0, 1], [24, -50, 35, -10, 1, 4]]


# requests made before the one that is judged
HIST = ['same', 'swap', 'g', 'f', 'both']
OTHER = [5, -7, 3, -2, 1, 4]


def warm(how, f, g):
  f1, g1 = OTHER[:len(f)], OTHER[1:len(g) + 1]
  for a, b in {'same': [(f, g)], 'swap': [(g, f)], 'g': [(f, g1)], 'f': [(f1, g)],
               'both': [(f1, g1), (f, g1), (f, g)]}[how]:
    uni_vts.signed_pseudo_remainder(a, b)
    uni_vts.signed_remainder_sequence(a, b)


def coefs(tag, deg, nonzero):
  r = [var('%s%d' % (tag, i)) for i in range(deg + 1)]
  if nonzero and r:
    assume(r[-1] != 0)
  return r


def zero(v):
  """is v identically zero (no solver), else ask"""
  if isinstance(v, Sym) and not v.n:
    return True
  return bool(v == 0)


def true_rem(f, g):
  """A remainder of k*f by g with k a positive (even) power of lc(g); None-free
  fixed shape: list of len(g)-1 coefficients"""
  f = list(f)
  n = len(g)
  lc = g[-1]
  while len(f) >= n:
    top = f.pop()
    k = len(f) - (n - 1)
    f = [c * lc * lc for c in f]
    for i in range(n - 1):
      f[k + i] = f[k + i] - top * lc * g[i]
  return f


def positive_multiple(r, R):
  """r is a positive multiple of R (as coefficient lists, zero padded)."""
  n = max(len(r), len(R))
  r = list(r) + [0] * (n - len(r))
  R = list(R) + [0] * (n - len(R))
  top = None
  for i in range(n - 1, -1, -1):
    if not zero(R[i]):
      top = i
      break
    if not zero(r[i]):
      return 'coefficient %d should vanish' % i
  if top is None:
    return None
  if not bool(r[top] * R[top] > 0):
    return 'leading coefficient has the wrong sign'
  for j in range(top):
    if not zero(r[j] * R[top] - R[j] * r[top]):
      return 'coefficient %d is out of proportion' % j
  return None


def judge_rem(f, g, r):
  if r != [] and len(r) >= len(g):
    return 'remainder %d long for a divisor %d long' % (len(r), len(g))
  if len(r) and zero(r[-1]):
    return 'remainder has a zero leading coefficient'
  return positive_multiple(r, true_rem(f, g))


def judge_seq(p, q, seq):
  if len(seq) < 2:
    return 'sequence too short'
  if [len(p), len(q)] != [len(seq[0]), len(seq[1])] or \
     not all(zero(a - b) for a, b in zip(p + q, list(seq[0]) + list(seq[1]))):
    return 'sequence does not start with the two polynomials'
  for i in range(len(seq) - 1):
    rem = true_rem(seq[i], seq[i + 1])
    if i + 2 < len(seq):
      nxt = list(seq[i + 2])
      if not nxt or zero(nxt[-1]):
        return 'element %d is not in normal form' % (i + 2)
      if len(nxt) >= len(seq[i + 1]) and not (i == 0 and len(seq[0]) < len(seq[1])):
        return 'element %d does not drop in degree' % (i + 2)
      bad = positive_multiple([-c for c in nxt], rem)
      if bad:
        return 'element %d: %s' % (i + 2, bad)
    else:
      if not all(zero(c) for c in rem):
        return 'the last element does not divide the one before it'
  return None


def before(case, inp, f, g):
  F, G = list(f), list(g)
  if case.get('hist'):
    inp['before'] = case['hist'][path().choose(len(case['hist']))]
    warm(inp['before'], F, G)
  return F, G


def run(case):
  if 'f' in case:
    vs = {}
    f, g = form(case['f'], vs), form(case['g'], vs)
    assume(g[-1] != 0)
    if case['kind'] == 'seq':
      assume(f[-1] != 0)
    base.inputs({'kind': case['kind'], 'f': f, 'g': g, 'before': None})
    if case['kind'] == 'rem':
      bad = judge_rem(f, g, list(uni_vts.signed_pseudo_remainder(list(f), list(g))))
    else:
      bad = judge_seq(f, g, uni_vts.signed_remainder_sequence(list(f), list(g)))
  elif case['kind'] == 'rem':
    f, g = coefs('f', case['m'], bool(case.get('hist'))), coefs('g', case['n'], True)
    inp = base.inputs({'kind': 'rem', 'f': f, 'g': g, 'before': None})
    F, G = before(case, inp, f, g)
    r = uni_vts.signed_pseudo_remainder(F, G)
    bad = judge_rem(f, g, list(r))
  else:
    f, g = coefs('f', case['m'], True), coefs('g', case['n'], True)
    pin = case['pin']
    # pinned: lower coefficients fixed so that the query stays small
    if pin:
      for i in range(min(pin, len(f) - 1)):
        f[i] = PIN[pin % 4][i]
    if pin > 1:
      for i in range(min(pin - 1, len(g) - 1)):
        g[i] = PIN[(pin + 1) % 4][i]
    inp = base.inputs({'kind': 'seq', 'f': f, 'g': g, 'before': None})
    F, G = before(case, inp, f, g)
    seq = uni_vts.signed_remainder_sequence(F, G)
    bad = judge_seq(f, g, seq)
  return Outcome(bad is None, observed=bad, expected='a signed pseudo-remainder')


def replay(case, inp):
  f, g = [list(p) for p in (inp['f'], inp['g'])]
  f, g = base.int_poly(f), base.int_poly(g)
  kind = inp['kind']
  name = 'signed_pseudo_remainder' if kind == 'rem' else 'signed_remainder_sequence'
  text = '%s(%s, %s)' % (name, f, g)
  F, G = list(f), list(g)
  try:
    if inp.get('before'):
      text += ' after requests about ' + inp['before']
      warm(inp['before'], F, G)
    r = getattr(uni_vts, name)(F, G)
  except Exception as e:
    return {'violated': True, 'observed': text + ' raised %r' % e, 'expected': 'an answer'}
  bad = judge_rem(f, g, list(r)) if kind == 'rem' else judge_seq(f, g, r)
  return {'violated': bad is not None, 'observed': '%s = %s' % (text, r), 'expected': bad or 'as specified'}
