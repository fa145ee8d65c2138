"""The table that turns Tarski queries into sign counts, and its inverse."""
import itertools
import os
import shutil
import sys
import tempfile
import base
from base import Outcome, REPO
sys.path.insert(0, REPO + '/vts')
import sympy.physics.quantum
import symx
from symx import var, assume, path

META = {
  'functions': ['matrix_of_signs.get_matrix', 'matrix_of_signs.get_matrix_inverse',
                'matrix_of_signs.new_get_matrix', 'matrix_of_signs.new_get_matrix_inverse',
                'matrix_of_signs.write_to_cache', 'matrix_of_signs.read_cache',
                'matrix_of_signs.cache_hit'],
  'bounds': {
    'quick': 'tables for 1 to 3 polynomials, every history of up to three requests (matrix or inverse, '
             'any size; the middle one not of size 1) in one process or with one restart after the first or (second request of size 3) before the last (processes share the cache directory), '
             'the tables for 4 (with inverse, also after a restart) and 5 polynomials (matrix only); counts are arbitrary reals (3^n symbolic unknowns)',
    'thorough': 'as quick plus two restarts, four-request histories with a restart after the first, and '
                'the inverse for 4 polynomials',
  },
  'outside': ['the inverse for 5 polynomials in the quick tier', 'callers that overwrite entries of a returned matrix',
              'cache directories with files this code did not write'],
  'assumptions': ['sympy integer matrices convert to ints exactly'],
}

REQ = ['m1', 'm2', 'm3', 'i1', 'i2', 'i3']


def cases(tier):
  """A history is a list of requests; '|' starts a new process that sees only
  the cache directory of the ones before."""
  out = []
  big = tier == 'thorough'

  def add(cid, first, rest, limit=0, prio=0):
    out.append({'id': cid, 'first': list(first), 'rest': [list(r) for r in rest],
                'limit': max(limit, 400 if big else 40), 'notrace': limit > 0, 'validate': 0 if prio else 3, 'prio': prio,
                'replay_s': 400 if cid[1:2] == '5' else 60,
                'w': len(rest) * (1 + len(rest[0]))})
  two = list(itertools.product(REQ if big else ['m2', 'm3', 'i2', 'i3'], REQ))
  for a in REQ:
    add(a + '_one', [a], [[b] for b in REQ] + [['|', b] for b in REQ])
    add(a + '|two', [a, '|'], two)
    add(a + '_two', [a], two)
    add(a + '_|', [a], [[b, '|', c] for b, c in two if big or b[1] == '3'])
    if big:
      add(a + '||', [a, '|'], [[b, '|', c] for b, c in two])
      for b in REQ:
        add(a + '|three' + b, [a, '|', b], two)
  add('m4', ['m4'], [['m2'], ['|', 'm4']])
  add('i4', ['i4'], [[], ['|', 'i4']], 90, 1)
  add('m5', ['m5'], [[]], 150, 2)
  if big:
    add('m5b', ['m5'], [['|', 'm5'], ['m2']])
    add('i5', ['i5'], [[]], 900)
    add('i4b', ['i4'], [['i3'], ['m4'], ['|', 'i4'], ['|', 'i4', 'm4'], ['|', 'm4', 'i4']])
  out.append({'id': 'refuse', 'first': None, 'rest': [[]], 'w': 1})
  return out


def fresh():
  sys.modules.pop('matrix_of_signs', None)
  import matrix_of_signs
  return matrix_of_signs


def spec(n):
  """rows: exponents (0,0,..,0) < (0,..,0,1) < ...; columns: sign vectors in
  the order 0, 1, -1"""
  rows = []
  for ex in itertools.product((0, 1, 2), repeat=n):
    row = []
    for sg in itertools.product((0, 1, -1), repeat=n):
      v = 1
      for e, s in zip(ex, sg):
        v *= s ** e
      row.append(v)
    rows.append(row)
  return rows


FR = {}


def frac(v):
  try:
    return FR[v]
  except (KeyError, TypeError):
    pass
  r = FR[v] = frac1(v)
  return r


def rows(mat, sz):
  l = mat.tolist() if hasattr(mat, 'tolist') else [[mat[i, j] for j in range(sz)] for i in range(sz)]
  return [[frac(v) for v in row] for row in l]


def frac1(v):
  l = symx._lift(v)
  if l is None or not symx.pisconst(l[0]):
    raise ValueError('not a number: %r' % (v,))
  return l[0].get(0, 0)


def perform(history):
  """Run the requests, in a scratch directory; yields (request, matrix)."""
  here = os.getcwd()
  d = tempfile.mkdtemp(dir=here)
  out = []
  try:
    os.chdir(d)
    m = fresh()
    for r in history:
      if r == '|':
        m = fresh()
        continue
      n = int(r[1:])
      mat = m.get_matrix(n) if r[0] == 'm' else m.get_matrix_inverse(n)
      sz = 3 ** n
      if tuple(mat.shape) != (sz, sz):
        raise Exception('%s is %s' % (r, mat.shape))
      out.append((r, rows(mat, sz)))
  finally:
    os.chdir(here)
    shutil.rmtree(d, ignore_errors=True)
  return out


def refusals():
  here = os.getcwd()
  d = tempfile.mkdtemp(dir=here)
  try:
    os.chdir(d)
    m = fresh()
    for f in (m.get_matrix, m.get_matrix_inverse):
      for bad in (0, -1, 6, 'x', 2.0):
        try:
          f(bad)
        except Exception:
          continue
        return '%r was accepted' % (bad,)
  finally:
    os.chdir(here)
    shutil.rmtree(d, ignore_errors=True)
  return None


DONE = {}


def table_ok(r, mat):
  """Put the claim about this table to the solver, once per table content."""
  n = int(r[1:])
  key = (r, tuple(tuple(row) for row in mat))
  if key in DONE:
    return DONE[key]
  sz = 3 ** n
  S = spec(n)
  c = [var('c%d' % i) for i in range(sz)]
  num = symx.smt
  names = [symx.smt(v) for v in c]
  claims = []

  def dot(row, v):
    t = ['(* %s %s)' % (num(a), b) for a, b in zip(row, v) if a != 0]
    return '(+ 0.0 %s)' % ' '.join(t)
  if r[0] == 'm':
    # the table sends sign counts to Tarski queries
    for i in range(sz):
      claims.append('(= %s %s)' % (dot(mat[i], names), dot(S[i], names)))
  else:
    # the inverse recovers the counts from the Tarski queries
    t = [var('t%d' % i) for i in range(sz)]
    tn = [symx.smt(v) for v in t]
    defs = ' '.join('(= %s %s)' % (tn[i], dot(S[i], names)) for i in range(sz))
    claims.append('(=> (and %s) (and %s))' % (defs, ' '.join(
        '(= %s %s)' % (dot(mat[i], tn), names[i]) for i in range(sz))))
  ok = path().holds(claims)
  if ok is not None:
    DONE[key] = ok
  return ok


def run(case):
  rest = case['rest'][path().choose(len(case['rest']))]
  if case['first'] is None:
    base.inputs({'history': []})
    bad = refusals()
    return Outcome(bad is None, observed=bad, expected='an error')
  hist = case['first'] + list(rest)
  base.inputs({'history': hist})
  for r, mat in perform(hist):
    if table_ok(r, mat) is False:
      return Outcome(False, observed='%s after %s' % (r, hist), expected='the sign table')
  return Outcome(True)


def replay(case, inp):
  hist = inp['history']
  if not hist:
    bad = refusals()
    return {'violated': bad is not None, 'observed': bad, 'expected': 'an error'}
  try:
    got = perform(hist)
  except Exception as e:
    return {'violated': True, 'observed': 'history %s raised %r' % (hist, e), 'expected': 'matrices'}
  for r, mat in got:
    n = int(r[1:])
    S = spec(n)
    if r[0] == 'i':
      sz = 3 ** n
      prod = [[sum(mat[i][k] * S[k][j] for k in range(sz) if mat[i][k]) for j in range(sz)] for i in range(sz)]
      S = [[1 if i == j else 0 for j in range(sz)] for i in range(sz)]
      mat = prod
    if mat != S:
      return {'violated': True, 'observed': 'history %s (| is a new process): %s is wrong' % (hist, r),
              'expected': 'the sign table'}
  return {'violated': False, 'observed': 'history %s' % hist, 'expected': ''}
