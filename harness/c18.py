"""Root intervals and sector sample points on a line (GRF/grf.sage)."""
import itertools
import sys
from fractions import Fraction
import base
from base import Outcome
import symx
from symx import var, assume, path, Sym
import grfenv
from grfenv import DRAWS, HOLDS, OPS

NS = grfenv.load()
META = {
  'functions': ['QE_Factory.iso_root_intvls', 'QE_Factory.sector_sps', 'QE_Factory.k_random_sps',
                'QE_Factory.base_phase'],
  'bounds': {
    'quick': '<= 3 root intervals with symbolic end points (points and proper intervals mixed, apart or touching), '
             'supplied in every order, 1 or 2 samples per sector; <= 2 polynomials with <= 3 distinct real roots '
             'altogether, each root rational or irrational and shared or not; random draws arbitrary inside the '
             'range asked for',
    'thorough': '4 intervals; 3 polynomials, 4 roots',
  },
  'outside': ['Sage root isolation itself', 'floating-point rounding of random draws'],
  'assumptions': ['real_root_intervals returns, in ascending order, pairwise disjoint intervals that isolate the '
                  'distinct real roots: a point for some rational roots, otherwise an open interval around the root',
                  'roots() returns exactly the rational roots', 'a draw from (a, b), a < b, lies strictly inside',
                  'RR(v).exact_rational() is v'],
}


def cases(tier):
  big = tier == 'thorough'
  out = []

  def add(cid, **kw):
    kw.update({'id': cid, 'limit': 300 if big else 60, 'validate': 4, 'w': 1})
    out.append(kw)
  for k in range(1, 5 if big else 4):
    for shape in itertools.product('pi', repeat=k):   # point or interval
      for order in itertools.permutations(range(k)) if k < 4 else [(0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1)]:
        for num in ((1, 2) if k < 3 else (1,)):
          add('sector/%s/%s/%d' % (''.join(shape), ''.join(map(str, order)), num), kind='sector', shape=list(shape),
              order=list(order), num=num, touch=False)
      if k > 1:
        add('touch/%s' % ''.join(shape), kind='sector', shape=list(shape), order=list(range(k)), num=1, touch=True)
  for o in [None] + OPS:
    add('empty/%s' % o, kind='empty', op=o)
  # which roots (by rank) each polynomial has; r = rational, i = irrational
  for k in range(0, 5 if big else 4):
    for kinds in itertools.product('ri', repeat=k):
      owners = list(itertools.product([(0,), (1,), (0, 1)], repeat=k))
      if not big and k == 3:
        owners = owners[::2]
      if k == 4:
        owners = owners[::9]
      for ow in owners:
        add('roots/%s/%s' % (''.join(kinds), '.'.join(''.join(map(str, o)) for o in ow)), kind='roots',
            kinds=list(kinds), owners=[list(o) for o in ow])
  return out


class Uni(object):
  """A univariate rational polynomial known by its real roots [(rank, m)];
  all share one table of roots."""

  def __init__(self, tab, rs):
    self.tab, self.rs = tab, dict(rs)

  def univariate_polynomial(self, R=None):
    return self

  def roots(self, *a, **kw):
    return [(self.tab.val[r], m) for r, m in sorted(self.rs.items()) if self.tab.kinds[r] == 'r']

  def rational_roots(self):
    return self.roots()

  def __mul__(self, o):
    if isinstance(o, (int, long, Fraction)):
      return self
    d = dict(self.rs)
    for r, m in o.rs.items():
      d[r] = d.get(r, 0) + m
    return Uni(self.tab, d)
  __rmul__ = __mul__

  def __pow__(self, k):
    return Uni(self.tab, dict((r, m * k) for r, m in self.rs.items()))

  def real_root_intervals(self):
    out = []
    for r in sorted(self.rs):
      out.append((self.tab.interval(r, sorted(self.rs)), self.rs[r]))
    return out

  def is_constant(self):
    return False

  def __eq__(self, o):
    if isinstance(o, (int, long, Fraction)):
      return False
    return isinstance(o, Uni) and self.rs == o.rs

  def __ne__(self, o):
    return not self == o

  def __hash__(self):
    return hash(tuple(sorted(self.rs.items())))

  def __getattr__(self, n):
    if n[:2] == '__':
      raise AttributeError(n)
    raise symx.Unsupported('univariate polynomial method ' + n)


class Table(object):
  """The roots v0 < v1 < ... and the isolating intervals handed out: around
  root r, between the neighbouring roots the polynomial has."""

  def __init__(self, kinds, val, iv, exact):
    self.kinds, self.val, self.iv, self.exact = kinds, val, iv, exact
    self.made = {}

  def interval(self, r, among):
    if self.kinds[r] == 'r' and self.exact[r]:
      return (self.val[r], self.val[r])
    return self.iv(r, tuple(among))


def sym_table(kinds):
  k = len(kinds)
  val = [var('r%d' % i) for i in range(k)]
  for a, b in zip(val, val[1:]):
    assume(a < b)
  exact = [bool(path().choose(2)) if c == 'r' else False for c in kinds]
  log = {}

  def iv(r, among):
    if (r, among) not in log:
      n = len(log)
      l, u = var('l%d' % n), var('h%d' % n)
      i = among.index(r)
      assume(l < val[r])
      assume(val[r] < u)
      # disjoint from the intervals of the neighbours handed out in this call
      if i:
        q = among[i - 1]
        up = val[q] if exact[q] else log[(q, among)][1]
        assume(up <= l)
      for q in among[i + 1:i + 2]:
        assume(u <= val[q])
      # an end point is not a root of this polynomial
      for q in among:
        if q != r:
          assume(l != val[q])
          assume(u != val[q])
      log[(r, among)] = (l, u)
    return log[(r, among)]
  return Table(kinds, val, iv, exact), log


def polys(tab, owners):
  out = []
  for p in range(2):
    rs = dict((r, 1 + (p + r) % 2) for r, o in enumerate(owners) if p in o)
    if rs or p == 0:
      out.append(Uni(tab, rs))
  return out


def judge_line(val, kinds, sps):
  """sps: sample points; None or what is missing"""
  for a, b in zip(sps, sps[1:]):
    if not a <= b:
      return 'not ascending', 'ascending'
  if not val:
    return None if sps else ('no point', 'a point')
  if not any(s < val[0] for s in sps):
    return 'no point left of all roots', 'one'
  if not any(s > val[-1] for s in sps):
    return 'no point right of all roots', 'one'
  for i in range(len(val) - 1):
    if not any(val[i] < s and s < val[i + 1] for s in sps):
      return 'no point between roots %d and %d' % (i, i + 1), 'one'
  for i, c in enumerate(kinds):
    if c == 'r' and not any(s == val[i] for s in sps):
      return 'rational root %d is not sampled' % i, 'sampled'
  return None


def judge_ivs(val, kinds, ivs):
  ivs = [(tuple(i[0])) for i in ivs]
  for i, v in enumerate(val):
    hit = [(l, u) for l, u in ivs if (l < v and v < u) or (l == v and u == v)]
    if len(hit) != 1:
      return 'root %d is in %d intervals' % (i, len(hit)), 'one'
  if len(ivs) != len(val):
    return '%d intervals' % len(ivs), '%d' % len(val)
  return None


def sectors(ivs, sps, num):
  """ivs ascending"""
  for a, b in zip(sps, sps[1:]):
    if not a <= b:
      return 'not ascending', 'ascending'
  if not any(s < ivs[0][0] for s in sps):
    return 'no point in the first sector', 'one'
  if not any(s > ivs[-1][1] for s in sps):
    return 'no point in the last sector', 'one'
  for i in range(len(ivs) - 1):
    a, b = ivs[i][1], ivs[i + 1][0]
    if a == b:
      ok = any(s == a for s in sps)
    else:
      ok = len([s for s in sps if a < s and s < b]) >= num
    if not ok:
      return 'sector %d misses its points' % (i + 1), num
  for i, (l, u) in enumerate(ivs):
    if not any(l <= s and s <= u for s in sps):
      return 'interval %d misses its point' % i, 'one'
  return None


def q_factory():
  return NS['QE_Factory'](2)


def do_sector(case, ends, draws):
  q = q_factory()
  DRAWS.start(draws)
  ivs = [tuple(e) for e in ends]
  given = [(ivs[i], 1 + i) for i in case['order']]
  sps = q.sector_sps(given, num_sps=case['num'])
  return sectors(ivs, sps, case['num']), sps


def do_empty(case):
  q = q_factory()
  x, y = q.x
  A = NS['RCF_Atom']
  hyps = [A(x - y, '<', 0), A(y, '>', 0)]
  if case['op']:
    hyps += [A(x, case['op'], 0), A(x, '>' if case['op'] != '>' else '<', 0)]
  sps = q.sector_sps([], ambient_hyps=hyps, cur_var=x)
  sps2 = q.sector_sps([])
  sps3 = q.sector_sps([], cur_var=x)
  if not (len(sps) >= 1 and len(sps2) >= 1 and len(sps3) >= 1):
    return ('no point', 'a point'), sps
  if case['op'] and not all(HOLDS[case['op']](s) for s in sps):
    return ('%s for x %s 0' % (sps, case['op']), 'a point that satisfies it'), sps
  return None, sps


def do_roots(case, tab, draws):
  q = q_factory()
  DRAWS.start(draws)
  ps = polys(tab, case['owners'])
  if not case['owners']:
    ps = []
  present = [i for i, o in enumerate(case['owners'])]
  val = [tab.val[i] for i in present]
  got = q.iso_root_intvls(ps)
  bad = judge_ivs(val, tab.kinds, got)
  if bad:
    return bad
  q.proj_sets[0] = ps
  q.base_phase()
  return judge_line(val, tab.kinds, q.cell_sps[0])


def run(case):
  if case['kind'] == 'empty':
    base.inputs({})
    bad, _ = do_empty(case)
    return Outcome(bad is None, observed=bad and bad[0], expected=bad and bad[1])
  if case['kind'] == 'sector':
    ends = []
    for i, s in enumerate(case['shape']):
      l = var('l%d' % i)
      u = l if s == 'p' else var('h%d' % i)
      if s != 'p':
        assume(l < u)
      if ends:
        if case['touch'] and not (s == 'p' or case['shape'][i - 1] == 'p'):
          assume(ends[-1][1] <= l)
        else:
          assume(ends[-1][1] < l)
      ends.append((l, u))
    base.inputs({'ends': ends})
    bad, sps = do_sector(case, ends, None)
    return Outcome(bad is None, inputs={'ends': ends, 'draws': list(DRAWS.log)}, observed=bad and bad[0],
                   expected=bad and bad[1])
  tab, log = sym_table(case['kinds'])
  base.inputs({'val': tab.val})
  bad = do_roots(case, tab, None)
  ivs = [[r, list(a), l, u] for (r, a), (l, u) in log.items()]
  return Outcome(bad is None, inputs={'val': tab.val, 'exact': tab.exact, 'ivs': ivs, 'draws': list(DRAWS.log)},
                 observed=bad and bad[0], expected=bad and bad[1])


def replay(case, inp):
  fr = lambda v: Fraction(v)
  try:
    if case['kind'] == 'empty':
      bad, sps = do_empty(case)
      text = 'no roots, x %s 0: %s' % (case['op'], sps)
    elif case['kind'] == 'sector':
      ends = [(fr(a), fr(b)) for a, b in inp['ends']]
      bad, sps = do_sector(case, ends, [fr(d) for d in inp.get('draws', [])])
      text = 'intervals %s in order %s: samples %s' % ([(str(a), str(b)) for a, b in ends], case['order'],
                                                       [str(s) for s in sps])
    else:
      val = [fr(v) for v in inp['val']]
      ivs = dict(((r, tuple(a)), (fr(l), fr(u))) for r, a, l, u in inp.get('ivs', []))

      def iv(r, among):
        if (r, among) in ivs:
          return ivs[(r, among)]
        i = among.index(r)
        lo = val[r] - 1 if not i else (val[r] + val[among[i - 1]]) / 2
        hi = val[r] + 1 if r == among[-1] else (val[r] + val[among[i + 1]]) / 2
        return ((lo + val[r]) / 2, (hi + val[r]) / 2)
      tab = Table(case['kinds'], val, iv, inp.get('exact', [False] * len(val)))
      text = 'roots %s (%s) owned %s, intervals %s' % ([str(v) for v in val], ''.join(case['kinds']), case['owners'],
                                                      [(k, str(l), str(u)) for k, (l, u) in sorted(ivs.items())])
      bad = do_roots(case, tab, [fr(d) for d in inp.get('draws', [])])
  except Exception as e:
    bad = 'raised %r' % e, 'sample points'
    text = str(case['id'])
  sig = '%s' % case['id']
  if bad:
    return {'violated': True, 'sig': sig, 'observed': text + ': ' + str(bad[0]), 'expected': str(bad[1])}
  return {'violated': False, 'sig': sig, 'observed': text, 'expected': 'every sector sampled'}
