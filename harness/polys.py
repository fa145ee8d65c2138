"""Symbolic univariate polynomials given by their roots, and the oracle that
reads every sign off the order of those roots."""
from fractions import Fraction

import symx
from symx import Sym, var, assume, path

# The real line is cut by an ordered chain of n symbolic points c_0 < c_1 < ..
# Cells are numbered 0..2n: even cell 2i is the open interval left of c_i
# (2n: right of all), odd cell 2i+1 is the point c_i.


def chain(n, base='u', fix=None):
  """n symbolic reals in strictly increasing order: u, u+g1, u+g1+g2, ...
  Every strictly increasing n-tuple is one choice of u and positive g's.
  fix: {name: number} pins some of them."""
  fix = fix or {}
  r = []
  if n:
    cur = fix[base] if base in fix else var(base)
    r.append(cur)
    for i in range(1, n):
      name = 'g%d' % i
      if name in fix:
        g = fix[name]
      else:
        g = var(name)
        assume(g > 0)
      cur = cur + g
      r.append(cur)
  return r


class RootPoly(object):
  """lc * prod (x - c_i)^m_i * prod ((x-a)^2 + b^2), over a chain.

  With an odd power n, the first factor (x - c) is x^n - c^n instead: the same
  sign everywhere, and sparse coefficients of a higher degree."""

  def __init__(self, pts, mults, lc, pairs=(), power=1):
    self.pts, self.mults, self.lc, self.pairs = pts, dict(mults), lc, pairs
    self.power = power
    self.co = None

  def degree(self):
    return sum(self.mults.values()) + 2 * len(self.pairs) + self.power - 1

  def coefs(self):
    if self.co is None:
      p = [self.lc]
      power = self.power
      for i in sorted(self.mults):
        for _ in range(self.mults[i]):
          if power > 1:
            p = mul(p, [-self.pts[i] ** power] + [0] * (power - 1) + [1])
            power = 1
          else:
            p = mul(p, [-self.pts[i], 1])
      for a, b in self.pairs:
        p = mul(p, [a * a + b * b, -2 * a, 1])
      self.co = p
    return list(self.co)

  def roots(self):
    return [self.pts[i] for i in sorted(self.mults) if self.mults[i]]

  def sign_lc(self):
    if self.lc > 0:
      return 1
    return -1

  def sign_in_cell(self, cell, slc):
    """sign on a cell of the chain (slc: sign of the leading coefficient)"""
    s = slc
    for i, m in self.mults.items():
      if not m:
        continue
      if cell == 2 * i + 1:
        return 0
      if cell < 2 * i + 1 and m % 2:
        s = -s
    return s


def mul(a, b):
  r = [0] * (len(a) + len(b) - 1)
  for i, x in enumerate(a):
    for j, y in enumerate(b):
      if y is not 0:
        r[i + j] = r[i + j] + x * y
  return r


def ev(p, x):
  r = 0
  for c in reversed(p):
    r = r * x + c
  return r


def deriv(p):
  return [c * i for i, c in enumerate(p)][1:]


# ---- concrete oracle: signs of rational polynomials on every cell of the line

def trim(p):
  p = list(p)
  while p and p[-1] == 0:
    p.pop()
  return p


def divmod_poly(f, g):
  f = [Fraction(c) for c in f]
  q = [Fraction(0)] * max(0, len(f) - len(g) + 1)
  while len(f) >= len(g) and f:
    k = len(f) - len(g)
    c = f[-1] / g[-1]
    q[k] = c
    for i, v in enumerate(g):
      f[i + k] -= c * v
    f = trim(f[:-1])
  return trim(q), trim(f)


def gcd_poly(f, g):
  f, g = trim([Fraction(c) for c in f]), trim([Fraction(c) for c in g])
  while g:
    f, g = g, divmod_poly(f, g)[1]
  return [c / f[-1] for c in f] if f else f


def sgn(v):
  return -1 if v < 0 else (1 if v > 0 else 0)


def sturm(p):
  s = [trim([Fraction(c) for c in p])]
  d = trim(deriv(s[0]))
  while d:
    s.append(d)
    d = [-c for c in divmod_poly(s[-2], s[-1])[1]]
    d = trim(d)
  return s


def variations(seq, x):
  if x == 'inf':
    v = [sgn(p[-1]) for p in seq]
  elif x == '-inf':
    v = [sgn(p[-1]) * (-1) ** ((len(p) - 1) % 2) for p in seq]
  else:
    v = [sgn(ev(p, x)) for p in seq]
  v = [s for s in v if s]
  return sum(1 for a, b in zip(v, v[1:]) if a != b)


def isolate(p):
  """Isolating intervals (a, b], b not necessarily a root, of the distinct real
  roots of a non-constant rational polynomial, in order; a point root is (r, r)."""
  p = trim([Fraction(c) for c in p])
  d = gcd_poly(p, deriv(p))
  if len(d) > 1:
    p = divmod_poly(p, d)[0]
  seq = sturm(p)
  bound = 1 + max(abs(c / p[-1]) for c in p)
  out = []

  def rec(a, b, va, vb):
    n = va - vb
    if n == 0:
      return
    if n == 1:
      # tighten a little so that neighbouring intervals separate
      out.append([a, b])
      return
    m = (a + b) / 2
    vm = variations(seq, m)
    rec(a, m, va, vm)
    rec(m, b, vm, vb)
  rec(-bound, bound, variations(seq, '-inf'), variations(seq, 'inf'))
  return p, seq, out


def count_roots(p):
  p = trim([Fraction(c) for c in p])
  if len(p) < 2:
    return 0
  s = sturm(p)
  return variations(s, '-inf') - variations(s, 'inf')


def cells(polys):
  """All sign vectors the polynomials take on the line, in order, as
  (sign vector, is_point) - computed by root isolation of their product."""
  polys = [trim([Fraction(c) for c in p]) for p in polys]
  prod = [Fraction(1)]
  for p in polys:
    if len(p) > 1:
      prod = mul(prod, p)
  if len(prod) < 2:
    return [(tuple(sgn(p[0]) if p else 0 for p in polys), False)]
  sq, seq, ivs = isolate(prod)
  res = []
  n = len(ivs)
  if not n:
    return [(tuple(sgn(ev(p, 0)) if p else 0 for p in polys), False)]
  # sample points between consecutive roots
  def sep(k):
    """a rational strictly between root k and root k+1"""
    while True:
      b = ivs[k][1]
      a = ivs[k + 1][0]
      # root k lies in (.., b], root k+1 in (a, ..]; b <= a
      if b < a:
        return (a + b) / 2
      if ev(sq, b) != 0:
        return b
      # b is root k: move right
      lo, hi = ivs[k + 1]
      m = (lo + hi) / 2
      vm = variations(seq, m)
      if variations(seq, lo) - vm == 1:
        ivs[k + 1] = [lo, m]
      else:
        ivs[k + 1] = [m, hi]
  samples = [ivs[0][0] - 1]
  for k in range(n - 1):
    samples.append(sep(k))
  samples.append(ivs[-1][1] + 1)
  for k in range(n):
    s = samples[k]
    res.append((tuple(sgn(ev(p, s)) if p else 0 for p in polys), False))
    vec = []
    for p in polys:
      if not p:
        vec.append(0)
      elif len(p) == 1:
        vec.append(sgn(p[0]))
      else:
        a, b = samples[k], samples[k + 1]
        g = gcd_poly(p, sq)
        if len(g) > 1:
          gs = sturm(g)
          if variations(gs, a) - variations(gs, b) > 0:
            vec.append(0)
            continue
        # no root in (a, b): sign is constant there
        vec.append(sgn(ev(p, a)))
    res.append((tuple(vec), True))
  s = samples[n]
  res.append((tuple(sgn(ev(p, s)) if p else 0 for p in polys), False))
  return res
