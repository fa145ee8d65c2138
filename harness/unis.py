"""Exact real root isolation of rational univariate polynomials (dense, low
degree first)."""
from fractions import Fraction


def trim(p):
  p = list(p)
  while p and p[-1] == 0:
    p.pop()
  return p


def ev(p, x):
  r = Fraction(0)
  for c in reversed(p):
    r = r * x + c
  return r


def deriv(p):
  return trim([i * c for i, c in enumerate(p)][1:])


def rem(a, b):
  a = list(a)
  while len(a) >= len(b):
    f = Fraction(a[-1]) / b[-1]
    for i in range(len(b)):
      a[len(a) - len(b) + i] -= f * b[i]
    a.pop()
    a = trim(a)
  return a


def quo(a, b):
  a = list(a)
  q = [Fraction(0)] * max(0, len(a) - len(b) + 1)
  while len(a) >= len(b):
    f = Fraction(a[-1]) / b[-1]
    k = len(a) - len(b)
    q[k] = f
    for i in range(len(b)):
      a[k + i] -= f * b[i]
    a.pop()
    a = trim(a)
  return trim(q)


def gcd(a, b):
  while b:
    a, b = b, rem(a, b)
  return a


def sturm(p):
  s = [p, deriv(p)]
  while s[-1]:
    s.append([-c for c in rem(s[-2], s[-1])])
  return s[:-1]


def variations(s, x):
  l = [v for v in (ev(p, x) for p in s) if v]
  return sum(1 for a, b in zip(l, l[1:]) if (a > 0) != (b > 0))


def mult(p, l, u):
  """multiplicity of the root in (l, u) (or at l == u)"""
  m, q = 1, p
  while True:
    d = deriv(q)
    g = gcd(q, d)
    if len(g) < 2:
      return m
    if l == u:
      if ev(g, l):
        return m
    else:
      s = sturm(quo(g, gcd(g, deriv(g)))) if len(gcd(g, deriv(g))) > 1 else sturm(g)
      if variations(s, l) == variations(s, u):
        return m
    m, q = m + 1, g


def isolate(p, points=True):
  """[((l, u), multiplicity)] ascending: (r, r) for a root that bisection
  meets (points), otherwise an open interval around exactly one root whose
  ends are no roots; intervals are disjoint"""
  p = trim([Fraction(c) for c in p])
  if len(p) < 2:
    return []
  g = gcd(p, deriv(p))
  q = quo(p, g) if len(g) > 1 else p
  s = sturm(q)
  b = 1 + max(abs(c / q[-1]) for c in q[:-1])
  b = Fraction(2 ** max(1, int(b).bit_length() + 1))
  out = []

  def go(l, u):
    n = variations(s, l) - variations(s, u)
    if n == 0:
      return
    if n == 1:
      out.append((l, u))
      return
    m = (l + u) / 2
    while ev(q, m) == 0:
      m = (m + u) / 2 if not points else m
      if points:
        break
    if ev(q, m) == 0:
      e = (u - l) / 4
      while variations(s, m - e) - variations(s, m + e) != 1 or ev(q, m - e) == 0 or ev(q, m + e) == 0:
        e = e / 2
      go(l, m - e)
      out.append((m, m))
      go(m + e, u)
    else:
      go(l, m)
      go(m, u)
  go(-b, b)
  out = [tight(q, s, l, u) for l, u in out]
  return [((l, u), mult(p, l, u)) for l, u in out]


def tight(q, s, l, u):
  """a few bisections, so that intervals are small"""
  if l == u:
    return l, u
  for _ in range(8):
    m = (l + u) / 2
    if ev(q, m) == 0:
      m = (l + m) / 2
      if ev(q, m) == 0:
        return l, u
    if variations(s, l) - variations(s, m) == 1:
      u = m
    else:
      l = m
  return l, u


def rational_roots(p):
  """[(root, multiplicity)] ascending"""
  p = trim([Fraction(c) for c in p])
  if len(p) < 2:
    return []
  out = []
  m = 0
  while p and p[0] == 0:
    p, m = p[1:], m + 1
  if m:
    out.append((Fraction(0), m))
  if len(p) < 2:
    return out
  den = 1
  for c in p:
    a, b = den, c.denominator
    while b:
      a, b = b, a % b
    den = den * c.denominator // a
  z = [int(c * den) for c in p]
  # close to each isolated root, test the nearest fraction of small height
  for (l, u), k in isolate(p):
    r = snap(p, z, l, u)
    if r is not None:
      out.append((r, k))
  return sorted(out)


def snap(p, z, l, u):
  if l == u:
    return l
  an = abs(z[-1])
  # a rational root is k/an
  while (u - l) * an > Fraction(1, 2):
    m = (l + u) / 2
    v = ev(p, m)
    if v == 0:
      return m
    if (ev(p, l) > 0) != (v > 0):
      u = m
    elif (ev(p, u) > 0) != (v > 0):
      l = m
    else:            # even multiplicity
      g = quo(p, gcd(p, deriv(p)))
      return snap(g, z, l, u)
  k = (l * an).numerator // (l * an).denominator
  for j in (k, k + 1):
    r = Fraction(j, an)
    if l < r < u and ev(p, r) == 0:
      return r
  return None
