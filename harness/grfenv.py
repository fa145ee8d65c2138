"""Stand-in for the part of Sage that GRF/ uses, and the loader that runs
GRF/grf.sage and GRF/smt2.py from /repo's text in it.

Polynomials are exact and sparse; coefficients and substituted values may be
rational or symbolic.  What only Sage can do (root isolation, Groebner bases,
0-1 optimisation, random draws) is a stand-in that keeps Sage's contract; where
the contract leaves a choice the harness decides which one is taken."""
import imp
import itertools
import os
import re
import sys
import tokenize
import StringIO
import random as _random
from fractions import Fraction

import base
from base import REPO
import symx
from symx import Sym, var, path, assume


def is_num(v):
  return isinstance(v, (int, long, Fraction, float, Sym))


def exact(v):
  if isinstance(v, float):
    v = Fraction(v)
  if isinstance(v, Fraction) and v.denominator == 1:
    return int(v.numerator)
  if isinstance(v, Integer):
    return int(v)
  return v


class Integer(int):
  """Sage integer literal: division is exact"""

  def __div__(self, o):
    if isinstance(o, (int, long)):
      return exact(Fraction(int(self), int(o)))
    return int(self) / o

  def __rdiv__(self, o):
    if isinstance(o, (int, long)):
      return exact(Fraction(int(o), int(self)))
    return o / int(self)


def is_zero(c):
  """is the coefficient syntactically zero?"""
  if isinstance(c, Sym):
    return not c.n
  return c == 0


class P(object):
  """{((name, exponent), ...): coefficient}, names sorted"""

  def __init__(self, terms, ring):
    self.t = dict((m, c) for m, c in terms.items() if not is_zero(c))
    self.ring = ring

  # construction
  def _of(self, o):
    if isinstance(o, P):
      return o
    if is_num(o):
      return P({(): exact(o)}, self.ring)
    return None

  def _ring(self, o):
    return self.ring if self.ring.n >= o.ring.n else o.ring

  def __add__(self, o):
    o = self._of(o)
    if o is None:
      return NotImplemented
    t = dict(self.t)
    for m, c in o.t.items():
      t[m] = exact(t[m] + c) if m in t else c
    return P(t, self._ring(o))
  __radd__ = __add__

  def __neg__(self):
    return P(dict((m, -c) for m, c in self.t.items()), self.ring)

  def __pos__(self):
    return self

  def __sub__(self, o):
    o = self._of(o)
    if o is None:
      return NotImplemented
    return self + (-o)

  def __rsub__(self, o):
    o = self._of(o)
    if o is None:
      return NotImplemented
    return o + (-self)

  def __mul__(self, o):
    o = self._of(o)
    if o is None:
      return NotImplemented
    t = {}
    for m, c in self.t.items():
      for m2, c2 in o.t.items():
        k = mono_mul(m, m2)
        v = c * c2
        t[k] = exact(t[k] + v) if k in t else exact(v)
    return P(t, self._ring(o))
  __rmul__ = __mul__

  def __div__(self, o):
    o = self._of(o)
    if o is None:
      return NotImplemented
    if not o.t:
      raise ZeroDivisionError('division by zero')
    if o.is_constant():
      c = o.t[()]
      return P(dict((m, exact(v * Fraction(1) / c if not isinstance(c, Sym) else v / c)) for m, v in self.t.items()),
               self.ring)
    q = self._exact_div(o)
    if q is None:
      raise TypeError('fraction field element')
    return q
  __truediv__ = __div__

  def _exact_div(self, o):
    import sympy
    q, r = sympy.div(to_sympy(self), to_sympy(o), *sorted(set(to_sympy(self).free_symbols) |
                                                         set(to_sympy(o).free_symbols), key=str))
    return from_sympy(q, self.ring) if r == 0 else None

  def __rdiv__(self, o):
    o = self._of(o)
    if o is None:
      return NotImplemented
    return o / self
  __rtruediv__ = __rdiv__

  def __floordiv__(self, o):
    import sympy
    o = self._of(o)
    gs = sorted(set(to_sympy(self).free_symbols) | set(to_sympy(o).free_symbols), key=str)
    if not gs:
      return self / o
    return from_sympy(sympy.div(to_sympy(self), to_sympy(o), *gs)[0], self.ring)

  def __pow__(self, k):
    k = int(k)
    r = P({(): 1}, self.ring)
    for _ in range(k):
      r = r * self
    return r
  __xor__ = __pow__

  def __getattr__(self, n):
    # Sage has it, the stand-in does not: no verdict rather than an error
    if n[:2] == '__' or n[:4] in ('is_R', 'is_F', '_sym'):
      raise AttributeError(n)
    raise symx.Unsupported('Sage polynomial method ' + n)

  # comparison: constants by value, else by form
  def __eq__(self, o):
    o = self._of(o)
    if o is None:
      return False
    if self.is_constant() and o.is_constant():
      return self.t.get((), 0) == o.t.get((), 0)
    d = self - o
    return not d.t

  def __ne__(self, o):
    r = self == o
    return not r if isinstance(r, bool) else (r == False)

  def _c(self, o):
    o = self._of(o)
    if o is None:
      raise TypeError('comparison')
    if self.is_constant() and o.is_constant():
      return self.t.get((), 0), o.t.get((), 0)
    d = self - o
    if d.is_constant():
      return d.t.get((), 0), 0
    # Sage compares by the monomial order
    return d.lc(), 0

  def __lt__(self, o):
    a, b = self._c(o)
    return a < b

  def __le__(self, o):
    a, b = self._c(o)
    return a <= b

  def __gt__(self, o):
    a, b = self._c(o)
    return a > b

  def __ge__(self, o):
    a, b = self._c(o)
    return a >= b

  def __nonzero__(self):
    if self.is_constant():
      return bool(self.t.get((), 0) != 0)
    return True

  def __hash__(self):
    return hash(tuple(sorted((m, hash(c)) for m, c in self.t.items())))

  def __float__(self):
    return float(self.constant())

  def constant(self):
    if not self.is_constant():
      raise TypeError('not a constant: %s' % self)
    return self.t.get((), 0)

  constant_coefficient = lambda self: self.t.get((), 0)

  def __repr__(self):
    if not self.t:
      return '0'
    out = []
    for m in sorted(self.t, key=key_degrevlex(self.ring.names), reverse=True):
      f = ['%s%s' % (n, '^%d' % e if e > 1 else '') for n, e in m]
      c = self.t[m]
      if not (isinstance(c, (int, long)) and c == 1 and f):
        f = [str(c)] + f
      out.append('*'.join(f))
    return ' + '.join(out)
  __str__ = __repr__

  # structure
  def parent(self):
    return self.ring

  base_ring = lambda self: QQ

  def variables(self):
    seen = set(n for m in self.t for n, _ in m)
    return tuple(g for g in self.ring.gens() if g.name() in seen) + tuple(
      Gen(n, self.ring) for n in sorted(seen - set(self.ring.names)))

  def name(self):
    (m, c), = self.t.items()
    (n, e), = m
    return n

  def nvariables(self):
    return len(self.variables())

  def is_constant(self):
    return not self.t or list(self.t) == [()]

  def is_zero(self):
    return not self.t

  def is_gen(self):
    return len(self.t) == 1 and list(self.t.values())[0] == 1 and sum(e for _, e in list(self.t)[0]) == 1

  def is_monomial(self):
    return len(self.t) == 1 and list(self.t.values())[0] == 1

  is_term = lambda self: len(self.t) == 1
  is_univariate = lambda self: len(self.variables()) <= 1

  def monomials(self):
    return [P({m: 1}, self.ring) for m in sorted(self.t, key=key_degrevlex(self.ring.names), reverse=True)]

  def coefficients(self):
    return [self.t[m] for m in sorted(self.t, key=key_degrevlex(self.ring.names), reverse=True)]

  def _lm(self):
    return max(self.t, key=key_degrevlex(self.ring.names))

  def lt(self):
    if not self.t:
      return self
    m = self._lm()
    return P({m: self.t[m]}, self.ring)

  def lm(self):
    return P({self._lm(): 1}, self.ring) if self.t else self

  def lc(self):
    return self.t[self._lm()] if self.t else 0

  leading_coefficient = lc

  def total_degree(self):
    return max([sum(e for _, e in m) for m in self.t]) if self.t else -1

  def degree(self, v=None):
    if not self.t:
      return -1
    if v is None:
      return self.total_degree()
    n = v.name()
    return max([dict(m).get(n, 0) for m in self.t])

  def degrees(self):
    return tuple(self.degree(g) if self.t else 0 for g in self.ring.gens())

  def coefficient(self, d):
    """coefficient of the given degrees of the given variables"""
    if isinstance(d, P):
      (m, c), = d.t.items()
      want = dict(m)
      names = set(want) if want else set(self.ring.names)
      want = dict((n, want.get(n, 0)) for n in names)
    else:
      want = dict((k.name(), int(e)) for k, e in d.items())
    out = {}
    for m, c in self.t.items():
      dm = dict(m)
      if all(dm.get(n, 0) == e for n, e in want.items()):
        out[tuple((n, e) for n, e in m if n not in want)] = c
    return P(out, self.ring)

  def derivative(self, v):
    n = v.name()
    out = {}
    for m, c in self.t.items():
      dm = dict(m)
      e = dm.get(n, 0)
      if e:
        dm[n] = e - 1
        out[tuple(sorted((a, b) for a, b in dm.items() if b))] = c * e
    return P(out, self.ring)
  diff = derivative

  def substitute(self, d=None, **kw):
    vals = {}
    for k, v in (d or {}).items():
      vals[k.name()] = v
    vals.update(kw)
    tot = P({}, self.ring)
    for m, c in self.t.items():
      f = P({tuple((n, e) for n, e in m if n not in vals): c}, self.ring)
      for n, e in m:
        if n in vals:
          v = vals[n]
          for _ in range(e):
            f = f * v
      tot = tot + f
    return tot
  subs = substitute

  def __call__(self, *a, **kw):
    if a and isinstance(a[0], dict):
      return self.substitute(a[0])
    if len(a) == 1 and len(self.variables()) <= 1:
      vs = self.variables()
      return self.substitute({vs[0]: a[0]}) if vs else self
    return self.substitute(dict(zip(self.ring.gens(), a)), **kw)

  def univariate_polynomial(self, R=None):
    if len(self.variables()) > 1:
      raise TypeError('polynomial must involve at most one variable')
    return HOOK['univariate'](self)

  def reduce(self, basis):
    import sympy
    bs = [b for b in basis if b.t]
    if not bs or not self.t:
      return self
    gs = [sympy.Symbol(n) for n in self.ring.names]
    if any(b.is_constant() for b in bs):
      return P({}, self.ring)
    try:
      _, r = sympy.reduced(to_sympy(self), [to_sympy(b) for b in bs], *gs, order='grevlex')
    except sympy.polys.polyerrors.ComputationFailed:
      return self
    return from_sympy(r, self.ring)
  mod = __mod__ = reduce

  def resultant(self, o, v):
    import sympy
    return from_sympy(sympy.resultant(to_sympy(self), to_sympy(self._of(o)), sympy.Symbol(v.name())), self._ring(o))

  def discriminant(self, v):
    import sympy
    n = self.degree(v)
    if n < 1:
      return P({}, self.ring)
    if n == 1:
      return P({(): 1}, self.ring)
    return from_sympy(sympy.discriminant(to_sympy(self), sympy.Symbol(v.name())), self.ring)

  def factor(self, *a, **kw):
    """[(irreducible factor, exponent)]; the unit is dropped"""
    import sympy
    if self.is_constant():
      return []
    gs = sorted(to_sympy(self).free_symbols, key=str)
    return [(from_sympy(f.as_expr() if hasattr(f, 'as_expr') else f, self.ring), int(e))
            for f, e in sympy.factor_list(to_sympy(self), *gs)[1]]

  def gcd(self, o):
    import sympy
    return from_sympy(sympy.gcd(to_sympy(self), to_sympy(self._of(o))), self.ring)

  def is_squarefree(self):
    return all(e == 1 for _, e in self.factor())

  def squarefree_part(self):
    r = P({(): 1}, self.ring)
    for f, _ in self.factor():
      r = r * f
    return r
  radical = squarefree_part

  # univariate operations
  def roots(self, *a, **kw):
    return HOOK['roots'](self)

  def real_root_intervals(self):
    return HOOK['intervals'](self)

  def gen(self):
    return self.ring.gen()


class Gen(P):
  def __init__(self, name, ring):
    P.__init__(self, {((name, 1),): 1}, ring)


def mono_mul(a, b):
  d = dict(a)
  for n, e in b:
    d[n] = d.get(n, 0) + e
  return tuple(sorted(d.items()))


def key_degrevlex(names):
  def key(m):
    d = dict(m)
    return (sum(d.values()), tuple(-d.get(n, 0) for n in reversed(names)))
  return key


def to_sympy(p):
  import sympy
  r = sympy.Integer(0)
  for m, c in p.t.items():
    if isinstance(c, Sym):
      raise symx.Unsupported('symbolic coefficient')
    f = Fraction(c)
    t = sympy.Rational(f.numerator, f.denominator)
    for n, e in m:
      t = t * sympy.Symbol(n) ** e
    r = r + t
  return r


def from_sympy(e, ring):
  import sympy
  e = sympy.expand(e)
  out = {}
  for t in sympy.Add.make_args(e):
    c = Fraction(1)
    m = {}
    for f in sympy.Mul.make_args(t):
      if f.is_Rational:
        c = c * Fraction(int(f.p), int(f.q))
      elif f.is_Symbol:
        m[f.name] = m.get(f.name, 0) + 1
      else:
        m[f.base.name] = m.get(f.base.name, 0) + int(f.exp)
    k = tuple(sorted(m.items()))
    out[k] = exact(out.get(k, 0) + c)
  return P(out, ring)


class Ring(object):
  def __init__(self, names):
    self.names = list(names)
    self.n = len(self.names)

  def gens(self):
    return tuple(Gen(n, self) for n in self.names)

  def gen(self, i=0):
    return self.gens()[i]

  def ngens(self):
    return self.n

  def variable_names(self):
    return tuple(self.names)

  def base_ring(self):
    return QQ

  def __call__(self, v):
    if isinstance(v, P):
      bad = set(n for m in v.t for n, _ in m) - set(self.names)
      if bad:
        raise TypeError('cannot convert %s' % v)
      return P(v.t, self)
    if isinstance(v, (str, unicode)):
      v = Fraction(str(v)) if re.match(r'-?[0-9.]+$', v) else None
    if hasattr(v, 'is_Rational') and getattr(v, 'is_Rational'):
      v = Fraction(int(v.p), int(v.q))
    if is_num(v):
      return P({(): exact(v)}, self)
    raise TypeError('cannot convert %r' % (v,))
  coerce = __call__

  def zero(self):
    return P({}, self)

  def one(self):
    return P({(): 1}, self)

  def ideal(self, *l):
    return Ideal(l)

  def __contains__(self, v):
    return isinstance(v, P)

  def __getattr__(self, n):
    if n[:2] == '__':
      raise AttributeError(n)
    raise symx.Unsupported('Sage ring method ' + n)

  def __eq__(self, o):
    return isinstance(o, Ring) and self.names == o.names

  def __ne__(self, o):
    return not self == o

  def __hash__(self):
    return hash(tuple(self.names))


class QQField(object):
  def __call__(self, v, w=None):
    if w is not None:
      return exact(Fraction(v) / Fraction(w))
    if isinstance(v, P):
      return v.constant()
    if isinstance(v, Sym):
      return v
    if isinstance(v, (str, unicode)):
      return exact(Fraction(str(v)))
    return exact(Fraction(v))

  def __getitem__(self, name):
    return Ring([n.strip() for n in name.split(',')])


class RealField(object):
  def __init__(self, v):
    self.v = v

  def exact_rational(self):
    return exact(self.v)


QQ = QQField()


def PolynomialRing(base_, names='x', n=None, order=None, **kw):
  if isinstance(names, (list, tuple)):
    return Ring(names)
  if n is None and not isinstance(names, (str, unicode)):
    return Ring(['x%d' % i for i in range(names)])
  if n is None:
    return Ring([m.strip() for m in names.split(',')])
  return Ring(['%s%d' % (names, i) for i in range(int(n))])


def sage_parent(v):
  return v.parent() if isinstance(v, P) else QQ


class Ideal(object):
  def __init__(self, *l):
    if len(l) == 1 and isinstance(l[0], (list, tuple)):
      l = l[0]
    self.g = [p for p in l]

  def groebner_basis(self, *a, **kw):
    import sympy
    ring = self.g[0].parent()
    for p in self.g:
      if p.parent().n > ring.n:
        ring = p.parent()
    gs = [p for p in self.g if p.t]
    if not gs:
      return [ring.zero()]
    if any(p.is_constant() for p in gs):
      return [ring.one()]
    G = sympy.groebner([to_sympy(p) for p in gs], *[sympy.Symbol(n) for n in ring.names], order='grevlex')
    return [from_sympy(e, ring) for e in G.exprs]

  gens = lambda self: list(self.g)

  def reduce(self, p):
    return p.reduce(self.groebner_basis())


def sage_floor(v):
  return HOOK['floor'](v)


def sage_ceil(v):
  return -HOOK['floor'](-v)


def sage_join(l, sep=' '):
  return sep.join(l)


def sage_eval(s, *a, **kw):
  s = str(s)
  if not re.match(r'-?\d+(\.\d*)?$', s):
    raise SyntaxError('sage_eval(%r)' % s)
  return exact(Fraction(s[:-1] if s.endswith('.') else s))


# -- 0-1 optimisation -------------------------------------------------------

class Lin(object):
  def __init__(self, t=None, c=0):
    self.t, self.c = dict(t or {}), c

  def __add__(self, o):
    if isinstance(o, Lin):
      t = dict(self.t)
      for k, v in o.t.items():
        t[k] = t.get(k, 0) + v
      return Lin(t, self.c + o.c)
    return Lin(self.t, self.c + o)
  __radd__ = __add__

  def __neg__(self):
    return self * -1

  def __sub__(self, o):
    return self + (-o)

  def __rsub__(self, o):
    return (-self) + o

  def __mul__(self, k):
    return Lin(dict((a, b * k) for a, b in self.t.items()), self.c * k)
  __rmul__ = __mul__

  def value(self, asg):
    return self.c + sum(v * asg[k] for k, v in self.t.items())

  def __ge__(self, o):
    return Con(self - o, '>=')

  def __le__(self, o):
    return Con(self - o, '<=')

  def __eq__(self, o):
    return Con(self - o, '==')
  __hash__ = None


class Con(object):
  def __init__(self, e, op):
    self.e, self.op = e, op

  def holds(self, asg):
    v = self.e.value(asg)
    return v >= 0 if self.op == '>=' else v <= 0 if self.op == '<=' else v == 0


class MIPVar(object):
  def __init__(self, p):
    self.p, self.keys = p, []

  def __getitem__(self, k):
    if k not in self.keys:
      self.keys.append(k)
      self.p.vars.append((id(self), k))
    return Lin({(id(self), k): 1})

  def keys_(self):
    return list(self.keys)


class MIPSolverException(Exception):
  pass


class MIP(object):
  def __init__(self, maximization=True, solver=None, **kw):
    self.max, self.cons, self.obj, self.vars, self.sol = maximization, [], Lin(), [], None

  def new_variable(self, **kw):
    if not (kw.get('binary') or kw.get('dim')):
      raise symx.Unsupported('only binary variables')
    return MIPVar(self)

  def add_constraint(self, e, max=None, min=None, **kw):
    if isinstance(e, bool):
      if not e:
        self.cons.append(Con(Lin({}, 1), '=='))
      return
    if isinstance(e, Con):
      self.cons.append(e)
      return
    if min is not None:
      self.cons.append(Con(e - min, '>='))
    if max is not None:
      self.cons.append(Con(e - max, '<='))

  def set_objective(self, e):
    self.obj = e if isinstance(e, Lin) else Lin({}, e or 0)

  def show(self):
    pass

  def __getattr__(self, n):
    if n[:2] == '__':
      raise AttributeError(n)
    raise symx.Unsupported('MixedIntegerLinearProgram.' + n)

  def solve(self, *a, **kw):
    best, sols = None, []
    for bits in itertools.product((0, 1), repeat=len(self.vars)):
      asg = dict(zip(self.vars, bits))
      if all(c.holds(asg) for c in self.cons):
        v = self.obj.value(asg)
        if self.max:
          v = -v
        if best is None or v < best:
          best, sols = v, [asg]
        elif v == best:
          sols.append(asg)
    if best is None:
      raise MIPSolverException('no feasible solution')
    self.sol = sols[HOOK['pick'](len(sols))]
    return -best if self.max else best

  def get_values(self, *xs):
    out = []
    for x in xs:
      if isinstance(x, Lin):
        out.append(float(x.value(self.sol)))
      else:
        out.append(dict((k, float(self.sol[(id(x), k)])) for k in x.keys))
    return out[0] if len(out) == 1 else out


# -- what the harness decides ------------------------------------------------

def _floor(v):
  import math
  if isinstance(v, P):
    v = v.constant()
  v = Fraction(v)
  return v.numerator // v.denominator


def sym_floor(v):
  """the integer n with n <= v < n + 1"""
  if isinstance(v, P):
    v = v.constant()
  if not isinstance(v, Sym):
    return _floor(v)
  p = path()
  p.notes['floors'] = k = p.notes.get('floors', 0) + 1
  n = var('n%d' % k, 'Int')
  assume(n <= v)
  assume(n + 1 > v)
  return n


HOOK = {
  'univariate': lambda p: p,
  'roots': None,
  'intervals': None,
  'floor': sym_floor,
  'pick': lambda n: 0,
}


class Draws(object):
  """Random draws: arbitrary values in the range asked for.  In a replay the
  recorded draws are handed out again."""

  def __init__(self):
    self.log = []
    self.play = None

  def start(self, play=None):
    self.log, self.play = [], (list(play) if play is not None else None)

  def _next(self, n):
    return None

  def uniform(self, a, b):
    if self.play is not None:
      if not self.play:
        return (Fraction(a) + Fraction(b)) / 2
      return self.play.pop(0)
    if path() is None:
      return exact((Fraction(a) + Fraction(b)) / 2)
    if not isinstance(a, Sym) and not isinstance(b, Sym) and a == b:
      self.log.append(a)
      return a
    u = var('u%d' % len(self.log))
    lo, hi = (a, b) if a <= b else (b, a)
    if lo == hi:
      self.log.append(a)
      return a
    # the two ends have probability zero
    assume(u > lo)
    assume(u < hi)
    self.log.append(u)
    return u

  def pick(self, n):
    if self.play is not None:
      return int(self.play.pop(0)) if self.play else 0
    i = path().choose(n) if path() is not None else 0
    self.log.append(i)
    return i

  def choice(self, l):
    return l[self.pick(len(l))]

  def randrange(self, n):
    return self.pick(n)

  def randint(self, a, b):
    return a + self.pick(b - a + 1)

  def random(self):
    return self.uniform(0, 1)

  def seed(self, *a):
    pass


DRAWS = Draws()


# -- loading -------------------------------------------------------------------

def preparse(text):
  """Sage's ^ is a power and its integer division is exact."""
  out = []
  last = (1, 0)
  lines = text.split('\n')
  toks = list(tokenize.generate_tokens(StringIO.StringIO(text).readline))
  pos = []
  for k, t in enumerate(toks):
    if t[0] == tokenize.OP and t[1] == '^':
      pos.append((t[2], t[3], '**'))
    elif t[0] == tokenize.NUMBER and re.match(r'\d+$', t[1]) and (
        (k and toks[k - 1][1] == '/') or toks[k + 1][1] == '/'):
      pos.append((t[2], t[3], 'Integer(%s)' % t[1]))
  for (r, c), (r2, c2), s in reversed(pos):
    l = lines[r - 1]
    lines[r - 1] = l[:c] + s + l[c2:]
  return '\n'.join(lines)


def module(name, **attrs):
  m = sys.modules.get(name)
  if m is None:
    m = imp.new_module(name)
    sys.modules[name] = m
    if '.' in name:
      up, leaf = name.rsplit('.', 1)
      setattr(module(up), leaf, m)
  m.__path__ = []
  m.__all__ = [k for k in attrs if not k.startswith('_')]
  for k, v in attrs.items():
    setattr(m, k, v)
  return m


class MathShim(object):
  """math on symbolic numbers"""
  import math as _m

  def __getattr__(self, n):
    return getattr(self._m, n)

  def copysign(self, a, b):
    if isinstance(b, P):
      b = b.constant()
    if isinstance(b, Sym) or isinstance(a, Sym) or isinstance(b, Fraction):
      a = abs(Fraction(a) if isinstance(a, float) else a)
      return a if b >= 0 else -a
    return self._m.copysign(a, b)

  def fabs(self, a):
    return abs(a)


class Optimize(object):
  """fsolve gives back some vector of the right length"""
  answers = None

  @staticmethod
  def fsolve(f, x, *a, **kw):
    return HOOK['fsolve'](f, x)

  def __getattr__(self, n):
    raise symx.Unsupported('scipy.optimize.' + n)


def install():
  import pyparsing
  module('sage')
  module('sage.rings')
  module('sage.rings.polynomial')
  module('sage.rings.polynomial.real_roots', real_roots=lambda p, **kw: HOOK['intervals'](p))
  module('sage.rings.polynomial.multi_polynomial_libsingular', MPolynomial_libsingular=P)
  module('sage.numerical')
  module('sage.numerical.optimize', minimize=lambda *a, **k: None)
  module('sage.all', QQ=QQ)
  module('numpy', array=list)
  opt = Optimize()
  module('scipy')
  module('scipy.optimize')
  sys.modules['scipy.optimize'] = opt
  sys.modules['scipy'].optimize = opt
  module('matplotlib')
  sys.modules['matplotlib.pyparsing_py2'] = pyparsing
  sys.modules['matplotlib'].pyparsing_py2 = pyparsing


def load(smt2=False):
  """A fresh namespace with grf.sage (and smt2.py) from the tree."""
  install()
  d = os.path.join(REPO, 'GRF')
  if d not in sys.path:
    sys.path.insert(0, d)
  sys.modules.pop('local_search', None)
  ns = {'__name__': 'grf', 'QQ': QQ, 'PolynomialRing': PolynomialRing, 'RR': RealField, 'true': True, 'false': False,
        'Integer': Integer, 'floor': sage_floor, 'ceil': sage_ceil, 'join': sage_join, 'parent': sage_parent,
        'ideal': Ideal, 'Ideal': Ideal, 'MixedIntegerLinearProgram': MIP, 'sage_eval': sage_eval,
        'MIPSolverException': MIPSolverException, 'Rational': QQ, 'ZZ': int,
        'prod': lambda l, z=1: reduce(lambda a, b: a * b, l, z), 'srange': range, 'sgn': lambda v: cmp(v, 0),
        'Set': set, 'flatten': lambda l: [y for x in l for y in (x if isinstance(x, (list, tuple)) else [x])]}
  f = os.path.join(d, 'grf.sage')
  exec compile(preparse(open(f).read()), f, 'exec') in ns
  ns['random'] = DRAWS
  lss = sys.modules['local_search']
  lss.random = DRAWS
  lss.math = MathShim()
  if smt2:
    f = os.path.join(d, 'smt2.py')
    lim = sys.getrecursionlimit()
    exec compile(open(f).read(), f, 'exec') in ns
    sys.setrecursionlimit(lim)
  return ns


def smt_poly(p, env):
  """SMT text of a polynomial; env: variable name -> SMT text"""
  ts = []
  for m in sorted(p.t):
    fs = [symx.smt(p.t[m])] + [env[n] for n, e in m for _ in range(e)]
    ts.append('(* %s)' % ' '.join(fs) if len(fs) > 1 else fs[0])
  return '(+ %s)' % ' '.join(ts) if len(ts) > 1 else (ts[0] if ts else '0.0')


SMT = {'<=': '(<= %s 0.0)', '<': '(< %s 0.0)', '=': '(= %s 0.0)', '!=': '(not (= %s 0.0))', '>=': '(>= %s 0.0)',
       '>': '(> %s 0.0)'}
HOLDS = {'<=': lambda v: v <= 0, '<': lambda v: v < 0, '=': lambda v: v == 0, '!=': lambda v: v != 0,
         '>=': lambda v: v >= 0, '>': lambda v: v > 0}
OPS = ['<=', '<', '=', '!=', '>=', '>']
NEG = {'<=': '>', '<': '>=', '=': '!=', '!=': '=', '>=': '<', '>': '<='}


def at(p, env):
  """exact value of a polynomial at {name: Fraction}"""
  tot = Fraction(0)
  for m, c in p.t.items():
    v = Fraction(c)
    for n, e in m:
      v *= Fraction(env[n]) ** e
    tot += v
  return tot
