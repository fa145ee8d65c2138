"""Symbolic execution of real Python 2 code by proxy values, for Jython 2.7.

The code under test is imported unchanged from /repo and run by the same
interpreter its users run.  Numbers are replaced by `Sym` proxies that hold an
exact rational function over named real variables; every truth test on a proxy
is decided by an SMT solver under the current path condition, and when both
outcomes are possible the explorer re-runs the code once per outcome.  A run
of `explore` therefore covers *every* value of the variables (within the shape
that the harness fixed), path by path.
"""
import re
import subprocess
import sys
import threading
import time
from fractions import Fraction, gcd

BITS = 12
MASK = (1 << BITS) - 1
TOP = 1 << (BITS - 1)


# ---------------------------------------------------------------- polynomials
# A polynomial is a dict {packed exponent vector: int or Fraction}.

def pconst(c):
  return {0: c} if c != 0 else {}


def padd(a, b):
  if len(a) < len(b):
    a, b = b, a
  r = dict(a)
  for m, c in b.items():
    v = r.get(m, 0) + c
    if v == 0:
      del r[m]
    else:
      r[m] = v
  return r


def pneg(a):
  return dict((m, -c) for m, c in a.items())


def psub(a, b):
  return padd(a, pneg(b))


def pmul(a, b):
  if not a or not b:
    return {}
  if len(a) < len(b):
    a, b = b, a
  r = {}
  for m1, c1 in b.items():
    for m2, c2 in a.items():
      m = m1 + m2
      r[m] = r.get(m, 0) + c1 * c2
  return dict((m, c) for m, c in r.items() if c != 0)


def pkey(p):
  return frozenset(p.items())


def pisconst(p):
  return not p or (len(p) == 1 and 0 in p)


def exps(m):
  i = 0
  r = []
  while m:
    e = m & MASK
    if e:
      r.append((i, e))
    m >>= BITS
    i += 1
  return r


def pdivexact(a, b, guard):
  """a / b when b divides a with integer coefficients, else None."""
  lb = max(b)
  cb = b[lb]
  tail = [(m, c) for m, c in b.items() if m != lb]
  r = dict(a)
  q = {}
  while r:
    la = max(r)
    if (((la | guard) - lb) & guard) != guard:
      return None
    ca = r[la]
    if ca % cb != 0:
      return None
    m = la - lb
    c = ca // cb
    q[m] = c
    del r[la]
    for mb, c2 in tail:
      k = m + mb
      v = r.get(k, 0) - c * c2
      if v == 0:
        del r[k]
      else:
        r[k] = v
  return q


def _primitive(p):
  """(positive multiple of p with coprime integer coefficients and positive
  leading coefficient, flip)"""
  den = 1
  for c in p.values():
    if isinstance(c, Fraction):
      d = c.denominator
      den = den * d // gcd(den, d)
  if den != 1:
    p = dict((m, int(c * den)) for m, c in p.items())
  g = 0
  for c in p.values():
    g = gcd(g, c)
    if g == 1 or g == -1:
      break
  g = abs(g)
  flip = 1
  if p[max(p)] < 0:
    flip = -1
    g = -g
  if g != 1:
    p = dict((m, c // g) for m, c in p.items())
  return p, flip


# --------------------------------------------------------------- control flow

class Infeasible(BaseException):
  """The assumptions of this path cannot be met."""


class Budget(BaseException):
  """The path did more symbolic steps than the stated bound."""


class Unsupported(BaseException):
  """The code asked a proxy for something the model does not provide."""


ALL = frozenset((-1, 0, 1))
S = {'<': frozenset((-1,)), '<=': frozenset((-1, 0)), '=': frozenset((0,)),
     '!=': frozenset((-1, 1)), '>=': frozenset((0, 1)), '>': frozenset((1,))}
_BYSET = dict((v, k) for k, v in S.items())
_FLIP = lambda s: frozenset(-v for v in s)

STATS = {'paths': 0, 'branches': 0, 'queries': 0, 'sat': 0, 'unsat': 0,
         'unknown': 0, 'solver_s': 0.0, 'pruned': 0, 'memo': 0,
         'inconclusive_paths': 0, 'model_hits': 0}


SLOW = None       # (seconds, callback) for diagnosis


class Solver:
  """A z3 process that answers self-contained queries."""

  def __init__(self, cmd=None, timeout_ms=2000):
    self.cmd = cmd or ['z3-new', '-in', '-smt2']
    self.timeout_ms = timeout_ms
    self.proc = None
    self.cache = {}

  def _start(self):
    self.proc = subprocess.Popen(self.cmd, stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, bufsize=0)

  def close(self):
    if self.proc is not None:
      try:
        self.proc.kill()
      except Exception:
        pass
      self.proc = None

  def ask(self, text, limit_s):
    """Lines printed for `text`; None when the process had to be ended."""
    if self.proc is None:
      self._start()
    proc = self.proc
    killed = []

    def kill():
      killed.append(1)
      try:
        proc.kill()
      except Exception:
        pass
    timer = threading.Timer(limit_s, kill)
    timer.setDaemon(True)
    timer.start()
    out = []
    try:
      try:
        proc.stdin.write('(reset)\n' + text + '\n(echo "--done--")\n')
        proc.stdin.flush()
        while True:
          line = proc.stdout.readline()
          if not line:
            self.proc = None
            return None
          line = line.strip()
          if line == '--done--' or line == '"--done--"':
            break
          if line:
            out.append(line)
      except (IOError, ValueError):
        self.proc = None
        return None
    finally:
      timer.cancel()
    if killed:
      self.proc = None
      return None
    return out

  def query(self, names, sorts, asserts, want_model=True):
    """(verdict, model): verdict in sat/unsat/unknown; model {name: Fraction}
    or None (no model, or one with irrational values)."""
    key = (frozenset(asserts), want_model)
    if key in self.cache:
      return self.cache[key]
    t0 = time.time()
    STATS['queries'] += 1
    decl = ''.join('(declare-const %s %s)\n' % (n, s)
                   for n, s in zip(names, sorts))
    body = ''.join('(assert %s)\n' % a for a in asserts)
    ints = 'Int' in sorts
    ms = self.timeout_ms
    if '(forall' in body or '(exists' in body:
      plans = ['(check-sat-using (try-for nlqsat %d))' % ms, '(check-sat)']
    elif ints:
      plans = ['(check-sat)', '(check-sat-using (try-for qfnia %d))' % ms]
    else:
      plans = ['(check-sat-using (try-for (then simplify purify-arith propagate-values solve-eqs qfnra-nlsat) %d))' % ms,
               '(check-sat)',
               '(check-sat-using (try-for qfnra-nlsat %d))' % ms]
    verdict, model = 'unknown', None
    for plan in plans:
      text = '(set-option :timeout %d)\n' % ms + decl + body + plan + '\n'
      if want_model:
        text += '(get-value (%s))\n' % ' '.join(names) if names else ''
      out = self.ask(text, 3.5 * ms / 1000.0 + 10)
      if not out:
        continue
      verdict = out[0]
      if verdict == 'unsat':
        break
      if verdict == 'sat':
        if want_model and names:
          model = parse_values(' '.join(out[1:]), names)
        break
      if '(error' in out[0]:
        raise Exception('solver error: %s\n%s' % (out, text))
      verdict = 'unknown'
    STATS['solver_s'] += time.time() - t0
    STATS[verdict] += 1
    if SLOW is not None and time.time() - t0 > SLOW[0]:
      SLOW[1](time.time() - t0, verdict, plan, decl + body)
    if verdict != 'unknown':
      self.cache[key] = (verdict, model)
    return verdict, model


def parse_sexp(text):
  toks = re.findall(r'\(|\)|[^\s()]+', text)
  stack = [[]]
  for t in toks:
    if t == '(':
      stack.append([])
    elif t == ')':
      x = stack.pop()
      stack[-1].append(x)
    else:
      stack[-1].append(t)
  return stack[0]


def _val(s):
  if isinstance(s, list):
    if s[0] == '-' and len(s) == 2:
      v = _val(s[1])
      return None if v is None else -v
    if s[0] == '/' and len(s) == 3:
      a, b = _val(s[1]), _val(s[2])
      return None if a is None or b is None else a / b
    return None
  if re.match(r'^[0-9]+(\.[0-9]+)?$', s):
    if s.endswith('.0'):
      s = s[:-2]
    return Fraction(s)
  return None


def parse_values(text, names):
  try:
    sx = parse_sexp(text)
    vals = dict((a, _val(b)) for a, b in sx[0])
  except Exception:
    return None
  for n in names:
    if vals.get(n) is None:
      return None
  return vals


def solve_rational(solver, names, sorts, asserts, search=True):
  """A model with rational values, or (verdict, None)."""
  v, m = solver.query(names, sorts, asserts)
  if v != 'sat' or m is not None or not search:
    return v, m
  # the satisfying point was irrational: look for small rational ones
  for scale, bound in ((1, 4), (1, 20), (2, 20), (6, 60)):
    ints = ['i!' + n for n in names]
    extra = []
    body = []
    for n, i in zip(names, ints):
      extra.append('(and (<= %d %s) (<= %s %d))' % (-bound, i, i, bound))
      extra.append('(= %s (/ (to_real %s) %d.0))' % (n, i, scale))
    v2, m2 = solver.query(list(names) + ints,
                          list(sorts) + ['Int'] * len(names),
                          list(asserts) + extra)
    if v2 == 'sat' and m2 is not None:
      return 'sat', dict((n, m2[n]) for n in names)
  # nearby rational points, one variable at a time
  return 'sat', None


# ------------------------------------------------------------------ execution

class Engine:
  def __init__(self, timeout_ms=2000):
    self.solver = Solver(timeout_ms=timeout_ms)
    self.names = []
    self.sorts = []
    self.guard = 0
    self.path = None
    self.smt_cache = {}
    self.pivot, self.scale, self.homog = None, set(), {}

  def set_scale(self, names, pivot):
    """names: variables that scale together; pivot: one of them, assumed
    positive by the harness"""
    self.scale = set(self.var_index(n) for n in names)
    self.pivot = pivot

  def homogeneous(self, p):
    k = pkey(p)
    r = self.homog.get(k)
    if r is None:
      ds = set(sum(e for i, e in exps(m) if i in self.scale) for m in p)
      r = self.homog[k] = len(ds) <= 1
    return r

  # variables are numbered; the same name is the same variable on every path
  def var_index(self, name, sort='Real'):
    if name not in self.names:
      self.guard |= TOP << (BITS * len(self.names))
      self.names.append(name)
      self.sorts.append(sort)
    return self.names.index(name)

  def reset_vars(self):
    self.names, self.sorts, self.guard = [], [], 0
    self.pivot, self.scale, self.homog = None, set(), {}
    self.smt_cache = {}
    self.solver.cache = {}

  def smt(self, p):
    k = pkey(p)
    s = self.smt_cache.get(k)
    if s is None:
      s = self._smt(p)
      self.smt_cache[k] = s
    return s

  def _num(self, c, real):
    f = Fraction(c)
    dot = '.0' if real else ''
    s = '%d%s' % (abs(f.numerator), dot)
    if f.denominator != 1:
      s = '(/ %s %d%s)' % (s, f.denominator, dot)
    return '(- %s)' % s if f < 0 else s

  def _smt(self, p):
    if not p:
      return '0.0'
    terms = []
    for m in sorted(p):
      c = p[m]
      fs = []
      for i, e in exps(m):
        n = self.names[i]
        if self.sorts[i] == 'Int':
          n = '(to_real %s)' % n
        fs += [n] * e
      if c != 1 or not fs:
        fs.insert(0, self._num(c, True))
      terms.append(fs[0] if len(fs) == 1 else '(* %s)' % ' '.join(fs))
    return terms[0] if len(terms) == 1 else '(+ %s)' % ' '.join(terms)

  def atom(self, p, signs):
    if not signs:
      return 'false'
    if signs == ALL:
      return 'true'
    op = _BYSET[signs]
    s = self.smt(p)
    if op == '!=':
      return '(not (= %s 0.0))' % s
    return '(%s %s 0.0)' % (op, s)


class Path:
  def __init__(self, eng, prefix, budget):
    self.eng = eng
    self.prefix = prefix
    self.taken = []
    self.todo = []
    self.signs = {}          # canonical key -> allowed signs
    self.known = []          # (poly, sign) usable as divisors
    self.asserts = []        # SMT text
    self.atoms = []          # (poly, signs)
    self.model = None
    self.unsure = False
    self.steps = 0
    self.budget = budget
    self.notes = {}
    self.fresh = 0
    self.opaque = False
    self.tokens = {}

  # -- nondeterministic choice made by the harness
  def choose(self, n):
    if n <= 1:
      return 0
    i = len(self.taken)
    if i < len(self.prefix):
      c = self.prefix[i]
    else:
      c = 0
      for alt in range(n - 1, 0, -1):
        self.todo.append(list(self.taken) + [alt])
    self.taken.append(c)
    return c

  def step(self):
    self.steps += 1
    if self.steps > self.budget:
      raise Budget()

  def _check(self, extra, p=None):
    e = self.eng
    return e.solver.query(e.names, e.sorts,
                          self.asserts + [extra] + self._pivot(p))

  def _pivot(self, p=None):
    """When every atom is homogeneous in the scale variables, a solution
    exists iff one exists with the (positive) pivot variable equal to 1."""
    e = self.eng
    if e.pivot is None or self.opaque:
      return []
    if p is not None and not e.homogeneous(p):
      return []
    for q, _ in self.atoms:
      if not e.homogeneous(q):
        return []
    return ['(= %s 1.0)' % e.pivot]

  def _eval(self, p):
    """sign of p in the current model, or None"""
    if self.model is None:
      return None
    e = self.eng
    tot = 0
    vals = {}
    for m, c in p.items():
      t = c
      for i, k in exps(m):
        v = vals.get(i)
        if v is None:
          v = self.model.get(e.names[i])
          if v is None:
            return None
          vals[i] = v
        t = t * v ** k
      tot += t
    return -1 if tot < 0 else (1 if tot > 0 else 0)

  def reduce(self, p):
    """(q, flip) with sign(p) = flip * sign(q), dividing out factors whose
    sign this path has fixed; q may be constant"""
    flip = 1
    p, f = _primitive(p)
    flip *= f
    e = self.eng
    # monomial content
    if 0 not in p and p:
      ms = p.keys()
      common = dict(exps(ms[0]))
      for m in ms[1:]:
        d = dict(exps(m))
        for i in common.keys():
          k = min(common[i], d.get(i, 0))
          if k:
            common[i] = k
          else:
            del common[i]
        if not common:
          break
      drop = 0
      for i, k in common.items():
        sg = self.signs.get(pkey({1 << (BITS * i): 1}), ALL)
        if sg == S['=']:
          return {}, 1
        if len(sg) == 1:
          if k % 2:
            flip *= list(sg)[0]
          drop += k << (BITS * i)
        elif 0 not in sg and k % 2 == 0:
          drop += k << (BITS * i)
        elif k > 2:
          drop += (k - (2 - k % 2)) << (BITS * i)
      if drop:
        p = dict((m - drop, c) for m, c in p.items())
    if pisconst(p):
      return p, flip
    if pkey(p) in self.signs:
      return p, flip
    for q, s in self.known:
      if len(q) > len(p) and len(p) > 1:
        pass
      while True:
        if pisconst(p):
          return p, flip
        r = pdivexact(p, q, e.guard)
        if r is None:
          break
        p = r
        flip *= s
    if pisconst(p):
      return p, flip
    p, f = _primitive(p)
    return p, flip * f

  def _by_monomials(self, p):
    """signs p can have, judging each monomial by the recorded signs of its
    variables (a sum of non-negative terms, one of them positive, is positive)"""
    strict = set()
    weak = set()
    vs = {}
    for m, c in p.items():
      s = 1 if c > 0 else -1
      zero_ok = False
      for i, k in exps(m):
        sg = vs.get(i)
        if sg is None:
          sg = vs[i] = self.signs.get(pkey({1 << (BITS * i): 1}), ALL)
        if 0 in sg:
          zero_ok = True
        if k % 2 == 0:
          continue
        pos = sg - S['=']
        if len(pos) == 1:
          s *= list(pos)[0]
        elif not pos:
          s = 0
          break
        else:
          return ALL
      if s == 0:
        continue
      (weak if zero_ok else strict).add(s)
      if len(weak | strict) > 1:
        return ALL
    r = strict | weak
    if not r:
      return S['=']
    s = list(r)[0]
    return frozenset((s,)) if strict else frozenset((s, 0))

  def record(self, p, signs):
    k = pkey(p)
    self.signs[k] = signs
    if len(signs) == 1 and 0 not in signs and len(p) > 1:
      self.known.append((p, list(signs)[0]))
      self.known.sort(key=lambda t: -len(t[0]))

  def sign_in(self, p, want):
    """Is sign(p) in `want`?  Forks when the solver says both are possible."""
    self.step()
    if pisconst(p):
      c = p.get(0, 0)
      return (-1 if c < 0 else 1 if c > 0 else 0) in want
    p, flip = self.reduce(p)
    if flip < 0:
      want = _FLIP(want)
    if pisconst(p):
      c = p.get(0, 0)
      return (-1 if c < 0 else 1 if c > 0 else 0) in want
    allowed = self.signs.get(pkey(p), ALL)
    if allowed == ALL or len(allowed) > 1:
      allowed = allowed & self._by_monomials(p)
    yes = allowed & want
    no = allowed - want
    if not no:
      STATS['memo'] += 1
      return True
    if not yes:
      STATS['memo'] += 1
      return False
    i = len(self.taken)
    if i < len(self.prefix):
      c = self.prefix[i]
      self.taken.append(c)
      # 0/1: forced by the solver; 2/3: a real branch
      sg = yes if c % 2 else no
      if c >= 2:
        self._assert(p, sg)
      self.record(p, sg)
      return bool(c % 2)
    STATS['branches'] += 1
    ms = self._eval(p)
    a_yes = self.eng.atom(p, yes)
    a_no = self.eng.atom(p, no)
    if ms is not None and ms in allowed:
      STATS['model_hits'] += 1
      if ms in yes:
        vy, my = 'sat', self.model
        vn, mn = self._check(a_no, p)
      else:
        vn, mn = 'sat', self.model
        vy, my = self._check(a_yes, p)
    else:
      vy, my = self._check(a_yes, p)
      if vy == 'unsat':
        vn, mn = 'sat', self.model
      else:
        vn, mn = self._check(a_no, p)
    if vy == 'unknown' or vn == 'unknown':
      self.unsure = True
    py, pn = vy != 'unsat', vn != 'unsat'
    if not py and not pn:
      raise Infeasible()
    if py and pn:
      self.todo.append(list(self.taken) + [2])
      self.taken.append(3)
      self._assert(p, yes)
      self.record(p, yes)
      self.model = my
      return True
    c = 1 if py else 0
    self.taken.append(c)
    self.record(p, yes if py else no)
    m = my if py else mn
    if m is not None:
      self.model = m
    return py

  def _assert(self, p, sg):
    self.asserts.append(self.eng.atom(p, sg))
    self.atoms.append((p, sg))
    if self.model is not None:
      s = self._eval(p)
      if s not in sg:
        self.model = None

  def assume(self, p, want):
    """Restrict the path to values with sign(p) in `want`."""
    if pisconst(p):
      c = p.get(0, 0)
      if (-1 if c < 0 else 1 if c > 0 else 0) not in want:
        raise Infeasible()
      return
    p, flip = self.reduce(p)
    if flip < 0:
      want = _FLIP(want)
    if pisconst(p):
      c = p.get(0, 0)
      if (-1 if c < 0 else 1 if c > 0 else 0) not in want:
        raise Infeasible()
      return
    allowed = self.signs.get(pkey(p), ALL) & want
    if not allowed:
      raise Infeasible()
    self._assert(p, allowed)
    self.record(p, allowed)

  def assume_smt(self, text):
    self.asserts.append(text)
    self.opaque = True
    self.model = None

  def feasible(self):
    e = self.eng
    return e.solver.query(e.names, e.sorts, self.asserts + self._pivot())

  def diverse_model(self, rng, tries=30):
    """A model of this path other than the solver's favourite (zeros), when
    a few random small assignments hit one; for validation replays only."""
    e = self.eng
    if self.opaque:
      return None
    save = self.model
    try:
      for t in range(tries):
        top = 3 + t // 5
        m = {}
        for n, so in zip(e.names, e.sorts):
          v = Fraction(rng.randint(-top, top))
          if so == 'Real' and rng.random() < 0.2:
            v = v / rng.randint(2, 5)
          m[n] = v
        # simple bounds on single variables first
        for p, sg in self.atoms:
          if len(p) == 1:
            k = p.keys()[0]
            es = exps(k)
            if len(es) == 1 and es[0][1] == 1:
              n = e.names[es[0][0]]
              s1 = 1 if p[k] > 0 else -1
              want = sg if s1 > 0 else _FLIP(sg)
              if (m[n] > 0) - (m[n] < 0) not in want:
                w = list(want)
                m[n] = (abs(m[n]) or Fraction(1)) * w[rng.randrange(len(w))]
        self.model = m
        if all(self._eval(p) in sg for p, sg in self.atoms):
          return m
    finally:
      self.model = save
    return None

  def holds(self, claims):
    """Ask the solver whether every claim (SMT text) holds on this path.
    True / False / None (unknown)."""
    e = self.eng
    if not claims:
      return True
    neg = '(not (and %s))' % ' '.join(claims) if len(claims) > 1 else '(not %s)' % claims[0]
    v, m = e.solver.query(e.names, e.sorts, self.asserts + [neg])
    if v == 'unsat':
      return True
    if v == 'sat':
      self.asserts.append(neg)
      self.opaque = True
      self.model = m
      return False
    self.unsure = True
    return None

  def rational_model(self, extra=(), search=True):
    e = self.eng
    if not e.names and not extra:
      return 'sat', {}
    if not extra and self.model is not None:
      if all(self.model.get(n) is not None for n in e.names):
        return 'sat', self.model
    return solve_rational(e.solver, e.names, e.sorts,
                          self.asserts + list(extra) +
                          ([] if extra else self._pivot()), search)


ENG = Engine()


def path():
  return ENG.path


# -------------------------------------------------------------------- proxies

def _lift(v):
  """v as (num, den) or None"""
  if isinstance(v, Sym):
    return v.n, v.d
  if isinstance(v, bool):
    return pconst(int(v)), None
  if isinstance(v, (int, long)):
    return pconst(v), None
  if isinstance(v, Fraction):
    return pconst(_norm(v)), None
  if isinstance(v, float):
    return pconst(_norm(Fraction(v))), None
  t = type(v).__name__
  if hasattr(v, 'is_Rational') and v.is_Rational:
    return pconst(_norm(Fraction(int(v.p), int(v.q)))), None
  if hasattr(v, 'is_Float') and v.is_Float:
    return pconst(_norm(Fraction(float(v)))), None
  return None


def _norm(f):
  return f.numerator if f.denominator == 1 else f


class SymBool(object):
  """A comparison, decided when its truth is asked for."""

  def __init__(self, p, want):
    self.p, self.want, self.v = p, want, None

  def __nonzero__(self):
    if self.v is None:
      self.v = ENG.path.sign_in(self.p, self.want)
    return self.v

  def __and__(self, o):
    return bool(self) & bool(o)
  __rand__ = __and__

  def __or__(self, o):
    return bool(self) | bool(o)
  __ror__ = __or__

  def __xor__(self, o):
    return bool(self) ^ bool(o)
  __rxor__ = __xor__

  def __eq__(self, o):
    return bool(self) == bool(o)

  def __ne__(self, o):
    return bool(self) != bool(o)

  def __int__(self):
    return int(bool(self))
  __index__ = __int__

  def __add__(self, o):
    return int(bool(self)) + o
  __radd__ = __add__

  def __mul__(self, o):
    return int(bool(self)) * o
  __rmul__ = __mul__

  def __sub__(self, o):
    return int(bool(self)) - o

  def __rsub__(self, o):
    return o - int(bool(self))

  def __hash__(self):
    return hash(bool(self))

  def __repr__(self):
    return repr(bool(self))


TOKENS = {}


class Sym(object):
  """A real number that depends on the symbolic variables."""

  def __init__(self, n, d=None):
    self.n = n
    self.d = d

  # arithmetic ---------------------------------------------------------------
  def _sum(self, o, k):
    l = _lift(o)
    if l is None:
      return NotImplemented
    n, d = l
    if ENG.path is not None:
      ENG.path.step()
    if k < 0:
      n = pneg(n)
    if self.d is None and d is None:
      return Sym(padd(self.n, n))
    d1 = self.d or {0: 1}
    d2 = d or {0: 1}
    if pkey(d1) == pkey(d2):
      return Sym(padd(self.n, n), d1)
    return Sym(padd(pmul(self.n, d2), pmul(n, d1)), pmul(d1, d2))

  def __add__(self, o):
    return self._sum(o, 1)
  __radd__ = __add__

  def __sub__(self, o):
    return self._sum(o, -1)

  def __rsub__(self, o):
    return (-self)._sum(o, 1)

  def __neg__(self):
    return Sym(pneg(self.n), self.d)

  def __pos__(self):
    return self

  def __abs__(self):
    return -self if self < 0 else self

  def __mul__(self, o):
    l = _lift(o)
    if l is None:
      return NotImplemented
    n, d = l
    if ENG.path is not None:
      ENG.path.step()
    dd = None
    if self.d is not None or d is not None:
      dd = pmul(self.d or {0: 1}, d or {0: 1})
    return Sym(pmul(self.n, n), dd)
  __rmul__ = __mul__

  def _div(self, a, b):
    # a / b, both Sym
    if ENG.path.sign_in(b.n, S['=']):
      raise ZeroDivisionError('division by zero')
    n, d = a.n, a.d
    if pisconst(b.n) and b.d is None:
      c = Fraction(1) / Fraction(b.n[0])
      return Sym(dict((m, _norm(v * c)) for m, v in n.items()), d)
    nn = pmul(n, b.d) if b.d is not None else n
    dd = pmul(d, b.n) if d is not None else b.n
    return Sym(nn, dd)

  def __div__(self, o):
    l = _lift(o)
    if l is None:
      return NotImplemented
    return self._div(self, Sym(*l))
  __truediv__ = __div__

  def __rdiv__(self, o):
    l = _lift(o)
    if l is None:
      return NotImplemented
    return self._div(Sym(*l), self)
  __rtruediv__ = __rdiv__

  def __pow__(self, k):
    if isinstance(k, Sym):
      raise Unsupported('symbolic exponent')
    k = int(k)
    if k < 0:
      return 1 / (self ** -k)
    r = Sym({0: 1})
    for _ in range(k):
      r = r * self
    return r

  def power(self, k):
    return self ** k

  # comparison ---------------------------------------------------------------
  def _cmp(self, o, op):
    l = _lift(o)
    if l is None:
      return NotImplemented
    t = self - Sym(*l)
    if t.d is None:
      return SymBool(t.n, S[op])
    # sign(n/d) = sign(n*d) because d is known to be non-zero
    return SymBool(pmul(t.n, t.d), S[op])

  def __lt__(self, o):
    return self._cmp(o, '<')

  def __le__(self, o):
    return self._cmp(o, '<=')

  def __gt__(self, o):
    return self._cmp(o, '>')

  def __ge__(self, o):
    return self._cmp(o, '>=')

  def __eq__(self, o):
    if self is o:
      return True
    r = self._cmp(o, '=')
    return False if r is NotImplemented else r

  def __ne__(self, o):
    if self is o:
      return False
    r = self._cmp(o, '!=')
    return True if r is NotImplemented else r

  def __cmp__(self, o):
    if self < o:
      return -1
    if self > o:
      return 1
    return 0

  def __nonzero__(self):
    return bool(self != 0)

  def __hash__(self):
    if pisconst(self.n) and self.d is None:
      return hash(self.n.get(0, 0))
    # by structure: two expressions that are equal for some values only are
    # different dictionary keys
    return hash((pkey(self.n), None if self.d is None else pkey(self.d)))

  def __int__(self):
    if pisconst(self.n) and self.d is None:
      return int(self.n.get(0, 0))
    raise Unsupported('int() of a symbolic number')

  def __float__(self):
    if pisconst(self.n) and self.d is None:
      return float(self.n.get(0, 0))
    raise Unsupported('float() of a symbolic number')

  # text: a name per symbolic expression.  Two different expressions that
  # happen to be equal for some values get different names; harnesses that
  # depend on it (polynomials used as dictionary keys) say so.
  def __str__(self):
    if pisconst(self.n) and self.d is None:
      return str(self.n.get(0, 0))
    k = (pkey(self.n), None if self.d is None else pkey(self.d))
    t = TOKENS
    if k not in t:
      t[k] = '<%d>' % len(t)
    return t[k]

  def __repr__(self):
    return '<sym>'

  def decimal(self, prec=5):
    return '?'

  def compact_str(self):
    return str(self)

  def describe(self):
    s = ENG.smt(self.n)
    return s if self.d is None else '(/ %s %s)' % (s, ENG.smt(self.d))


def var(name, sort='Real'):
  i = ENG.var_index(name, sort)
  return Sym({1 << (BITS * i): 1})


def assume(b):
  """b: a SymBool (kept lazy) or a bool"""
  if isinstance(b, SymBool) and b.v is None:
    ENG.path.assume(b.p, b.want)
  elif not b:
    raise Infeasible()


def smt(v):
  """SMT-LIB text of a proxy or number"""
  if isinstance(v, Sym):
    return v.describe()
  l = _lift(v)
  return ENG.smt(l[0])


def is_sym(v):
  return isinstance(v, Sym)


def value(v, model):
  """Concrete value of a proxy under a model {name: Fraction}."""
  if not isinstance(v, Sym):
    return v

  def ev(p):
    tot = Fraction(0)
    for m, c in p.items():
      t = Fraction(c)
      for i, k in exps(m):
        t *= model[ENG.names[i]] ** k
      tot += t
    return tot
  r = ev(v.n)
  if v.d is not None:
    r = r / ev(v.d)
  return _norm(r)


# -------------------------------------------------- ordered field with epsilon

class EpsNum(object):
  """Laurent polynomials in a positive infinitesimal, coefficients Sym or
  rational: the exact ordered ring in which root+eps and -1/eps live."""

  def __init__(self, c):
    self.c = dict((k, v) for k, v in c.items()
                  if is_sym(v) or v != 0)

  @staticmethod
  def lift(v):
    if isinstance(v, EpsNum):
      return v
    if is_sym(v) or _lift(v) is not None:
      return EpsNum({0: v})
    return None

  def __add__(self, o):
    o = EpsNum.lift(o)
    if o is None:
      return NotImplemented
    r = dict(self.c)
    for k, v in o.c.items():
      r[k] = r[k] + v if k in r else v
    return EpsNum(r)
  __radd__ = __add__

  def __neg__(self):
    return EpsNum(dict((k, -v) for k, v in self.c.items()))

  def __sub__(self, o):
    o = EpsNum.lift(o)
    if o is None:
      return NotImplemented
    return self + (-o)

  def __rsub__(self, o):
    return (-self) + o

  def __mul__(self, o):
    o = EpsNum.lift(o)
    if o is None:
      return NotImplemented
    r = {}
    for k1, v1 in self.c.items():
      for k2, v2 in o.c.items():
        k = k1 + k2
        r[k] = r[k] + v1 * v2 if k in r else v1 * v2
    return EpsNum(r)
  __rmul__ = __mul__

  def _inv(self):
    c = dict((k, v) for k, v in self.c.items() if bool(v != 0))
    if not c:
      raise ZeroDivisionError('division by zero')
    if len(c) != 1:
      raise Unsupported('inverse of a sum with an infinitesimal')
    k, v = c.items()[0]
    one = Fraction(1)
    return EpsNum({-k: (1 / v if is_sym(v) else one / Fraction(v))})

  def __div__(self, o):
    o = EpsNum.lift(o)
    if o is None:
      return NotImplemented
    return self * o._inv()
  __truediv__ = __div__

  def __rdiv__(self, o):
    o = EpsNum.lift(o)
    if o is None:
      return NotImplemented
    return o * self._inv()
  __rtruediv__ = __rdiv__

  def __pow__(self, k):
    k = int(k)
    if k < 0:
      return (self ** -k)._inv()
    r = EpsNum({0: 1})
    for _ in range(k):
      r = r * self
    return r

  def power(self, k):
    return self ** k

  def sign(self):
    for k in sorted(self.c):
      v = self.c[k]
      if v > 0:
        return 1
      if v < 0:
        return -1
    return 0

  def _c(self, o):
    o = EpsNum.lift(o)
    return None if o is None else (self - o).sign()

  def __lt__(self, o):
    c = self._c(o)
    return NotImplemented if c is None else c < 0

  def __le__(self, o):
    c = self._c(o)
    return NotImplemented if c is None else c <= 0

  def __gt__(self, o):
    c = self._c(o)
    return NotImplemented if c is None else c > 0

  def __ge__(self, o):
    c = self._c(o)
    return NotImplemented if c is None else c >= 0

  def __eq__(self, o):
    c = self._c(o)
    return False if c is None else c == 0

  def __ne__(self, o):
    c = self._c(o)
    return True if c is None else c != 0

  def __nonzero__(self):
    return self.sign() != 0

  def __hash__(self):
    raise Unsupported('hash of an infinitesimal')

  def decimal(self, prec=5):
    return '?'

  def __repr__(self):
    return '<eps>'


# ------------------------------------------------------------------ exploring

class Result:
  """What one path ended with."""

  def __init__(self, path, kind, val):
    self.path, self.kind, self.val = path, kind, val


def explore(fn, max_paths=100000, deadline=None, budget=200000, seed=1):
  """Run fn() once per feasible path, yielding a Result for each.

  kind is 'ok' (val: returned value), 'exc' (val: the exception and its
  traceback text), 'budget' or 'unsupported'.  Yields a last Result of kind
  'cut' when the path or time bound stopped the exploration.
  """
  import random
  import traceback
  rng = random.Random(seed)
  work = [[]]
  n = 0
  while work:
    if n >= max_paths or (deadline is not None and time.time() > deadline):
      yield Result(None, 'cut', len(work))
      return
    # any order will do; a random one spreads a run that is cut short over
    # the whole tree instead of one corner of it
    k = rng.randrange(len(work))
    work[k], work[-1] = work[-1], work[k]
    prefix = work.pop()
    p = Path(ENG, prefix, budget)
    ENG.path = p
    try:
      try:
        val = fn()
        r = Result(p, 'ok', val)
      except Infeasible:
        STATS['pruned'] += 1
        work.extend(p.todo)
        continue
      except Budget:
        r = Result(p, 'budget', None)
      except Unsupported as e:
        r = Result(p, 'unsupported', str(e))
      except Exception as e:
        r = Result(p, 'exc', (e, traceback.format_exc()))
      except RuntimeError as e:
        r = Result(p, 'exc', (e, traceback.format_exc()))
    finally:
      pass
    work.extend(p.todo)
    n += 1
    STATS['paths'] += 1
    if p.unsure:
      STATS['inconclusive_paths'] += 1
    yield r
    ENG.path = None
