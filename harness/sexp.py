"""sympy expressions as solver terms."""
from fractions import Fraction
import sympy
import symx
from symx import Sym, var


def num(e):
  """exact value of a sympy number (floats by their binary value)"""
  if e.is_Rational:
    return Fraction(int(e.p), int(e.q))
  if e.is_Float:
    m = sympy.Rational(e) if not hasattr(e, '_mpf_') else None
    if m is not None:
      return Fraction(int(m.p), int(m.q))
    sign, man, ex, _ = e._mpf_
    v = Fraction(int(man)) * (Fraction(2) ** int(ex))
    return -v if sign else v
  raise symx.Unsupported('number %r' % (e,))


def term(e, env=None):
  """SMT text of a sympy (or Python) number-valued expression; env maps symbol
  names to SMT text (default: the solver variable of that name)."""
  if isinstance(e, (int, long, Fraction)):
    return symx.smt(Fraction(e))
  if isinstance(e, Sym):
    return symx.smt(e)
  e = sympy.sympify(e)
  if e.is_Number:
    return symx.smt(num(e))
  if e.is_Symbol:
    if env is not None and e.name in env:
      return env[e.name]
    return symx.smt(var(e.name))
  if e.is_Add:
    return '(+ %s)' % ' '.join(term(a, env) for a in e.args)
  if e.is_Mul:
    return '(* %s)' % ' '.join(term(a, env) for a in e.args)
  if e.is_Pow and e.exp.is_Integer:
    n = int(e.exp)
    b = term(e.base, env)
    if n == 0:
      return '1.0'
    t = b if abs(n) == 1 else '(* %s)' % ' '.join([b] * abs(n))
    return t if n > 0 else '(/ 1.0 %s)' % t
  raise symx.Unsupported('expression %r' % (e,))


RELOP = {'StrictLessThan': '(< %s %s)', 'LessThan': '(<= %s %s)', 'StrictGreaterThan': '(> %s %s)',
         'GreaterThan': '(>= %s %s)', 'Equality': '(= %s %s)', 'Unequality': '(not (= %s %s))'}


def formula(r, env=None):
  """SMT text of a sympy relation or truth value"""
  if r is True or r == True:
    return 'true'
  if r is False or r == False:
    return 'false'
  n = r.__class__.__name__
  if n in RELOP:
    return RELOP[n] % (term(r.lhs, env), term(r.rhs, env))
  raise symx.Unsupported('relation %r' % (r,))


def conj(l):
  l = list(l)
  return '(and %s)' % ' '.join(l) if len(l) > 1 else (l[0] if l else 'true')


def disj(l):
  l = list(l)
  return '(or %s)' % ' '.join(l) if len(l) > 1 else (l[0] if l else 'false')


def value(e, env):
  """exact value of a sympy expression at {name: Fraction}; None when it
  divides by zero"""
  if isinstance(e, (int, long, Fraction)):
    return Fraction(e)
  e = sympy.sympify(e)
  if e.is_Number:
    return num(e)
  if e.is_Symbol:
    return Fraction(env[e.name])
  if e.is_Add or e.is_Mul:
    vs = [value(a, env) for a in e.args]
    if any(v is None for v in vs):
      return None
    r = Fraction(0 if e.is_Add else 1)
    for v in vs:
      r = r + v if e.is_Add else r * v
    return r
  if e.is_Pow and e.exp.is_Integer:
    v = value(e.base, env)
    n = int(e.exp)
    if v is None or (v == 0 and n < 0):
      return None
    return v ** n
  raise ValueError('expression %r' % (e,))


def truth(r, env):
  """truth of a sympy relation at {name: Fraction}"""
  if r is True or r == True:
    return True
  if r is False or r == False:
    return False
  n = r.__class__.__name__
  a, b = value(r.lhs, env), value(r.rhs, env)
  return {'StrictLessThan': a < b, 'LessThan': a <= b, 'StrictGreaterThan': a > b,
          'GreaterThan': a >= b, 'Equality': a == b, 'Unequality': a != b}[n]
