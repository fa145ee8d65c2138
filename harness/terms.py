"""Prefix terms and relations: text, solver text, exact value."""
from fractions import Fraction
import symx

REL = ['<=', '<', '=', '!=', '>=', '>']
SMT = {'<=': '(<= %s %s)', '<': '(< %s %s)', '=': '(= %s %s)', '!=': '(not (= %s %s))', '>=': '(>= %s %s)',
       '>': '(> %s %s)'}
HOLDS = {'<=': lambda a, b: a <= b, '<': lambda a, b: a < b, '=': lambda a, b: a == b, '!=': lambda a, b: a != b,
         '>=': lambda a, b: a >= b, '>': lambda a, b: a > b}


def text(t, sp=' '):
  if isinstance(t, str):
    return t
  if t[0] == 'neg':
    return '(-%s%s)' % (sp, text(t[1], sp))
  return '(%s%s%s%s%s)' % (t[0], sp, text(t[1], sp), sp, text(t[2], sp))


def is_var(t):
  return t[0].isalpha() or t[0] == '_'


def leaf(t):
  """exact value of a numeral (~ is minus)"""
  t = t.replace('~', '-')
  return Fraction(t[:-1] if t.endswith('.') else t)


def smt(t, env):
  if isinstance(t, str):
    return env[t] if is_var(t) else symx.smt(leaf(t))
  a = smt(t[1], env)
  if t[0] == 'neg':
    return '(- %s)' % a
  return '(%s %s %s)' % (t[0], a, smt(t[2], env))


def formula(f, env):
  return SMT[f[0]] % (smt(f[1], env), smt(f[2], env))


def value(t, env):
  if isinstance(t, str):
    return Fraction(env[t]) if is_var(t) else leaf(t)
  a = value(t[1], env)
  if t[0] == 'neg':
    return -a
  b = value(t[2], env)
  return {'+': lambda: a + b, '*': lambda: a * b, '-': lambda: a - b, '/': lambda: a / b}[t[0]]()


def truth(f, env):
  return HOLDS[f[0]](value(f[1], env), value(f[2], env))


def names(t):
  if isinstance(t, str):
    return [t] if is_var(t) else []
  return [n for s in t[1:] for n in names(s)]


def tup(t):
  return t if isinstance(t, str) else tuple(tup(x) for x in t)


def sequent(label, a, s, sp=' '):
  return '(sequent%s"%s"%s(antecedent%s%s)%s(succedent%s%s))' % (
    sp, label, sp, sp, sp.join(text(f, sp) for f in a), sp, sp, sp.join(text(f, sp) for f in s))
