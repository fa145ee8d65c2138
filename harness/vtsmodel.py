"""The algebraic-number library as the symbolic runs see it, and systems of
sign conditions over a chain of symbolic points.

z3rcf.MkRoots / MkInfinitesimal are the only third-party calls on which the
decision procedures depend.  On concrete polynomials they are the real ones.
On a symbolic polynomial MkRoots answers by the library's contract: the
distinct real roots, which the harness knows because it built the polynomial
from them; the library promises no order, so ascending and descending are both
explored.  MkInfinitesimal answers with the generator of an exact ordered ring
of Laurent polynomials in a positive infinitesimal (symx.EpsNum).
"""
import os
import sys

import base
from base import REPO, Outcome
sys.path.insert(0, REPO + '/vts')
import symx
from symx import Sym, var, assume, path
import polys
from polys import RootPoly, chain, mul

import z3rcf

REGISTERED = []
ORDER = [0]
EPS_ON = [False]

if not os.environ.get('VERIF_REPLAY'):
  _real_roots = z3rcf.MkRoots
  _real_eps = z3rcf.MkInfinitesimal

  def MkRoots(p, *a):
    concrete = not any(isinstance(c, Sym) for c in p)
    p = list(p)
    for rp in REGISTERED:
      q = rp.coefs()
      if len(q) != len(p):
        continue
      if all(same(x, y) for x, y in zip(p, q)) or \
         all(same(x * q[-1], y * p[-1]) for x, y in zip(p, q)):
        r = rp.roots()
        return r[::-1] if ORDER[0] else r
    if concrete:
      return _real_roots(p, *a)
    raise symx.Unsupported('roots of an unregistered polynomial')

  def MkInfinitesimal(*a):
    if EPS_ON[0]:
      return symx.EpsNum({1: 1})
    return _real_eps(*a)

  z3rcf.MkRoots = MkRoots
  z3rcf.MkInfinitesimal = MkInfinitesimal


def same(x, y):
  """structurally equal as polynomials in the symbolic variables"""
  d = x - y
  if isinstance(d, Sym):
    return not d.n
  return d == 0


REL = {'le': (-1, 0), 'lt': (-1,), 'eq': (0,), 'ne': (-1, 1)}
NAMES = ['le', 'lt', 'eq', 'ne']


def system(case):
  """Build the symbolic polynomials of a case.

  case['polys']: list of (mults, pairs, lc) with lc the name of the symbolic
  leading coefficient; a repeated name is the same coefficient; 'a^5' makes the
  first root's factor x^5 - c^5.
  """
  n = max([len(m) for m, _, _ in case['polys']] or [0])
  fix = case.get('fix') or {}
  pts = chain(n, fix=fix)
  scale = (['u'] if n else []) + ['g%d' % i for i in range(1, n)]
  out = []
  k = 0
  for mults, npairs, lcname in case['polys']:
    lcname, _, power = lcname.partition('^')
    lc = fix.get(lcname) or var(lcname)
    assume(lc != 0)
    prs = []
    for _ in range(npairs):
      x = fix.get('x%d' % k) or var('x%d' % k)
      y = fix.get('y%d' % k) or var('y%d' % k)
      scale += ['x%d' % k, 'y%d' % k]
      k += 1
      assume(y > 0)
      prs.append((pts[0] + x if pts else x, y))
    out.append(RootPoly(pts, enumerate(mults), lc, prs, int(power or 1)))
  pos = [v for v in scale if v[0] in 'gy']
  if pos and not fix:
    symx.ENG.set_scale(scale, pos[0])
  return pts, out


def oracle(npts, rps, slcs, rels):
  """Is some real number in all the relations?  By the order of the roots."""
  for cell in range(2 * npts + 1):
    if all(rp.sign_in_cell(cell, s) in REL[r]
           for rp, s, r in zip(rps, slcs, rels)):
      return True
  return False


def concrete_oracle(lists):
  """lists: {'le': [...], ...} of rational polynomials"""
  flat = [(r, p) for r in NAMES for p in lists[r]]
  for vec, point in polys.cells([p for _, p in flat]):
    if all(s in REL[r] for s, (r, _) in zip(vec, flat)):
      return True
  return False


def split(rels, ps):
  d = dict((r, []) for r in NAMES)
  for r, p in zip(rels, ps):
    d[r].append(p)
  return d


# ---------------------------------------------------------------------- cases

def comp(n, tot):
  if n == 0:
    return [()] if tot == 0 else []
  return [(i,) + r for i in range(tot + 1) for r in comp(n - 1, tot - i)]


def arrangements(degs):
  """all ways to place roots of polynomials with the given numbers of real
  roots (with multiplicity) on a chain, every point used"""
  out = []
  top = sum(degs)

  def go(n, i, acc):
    if i == len(degs):
      if all(any(m[j] for m in acc) for j in range(n)):
        out.append(tuple(acc))
      return
    for m in comp(n, degs[i]):
      go(n, i + 1, acc + [m])
  for n in range(0, top + 1):
    go(n, 0, [])
  return out
