"""Hiding lists of GRF runs on sequent texts (GRF/smt2.py)."""
import itertools
import os
import re
import sys
import tempfile
from fractions import Fraction
import base
from base import Outcome
import symx
from symx import var, path
import sexp
import grfenv
import terms
from grfenv import smt_poly, at

NS = grfenv.load(smt2=True)
META = {
  'functions': ['SMTContext.perform_grf', 'SMTContext.get_ring_var', 'SMTContext.add_antecedent',
                'SMTContext.add_succedent', 'ParseSMT.processCommands', 'ParseSMT.clearContext', 'grf_on_file',
                'RCF_GD_Decide.promote_right', 'RCF_Goal.add_goal_hyp', 'RCF_Atom.negate', 'RCF_Atom.update_ring'],
  'bounds': {
    'quick': 'sequents of <= 3 antecedents and 1..3 succedents (some of 12 + 2, 3 + 11; repeated formulas; linear and quadratic relations, relations rotated), '
             'every set of hypotheses the filter may keep, promoted in ascending and descending order; one problem, '
             'several problems in one text, cleared and given contexts, and the file entry point; every value of the '
             'variables',
    'thorough': 'all rotations of relations, <= 4 antecedents',
  },
  'outside': ['which hypotheses the filter keeps (C19)', 'sequents without succedent'],
  'assumptions': ['the filtering loop only promotes hypotheses (its selection is replaced by every possible one)',
                  'Sage polynomial arithmetic (stand-in)'],
}
R = terms.REL


LONG = ['longVariableName1', 'longVariableName2', 'longvariablename1', 'x', 'X', 'x1', 'x11', 'skoX', 'skoY', '_Zs0', 'v',
        'xx', 'e', 'a' * 40 + 'b', 'a' * 40 + 'c', 'v10', 'v1']


def side(k, i, rot, kind=''):
  """formula i: its own variable, sometimes a shared one"""
  o = R[(rot + k * 3 + i * 2) % 6]
  v = '%s_%d' % ('a' if k == 0 else 's', i)
  if kind == 'names':
    v = LONG[(rot + 5 * k + i) % len(LONG)]
  if kind == 'dup':  # some formulas are the same, or the same up to the relation
    v = 'a_%d' % ((i + k) // 2)
    return (R[(rot + (i + k) // 2) % 6] if i % 3 else R[rot % 6], v, '1.5')
  l = [v, ('+', v, 'u'), ('*', v, v), ('-', ('*', '2.0', v), ('/', 'u', '3.'))][(i + rot + k) % 4]
  return (o, l, ['1.5', '0.', ('neg', 'u'), 'u'][(i + 2 * rot) % 4])


def cases(tier):
  big = tier == 'thorough'
  out = []

  def add(cid, **kw):
    kw.update({'id': cid, 'limit': 300 if big else 60, 'validate': 3, 'w': 1})
    out.append(kw)
  for a in range(0, 5 if big else 4):
    for s in range(1, 4):
      for rot in (range(6) if big else ((a + s) % 6, (a + s + 3) % 6)):
        for how in ('one', 'second', 'cleared', 'given', 'file', 'kept', 'fresh'):
          if how in ('second', 'cleared', 'given', 'kept', 'fresh') and not big and (rot != (a + s) % 6 or a > 2):
            continue
          add('%s/%d/%d/%d' % (how, a, s, rot), how=how, a=a, s=s, rot=rot)
  for rot in range(6):
    how = ('one', 'file', 'second')[rot % 3]
    add('names/%d' % rot, how=how, a=1 + rot % 3, s=1 + rot % 2, rot=rot, forms='names')
    add('dup/%d' % rot, how=how, a=4 - rot % 2, s=1 + rot % 3, rot=rot, forms='dup')
  for a, s in ((12, 2), (3, 11), (11, 1)) + (((25, 3), (12, 12)) if big else ()):
    for how in ('one', 'file'):
      add('wide/%s/%d/%d' % (how, a, s), how=how, a=a, s=s, rot=(a + s) % 6)
  return out


def seq(case):
  f = case.get('forms', '')
  return [side(0, i, case['rot'], f) for i in range(case['a'])], [side(1, i, case['rot'], f) for i in range(case['s'])]


FIRST = ([('<', 'p', 'q'), ('=', 'u', '2.')], [('>=', 'q', 'p'), ('!=', 'u', '0.')])


class Filter(object):
  """stands in for the selection loop: promotes the chosen hypotheses"""

  def __init__(self):
    self.pick, self.rev, self.seen = [], False, None

  def __call__(self, d, *a, **kw):
    self.seen = ([(h.poly, h.op) for h in d.hyps], (d.goal.main_goal.poly, d.goal.main_goal.op))
    hs = list(d.hyps)
    order = [i for i in self.pick if i < len(hs)]
    if self.rev:
      order.reverse()
    for i in order:
      k = [j for j, h in enumerate(d.hyps) if h is hs[i]][0]
      d.promote_right(k)
    self.final = [(h.poly, h.op) for h in d.goal.goal_hyps], (d.goal.main_goal.poly, d.goal.main_goal.op)
    return []


FILTER = Filter()
NS['RCF_GD_Decide'].check = lambda self, *a, **kw: FILTER(self, *a, **kw)


def go(case, pick, rev):
  """(antecedent hides, succedent hides, {name: ring variable name}) and what
  the filter saw"""
  a, s = seq(case)
  txt = terms.sequent('the problem', a, s)
  first = terms.sequent('earlier', *FIRST)
  FILTER.pick, FILTER.rev = pick, rev
  how = case['how']
  label = None
  if how == 'file':
    d = tempfile.mkdtemp(dir=os.getcwd())
    f, o = os.path.join(d, 'p.smt'), os.path.join(d, 'out')
    with open(f, 'w') as h:
      h.write(txt)
    if case['rot'] % 2:  # left over from an earlier run
      with open(o, 'w') as h:
        h.write('("an earlier problem" (hide_antecedent_0) ())\n' * 5)
    box = []
    orig = NS['SMTContext'].perform_grf

    def keep(self, *x):
      r = orig(self, *x)
      box.append(self)
      return r
    NS['SMTContext'].perform_grf = keep
    try:
      n = NS['grf_on_file'](f, interactive=False, outfile=o)
    finally:
      NS['SMTContext'].perform_grf = orig
    with open(o) as h:
      res = h.read()
    os.unlink(f)
    os.unlink(o)
    os.rmdir(d)
    m = re.match(r'\("([^"]*)" \(([^()]*)\) \(([^()]*)\)\)\s*$', res)
    if not m:
      raise ValueError('result text %r' % res)
    ha = [int(re.match(r'hide_antecedent_(\d+)$', w).group(1)) for w in m.group(2).split()]
    hs = [int(re.match(r'hide_succedent_(\d+)$', w).group(1)) for w in m.group(3).split()]
    if m.group(1) != 'the problem' or tuple(n) != (len(ha), len(hs)):
      raise ValueError('result %r with counts %r' % (res, n))
    ctx = box[-1]
  else:
    P = NS['ParseSMT'](interactive=False)
    if how == 'one':
      ctx = P.processCommands(txt)
    elif how == 'second':
      ctx = P.processCommands(first + '\n' + txt)
    elif how == 'cleared':
      P.processCommands(first)
      P.clearContext()
      ctx = P.processCommands(txt)
    elif how == 'given':
      P.processCommands(first)
      ctx = P.processCommands(txt, context=NS['SMTContext'](interactive=False))
    else:
      # the given context keeps its problem whatever the parser does next
      if how == 'kept':
        P.processCommands(first)
      ctx = P.processCommands(txt, context=NS['SMTContext'](interactive=False))
      seen, final = FILTER.seen, FILTER.final
      P.processCommands(first)
      P.clearContext()
      P.processCommands(first, context=NS['SMTContext'](interactive=False))
      FILTER.seen, FILTER.final = seen, final
    r = ctx.hiding_result
    ha, hs = list(r['hide_antecedent']), list(r['hide_succedent'])
    if ctx.sequent_str != 'the problem':
      raise ValueError('label %r' % ctx.sequent_str)
  for h, n in ((ha, case['a']), (hs, case['s'])):
    if sorted(set(h)) != h or any(i < 0 or i >= n for i in h):
      raise ValueError('hiding indices %s of %d' % (h, n))
  return ha, hs, dict((k, v.name()) for k, v in ctx.var_map.items())


def picks(case):
  n = case['a'] + case['s'] - 1
  if n > 6:
    ps = [[], range(n), [0], [n - 1], [n // 2], range(0, n, 2), range(1, n, 3), [0, n - 1], range(n - 2)]
    return [(p, False) for p in ps] + [(ps[1], True), (ps[5], True)]
  ps = [[i for i in range(n) if k >> i & 1] for k in range(2 ** n)]
  if n > 4:
    ps = ps[::3]
  return [(p, False) for p in ps] + ([(ps[-1], True)] if n > 1 else [])


def all_names(case):
  a, s = seq(case)
  return sorted(set(n for f in a + s for n in terms.names(f)))


def run(case):
  a, s = seq(case)
  nm = all_names(case)
  vals = dict((n, var('v_' + n)) for n in nm)
  env = dict((n, symx.smt(v)) for n, v in vals.items())
  base.inputs({'pick': [], 'rev': False, 'vals': vals})
  fa, fs = [terms.formula(f, env) for f in a], [terms.formula(f, env) for f in s]
  for pick, rev in picks(case):
    inp = {'pick': pick, 'rev': rev, 'vals': vals}
    try:
      ha, hs, vm = go(case, pick, rev)
      renv = dict((vm[n], env[n]) for n in nm)
      if len(renv) != len(nm):
        return Outcome(False, inputs=inp, observed='variables %s' % vm, expected='one ring variable each')

      def f(x):
        return grfenv.SMT[x[1]] % smt_poly(x[0], renv)

      def imp(hyps, goal):
        return '(=> %s %s)' % (sexp.conj(hyps), goal)
      seen = imp([f(h) for h in FILTER.seen[0]], f(FILTER.seen[1]))
      final = imp([f(h) for h in FILTER.final[0]], f(FILTER.final[1]))
    except symx.Unsupported:
      raise
    except Exception as e:
      return Outcome(False, inputs=inp, observed='raised %r' % e)
    given = imp(fa, sexp.disj(fs))
    shown = imp([x for i, x in enumerate(fa) if i not in ha], sexp.disj([x for i, x in enumerate(fs) if i not in hs]))
    if path().holds(['(and (= %s %s) (= %s %s))' % (seen, given, final, shown)]) is False:
      return Outcome(False, inputs=inp, observed='hide %s %s' % (ha, hs), expected='the unused formulas')
  return Outcome(True)


def replay(case, inp):
  a, s = seq(case)
  env = dict((n, Fraction(v)) for n, v in inp['vals'].items())
  text = '%s, hypotheses %s%s kept, at %s' % (terms.sequent('', a, s), inp['pick'], ' (reversed)' if inp['rev'] else '',
                                            dict((k, str(v)) for k, v in sorted(env.items())))
  sig = '%s:%s' % (case['id'], inp['pick'])
  try:
    ha, hs, vm = go(case, inp['pick'], inp['rev'])
    renv = dict((vm[n], env[n]) for n in env)

    def t(x):
      return grfenv.HOLDS[x[1]](at(x[0], renv))
    seen = not all(t(h) for h in FILTER.seen[0]) or t(FILTER.seen[1])
    final = not all(t(h) for h in FILTER.final[0]) or t(FILTER.final[1])
  except Exception as e:
    return {'violated': True, 'sig': sig, 'observed': text + ': raised %r' % e, 'expected': 'hiding lists'}
  fa, fs = [terms.truth(f, env) for f in a], [terms.truth(f, env) for f in s]
  given = not all(fa) or any(fs)
  shown = not all(x for i, x in enumerate(fa) if i not in ha) or any(x for i, x in enumerate(fs) if i not in hs)
  bad = seen != given or final != shown or len(set(vm[n] for n in env)) != len(env)
  return {'violated': bad, 'sig': sig, 'expected': 'given %s, after hiding %s' % (given, final),
          'observed': text + ': hide %s %s; handed to the filter %s, after hiding %s' % (ha, hs, seen, shown)}
