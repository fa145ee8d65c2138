"""Example files: parsed, stored, read back and judged (vts/examples_parser.py, vts/checker.py)."""
import itertools
import os
import re
import shutil
import sys
import tempfile
from fractions import Fraction
import base
from base import Outcome, REPO
sys.path.insert(0, REPO + '/vts')
import symx
from symx import var, path
import sexp
import c11
import examples_parser
import checker
import uni_vts

META = {
  'functions': ['examples_parser.parse_files_from_dir', 'examples_parser.parse_example_dirs',
                'examples_parser.examples_preformat_uni', 'examples_parser.write_sympy_parseable_examples',
                'examples_parser.unpickle_dirs', 'examples_parser.unpickle_from_dir', 'examples_parser.unpickle_dirs_gen',
                'examples_parser.make_univariate', 'checker.check_examples', 'checker.vts_preformat',
                'checker.make_relation_map', 'isym.vts', 'isym.ts', 'isym.convert'],
  'bounds': {
    'quick': '1..3 files (one in a subdirectory) of 0..4 sequents of <= 3 + 3 formulas, degree <= 4, up to 5 variables, '
             'integer, trailing-dot and fraction coefficients; stored once or twice; both decision procedures; every '
             'number, every answer the procedure may give',
    'thorough': 'more sequents, 5 files stored',
  },
  'outside': ['sequents whose antecedent or succedent is empty (documented refusal), formulas that become constant on the '
              'diagonal', 'files of the same name in different directories', 'the checker beyond its first three files '
              '(its own limit)', 'the pickles committed in the repository'],
  'assumptions': ['pickle, os.walk and the file system', 'the decision procedure answers the question it is asked '
                  '(C01, C02; it is replaced by every possible answer)'],
}
REL = c11.REL
V = ['x', 'y_1', 'skoX', 'skoY', 'longVariableName1']


def term(k):
  a, b, c = V[k % 5], V[(k + 1) % 5], V[(k + 3) % 5]
  n = ['3', '-2', '7.', '12', '-4.', '100000000000000000001', '5'][k % 7]
  return [a, ('*', a, b), ('+', ('*', n, a), b), ('-', ('*', a, ('*', b, c)), n), ('neg', ('+', a, n)),
          ('*', ('+', a, '1'), ('-', b, n)), ('-', ('/', a, '3'), ('*', n, b)), ('*', ('*', a, b), ('*', a, c)),
          ('/', ('-', n, a), '-2'), ('+', a, ('+', ('*', b, b), '3'))][k % 10]


def formula(k):
  """a relation that does not become constant on the diagonal"""
  while True:
    f = (REL[(k + k // 6) % 6], term(k), ['0', '1', V[k % 4], '-2', ('*', V[2], V[3])][k % 5])
    vals = set()
    for t in (Fraction(2), Fraction(-3), Fraction(5, 7), Fraction(11)):
      e = dict((n, t) for n in V)
      vals.add(c11.value(f[1], e) - c11.value(f[2], e))
    if len(vals) > 1:
      return f
    k += 31


def sequent(k, a, s):
  return [formula(k * 7 + i * 3) for i in range(a)], [formula(k * 5 + 2 + i * 11) for i in range(s)]


SIZES = [(1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (1, 3), (3, 1)]


def cases(tier):
  big = tier == 'thorough'
  out = []
  n = 0
  shapes = [(1,), (2,), (3,), (4,), (2, 1), (1, 3), (0, 2), (3, 2), (1, 1)] + ([(6,), (5, 4), (9,)] if big else [])
  for kind in ('store', 'vts', 'ts'):
    for rep in range(3 if big else 2):
      for sh in shapes + ([(1, 2, 1)] if kind == 'store' else []) + ([(2, 2, 1, 3, 1)] if big and kind == 'store' else []):
        files = []
        for m in sh:
          files.append([sequent(n + 13 * i, *SIZES[(n + i) % 7]) for i in range(m)])
          n += 1
        out.append({'id': '%s/%d/%s' % (kind, rep, '-'.join(map(str, sh))), 'kind': kind, 'files': files, 'twice': rep,
                    'sub': rep == 1, 'validate': 2, 'w': 2, 'limit': 300 if big else 60})
  return out


class Place(object):
  """a scratch tree with GRF/Examples/MetiTarski and the directory to work in"""

  def __enter__(self):
    self.old = os.getcwd()
    self.top = tempfile.mkdtemp(dir=self.old)
    self.src = os.path.join(self.top, 'GRF', 'Examples', 'MetiTarski')
    os.makedirs(self.src)
    os.makedirs(os.path.join(self.top, 'vts'))
    os.chdir(os.path.join(self.top, 'vts'))
    return self

  def __exit__(self, *a):
    os.chdir(self.old)
    shutil.rmtree(self.top)


def names(case):
  return ['problem-%d.smt' % i for i in range(len(case['files']))]


def fill(place, case, files):
  for i, (nm, seqs) in enumerate(zip(names(case), files)):
    d = place.src
    if case['sub'] and i == len(files) - 1:
      d = os.path.join(d, 'more')
      if not os.path.isdir(d):
        os.makedirs(d)
    with open(os.path.join(d, nm), 'w') as f:
      f.write('; %d\n' % i + c11.source(seqs, '\n ' if i % 2 else ' ') + '\n')


def prepare(place, case):
  files = [c11.fix(f) for f in case['files']]
  if case['twice']:  # an earlier run over other contents
    fill(place, case, [f[1:] + files[0] for f in files])
    examples_parser.write_sympy_parseable_examples()
  fill(place, case, files)
  examples_parser.write_sympy_parseable_examples()
  return files


def stored(case):
  """[(file's sequents, examples read back)], by the map and by the generator"""
  with Place() as p:
    files = prepare(p, case)
    m = examples_parser.unpickle_dirs()
    g = list(examples_parser.unpickle_dirs_gen())
  flat = {}
  for d in m.values():
    for k, v in d.items():
      flat[k] = v
  out = []
  for nm, f in zip(names(case), files):
    hits = [v for k, v in flat.items() if k.startswith(nm)]
    if len(hits) != 1:
      raise ValueError('%s is read back %d times' % (nm, len(hits)))
    out.append((f, hits[0]))
  if len(flat) != len(files):
    raise ValueError('%d files read back, not %d' % (len(flat), len(files)))
  if sorted(map(repr, g)) != sorted(repr(e) for _, e in out):
    raise ValueError('one by one: %r' % (g,))
  return out


def flat_pairs(case):
  """[(relation read back, formula of the text)]"""
  out = []
  for seqs, exs in stored(case):
    if len(seqs) != len(exs):
      raise ValueError('%d examples, not %d' % (len(exs), len(seqs)))
    for (a, s), e in zip(seqs, exs):
      if len(e) != 2 or (len(e[0]), len(e[1])) != (len(a), len(s)):
        raise ValueError('%r for %s' % (e, c11.source([(a, s)], ' ')))
      out += zip(list(e[0]) + list(e[1]), list(a) + list(s))
  return out


CLS = {'LessThan': '<=', 'StrictLessThan': '<', 'Equality': '=', 'Unequality': '!=', 'GreaterThan': '>=',
       'StrictGreaterThan': '>'}


def form(r, f, the):
  """what is wrong with the form of a stored relation"""
  if CLS.get(r.__class__.__name__) != f[0]:
    return 'a relation of another kind: %r for %s' % (r, c11.text(f))
  if r.rhs != 0:
    return 'right-hand side %s' % r.rhs
  the |= set(s.name for s in r.free_symbols)
  if len(the) > 1:
    return 'variables %s' % sorted(the)
  return None


def check(case, files, answers):
  """run the checker on what is stored; [per reported example: (verdict, questions asked)]"""
  which = 'internal_' + case['kind']
  real = getattr(uni_vts, which)
  out = Out()
  asked = []
  it = itertools.cycle(answers)

  def stand_in(le, lt, eq, ne):
    asked.append((out.count(), dict(le=le, lt=lt, eq=eq, ne=ne)))
    return next(it)
  keep = sys.stdout
  sys.stdout = out
  setattr(uni_vts, which, stand_in)
  try:
    if case['kind'] == 'vts':
      checker.check_examples()
    else:
      checker.check_examples(vts=False)
  finally:
    sys.stdout = keep
    setattr(uni_vts, which, real)
  vs = out.verdicts()
  n = sum(len(f) for f in files)
  if n and vs and not asked:
    raise symx.Unsupported('the procedure was not called')
  if n and asked and not vs:
    raise symx.Unsupported('no verdict is printed')
  if len(vs) != n:
    raise ValueError('%d verdicts for %d examples' % (len(vs), n))
  return [(v, [q for k, q in asked if k == i]) for i, v in enumerate(vs)]


class Out(object):
  def __init__(self):
    self.t = []

  def write(self, s):
    self.t.append(s)

  def flush(self):
    pass

  def verdicts(self):
    return [m == 'True' for m in re.findall(r'formula value: *(True|False)', ''.join(self.t))]

  def count(self):
    return len(self.verdicts())


SCRIPTS = [(True,), (True, False), (False, True), (False, False, True), (False, True, False), (True, False, False)]


def judged(case):
  """(files, what is wrong with the reports or None, reports and questions when nothing is satisfiable)"""
  with Place() as p:
    files = prepare(p, case)
    return files, script_bad(case, files), check(case, files, (False,))


def script_bad(case, files):
  """do the reports follow the answers?"""
  for a in SCRIPTS:
    it = itertools.cycle(a)
    got = check(case, files, a)
    for v, qs in got:
      want = not any([next(it) for _ in qs])
      if v != want:
        return 'answers %s: reported %s, not %s' % (a, v, want)
  return None


def horner(p, v):
  r = '0.0'
  for c in reversed(p):
    r = '(+ %s (* %s %s))' % (symx.smt(Fraction(c)), v, r)
  return r


QT = {'le': '(<= %s 0.0)', 'lt': '(< %s 0.0)', 'eq': '(= %s 0.0)', 'ne': '(not (= %s 0.0))'}
QH = {'le': lambda v: v <= 0, 'lt': lambda v: v < 0, 'eq': lambda v: v == 0, 'ne': lambda v: v != 0}


def orders(files):
  """the examples in every order of the files"""
  seen = []
  for o in itertools.permutations(range(len(files))):
    seen.append([s for i in o for s in files[i]])
  return seen


def text_smt(f, env):
  return c11.SMT[f[0]] % (c11.smt(f[1], env, []), c11.smt(f[2], env, []))


def ask(claim):
  """does the claim hold for every value?  (leaves the path as it is)"""
  p = path()
  v, _ = p.eng.solver.query(p.eng.names, p.eng.sorts, p.asserts + ['(not %s)' % claim])
  if v not in ('sat', 'unsat'):
    p.unsure = True
    return None
  return v == 'unsat'


def run(case):
  v = var('v')
  t = symx.smt(v)
  env = dict((n, t) for n in V)
  inp = {'v': v}
  base.inputs(inp)
  try:
    if case['kind'] == 'store':
      the = set()
      claims = []
      for r, f in flat_pairs(case):
        bad = form(r, f, the)
        if bad:
          return Outcome(False, inputs=inp, observed=bad)
        one = dict((s.name, t) for s in r.free_symbols)
        claims.append('(= %s %s)' % (sexp.formula(r, one), text_smt(f, env)))
      for k in range(0, len(claims), 3):
        if path().holds([sexp.conj(claims[k:k + 3])]) is False:
          return Outcome(False, inputs=inp, observed='another meaning', expected=claims[k:k + 3])
      return Outcome(True)
    files, bad, got = judged(case)
    if bad:
      return Outcome(False, inputs=inp, observed=bad)
    if any(g[0] is False for g in got):
      return Outcome(False, inputs=inp, observed='reported false although no goal is satisfiable')
    have = [sexp.disj([sexp.conj([QT[r] % horner(p, t) for r in sorted(q) for p in q[r]]) for q in qs]) for _, qs in got]
    first = None
    for o in orders(files):
      bad = None
      for h, (a, s) in zip(have, o):
        claim = '(= %s %s)' % (h, sexp.conj([text_smt(f, env) for f in a] + [
          '(not %s)' % sexp.conj([text_smt(f, env) for f in s])]))
        if ask(claim) is False:
          bad = claim
          break
      if bad is None:
        return Outcome(True)
      first = first or bad
    path().holds([first])
    return Outcome(False, inputs=inp, observed='other questions')
  except symx.Unsupported:
    raise
  except Exception as e:
    return Outcome(False, inputs=inp, observed='raised %r' % e)


def points(v):
  return [v] + [Fraction(k, 6) for k in range(-60, 61)] + [Fraction(10) ** k for k in (2, 5, 9, 21)] + \
      [-Fraction(10) ** k for k in (2, 5, 9, 21)]


def replay(case, inp):
  v = Fraction(inp['v'])
  sig = case['id']
  try:
    if case['kind'] == 'store':
      the = set()
      for r, f in flat_pairs(case):
        bad = form(r, f, the)
        if bad:
          return {'violated': True, 'sig': sig, 'observed': bad, 'expected': c11.text(f)}
        for u in points(v):
          env = dict((n, u) for n in V)
          have = sexp.truth(r, dict((s.name, u) for s in r.free_symbols))
          want = c11.HOLDS[f[0]](c11.value(f[1], env), c11.value(f[2], env))
          if have != want:
            return {'violated': True, 'sig': sig, 'observed': '%s is stored as %s, which is %s at %s' % (
              c11.text(f), r, have, u), 'expected': want}
      return {'violated': False, 'sig': sig, 'observed': 'same', 'expected': 'same'}
    files, bad, got = judged(case)
    if bad:
      return {'violated': True, 'sig': sig, 'observed': bad, 'expected': 'false when some goal is satisfiable'}
    if any(g[0] is False for g in got):
      return {'violated': True, 'sig': sig, 'observed': 'reported false', 'expected': 'no goal is satisfiable'}
    why = None
    for o in orders(files):
      bad = None
      for (_, qs), (a, s) in zip(got, o):
        for u in points(v):
          env = dict((n, u) for n in V)

          def h(f):
            return c11.HOLDS[f[0]](c11.value(f[1], env), c11.value(f[2], env))
          want = all(h(f) for f in a) and not all(h(f) for f in s)
          have = any(all(QH[r](sum(Fraction(c) * u ** i for i, c in enumerate(p))) for r in q for p in q[r]) for q in qs)
          if have != want:
            bad = bad or '%s at %s: a goal holds: %s; goals %s' % (c11.source([(a, s)], ' '), u, have, qs)
      if not bad:
        return {'violated': False, 'sig': sig, 'observed': 'same', 'expected': 'same'}
      why = why or bad
    return {'violated': True, 'sig': sig, 'observed': why, 'expected': 'goals that refute the sequent'}
  except symx.Unsupported as e:
    return {'violated': False, 'sig': sig, 'observed': 'not observable: %s' % e, 'expected': ''}
  except Exception as e:
    return {'violated': True, 'sig': sig, 'observed': 'raised %r' % e, 'expected': 'examples'}
