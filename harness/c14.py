"""Muchnik real quantifier elimination."""
import qe

META = {
  'functions': ['muchnik.Muchniker.real_full', 'muchnik_sequence', 'real_extend', '_r_full_assignment',
                'r_assignment_all_zero', '_poly_deg_key', 'sympywrapper.SympyWrapper',
                'cachedsympywrapper.CachedSympyWrapper'],
  'bounds': {
    'quick': 'listed systems of up to 3 conditions, degree <= 3 in the eliminated variable, up to 4 '
             'parameters; every real value of the parameters and of the eliminated variable',
    'thorough': 'the same list with both algebra wrappers and longer solver limits',
  },
  'outside': ['other systems and higher degrees', 'the printed report (stubbed in the symbolic run, '
              'real in the replays)', 'inputs that are not expanded polynomials'],
  'assumptions': ['blist.sortedset as in stubs/blist.py', 'sympy algebra is exact'],
}
WHO = 'muchnik'


def cases(tier):
  return qe.cases(WHO, tier)


def run(case):
  return qe.run_real(WHO, case)


def replay(case, inp):
  return qe.replay_real(WHO, case, inp)
