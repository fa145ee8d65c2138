#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = 'symbolic execution of the real code (path-by-path, SMT-decided branches), counterexamples replayed'
NOTE = ('Bounded: every path of the real functions within the stated sizes is decided by the solver for all '
        'values of the symbolic inputs; bounds, unresolved paths and cut cases are in the evidence file. '
        'Trusted: the symbolic-number proxies, z3, Jython, and the stub contracts listed as assumptions.')
P = []


def prop(pid, title, statement, qtext, why, files, mech, over=('inputs',), observe=(), tech=TECH, note=NOTE):
    P.append((dict(id=pid, title=title, statement=statement,
                   quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                   anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                                observe_at=list(observe), hook_needed=None)), tech, note))


U = 'vts/uni_vts.py'
prop('C01', 'Virtual-substitution decision is exact',
     'For every finite list of univariate polynomial conditions (<=0, <0, =0, !=0; non-zero polynomials), the '
     'virtual-term-substitution decision answers true exactly when some real number satisfies all of them. '
     'It gives an answer, never an exception, on every such system that fits its documented table limit, '
     'through the coefficient-list entry and through the symbolic-expression entry alike.',
     'every system of conditions: any degrees, coefficients, root arrangement, relation mix and order',
     'the tests run a few dozen fixed systems; a wrong sign, a missed test point or a lost multiplicity shows '
     'only for particular root arrangements and relation mixes, of which there are infinitely many',
     [U, 'vts/isym.py', 'vts/matrix_of_signs.py'],
     [('decision loop over closed endpoints, right-of-open endpoints, minus infinity', U + ': internal_vts'),
      ('sign of each polynomial at an implicitly described root', U + ': evaluate_single_on_sign_assignment'),
      ('allowed signs per polynomial', U + ': sign_conditions_lookup')], observe=['isym.vts', 'uni_vts.internal_vts'])
prop('C02', 'Test-point decision is exact',
     'For every finite list of univariate polynomial conditions (<=0, <0, =0, !=0; non-zero polynomials), the '
     'test-point decision answers true exactly when some real number satisfies all of them. '
     'It gives an answer, never an exception, through both the coefficient-list and the symbolic-expression entry.',
     'every system of conditions: any degrees, coefficients, root arrangement, relation mix and order',
     'the tests sample fixed systems; a missing class of test points is visible only for arrangements in which '
     'the solution set is bounded by exactly that class',
     [U, 'vts/isym.py'],
     [('test points: roots, right neighbours of roots, minus infinity', U + ': internal_ts'),
      ('exact evaluation at a test point', U + ': evaluate')], observe=['isym.ts', 'uni_vts.internal_ts'])
prop('C03', 'Tarski queries and Cauchy indices are exact',
     'The Tarski query of a non-constant-zero p and any q equals the number of distinct real roots of p where q is '
     'positive minus the number where q is negative, whatever the multiplicities, common roots and complex '
     'roots. The Cauchy index of q/p equals the number of jumps from minus to plus infinity minus the number of '
     'opposite jumps on the real line.',
     'all polynomials p (non-zero) and q, including shared and multiple roots and zero q',
     'the tests evaluate a handful of integer pairs; the sign bookkeeping fails only for particular degree drops, '
     'leading-coefficient signs and shared factors',
     [U], [('sign variations of the signed remainder sequence', U + ': signed_remainder_cauchy_index'),
           ('reduction to a Cauchy index', U + ': tarski_query')])
prop('C04', 'Pseudo-remainders keep degree, sign and division identity',
     'A signed pseudo-remainder of f by g has smaller degree than g and equals a positive multiple of f minus a '
     'polynomial multiple of g (so it has f\'s sign at every root of g), with no leading zero. A signed remainder '
     'sequence starts with its two inputs, continues with the negated remainders of consecutive members up to '
     'positive factors, and ends with a common divisor of the inputs.',
     'all coefficient lists f and g (g with non-zero leading coefficient), including dividends with leading zeros',
     'the tests compare a few integer cases; sign and degree slips need a negative leading coefficient, an '
     'intermediate cancellation or several division steps at once',
     [U], [('fraction-free division step with sign correction', U + ': signed_pseudo_remainder'),
           ('sequence construction', U + ': signed_remainder_sequence')])
prop('C05', 'Dense polynomial arithmetic computes the mathematical result',
     'Product, derivative and value of coefficient-list polynomials are exactly those of the polynomials they '
     'denote. The product table of n polynomials lists every product with exponents 0..2, in the documented '
     'lexicographic order, one entry per exponent vector.',
     'all coefficient lists of any length and all points',
     'tests multiply a few fixed integer lists; index slips show up only for particular length combinations',
     [U], [('convolution', U + ': multiply'), ('table by recursion on the list', U + ': make_product_list'),
           ('termwise derivative and value', U + ': derivative, evaluate_poly')])
prop('C06', 'Sign conditions single out each root',
     'For a polynomial and its distinct real roots in any order, every root gets exactly one description; the '
     'recorded derivative signs are the true signs at that root, and no other root of the polynomial meets the '
     'same description.',
     'all polynomials, all numbers and multiplicities of roots, all orders in which roots are supplied',
     'the tests look at one or two polynomials; descriptions collide or go wrong only for particular root '
     'layouts and multiplicities',
     [U], [('recursive split by derivative sign', U + ': get_discri_der_signs'),
           ('sign record per root', U + ': DiscDerSigns')])
prop('C07', 'Sign at an implicit root, and just right of it, is exact',
     'Given a root described by its polynomial and derivative signs, the sign computed for any other polynomial is '
     'its true sign at that root, and the right-neighbourhood variant gives its true sign immediately to the '
     'right of the root.',
     'all root-defining polynomials, all their roots and all goal polynomials, including ones sharing roots',
     'tests check few fixed pairs; errors hide in particular combinations of shared roots, multiplicities and '
     'derivative sign patterns',
     [U, 'vts/matrix_of_signs.py'],
     [('solve the sign-count system and look up the described root', U + ': evaluate_single_on_sign_assignment, pick_sign_of_goal'),
      ('first non-zero derivative', U + ': e_close_evaluate_single_on_sign_assignment')])
prop('C08', 'Sign tables are right after every request history',
     'Whatever sequence of sign-table and inverse-table requests was made before, in this process or in earlier ones '
     'sharing the on-disk cache, a request for n polynomials returns the table mapping sign counts to Tarski '
     'queries in the documented order, or its exact inverse. Sizes outside 1..5 are refused.',
     'all histories of requests and process restarts, all counts',
     'tests request tables in one fixed order from one process; cache-key and aliasing mistakes appear only for '
     'particular request histories',
     ['vts/matrix_of_signs.py'],
     [('tensor product recursion', 'vts/matrix_of_signs.py: new_get_matrix'),
      ('memory and disk cache', 'vts/matrix_of_signs.py: read_cache, write_to_cache, lookup dictionaries')],
     over=('inputs', 'histories'))

QT = ('symbolic execution of the real code: the procedure runs on symbolic parameters and its answer becomes a formula '
      'whose equivalence to the specification an SMT solver decides for all parameter values; counterexamples replayed')
CK = 'vts/checker.py'
prop('C10', 'Refutation goals are equivalent to the negated sequent',
     'For every sequent of polynomial relations (=, !=, <, <=, >, >= against 0), the goals produced for the decision '
     'procedures are such that some goal is satisfiable at a point exactly when all antecedents hold there and the '
     'conjunction of the succedents fails; true members are dropped, repeated members do not matter, and each goal '
     'uses only the four relations <=, <, =, != the procedures accept, each polynomial filed under its own relation.',
     'all sequents and all points',
     'nothing but spot checks can be tested: the number of mixes of relations and sides is unbounded, and a wrong '
     'strictness or sign shows only at particular points',
     [CK], [('negate succedents, distribute antecedents', CK + ': vts_preformat'), ('complement table', CK + ': negate_relations'),
            ('turn > and >= around', CK + ': rewrite_to_less'), ('file by relation', CK + ': make_relation_map')], tech=QT)
GP = 'vts/grf_parser.py'
prop('C11', 'Parsed sequents mean what their text says',
     'Every well-formed GRF sequent parses to exactly its antecedent and succedent formulas, in order, and each parsed '
     'relation has, for every value of its variables (no divisor zero), the truth value of the text: operators, '
     'operand order, nesting, unary minus, integer, trailing-dot and (double-precision binary-fraction) decimal literals, all six '
     'relations, any layout and any variable names, whatever was parsed before.',
     'all sequent texts, all variable values, all earlier parses',
     'the tests parse a fixed list of strings; precedence of alternatives, literals and name clashes depend on '
     'combinations of which there are unboundedly many',
     [GP], [('term and relation grammar with parse actions', GP + ': term, rln, cmd'),
            ('literals and names', GP + ': doInt, doReal, doVariable')], over=('inputs', 'histories'), tech=QT)
EP = 'vts/examples_parser.py'
prop('C12', 'Univariate reduction keeps each relation on the diagonal',
     'Making relations univariate returns one relation per input, in order, of the same kind, with right-hand side '
     'zero, in one common variable, and true at a number exactly when the original relation is true with every '
     'variable set to that number.',
     'all lists of polynomial relations and all numbers',
     'no test covers it; substitution order and side mistakes depend on the variables that occur',
     [EP], [('substitute one variable for all, move sides', EP + ': make_univariate')], tech=QT)
CH, MU = 'highschool_qe/cohenhorm.py', 'highschool_qe/muchnik.py'
prop('C13', 'Cohen-Hormander real quantifier elimination is exact',
     'For polynomials required <0, =0 and >0, with parameters, the returned list of sign assignments, read as a '
     'disjunction of conjunctions over the parameters, holds at a parameter value exactly when some real number x '
     'meets all requirements there. This includes leading coefficients that vanish, constant and zero inputs, '
     'repeated inputs and multiple roots, and the procedure answers rather than raising, with either algebra wrapper.',
     'all systems and all real parameter values',
     'no stable test runs it, and a wrong sign or a missing case of a sign table affects a thin set of parameter values',
     [CH, 'highschool_qe/sympywrapper.py', 'highschool_qe/cachedsympywrapper.py'],
     [('sign tables by recursion on degree', CH + ': _real_table, extend_single_table'),
      ('case split on leading coefficients', CH + ': expand_context'), ('table reduction', CH + ': copy_table, table_map_back')],
     tech=QT)
prop('C14', 'Muchnik real quantifier elimination is exact',
     'For polynomials required <0, =0 and >0, with parameters, the returned list of sign assignments holds at a '
     'parameter value exactly when some real number meets all requirements there; without parameters the printed '
     'verdict says whether the system is satisfiable. Vanishing leading coefficients, constants and multiple roots '
     'included, with either algebra wrapper, and without raising.',
     'all systems and all real parameter values',
     'no stable test runs it, and an error in one column of a diagram affects a thin set of parameter values',
     [MU, 'highschool_qe/sympywrapper.py', 'highschool_qe/cachedsympywrapper.py'],
     [('closure under derivative, tail and pseudo-remainder', MU + ': muchnik_sequence'),
      ('sign diagram extension', MU + ': real_extend'), ('filter and collect', MU + ': real_full')], tech=QT)
prop('C15', 'Muchnik complex quantifier elimination is exact',
     'For polynomials required zero and non-zero, with parameters, the returned list of zero/non-zero assignments '
     'holds at a complex parameter value exactly when some complex number meets all requirements there; without '
     'parameters the printed verdict says whether the system is satisfiable. Vanishing leading coefficients, '
     'multiple and common roots included, with either algebra wrapper, and without raising.',
     'all systems and all complex parameter values',
     'no stable test runs it, and a miscounted multiplicity matters only for particular common roots',
     [MU, 'highschool_qe/sympywrapper.py', 'highschool_qe/cachedsympywrapper.py'],
     [('closure under derivative, tail and pseudo-remainder', MU + ': muchnik_sequence'),
      ('root diagram extension with multiplicities', MU + ': complex_extend'), ('filter and collect', MU + ': complex_full')],
     tech=QT)
SW, CW = 'highschool_qe/sympywrapper.py', 'highschool_qe/cachedsympywrapper.py'
prop('C16', 'Algebra wrappers keep the algebraic laws for every call history',
     'With respect to the eliminated variable, the wrappers give the leading coefficient, leading term, degree, tail '
     '(polynomial minus leading term), derivative, quotient and remainder by the variable, and pseudo-division with '
     'LC(q)^(deg p - deg q + 1) p = quotient q + remainder and remainder of lower degree than q. The caching '
     'wrapper gives the same answers whatever was asked before, of this or any other instance.',
     'all polynomials, all values of their symbols, all histories of calls on any number of instances',
     'a stale or mixed-up cache entry needs a particular earlier call; tests run none',
     [SW, CW], [('operations', SW + ': SympyWrapper'), ('cache keyed by operation and arguments', CW + ': _c_compute, _c_get, _c_put')],
     over=('inputs', 'histories'), tech=QT)

SY = 'vts/isym.py'
prop('C09', 'Symbolic polynomials convert to equivalent coefficient lists',
     'Every univariate polynomial expression with rational coefficients, however it is written, converts to the list '
     'of integer coefficients (constant first, no leading zero, empty for zero) of a positive multiple of it, so it '
     'has the same sign at every real number. Turning an integer coefficient list into an expression and back gives '
     'the same list.',
     'all rational univariate expressions and all real values',
     'the tests convert a fixed list of expressions; denominators, cancelled leading terms, missing powers and '
     'unexpanded forms combine without bound',
     [SY], [('term lookup by power', SY + ': convert'), ('common denominator', SY + ': convert_rationals_to_ints'),
            ('list to expression', SY + ': convert_back')], tech=QT)
G, S2, LS = 'GRF/grf.sage', 'GRF/smt2.py', 'GRF/local_search.py'
GNOTE = NOTE + (' Sage is not installed: grf.sage, smt2.py and local_search.py run unmodified on a stand-in for the '
                'Sage calls they make (polynomials, Groebner bases, root isolation, 0-1 programs).')


def gprop(*a, **k):
    k.setdefault('note', GNOTE)
    k.setdefault('tech', QT)
    prop(*a, **k)


gprop('C17', 'GRF atoms and goals evaluate to their truth value',
      'Evaluating an atom (polynomial relation to zero) at a point that gives values to all its variables yields its '
      'truth value there; at a partial point that leaves it undetermined it yields the undecided value, and a decided '
      'answer is right for every completion of the point. Negating an atom complements it everywhere. A goal '
      '(promoted hypotheses imply the main goal) evaluates to true only where it is true, and at full points exactly '
      'there. This stays so after atoms were reduced by equations or moved to another ring.',
      'all atoms, all points and partial points, all earlier reductions and ring changes',
      'there is no test of it; a wrong strictness or a stale variable list shows only at boundary points or after '
      'particular reductions',
      [G], [('truth by substitution', G + ': RCF_Atom.eval_on_dict'), ('complement', G + ': RCF_Atom.negate'),
            ('implication with three values', G + ': RCF_Goal.eval_on_dict')], over=('inputs', 'histories'))
gprop('C18', 'GRF sample points hit every sector and root of a line',
      'For a set of univariate polynomials, the root intervals isolate each distinct real root exactly once, and the '
      'sample points, in ascending order, include one left of all roots, one right of all roots, one strictly '
      'between any two neighbouring roots, and every rational root. With no roots there is one point, which '
      'satisfies the first ambient hypothesis about the variable itself.',
      'all sets of polynomials, all root arrangements, all isolating intervals and all random draws',
      'there is no test of it; the outcome depends on which roots are shared, rational or close, and on random draws',
      [G], [('isolation of the product', G + ': QE_Factory.iso_root_intvls'),
            ('sectors between intervals', G + ': QE_Factory.sector_sps'), ('random point', G + ': QE_Factory.k_random_sps')])
gprop('C19', 'GRF selects hypotheses that rule out every known bad point',
      'At a point where the goal fails, the reported bad subsets cover, for each sampled point where the goal fails, '
      'the set of hypotheses true there; a point where all hypotheses hold and the goal fails is reported as a '
      'counterexample. A suggested subset of hypotheses is not contained in any bad subset, has minimal total '
      'weight, and the automatic run ends with every sampled bad point ruled out by a promoted hypothesis or '
      'with a counterexample.',
      'all truth patterns of hypotheses and goals over the sampled points, all optimiser ties',
      'there is no test of it; dropping one subset or index matters only for particular truth patterns',
      [G], [('hypotheses true at a bad point', G + ': RCF_GD_Decide.bad_subsets_on_dict'),
            ('0-1 optimisation', G + ': RCF_GD_Decide.good_hyps'), ('promotion loop', G + ': RCF_GD_Decide.check')])
gprop('C20', 'Promoting hypotheses preserves the sequent',
      'Promoting hypotheses one after the other, in any order, with equations used to simplify the rest, keeps the '
      'meaning: the remaining hypotheses are untouched, the promoted ones together are equivalent to the promoted '
      'originals, and where these hold the main goal has its original truth value.',
      'all sequents, all promotion orders and all points',
      'there is no test of it; a lost equation or a wrong reduction shows only for particular combinations of '
      'equations and orders',
      [G], [('move to the right-hand side', G + ': RCF_GD_Decide.promote_right'),
            ('equational simplification', G + ': RCF_Goal.add_goal_hyp, RCF_Atom.quotient_ring_inject')],
      over=('inputs', 'histories'))
gprop('C21', 'GRF hiding lists name exactly the unused formulas',
      'For a sequent text, the problem handed to the filter is equivalent to the sequent (antecedents imply one of the '
      'succedents), and hiding the reported antecedent and succedent indices of the original text leaves a sequent '
      'equivalent to the one the filter ended with. Labels, index lists and counts agree between the parser, the '
      'file entry point and the output file, whatever was parsed before and whichever context is in use.',
      'all sequents, all selections the filter may make, all earlier problems and contexts',
      'there is no test of it; index shifts between the two sides need several succedents and particular selections',
      [S2], [('negated succedents become hypotheses', S2 + ': SMTContext.perform_grf'),
             ('indices of unused formulas', S2 + ': SMTContext.perform_grf'),
             ('context in use', S2 + ': ParseSMT.processCommands, clearContext'), ('output file', S2 + ': grf_on_file')],
      over=('inputs', 'histories'))
gprop('C22', 'GRF sequent formulas mean what their text says',
      'Every well-formed list of relations in the GRF sequent language parses to as many atoms, in order, each true '
      'at exactly the variable values where the text is: + * -, unary -, division by constants, operand order, '
      'nesting, exact decimals, all six relations, any layout and variable names. One variable name is one ring '
      'variable and different names are different ones, whatever was parsed before.',
      'all formula texts, all variable values, all earlier parses',
      'there is no test of it; operand order, literals and ring growth depend on combinations without bound',
      [S2], [('term grammar', S2 + ': ParseSMT.__init__'), ('variables on demand', S2 + ': SMTContext.get_ring_var'),
             ('literals', S2 + ': doReal')], over=('inputs', 'histories'))
gprop('C23', 'GRF sample points realise every open sign condition',
      'For installed polynomials, the sample-point dictionaries give a value to every variable, and every combination '
      'of strict signs that the polynomials have somewhere in real space occurs at a sample point; with a goal, every '
      'such combination where the goal is false occurs. A projection step yields polynomials without the eliminated '
      'variable, one of which vanishes wherever a leading coefficient vanishes, a polynomial has a double root or two '
      'polynomials share a root.',
      'all polynomial families and all points of real space',
      'there is no test of it; a lost projection polynomial or stack loses cells only for particular families',
      [G], [('resultants, discriminants, leading coefficients', G + ': QE_Factory.bm_proj, filter_proj_set'),
            ('variable ordering', G + ': ProjOrd.compute_proj_ord'),
            ('lifting', G + ': QE_Factory.stack_over_cell, lift_level, lifting_phase'),
            ('partial lifting', G + ': RCF_Goal.eval_on_dict')])
gprop('C24', 'GRF local search keeps points consistent and useful',
      'Converting a point to a vector and back gives the same point, whatever points over other variables were '
      'converted before. The function set up to flip an atom has zeros only where the polynomial has the opposite '
      'sign (non-zero, if it was zero). Local search returns the given point first, gives every point the same '
      'variables, keeps no searched point where the main goal is true, chooses only hidden hypotheses (true ones '
      'if there are any), and perturbed points stay within the distance.',
      'all points, margins, atoms, choices, search results and earlier conversions',
      'there is no test of it; a stale variable order or a wrong margin sign needs particular histories or values',
      [LS, G], [('variable order', LS + ': VarOrder'), ('flip target', LS + ': get_num_flipping_func, get_symb_flipping_func'),
                ('search loop', LS + ': local_search_sampling'), ('ball sampling', G + ': RCF_GD_Decide.k_sample_points_in_ball')],
      over=('inputs', 'histories'))

prop('C25', 'Example files are stored, read back and judged as written',
     'For every set of MetiTarski example files, parsing and storing them and reading them back, as a map or one by one, '
     'gives for each file exactly its sequents in order, each formula with its own relation, right-hand side zero, in one '
     'common variable, true at a number exactly when the text is with every variable set to that number, whatever was '
     'stored before. The example checker asks the chosen decision procedure goals of which one is satisfiable at a number '
     'exactly when the sequent (antecedents imply all succedents) fails there, and reports an example false exactly when '
     'some goal is satisfiable, without raising.',
     'all example files, all numbers, all answers of the decision procedure, all earlier stored contents',
     'no test stores, reads back or judges an example; order, file and relation mix-ups depend on the contents',
     ['vts/examples_parser.py', 'vts/checker.py', 'vts/grf_parser.py', 'vts/isym.py'],
     [('parse and store', 'vts/examples_parser.py: parse_files_from_dir, examples_preformat_uni, '
       'write_sympy_parseable_examples'),
      ('read back', 'vts/examples_parser.py: unpickle_dirs, unpickle_from_dir, unpickle_dirs_gen'),
      ('judge', 'vts/checker.py: check_examples')], over=('inputs', 'histories'))

NA = []


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        P.sort(key=lambda x: x[0]['id'])
        for p, _, _ in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd='python3 check.py --selftest',
             checks=[dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'],
                          thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'],
                          technique=t, level='model_checking', level_note=n) for p, t, n in P],
             not_applicable=[dict(property=a, reason=b) for a, b in NA],
             notes='No hooks in /repo. Harnesses run under Jython (the interpreter the repository runs under) and '
                   'put symbolic numbers through the unmodified functions; see DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
