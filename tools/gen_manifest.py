#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLAN = {}
src = open(here + '/run.py').read()
ns = {'__file__': here + '/run.py', '__name__': 'x'}
exec(compile(src, 'run.py', 'exec'), ns)
PLAN = ns['PLAN']
E = 'explicit-state model checking of the implementation: '
NOTE = {}
T = {
 'C01': (E + 'breadth-first search over group-operation histories, every reached pair paired and compared with the algebraic law', 'Every pair of reached points and every multiplier of the alphabet; equality is exact. Points outside the reached set are covered only by C02.'),
 'C02': (E + 'every pairing entry point on every enumerated point pair and representation against an independent textbook pairing', 'Oracle: schoolbook tower over GMP, affine lines on E(Fp12), exponent by the definition. Bounded to the enumerated points and representations.'),
 'C03': (E + 'all ways to split a pairing into precomputation, single and double Miller loops and final exponentiation', 'All route/point combinations of the alphabet, compared exactly with the reference and with each other.'),
 'C04': (E + 'operand alphabets with solved carry, borrow and Montgomery quotient boundaries, plus operation sequences, in every mode', 'Exhaustive over the stated alphabets and depths; operands away from every limb and quotient boundary are represented by a few dense values only.'),
 'C05': (E + 'inversion and square root on operands with extreme loop counts and all boundary values', 'Exhaustive over the stated operands; the product with the operand is checked in the reference.'),
 'C06': (E + 'double-width and lazy operations on solved Montgomery inputs and range extremes', 'Exhaustive over the stated alphabets, ranges taken from the callers in the tower.'),
 'C07': (E + 'all coefficient pairs over the base alphabet and solved non-residue quotients', 'Exhaustive over the stated alphabets and sequences.'),
 'C08': (E + 'all extreme coefficient patterns of the tower for every operation, in every mode', 'Exhaustive over the stated coefficient patterns; dense operands are a few constants.'),
 'C09': (E + 'Frobenius, cyclotomic and compressed operations and the final exponentiation, with algebraically constructed exceptional elements', 'Exceptional branches are reached by solving for their inputs; exhaustive over the enumerated elements and chain lengths.'),
 'C10': (E + 'breadth-first search over point operations with every operand representation', 'All operation sequences up to the depth over the point pool, all enumerated Jacobian representations.'),
 'C11': (E + 'every scalar of a word-boundary alphabet in every integer type, on every point and element of the pool', 'Exhaustive over the stated scalars and types.'),
 'C12': (E + 'limb-pattern operands for every operation, operation sequences, every divisor boundary of the quotient estimate', 'Exhaustive over the stated limb patterns; values are compared with GMP.'),
 'C13': (E + 'complete tables for small moduli, boundary residues for large ones, histories with modulus changes', 'Complete for the small moduli, alphabet-bounded for large ones.'),
 'C14': (E + 'all values of the alphabets through every writer and reader, and sequences on one stream', 'Exhaustive over the stated values and formats.'),
 'C15': (E + 'all short strings over the relevant characters and all single-character corruptions, against a grammar; all near-curve coordinates', 'Exhaustive over the stated strings; the grammar is the acceptance oracle.'),
 'C16': (E + 'every aliasing pattern of every operation with frame, guard and callee-saved-register monitors', 'Exhaustive over patterns the interface allows; operands bounded to the alphabets.'),
 'C17': (E + 'all initialisation sequences up to a depth in fresh processes, followed by an operation battery compared with the reference', 'All sequences over curves x modes x processor features up to the depth.'),
 'C18': ('stateless model checking of thread schedules on the real code: partial-order reduction by a monitor of every store to memory the thread does not own, all schedules with up to two preemptions around the accesses that are not independent, and complete operations of a second thread between every two instructions', 'An operation without a shared store is independent of every other, so one interleaving represents all; otherwise every first preemption point and a grid of second ones. Sequentially consistent memory; run-time libraries assumed thread-safe.'),
 'C19': (E + 'all operation sequences up to a depth over a pool of wrapper objects against value models', 'Exhaustive up to the depth over the stated object pool.'),
}
checks, na = [], []
PROPS = [json.loads(l)['id'] for l in open(here + '/properties.jsonl')]
for p in PROPS:
    if p in PLAN:
        checks.append({'property': p, 'quick_cmd': 'python3 run.py %s' % p, 'thorough_cmd': 'python3 run.py %s --tier thorough' % p,
                       'technique': T[p][0], 'level': ns['LEVEL'].get(p, 'model_checking'), 'level_note': T[p][1]})
    else:
        na.append({'property': p, 'reason': 'check under construction'})
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: every check drives the public interface of the unmodified sources. Bounds, oracles and costs are in DESIGN.md; repaired defects are in known_findings.txt.'}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
