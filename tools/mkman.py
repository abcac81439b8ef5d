"""Writes MANIFEST.json from the list of built checks below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
BUILT = {
 'C01': ('interprocedural alias and effect analysis over the syntax tree', 'Over-approximates what each public operation may change (E1 effect summaries to a fixpoint); trusts the effect model of library calls.'),
 'C02': ('dependence analysis of cache stores against cache keys', 'Everything a stored result may depend on (data and control, interprocedurally) must be in the key; trusts the library model and the field lists of key classes.'),
 'C03': ('source-to-sink analysis of nondeterminism sources', 'Every use of a nondeterministic library function is enumerated and traced; generator parameters must be handed on.'),
 'C11': ('name, attribute, call and type resolution and path coverage over the whole program', 'Every name, attribute, import and argument list resolved; type-based alarms only where annotations, constructors and literals leave no fitting type.'),
 'C12': ('interprocedural data- and control-dependence analysis of parameters', 'A parameter reported as ineffective reaches no result, effect or choice in an over-approximation of dependence.'),
 'C14': ('value numbering of the statistics and abstract evaluation of the terms to linear forms', 'Each statistic is evaluated to a linear form over width, first and last nonzero degree; forms outside the fragment are undecided and quiet.'),
 'C04': ('canonical value forms of the reduction and packing routes compared with reference definitions', 'REF'),
 'C05': ('canonical effects of the bucket operations compared with reference definitions', 'REF'),
 'C06': ('canonical refusal conditions compared with reference definitions', 'REF'),
 'C07': ('canonical construction-time checks compared with reference definitions; class-option rules', 'REF'),
 'C08': ('canonical index and shape terms compared with reference definitions', 'REF'),
 'C09': ('SQL schema and statement parsing, event order in the script, canonical effects', 'Rules over schema, insert statement, row terms and transaction events; remaining functions by reference definitions: equal is discharged, local difference is an alarm, another shape is undecided.'),
 'C10': ('event order in the canonical form of the search loop', 'Order rules over the events of a step; remaining functions by reference definitions: equal is discharged, local difference is an alarm, another shape is undecided.'),
 'C13': ('canonical normal-form arithmetic compared with reference definitions', 'REF'),
 'C15': ('canonical degree bookkeeping compared with reference definitions', 'REF'),
 'C17': ('canonical terms of the displayed text compared with reference definitions', 'REF'),
 'C18': ('canonical terms of counts, measures and tables compared with reference definitions', 'REF'),
 'C19': ('source-to-sink analysis of inexact numbers over the typed program', 'Every construct that can bring in a float, a narrow integer or a numpy scalar is enumerated and must lie in an operation meant to be approximate or a helper only those call; operands of unknown type are undecided.'),
 'C16': ('canonical enumeration and pairing order compared with reference definitions', 'REF'),
}
REF = 'Gated value numbering gives the canonical form of each anchored function; equal to the reference definition is discharged, a local difference is an alarm, another shape is undecided and quiet. Trusts the library model.'
BUILT = {k: (t, REF if n == 'REF' else n) for k, (t, n) in sorted(BUILT.items())}
NA = {
 'N01': 'uniqueness of normal forms and group laws quantify over the combinatorics of factor tables built at run time; no sound static argument in reach bounds them',
 'N02': 'homomorphism of representations is an algebraic identity between numeric matrices computed at run time',
 'N03': 'conversion between the two normal forms is a statement about the group elements denoted by run-time tables',
 'N04': 'the Temperley-Lieb relations are equalities of values computed by diagram composition, not a structural property of the source',
 'N05': 'the ring axioms are equalities between computed values for all operands; degree placement and operand handling, the parts decidable from the source, are C15 and C06',
 'N06': 'the values of cyclotomic, Chebyshev and minimal polynomials are numeric facts for every n',
 'N07': 'uniformity of sampling is a statement about distributions over the generator',
 'N08': 'coefficient growth depends on run-time lengths, dimensions and primes that no static bound in the source limits',
 'N09': 'completeness of enumerations is a counting statement about tables computed at run time',
 'N10': 'whether and when the search finds a braid is a run-time quantity',
}
checks = [dict(property=c, quick_cmd=f'python3 check.py {c}', thorough_cmd=f'python3 check.py {c}', technique=t, level='other', level_note=n) for c, (t, n) in BUILT.items()]
na = [dict(property=i, reason=NA.get(i, 'not claimed yet: the analysis for it is being built')) for i in ids if i not in BUILT]
json.dump(dict(version=1, setup_cmd='python3 -m compileall -q sa check.py || true', checks=checks, not_applicable=na), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
