"""What each check claims and assumes."""
ENGINE_TRUST = [
    'engine/: the generator of obligations from Python source, written for this task (symbolic execution of the AST of the functions in /repo, re-read on every run)',
    'engine/models.py: the specifications of the Python builtins and numpy operations the functions use',
    'z3 5.3.2 (python), cvc5 1.1.2',
]
ENGINE_ASSUMPTIONS = [
    'partial correctness: termination, memory and recursion limits are not proved',
    'integers are mathematical; / is real division',
    'attribute and object names are hashable, compare by a congruence and are mutually comparable',
    'generators are run to exhaustion by one consumer that does not modify their inputs in between',
    'decorators such as deprecated wrappers and logging/print have no effect on data',
]
PROPS = {}
T = 'contracts on the real functions, discharged by SMT (own deductive verifier for Python)'
BT = 'bounded runs of executable contracts on the real code (stand-in for deductive verification)'
ALL = 'Every clause is a postcondition, invariant or lemma over contracts of the functions in /repo, discharged for all inputs on every run (partial correctness). Trusts the verifier in engine/, its models of Python and numpy, the background axioms listed in the evidence, z3 and cvc5.'
SOME = 'The functions listed in the evidence under functions_under_contract are proved for all inputs (partial correctness); the functions listed under bounded_stand_ins are judged on generated inputs only and not counted as proved. Trusts the verifier in engine/, its models of Python and numpy, the background axioms listed in the evidence, z3 and cvc5.'
ONLY = 'Bounded: the executable specification judges the real code on all small inputs of the stated kinds and on random larger ones; nothing is proved.'
STR = 'attribute names are strings where the code concatenates them (complementary, compound)'


def prop(p, level, bounded=(), assumptions=(), **k):
    proof = level == 'proof'
    PROPS[p] = dict({'level': level, 'bounded': list(bounded), 'assumptions': list(assumptions),
                     'technique': T if proof else T + ', with bounded checks of the same contracts for the functions listed as stand-ins',
                     'note': ALL if proof else SOME,
                     'explanation': 'contracts discharged for every input' + ('' if not bounded else '; judged on generated inputs only: ' + '; '.join(bounded))}, **k)


prop('C01', 'proof')
prop('C02', 'proof', assumptions=[STR])
prop('C03', 'proof', assumptions=['the argument of the associative forms by name is a list or a set'])
prop('C04', 'proof')
prop('C05', 'proof')
prop('C06', 'proof')
prop('C07', 'proof', assumptions=['the builtin hash gives equal values for equal tuples of frozensets'])
prop('C08', 'other', ['the list form, the simple form and the iterator form return the same list (each is proved to be a sound, complete, non-redundant basis)', 'the basis of objects after edits'],
     ['the basis of a partial context is not claimed to be complete: the closure it uses is not idempotent'])
prop('C09', 'other', ['compute_canonical_basis, update_preclosed, process_stable_concept, process_modified_implication, process_modified_concept (fca/algorithms/aibasis.py): small tables in turn, random ones up to 14 x 10'])
prop('C10', 'proof', assumptions=['a full row may be kept'])
prop('C11', 'proof', assumptions=[STR])
prop('C12', 'other', ['make_factor_cxts and the product of the contexts it returns'])
prop('C13', 'proof', assumptions=['the lattice given to filter_concepts, compute_index and the stability functions lists no concept twice, for stability exactly the concepts of its context (what get_concept_lattice ensures)',
     'the index function filter_concepts and compute_index are given returns a value for exactly the concepts of the lattice, with these concepts themselves as keys', 'floats are treated as reals; compute_probability has no stated meaning and is left out'])
prop('C14', 'proof')
prop('C15', 'other', ['sessions with experts, by concrete histories'],
     ['the canonical basis the database calls depends only on the names and crosses of the context (trusted contract; what it is: C09)', 'confirmed conclusions are attributes of the context', 'the expert is abstract and does not modify the context'])
prop('C16', 'proof', assumptions=['cell values are scalars, equal up to ==, and text forms of different values differ (nan excluded)', 'conditions of scales are pure and do not raise', 'names are distinct where exact column names are claimed'])
prop('C17', 'other', ['concept systems written to and read from XML (minidom and expat have no model): random systems in a scratch directory', 'csv files with quoted values', 'the comma-separated and tab-separated files of the concrete runs are written by the check itself'],
     ['text files: what is written is what is read, lines end at line breaks only, the encoding represents the names', 'csv.reader: without quotes in the file each line is a record, a line joined of parts without delimiter, quote or line break is read as these parts', 'ast.literal_eval raises ValueError or SyntaxError, or returns the literal; the text of a whole number is its literal', 'str.strip, str.join of single characters, int: as stated in engine/files.py'])
prop('C18', 'proof', assumptions=['get_unconfirmed_patterns_with_examples (order and counts of its listing) and the expert are outside the statement'])
prop('C19', 'proof')
prop('C20', 'other', ['get_attribute_canonical_basis (C09)', 'callbacks that raise inside an algorithm: proved for the wrapper that restores the accessors, sampled for the algorithms', 'histories of edits and queries (each edit and query is proved on its own)'],
     ['the four accessors are not replaced by the user'])
