from .rules import twins, laws, layout, matfree, history, solver, inputs, basis, fermion, params, options, special, bounds, rtd, states

TV = ('translation validation: both implementations are reduced to a closed symbolic effect summary (targets, index sets, '
      'guards, values) by a syntax-directed abstract interpretation of the current source; the summaries are compared by '
      'normal form and, where those differ, by polynomial identity testing of the two formulas')
LAW = ('the kernel and current summaries extracted from the source by abstract interpretation are checked against the conservation law '
       'as polynomial identities over random finite state spaces')

LAY = ('translation validation of the kernel handlers and index functions: each method is reduced to an effect summary by abstract '
       'interpretation of the source, and the Python and compiled summaries are compared over random finite index layouts')

INV = ('the index tables and readers are reduced to effect summaries by abstract interpretation of the source and checked against the '
       'invariants of a layout over random finite state spaces')

MF = ('effect summaries of the matrix and the matrix-free kernel handler are extracted from the source by abstract interpretation and '
      'compared as linear operators over random finite index layouts; generate_vec, the norm and the choice of handler are checked on the same summaries')

HEAP = ('abstract interpretation of the Python and Cython source over an abstract heap (objects, aliases, versions of every input a value '
        'depends on), following the whole sequence of public calls a user makes')

PATHS = ('path-sensitive abstract interpretation of the solver functions: every path (options, each solver call returning, reporting a failure or '
         'raising) is enumerated and the flag, the occupations, the message and the normalisation row are tracked on it')

PAR = 'abstract interpretation of the parameter methods for one arbitrary parameter: dictionaries as linear forms, many-body matrices as sums of what is added; all undecided conditions both ways'
FERM = ('every many-body construction is read from the source as guarded matrix elements for an arbitrary state and parameter; guards, elements and signs are '
        'evaluated in a domain of occupation patterns with parities as affine forms and compared with the fermionic operator product')

SPEC = ('translation validation: every scalar function is read from the source into a closed formula (branches as gates, loops as folds, helpers in place) and '
        'the Python and compiled formulas are compared by identity testing at points steered to both sides of every comparison')

ACC = ('abstract interpretation of the kernel code over finite state spaces: whatever comes from the state indexing is exact, everything else is unknown '
       'and both branches are followed; every array cell a statement reads or writes is known')

STATES = ('interpretation of the source of the index classes and builder methods over their exact finite domain (number of states, indexing, removed states, order of the '
          'energies); the resulting tables are compared with what the labels, charges, spins and bounds mean')

CHECKS = {
    'C10': (bounds.c10, 'other', ACC + '; the cells of the iterations of every parallel loop are compared'),
    'C20': (bounds.c20, 'other', ACC + '; every subscript is compared with the extents of its array'),
    'C04': (special.c04, 'translation_validation', SPEC),
    'C22': (special.c22, 'proof', 'interval analysis of the formulas read from the source over a partition of the extended real line, with nan tracking'),
    'C01': (twins.c01, 'translation_validation', TV),
    'C02': (twins.c02, 'translation_validation', TV),
    'C03': (rtd.c03, 'translation_validation', TV + '; the arithmetic on whole matrices is rewritten into index notation and compared as sums of products'),
    'C05': (layout.c05, 'translation_validation', LAY),
    'C06': (matfree.c06, 'other', MF),
    'C16': (layout.c16, 'other', INV),
    'C07': (laws.c07, 'other', LAW),
    'C08': (laws.c08, 'other', LAW),
    'C11': (history.c11, 'other', HEAP),
    'C12': (history.c12, 'other', HEAP),
    'C13': (history.c13, 'other', HEAP),
    'C09': (laws.c09, 'other', LAW),
    'C21': (basis.c21, 'other', HEAP + '; the rotation functions are read as words of matrices'),
    'C14': (params.c14, 'other', PAR),
    'C15': (fermion.c15, 'other', FERM),
    'C18': (options.c18, 'other', HEAP),
    'C19': (inputs.c19, 'other', HEAP),
    'C23': (states.c23, 'other', STATES),
    'C17': (solver.c17, 'other', PATHS),
}

NOT_APPLICABLE = {}
