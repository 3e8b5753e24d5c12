VG = 'value-graph comparison (abstract interpretation of the source with sizes and data symbolic, library calls as uninterpreted or modelled operations, normal forms, random interpretation of the graphs) with a reference version of each function'
N = ('Identical graphs establish agreement with the reference for all inputs of the covered option configuration; graphs that differ in form are compared by interpretation at sampled sizes '
     'and values, which can miss a difference but never invents one. Trusted: the interpreter of /verif/analysis (Python subset, CasADi/NumPy models) and the reference functions of /verif/analysis/spec.')
MORE = {p: (VG, 'translation_validation', N) for p in 'C07 C08 C16 C17 C18 C23 C19 C20 C22 C24 C26 C28 C29 C34'.split()}
BT = ('constant propagation through the Butcher table generators with the tabulated literals, then the order, stage-order, row-sum and stiff-accuracy conditions evaluated on the propagated tables; '
      'value-graph comparison for the selection and the option preprocessing')
MORE['C02'] = (BT, 'other', 'Every supported scheme and number of stages is tabulated as constants and checked exhaustively up to rounding. Trusted: the interpreter of /verif/analysis and its NumPy model.')

LT = ('name, member, call-shape and key resolution over the syntax tree with inferred types, and a predicated definite-assignment dataflow analysis of locals, attributes and result keys')
MORE['C27'] = (LT, 'other', 'Covers all functions of the package on all paths; expressions whose type cannot be inferred from constructors, annotations and assignments are not judged.')
OW = ('ownership and aliasing analysis (changes in place traced to attributes, arguments, defaults and class-level objects through calls); value-graph comparison of the final state after solve, set and result extraction')
MORE['C21'] = (OW, 'translation_validation', N)
