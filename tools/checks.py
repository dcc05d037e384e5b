# Registry of the checks: harness source, repository sources linked, entries with their bounds.
CORE = ['psdd_manager.cpp', 'psdd_node.cpp', 'psdd_parameter.cpp', 'psdd_unique_table.cpp', 'random_double_generator.cpp', 'binary_data.cpp', 'csvparser.c']
CHECKS = {
    'P01': {'src': 'P01.cpp', 'entries': [
        {'name': 'supports', 'bound': 'n<=3 variables, every vtree shape, every support; evidence words, values of unmentioned variables and all weights symbolic', 'covers': ['zero', 'empty evidence', 'complete evidence']},
        {'name': 'zeros', 'bound': 'n in {2,3}, every shape, one weight of one of the first four parameter groups is zero'},
        {'name': 'four', 'bound': 'n=4, every shape, listed supports'},
        {'name': 'wide', 'bound': 'n=4 with variables 64,3,130,63: every shape, 4 supports, 16 evidence masks'},
        {'name': 'coincide', 'bound': 'n<=3, every shape, supports (all in the thorough tier); parameters uniform, shared across nodes, or shared in reverse, with one or two flag indexes'},
    ]},
    'P02': {'src': 'P02.cpp', 'entries': [
        {'name': 'two', 'bound': 'n=2, every pair of supports, normalised and free positive weights', 'covers': ['disjoint', 'product']},
        {'name': 'three', 'bound': 'n=3, every shape, every first support with a family of second supports', 'covers': ['disjoint', 'product']},
        {'name': 'four', 'bound': 'n=4, every shape, listed support pairs'},
        {'name': 'special', 'bound': 'n in {2,3}: a PSDD with itself and with the unconstrained PSDD'},
        {'name': 'coincide', 'bound': 'n<=3, every shape, supports (all in the thorough tier); parameters uniform, shared across nodes, or shared in reverse, with one or two flag indexes', 'covers': ['product']},
    ]},
    'P03': {'src': 'P03.cpp', 'entries': [
        {'name': 'supports', 'bound': 'n<=3, every shape, supports (all in the thorough tier), free positive weights in general position', 'covers': ['mpe']},
        {'name': 'zeros', 'bound': 'n in {2,3}, one zero weight'},
        {'name': 'ties', 'bound': 'n in {2,3}: equal weights everywhere, and equalities between symbolic weights explored'},
    ]},
    'P04': {'src': 'P04.cpp', 'entries': [
        {'name': 'supports', 'bound': 'n<=3, every shape, every support', 'covers': ['done']},
        {'name': 'zeros', 'bound': 'n in {2,3}, one zero weight in one of the first four groups'},
        {'name': 'four', 'bound': 'n=4, every shape, listed supports'},
        {'name': 'coincide', 'bound': 'n<=3, every shape, supports (all in the thorough tier); parameters uniform, shared across nodes, or shared in reverse, with one or two flag indexes', 'covers': ['done']},
    ]},
    'P05': {'src': 'P05.cpp', 'entries': [
        {'name': 'tests', 'bound': 'n<=3, every shape, every support; mask and instantiation words symbolic', 'covers': ['complete', 'map', 'mask', 'activation']},
        {'name': 'four', 'bound': 'n=4 across word boundaries, listed supports, symbolic mask and values'},
        {'name': 'large', 'bound': 'unconstrained and two-literal PSDDs over 31..130 variables', 'covers': ['large']},
        {'name': 'wide', 'bound': 'decision nodes of two elements, primes and subs over 1..100 variables each', 'covers': ['wide']},
        {'name': 'sequence', 'bound': 'n<=3, every shape, supports: every ordered pair of kinds of questions (thorough three questions), masks and values symbolic', 'covers': ['sequence']},
        {'name': 'coincide', 'bound': 'n<=3, every shape, supports (all in the thorough tier); parameters uniform, shared across nodes, or shared in reverse, with one or two flag indexes'},
    ]},
    'P22': {'src': 'P22.cpp', 'entries': [
        {'name': 'single', 'bound': 'n<=4, every shape, every support for n<=3, 32 for n=4, three sharing styles', 'covers': ['single']},
        {'name': 'several', 'bound': 'n<=4, every shape, lists of 2 (thorough 3) roots taken from any level of two PSDDs', 'covers': ['several']},
        {'name': 'coincide', 'bound': 'n<=3, every shape, supports (all in the thorough tier); parameters uniform, shared across nodes, or shared in reverse, with one or two flag indexes', 'covers': ['single', 'several']},
    ]},
    'P24': {'src': 'P24.cpp', 'entries': [
        {'name': 'supports', 'bound': 'n<=3, every shape, supports (all in the thorough tier), symbolic weights and draws', 'covers': ['sample']},
        {'name': 'zeros', 'bound': 'n<=3, one zero parameter'},
        {'name': 'resolution', 'bound': 'n<=2, every support; comparisons of parameters with probability one modelled at their 1e-7 resolution'},
        {'name': 'source', 'bound': 'the library\'s own uniform source: 12 (thorough: 64) seeds, symbolic range, four draws', 'covers': ['source']},
        {'name': 'coincide', 'bound': 'n<=3, every shape, supports (all in the thorough tier); parameters uniform, shared across nodes, or shared in reverse, with one or two flag indexes', 'covers': ['sample']},
    ]},
    'P12': {'src': 'P12.cpp', 'entries': [
        {'name': 'single', 'bound': 'n<=3, every shape, supports (all in the thorough tier), symbolic random numbers', 'covers': ['single']},
        {'name': 'several', 'bound': 'n in {2,3}, two PSDDs sharing nodes, lists of two or three roots at any level', 'covers': ['several']},
        {'name': 'coincide', 'bound': 'n<=3, every shape, supports (all in the thorough tier); parameters uniform, shared across nodes, or shared in reverse, with one or two flag indexes', 'covers': ['single', 'several']},
    ]},
    'P25': {'src': 'P25.cpp', 'entries': [
        {'name': 'pairs', 'bound': 'n<=3, every ordered pair of 13 queries, each asked twice', 'covers': ['repeated']},
        {'name': 'evidence', 'bound': 'n=3, symbolic mask and instantiation'},
        {'name': 'coincide', 'bound': 'n<=3, every shape, supports (all in the thorough tier); parameters uniform, shared across nodes, or shared in reverse, with one or two flag indexes', 'covers': ['repeated']},
    ]},
    'P11': {'src': 'P11.cpp', 'entries': [
        {'name': 'supports', 'bound': 'n<=3, every shape, supports, up to two (thorough three) symbolic examples, symbolic or zero smoothing', 'covers': ['learned']},
        {'name': 'again', 'bound': 'n in {2,3}: three runs on the same structure', 'covers': ['again']},
        {'name': 'wide', 'bound': 'n=3, 31..129 examples, two of them symbolic'},
    ]},
    'P13': {'src': 'P13.cpp', 'entries': [
        {'name': 'same', 'bound': 'n<=3, same vtree, same or other manager', 'covers': ['same', 'copy']},
        {'name': 'larger', 'bound': 'n<=3 plus one or two inserted variables', 'covers': ['larger']},
        {'name': 'raise', 'bound': 'n<=3 raised by up to two levels', 'covers': ['raised']},
        {'name': 'conform', 'bound': 'n in {3,4}, every inner position, every pair of leaves below it', 'covers': ['conformed']},
        {'name': 'depths', 'bound': 'n in {3,4}, every shape, inner position and pair of variables, every combination of depths of the four parts, symbolic weights', 'covers': ['depths']},
        {'name': 'coincide', 'bound': 'n<=3, every shape, supports (all in the thorough tier); parameters uniform, shared across nodes, or shared in reverse, with one or two flag indexes', 'covers': ['same', 'copy', 'larger']},
    ]},
    'P14': {'src': 'P14.cpp', 'entries': [
        {'name': 'real', 'bound': 'two symbolic operands, each zero or positive, every operation, ties explored', 'covers': ['order', 'arithmetic']},
        {'name': 'ieee', 'bound': 'two symbolic IEEE doubles (|log|<=1e9 or -inf), bit-precise; exp/log1p by range contract', 'covers': ['order', 'arithmetic']},
        {'name': 'resolution', 'bound': 'two symbolic IEEE logs in [-700,0]', 'covers': ['far', 'equal']},
    ]},
    'P08': {'src': 'P08.cpp', 'entries': [
        {'name': 'leaves', 'bound': 'sequences of two (thorough three) literal/top requests plus a repetition; symbolic parameters, ties explored', 'covers': ['shared', 'different']},
        {'name': 'decisions', 'bound': 'sequences of two (thorough three) decision requests over n=3', 'covers': ['shared', 'different']},
        {'name': 'many', 'bound': 'seven requests at one position in 42 orders, symbolic parameters in every relative order', 'covers': ['shared', 'different']},
    ]},
    'P09': {'src': 'P09.cpp', 'repo': CORE + ['cnf.cpp'], 'entries': [
        {'name': 'collect', 'bound': 'n<=3, three PSDDs sharing nodes, every kept subset, roots or nodes below them, one or two collections', 'covers': ['found', 'fresh']},
        {'name': 'flags', 'bound': 'n=4, every shape, two nodes at every vtree node with 16 (thorough 64) patterns of flags, any node kept alone or with one at the root', 'covers': ['found', 'fresh']},
        {'name': 'derived', 'bound': 'n<=3, 4 supports: unconstrained, raised, loaded, multiplied, sampled, learned, read and imported PSDDs, kept or discarded and made again', 'covers': ['fresh']},
    ]},
    'P10': {'src': 'P10.cpp', 'entries': [
        {'name': 'supports', 'bound': 'n<=3, every shape, supports (all in the thorough tier), symbolic parameters', 'covers': ['round trip']},
        {'name': 'zeros', 'bound': 'n<=3, one zero parameter'},
        {'name': 'four', 'bound': 'n=4 with variables 64,3,130,63, listed supports'},
        {'name': 'coincide', 'bound': 'n<=3, every shape, supports (all in the thorough tier); parameters uniform, shared across nodes, or shared in reverse, with one or two flag indexes', 'covers': ['round trip']},
    ]},
    'P06': {'src': 'P06.cpp', 'repo': CORE + ['cnf.cpp'], 'entries': [
        {'name': 'sdd', 'bound': 'n<=3, every shape, every Boolean function, three renamings, three import routes; symbolic assignment', 'covers': ['models', 'unsatisfiable']},
        {'name': 'four', 'bound': 'n=4, every shape, 16 (thorough 32) functions'},
        {'name': 'skips', 'bound': 'n=4 (thorough 5), every shape, every function of every pair of variables'},
        {'name': 'sub', 'bound': 'sub-vtree of 1..3 variables at four places in a larger vtree', 'covers': ['models', 'unsatisfiable']},
        {'name': 'clauses', 'bound': 'n<=3, up to three clauses (two for n=3 in quick) over every literal combination, empty and tautological clauses', 'covers': ['models', 'unsatisfiable']},
    ]},
    'P07': {'src': 'P07.cpp', 'entries': [
        {'name': 'supports', 'bound': 'n<=3, every shape and support, SDD vtree shapes and renamings; symbolic assignment', 'covers': ['exported']},
        {'name': 'four', 'bound': 'n=4, every shape, 32 supports'},
        {'name': 'below', 'bound': 'n=3, every support: the nodes below the root'},
        {'name': 'coincide', 'bound': 'n<=3, every shape, supports (all in the thorough tier); parameters uniform, shared across nodes, or shared in reverse, with one or two flag indexes', 'covers': ['exported']},
    ]},
    'P15': {'src': 'P15.cpp', 'entries': [
        {'name': 'copies', 'bound': 'up to five (thorough six) leaves, every shape, symbolic distinct labels; every node of the tree copied', 'covers': ['copied']},
        {'name': 'renamed', 'bound': 'up to five (thorough six) leaves, every shape, symbolic distinct new names', 'covers': ['renamed']},
        {'name': 'projected', 'bound': 'up to five (thorough six) leaves, every shape, symbolic subset', 'covers': ['projected']},
        {'name': 'looked', 'bound': 'up to five (thorough six) leaves, every shape, symbolic subset plus a foreign variable', 'covers': ['found', 'none']},
    ], 'assumptions': ['the vtree primitives of libsdd (constructors, accessors, set_vtree_properties) behave as the small model in the harness; the native replay uses the library']},
    'P16': {'src': 'P16.cpp', 'repo': ['csvparser.c'], 'entries': [
        {'name': 'string', 'bound': 'every string of up to 6 (thorough 8) bytes, all byte values; any delimiter from the longest on', 'covers': ['faithful', 'malformed']},
        {'name': 'header', 'bound': 'every string of up to 5 (thorough 7) bytes with a header row'},
        {'name': 'file', 'bound': 'every file of up to 5 (thorough 7) bytes, NUL and 0xff included', 'covers': ['faithful', 'malformed']},
        {'name': 'growth', 'bound': 'fields of 60..321 characters with two (thorough three) symbolic bytes inside, quoted or not, from string and file', 'covers': ['faithful']},
        {'name': 'fields', 'bound': 'rows of 61..196 fields with two symbolic bytes', 'covers': ['faithful']},
        {'name': 'refused', 'bound': 'every delimiter byte; missing string, file name or header; unopenable paths of 1..5000 characters', 'covers': ['refused']},
    ], 'assumptions': ['stdio reading (fopen, fgetc, feof, fclose) behaves as the stand-ins in the harness; the native replay uses real files']},
    'P17': {'src': 'P17.cpp', 'repo': ['binary_data.cpp', 'csvparser.c'], 'entries': [
        {'name': 'rows', 'bound': 'every file of up to 3 rows of up to 3 symbolic bits (thorough 4 rows of 2), four layouts', 'covers': ['read', 'round trip']},
        {'name': 'wide', 'bound': 'rows of 31..129 columns, symbolic first and last bits'},
        {'name': 'histories', 'bound': 'every sequence of up to 3 (thorough 4) additions, reads, writes over 1..2 variables, symbolic records', 'covers': ['add', 'read again', 'round trip']},
        {'name': 'sparse', 'bound': 'up to 3 records of up to 2 items; variable numbers symbolic over 0..2^31-1 and their negatives; malformed items; declared sizes 1..70000', 'covers': ['kept', 'skipped', 'round trip']},
        {'name': 'fields', 'bound': 'missing or empty fields'},
    ], 'assumptions': ['libc file reading and nlohmann json tokenising run as compiled; numbers in the text are symbolic']},
    'P18': {'src': 'P18.cpp', 'repo': ['uai_network.cpp', 'psdd_parameter.cpp'], 'entries': [
        {'name': 'layouts', 'bound': '1..2 (thorough 3) factors, every combination of 6 entry layouts, 4 blank-line styles, 3 spacings, CR, final newline; variable counts, scopes and entries symbolic', 'covers': ['read']},
        {'name': 'tables', 'bound': '1..3 factors of arity up to 4, one zero entry at any of 8 places in 4 spellings, symbolic scopes and entries', 'covers': ['read']},
        {'name': 'numbers', 'bound': '11 spellings of numbers'},
    ], 'assumptions': ['libstdc++ line reading and number extraction run as compiled; the numbers in the text are symbolic']},
    'P19': {'src': 'P19.cpp', 'repo': CORE + ['pgm_compiler.cpp', 'uai_network.cpp'], 'libs': ['-Wl,--unresolved-symbols=ignore-all'], 'entries': [
        {'name': 'small', 'bound': 'n<=2: every vtree, ordered scope and zero pattern, alone or after another factor; entries symbolic', 'covers': ['factor', 'zero table']},
        {'name': 'three', 'bound': 'n=3: both vtrees, every ordered scope on one path of the vtree, every zero pattern of arity <=2, 64 (thorough all) of arity 3', 'covers': ['factor', 'zero table']},
        {'name': 'four', 'bound': 'n=4: every vtree, every ordered scope of up to three variables on one path, 3 (thorough 12) zero patterns, variables within and across word boundaries', 'covers': ['factor', 'zero table']},
        {'name': 'wide', 'bound': 'n=4, arity 4: vtrees with one path, 6 orders, 12 zero patterns', 'covers': ['factor', 'zero table']},
        {'name': 'repeated', 'bound': 'n in {2,3}: every vtree and ordered scope on one path, tables over two distinct symbolic entries in every (arity 3: 24, thorough every) pattern', 'covers': ['factor']},
        {'name': 'scattered', 'bound': 'n=3, left-linear vtree, every order, positive tables: the known finding'},
    ], 'assumptions': ['the factor graph and the vtree reach the compiler through files read by the real readers']},
    'P20': {'src': 'P20.cpp', 'repo': CORE + ['pgm_compiler.cpp', 'uai_network.cpp'], 'libs': ['-Wl,--unresolved-symbols=ignore-all'], 'entries': [
        {'name': 'two', 'bound': 'n=2: every pair of ordered scopes (or one factor), zero patterns, strategies and collection frequencies (every combination in the thorough tier); entries symbolic', 'covers': ['partition function', 'zero network']},
        {'name': 'three', 'bound': 'n=3: every vtree, 7 strategies/frequencies, 40 (thorough 160) graphs of 2..3 factors, one factor with free entries, 4 (thorough 10) zero patterns', 'covers': ['partition function']},
        {'name': 'contradiction', 'bound': 'n in {2,3}, 2..4 factors: mutually exclusive factors or a zero factor at every place, 7 strategies/frequencies', 'covers': ['zero network']},
        {'name': 'none', 'bound': 'no factor, n<=4, every vtree, 7 strategies/frequencies', 'covers': ['empty']},
        {'name': 'many', 'bound': 'n=3 (thorough 4), 4..7 factors with 0/1 entries and one symbolic factor, 7 strategies/frequencies'},
    ], 'assumptions': ['the factor graph and the vtree reach the compiler through files read by the real readers', 'the variables of each factor lie on one path of the vtree (other vtrees are the known finding of P19)']},
    'P21': {'src': 'P21.cpp', 'repo': CORE + ['cnf.cpp'], 'entries': [
        {'name': 'lines', 'bound': 'every sequence of up to 2 (thorough 3) lines: comment, header, empty, blank, or up to 2 symbolic numbers of any sign with or without terminating zero; 4 spacings; with and without final newline', 'covers': ['read']},
        {'name': 'clauses', 'bound': 'clauses of up to 6 (thorough 12) symbolic numbers, any of which may be the zero', 'covers': ['read']},
        {'name': 'between', 'bound': 'up to 3 (thorough 5) clauses with comments or empty lines at every place', 'covers': ['read']},
        {'name': 'sizes', 'bound': 'up to 1000 clauses, up to 1000 literals, one symbolic', 'covers': ['read']},
    ], 'assumptions': ['libstdc++ line reading and number extraction run as compiled; the numbers in the text are symbolic in 0..2^31-1 and their negatives']},
    'P26': {'src': 'P26.cpp', 'repo': CORE + ['cnf.cpp', '/psdd_inference_main.cpp'], 'rename': {'psdd_inference_main.cpp': {'main': 'program_main', 'exit': 'program_exit'}}, 'entries': [
        {'name': 'plain', 'bound': 'n<=3, every shape, supports, no evidence; every combination of query options', 'covers': ['mpe', 'mar']},
        {'name': 'evidence', 'bound': 'n<=2: every support and every list of up to two clauses; n=3: supports with lists of up to two clauses', 'covers': ['mpe', 'mar', 'unsatisfied']},
        {'name': 'zeros', 'bound': 'n in {2,3}: one zero parameter, no evidence', 'covers': ['mpe', 'mar']},
    ], 'assumptions': ['standard output is captured through std::cout; printed numbers carry the rounding of the stream format; clauses are compiled by libsdd natively']},
    'P23': {'src': 'P23.cpp', 'inc': ['fakes'], 'repo': CORE + ['uai_network.cpp', 'minfill_vtree.cpp', 'hypergraph_decomposition_vtree.cpp'], 'entries': [
        {'name': 'elimination', 'bound': 'every graph of up to 4 (thorough 5) variables with pairwise factors, every elimination order (symbolic)', 'covers': ['generated']},
        {'name': 'elimination_factors', 'bound': 'n in {3,4}: 1..3 factors of up to three variables, 15 (thorough 60) each, every elimination order (symbolic)', 'covers': ['generated']},
        {'name': 'small', 'bound': 'up to 4 variables and 3 factors (5 over one variable): no partition needed', 'covers': ['generated']},
        {'name': 'partition', 'bound': 'up to 6 (thorough 7) variables and 4..8 (thorough 10) factors of up to three variables; every partition within the promised balance (symbolic) at every level', 'covers': ['generated', 'partitioned', 'partitioned again']},
        {'name': 'directory', 'bound': 'working directories of up to 4000 characters'},
    ], 'assumptions': ['htd is replaced by stand-ins of its interface that return any elimination order; KaHyPar by stand-ins that return any balanced two-way partition']},
    'P27': {'src': 'P27.cpp', 'inc': ['fakes'], 'repo': CORE + ['uai_network.cpp', 'jointree_vtree.cpp'], 'entries': [
        {'name': 'bags', 'bound': 'n<=3, 10 factor graphs, every rooted tree of up to 4 bags (n=3: 3; thorough one more), every valid assignment of bags (symbolic)', 'covers': ['generated']},
        {'name': 'four', 'bound': 'n=4, 6 factor graphs, every rooted tree of up to 3 (thorough 4) bags, every valid assignment of bags (symbolic)', 'covers': ['generated']},
        {'name': 'branching', 'bound': 'n=4, 5 (thorough 4 to 6) bags on six trees with branching nodes, one variable in any connected set of bags, the others in one bag each (symbolic)', 'covers': ['generated']},
    ], 'assumptions': ['htd is replaced by stand-ins of its interface that return any valid rooted tree decomposition']},
    'P29': {'src': 'P29.cpp', 'repo': CORE + ['cnf.cpp'], 'entries': [
        {'name': 'vtree', 'bound': 'n<=4 (thorough 5), every vtree, built from a vtree or an SDD vtree under three mappings; symbolic parameters; the given vtree is freed', 'covers': ['from a vtree', 'from an SDD vtree']},
        {'name': 'loaded', 'bound': 'n<=3, every vtree, supports (n=3: 32, thorough every); target empty or holding nodes; source collected or deleted, or target deleted; symbolic parameters', 'covers': ['source gone', 'source collected', 'target gone']},
        {'name': 'imported', 'bound': 'n<=3, every vtree, supports (n=3: 60, thorough every), three SDD routes and clauses; the SDD manager is freed; symbolic world', 'covers': ['imported']},
        {'name': 'makers', 'bound': 'n=2 (thorough 3), every sequence of 2 (thorough 3) of nine operations that make or collect nodes; symbolic parameters', 'covers': ['made']},
    ], 'assumptions': ['libsdd runs natively; memory it freed is reused before the check looks again']},
    'P30': {'src': 'P30.cpp', 'repo': ['random_double_generator.cpp'], 'entries': [
        {'name': 'uniform', 'bound': 'symbolic range of either sign, 16 (thorough 64) seeds, 5 (thorough 12) draws', 'covers': ['uniform']},
        {'name': 'gamma_source', 'bound': 'symbolic second parameter, six first parameters from 0.01 to 40, 8 (thorough 32) seeds, 100 (thorough 400) draws', 'covers': ['gamma']},
        {'name': 'streams', 'bound': 'symbolic scale, 8 (thorough 32) seeds, every interleaving of 6 (thorough 8) draws of two sources with their twins', 'covers': ['streams']},
        {'name': 'ranges', 'bound': 'three uniform sources of one symbolic width at symbolic places, every order of 4 (thorough 6) draws, 6 seeds', 'covers': ['ranges']},
        {'name': 'defaults', 'bound': 'no seed; 36 pairs of parameters, 8 draws', 'covers': ['defaults']},
    ], 'assumptions': ['the distributions of libstdc++ run as compiled']},
    'P31': {'src': 'P31.cpp', 'entries': [
        {'name': 'records', 'bound': 'every constructor; symbolic 64-bit identifiers and flags, variables below 2^30, counts below 2^62; up to 3 elements in 3 orders', 'covers': ['literal', 'top', 'decision']},
        {'name': 'compare', 'bound': 'pairs of nodes of one type; symbolic flags, literals, variables; up to 2 elements over 3 children', 'covers': ['equal']},
        {'name': 'flags', 'bound': 'tables of up to 8 nodes with flags 0..2, every list of flags, one (thorough two) sweeps', 'covers': ['found', 'swept']},
        {'name': 'anyflag', 'bound': 'three leaves, one with a symbolic flag below 2^17; three listed flags', 'covers': ['found', 'swept']},
    ], 'assumptions': []},
    'P28': {'src': 'P28.cpp', 'inc': ['fakes'], 'repo': CORE + ['pgm_compiler.cpp', 'uai_network.cpp', 'minfill_vtree.cpp', 'hypergraph_decomposition_vtree.cpp', 'jointree_vtree.cpp', '/uai_compiler.cpp'],
            'rename': {'uai_compiler.cpp': {'main': 'program_main', 'exit': 'program_exit'}}, 'entries': [
        {'name': 'vtree_file', 'bound': 'n<=3, 20 (thorough 60) graphs, 10 zero patterns, one factor with free entries', 'covers': ['compiled', 'zero network']},
        {'name': 'methods', 'bound': 'n<=3, the three methods with two answers of the external library, 6 (thorough 20) graphs, 4 zero patterns', 'covers': ['compiled']},
        {'name': 'names', 'bound': 'file names of 100 to 3800 characters', 'covers': ['compiled']},
        {'name': 'lookalikes', 'bound': '13 vtree file names relative to the working directory that resemble methods, n=3', 'covers': ['compiled']},
        {'name': 'paths', 'bound': 'n=2; 9 directories and 9 file names (parent directories, several dots, hidden, no extension), absolute or relative', 'covers': ['compiled']},
    ], 'assumptions': ['standard output is captured through std::cout; printed numbers carry the rounding of their format; htd and KaHyPar are replaced by stand-ins of their interfaces']},
}
