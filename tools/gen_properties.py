"""Write /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
L = 'algebraixlib/'


def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': [L + f for f in files],
            'state': [dict(name=a, meaning=b, where=L + c) for a, b, c in state],
            'mechanism': [dict(name=a, where=L + b) for a, b in mech],
            'observe_at': observe, 'hook_needed': None}})


p('A01', 'Set algebra operations compute exactly the set-theoretic result',
  'For all sets, the set algebra (union, intersect, minus, substrict, superstrict, subset and superset tests, big '
  'union/intersection, power set, power-up, restrict, single, some, multify, chained binary operations) returns '
  'exactly the value its mathematical definition gives. Substrict/superstrict return their first argument when the '
  'inclusion holds and Undef otherwise, and single/some return Undef when no such element exists. The result depends '
  'only on the values of the arguments, never on how or in which order they were built or previously used.',
  ['inputs', 'histories'], 'every pair of sets of arbitrary nesting (incl. empty, mixed-type, relations, clans) reached by any operation history',
  'The tests compare a handful of literal examples; the quantifier is over all sets and over the cached state the operands acquired from earlier operations.',
  ['algebras/sets.py', 'mathobjects/set.py'],
  [('sets.Algebra', 'algebras/sets.py'), ('Set frozenset storage', 'mathobjects/set.py')],
  ['return value of every algebras.sets function'])

p('A02', 'Couplet and relation algebra operations match their definitions',
  'For all couplets and relations, transpose, compose (rel1 after rel2), functional/right-functional union, lefts, '
  'rights, rights-for-left, left/right lookup, fill-lefts, rename, swap, functional-add, diag, from-dict and defined-at '
  'return exactly the couplets their definitions prescribe. Where the definition has no value (no match or ambiguous '
  'lookup, non-functional union, left already present, inner values that do not meet) the result is Undef.',
  ['inputs', 'histories'], 'every couplet and every relation over arbitrary (nested) left and right components, empty ones included, in any operation history',
  'The tests use about ten small literal relations and never relations whose components are sets or other relations, nor operands carrying cached state from earlier calls.',
  ['algebras/couplets.py', 'algebras/relations.py', 'extension.py'],
  [('couplets.Algebra', 'algebras/couplets.py'), ('relations.Algebra and lookup functions', 'algebras/relations.py')],
  ['return value of every algebras.couplets / algebras.relations function'])

p('A03', 'Clan algebra operations match their definitions',
  'For all clans, transpose, compose, cross-union, cross-functional and cross-right-functional union, left-hand-side '
  'cross-functional union, cross-intersect, substrict, superstrict, lefts, rights, project, from-set, from-dict, diag and '
  'defined-at return exactly the clan obtained by applying the relation operation to every (pair of) member relation(s) and '
  'dropping undefined results. lhs-cross-functional-union additionally keeps exactly those left relations that match no '
  'right relation, so it behaves as a left outer join.',
  ['inputs', 'histories'], 'all clans (regular or ragged, functional or not, containing or being empty) in any operation history',
  'Tests cover a few pairs of two-row clans; the definition quantifies over all pairs of member relations and depends on cached properties of the operands.',
  ['algebras/clans.py', 'algebras/relations.py', 'extension.py'],
  [('clans.Algebra', 'algebras/clans.py'), ('binary_extend/unary_extend', 'extension.py')],
  ['return value of every algebras.clans function'])

p('A04', 'Multiset algebra operations compute exact multiplicities',
  'For all multisets, union is the pointwise maximum, intersection the pointwise minimum, add the pointwise sum and minus the '
  'truncated pointwise difference of multiplicities; subset/superset tests, substrict/superstrict, big union/intersection, '
  'single, some and demultify follow from these pointwise definitions. Multiplicities of results are always positive '
  'and cardinality, length, iteration and per-element multiplicity agree with each other.',
  ['inputs', 'histories'], 'all multisets with arbitrary (nested) elements and multiplicities, including empty ones, in any operation history',
  'Tests check a few literals; conservation of multiplicity has to hold for all element/multiplicity combinations.',
  ['algebras/multisets.py', 'mathobjects/multiset.py'],
  [('multisets.Algebra', 'algebras/multisets.py'), ('Counter storage', 'mathobjects/multiset.py')],
  ['return value of every algebras.multisets function'])

p('A05', 'Multiclan algebra operations match definitions incl. multiplicities',
  'For all multiclans, transpose, compose, cross-union, cross-(right-)functional union, cross-intersect, lefts, rights, '
  'rights-for-left, project, from-dict, diag and defined-at apply the relation operation to every (pair of) member '
  'relation(s), drop undefined results, and give each result the sum of the products of the multiplicities of the '
  'pairs that produce it. Substrict and superstrict keep each relation of the first multiclan that is a subset/superset of a '
  'relation of the second, with its multiplicity in the first.',
  ['inputs', 'histories'], 'all multiclans over arbitrary relations and multiplicities in any operation history',
  'Tests check a few literals with small multiplicities; row conservation must hold for all of them.',
  ['algebras/multiclans.py', 'extension.py'],
  [('multiclans.Algebra', 'algebras/multiclans.py'), ('binary_multi_extend/unary_multi_extend', 'extension.py')],
  ['return value of every algebras.multiclans function'])

p('A06', 'Ordered multiclan slices return exactly the requested rows',
  'order_slice and order_slice_to_listgen return, for every multiclan, every strict weak order, every offset >= 0 and every '
  'limit >= 0 (or infinity), the rows number offset to offset+limit-1 of the multiclan sorted by that order, counting each '
  'relation with its multiplicity; multiclan_to_listgen does the same for some fixed order. Consecutive slices therefore '
  'tile the multiclan without loss or duplication, offsets and limits may be given as Atom or plain number, and '
  'the input is never changed.',
  ['inputs'], 'all multiclans, orders, offsets and limits, including windows that start and end inside one relation\'s multiplicity',
  'Tests try a few windows on one multiclan and always pass Atoms.',
  ['algebras/multiclans.py'],
  [('slicing helper', 'algebras/multiclans.py')], ['results of order_slice, order_slice_to_listgen, multiclan_to_listgen'])

p('A07', 'Extending an operation to sets and multisets is exact',
  'unary/binary extension of any operation to sets yields exactly the set of defined results over all (pairs of) elements; '
  'extension to multisets yields each defined result with the total of the multiplicities (products of multiplicities '
  'for binary) of the operands producing it. Undefined results never appear as elements, '
  'the operation is applied in argument order, and non-set/non-multiset arguments give Undef.',
  ['inputs', 'programs'], 'all operations (partial, non-commutative, colliding, constant) and all sets/multisets',
  'Tests extend two or three fixed operations over fixed sets.',
  ['extension.py'],
  [('binary_extend, binary_multi_extend, unary_extend, unary_multi_extend', 'extension.py')],
  ['return values and the recorded calls of the extended operation'])

p('A08', 'Partitions are disjoint, complete and follow the class invariant',
  'For every set or multiset and every class function, partition returns nonempty parts that are pairwise disjoint, '
  'together contain exactly the elements (with their multiplicities) of the input, and put two elements in one part iff the '
  'class function gives them equal values. make_labeled_partition returns the same parts, each paired with its class value as left.',
  ['inputs', 'programs'], 'all sets and multisets, all class functions (constant, injective, returning plain values or math objects)',
  'Tests use two class functions over fixed data.',
  ['partition.py'], [('partition, make_labeled_partition', 'partition.py')], ['return values'])

p('A09', 'The algebras obey the algebraic laws',
  'For all objects, the set and multiset algebras obey the laws of distributive lattices with difference, add is a commutative cancellable sum, transposition is an involution that reverses '
  'compositions and maps functional to right-functional notions, composition is associative, distributes over unions and has diagonals as identities, the cross operations of clans and multiclans are commutative, '
  'associative and distributive, left outer joins, projections, renamings and striction compose as defined, and multify/demultify map set and clan operations to multiset and multiclan operations and back. '
  'Both sides of a law are the same object (equal, with equal hashes), whatever the operands went through before.',
  ['inputs', 'histories'], 'every law and all operands (of arbitrary nesting, regularity and size) reached by any operation history',
  'Laws relate several operations on all operands; the tests check single operations on literals.',
  ['algebras/sets.py', 'algebras/multisets.py', 'algebras/relations.py', 'algebras/clans.py', 'algebras/multiclans.py', 'algebras/couplets.py', 'extension.py', 'partition.py'],
  [('operations of all algebras', 'algebras/'), ('binary_extend/binary_multi_extend', 'extension.py')],
  ['pairs of results of operations'])

p('B01', 'Remembered algebraic properties are always true',
  'Whatever a math object has remembered about itself (being a relation, clan, multiclan, absolute, functional, '
  'right-functional, reflexive, symmetric, transitive, regular or right-regular, or a property not applying) is true of its value, '
  'after any sequence of constructions, imports and operations. Asking for a property of a result therefore gives the same answer as asking '
  'for it on a freshly built equal object, and no operation aborts because remembered facts contradict each other.',
  ['histories'], 'all operation histories: facts are propagated from operands to results through chains of operations in every order',
  'Tests look at flags after one operation on fresh operands; wrong propagation needs particular combinations of previously asked properties and later operations.',
  ['mathobjects/mathobject.py', 'mathobjects/_flags.py', 'algebras/sets.py', 'algebras/relations.py', 'algebras/clans.py',
   'algebras/multisets.py', 'algebras/multiclans.py', 'partition.py', 'import_export/csv.py'],
  [('cached_*/cache_* accessors', 'mathobjects/mathobject.py'), ('flag propagation after each operation', 'algebras/')],
  ['cached_* attributes and is_* predicates of every operand and result after each operation'],
  [('property cache', '2-bit UNKNOWN/IS/IS_NOT/N_A fact per property', 'mathobjects/_flags.py')])

p('B02', 'Property predicates decide their mathematical definitions',
  'is_functional, is_right_functional, is_reflexive, is_symmetric, is_transitive, is_regular and is_right_regular of relations, clans and '
  'multiclans (and is_bijective / is_equivalence_relation and the generic dispatchers in the properties module, also for sets of '
  'clans) return True exactly when the definition holds and Undef exactly when it does not apply. The answer does not depend on '
  'which questions were asked before, in which order, or on which equal object.',
  ['inputs', 'histories'], 'all math objects, all orders of asking; empty and singleton collections included',
  'Tests query a fixed list of objects once, each in the same order.',
  ['algebras/relations.py', 'algebras/clans.py', 'algebras/multiclans.py', 'algebras/couplets.py', 'algebras/properties.py'],
  [('is_* functions', 'algebras/properties.py')], ['return values of the is_* functions on fresh and on aged objects'])

p('B03', 'Membership in an algebra is decided by the value alone',
  'is_member and is_absolute_member of every algebra are True exactly for the objects that by definition belong: relations are sets of couplets, '
  'clans sets of relations, multiclans multisets of relations, and an absolute one has only atoms as left and right components (absolute sets '
  'and multisets only atoms as elements, not counting those that are relations, clans or multiclans). The answers do not depend on the order of the questions, and an object\'s ground '
  'set can always be computed and describes its value.',
  ['inputs', 'histories'], 'all math objects of any nesting, including ones containing empty sets at any depth',
  'Tests classify a fixed catalogue of objects in which empty sets hardly occur below the top level.',
  ['algebras/sets.py', 'algebras/relations.py', 'algebras/clans.py', 'algebras/multisets.py', 'algebras/multiclans.py', 'algebras/couplets.py', 'structure.py'],
  [('is_member/is_absolute_member', 'algebras/'), ('get_ground_set', 'mathobjects/')],
  ['is_member / is_absolute_member / get_ground_set of every generated object'])

p('B04', 'The structure calculus is a sound partial order',
  'Structure inclusion is reflexive, transitive and antisymmetric up to structure equality, equality is an equivalence with equal hashes, and '
  'inclusion is sound and, for unions of non-union structures, complete: a union is included iff all its members are, and a structure is included in a union iff it is '
  'included in a member (the natural numbers N as a part of M aside). A union contains no member that another of its members includes, the order in which it was built does not matter, '
  'the power set level counts power-set nestings above the target, and evaluating the repr of a structure gives an equal structure.',
  ['inputs'], 'all structure expressions built from atoms, M, N, products, unions and power sets',
  'Tests compare a fixed catalogue of structures pairwise; no algebraic law is checked on others.',
  ['structure.py'], [('is_subset/is_same/__hash__', 'structure.py'), ('Union normalisation', 'structure.py')],
  ['results of is_subset, ==, hash, get_powerset_level, Union.data'])

p('C01', 'Math objects never change value',
  'No library operation, lookup, predicate, comparison, rendering, export or iteration changes the value, hash, textual representation or element '
  'multiplicities of any existing math object, whether it was an argument, an element of an argument or unrelated. Repeating an operation on the '
  'same arguments gives an equal result.',
  ['histories'], 'all operation histories over a shared pool of objects that are reused as operands and embedded as elements',
  'Tests never look at operands again after the operation.',
  ['mathobjects/set.py', 'mathobjects/multiset.py', 'algebras/multiclans.py', 'algebras/multisets.py', 'util/miscellaneous.py'],
  [('frozenset storage', 'mathobjects/set.py'), ('Counter storage shared through .data', 'mathobjects/multiset.py')],
  ['value, hash and repr snapshots of all pooled objects after each operation'])

p('C02', 'Equality, hash, order and repr of math objects are coherent',
  'Two math objects are equal iff they have the same kind and equal contents (atoms: equal type and value); equality is an equivalence, != its '
  'negation, equal objects hash equally and copies and deep copies are equal. <, <=, >, >= are mutually consistent and a strict total '
  'order up to equality on all math objects, whatever types their atoms have (atoms whose type orders its values only partially, like frozensets or NaN, aside). repr and str are the same for equal objects '
  'however they were built and in every process (whatever its string hashes are), and evaluating the repr gives an equal object.',
  ['inputs', 'histories'], 'all pairs and triples of math objects, built in any element order and aged by any operations',
  'Tests compare a fixed catalogue; transitivity, canonicity and repr round trip must hold for all values and construction orders.',
  ['mathobjects/atom.py', 'mathobjects/couplet.py', 'mathobjects/set.py', 'mathobjects/multiset.py', 'mathobjects/mathobject.py', 'util/miscellaneous.py'],
  [('__eq__/__lt__/__hash__/__repr__', 'mathobjects/'), ('get_hash', 'util/miscellaneous.py')], ['results of ==, !=, <, <=, >, >=, hash, repr, copy.deepcopy'])

p('C03', 'Construction, containment, size and iteration agree',
  'Constructing a Set, Multiset, Couplet or Atom from arguments, iterables, mappings or math objects, with or without direct load, '
  'yields exactly the documented contents: raw values become atoms, a string or a math object is one element, a missing right component makes a '
  'reflexive couplet and mappings give multiplicities. Afterwards iteration, length, cardinality, is_empty, `in`, '
  'has_element and get_multiplicity all describe that same content, also if the containers it was made from change.',
  ['inputs'], 'all argument shapes and contents accepted by the constructors',
  'Tests use a fixed list of literals.',
  ['mathobjects/atom.py', 'mathobjects/couplet.py', 'mathobjects/set.py', 'mathobjects/multiset.py'],
  [('constructors', 'mathobjects/')], ['public accessors of constructed objects'])

p('C04', 'Calling and indexing objects evaluates them as functions',
  'Calling a functional relation with a left gives its right and Undef if there is none; indexing a relation, clan, multiset of couplets or multiclan with a left '
  'gives exactly the rights for that left (with multiplicities for the multi variants); get_left_set/get_right_set give the left/right set of relations, clans, '
  'multiclans and nested sets of these. Objects that are none of these yield Undef, repeated '
  'and interleaved access gives the same answers, and results are usable like any other object.',
  ['inputs', 'histories'], 'all math objects and lefts (raw values and math objects), all interleavings of calls with other operations',
  'Tests index a few literal objects once.',
  ['mathobjects/set.py', 'mathobjects/multiset.py', 'mathobjects/mathobject.py'],
  [('__call__, __getitem__, get_left_set, get_right_set', 'mathobjects/')], ['return values of mo(left), mo[left], mo.get_left_set(), mo.get_right_set()'])

p('C05', 'Undefined results are signalled uniformly and never leak',
  'Every checked operation given an argument outside its algebra returns the Undef singleton instead of failing, and Undef never becomes an '
  'element or component of a result. With the raise-on-undef level at 1 or above, an operation of an algebra, extension, slice or join with a non-member argument raises UndefException '
  'instead; at level 2 or above also those with Undef arguments and legitimately undefined results do; at level 0 nothing is raised, and '
  'Undef cannot be compared or used as truth value.',
  ['inputs', 'configurations'], 'all operations of all algebras, every argument position, every kind of wrong argument (incl. Undef), every raise level',
  'Tests try one or two wrong arguments per function and almost never raise levels.',
  ['undef.py', 'algebras/sets.py', 'algebras/relations.py', 'algebras/clans.py', 'algebras/multisets.py', 'algebras/multiclans.py', 'algebras/couplets.py', 'extension.py'],
  [('make_or_raise_undef, make_or_raise_undef2, RaiseOnUndef', 'undef.py')], ['result or exception of every operation call'],
  [('RaiseOnUndef level', 'process-wide raise level', 'undef.py')])

p('C06', 'Unchecked fast paths agree with checked operations',
  'For arguments that are members of the algebra, every operation gives the same value with argument checking turned off as with it turned on, including Undef '
  'for undefined results and for Undef arguments. Objects built with direct load from converted contents equal those built with conversion.',
  ['inputs', 'histories'], 'all operations with a checking switch, all member arguments and Undef',
  'Tests compare both paths on few literals; the unchecked path is what compound operations use internally.',
  ['algebras/sets.py', 'algebras/relations.py', 'algebras/clans.py', 'algebras/multisets.py', 'algebras/multiclans.py', 'algebras/couplets.py', 'extension.py'],
  [('_checked argument', 'algebras/')], ['pairs of results of checked and unchecked calls'])

p('C07', 'Objects can be shared between threads',
  'Math objects are immutable, so several threads may use the same objects at once: operations, predicates, lookups, renderings, exports and imports running in different threads give the answers they give '
  'in a single thread, none of them fails, no object changes its value, and nothing false is remembered about any of them, whatever the order in which the threads are scheduled.',
  ['schedules', 'inputs'], 'all interleavings of threads that use shared objects (the raise-on-undef level, which is process wide, is not changed meanwhile)',
  'The tests run in one thread only.',
  ['mathobjects/mathobject.py', 'mathobjects/_flags.py', 'mathobjects/set.py', 'mathobjects/multiset.py', 'import_export/_util.py', 'algebras/properties.py'],
  [('lazily filled property cache', 'mathobjects/_flags.py'), ('process-wide cache of lefts', 'import_export/_util.py')],
  ['answers of tasks in concurrent threads; values and cached facts of all objects afterwards'],
  [('left_cache', 'atoms of column and element names shared by all imports', 'import_export/_util.py')])

p('C08', 'Failures and nested calls leave everything as it was',
  'If an operation, predicate, lookup, rendering, import or export is ended by an exception - of a callback (class function, extended operation, selector, order, sort key, type conversion), of the comparison or hash '
  'of an atom\'s value, of a source or target of data, or an interruption at any point - this exception comes out, no math object has changed its value, nothing false is remembered, files that were opened by path are closed, '
  'and the same or any other call gives the right answer afterwards. Callbacks may themselves use the library on the same objects, and generators of slices may be used step by step or abandoned.',
  ['crash_points', 'fault_sequences', 'inputs'], 'all operations, predicates, lookups, renderings, imports, exports and slices; every line of the library as point of interruption (files are considered for failing callbacks, sources, targets and malformed documents only)',
  'Tests contain no failing callback or stream and no interruption.',
  ['extension.py', 'partition.py', 'algebras/multiclans.py', 'import_export/csv.py', 'util/miscellaneous.py', 'mathobjects/mathobject.py'],
  [('unary_extend', 'extension.py'), ('write_to_file_or_path', 'util/miscellaneous.py')],
  ['exception that comes out, values and remembered facts of all objects, closed state of opened files, answers of later calls'])

p('D01', 'CSV import yields exactly the table in the file',
  'import_csv returns one functional relation per data row that maps every column with a nonempty cell to that cell\'s text (or converted by the '
  'column\'s type function); duplicate rows collapse into a clan or, on request, are counted in a multiclan. Skipped leading rows, an index '
  'column numbering rows from 0, explicit column names, quoting and both file objects and paths are honoured, and the result states '
  'regularity correctly.',
  ['inputs', 'configurations'], 'all CSV tables with distinct column names and no row longer than the header (quotes, separators, newlines in cells, empty cells, short rows, duplicates) and all option combinations',
  'Tests read four small fixed files.',
  ['import_export/csv.py', 'import_export/_util.py'], [('import_csv', 'import_export/csv.py')], ['returned clan/multiclan and its regularity'])

p('D02', 'CSV export writes every row and re-imports losslessly',
  'export_csv of a regular absolute clan or multiclan (or of any absolute one with given lefts) writes a header with the sorted or given lefts and one row per '
  'relation, multiplicities included and in sort_key order if given, with empty cells where the relation has no single right; it returns True. Importing the file again with matching type conversions '
  'gives back the exported object when no value is an empty string. For anything else it returns False and writes nothing.',
  ['inputs', 'configurations'], 'all absolute clans and multiclans with column-name lefts and arbitrary text/number values (no None values)',
  'Tests export two fixed clans.',
  ['import_export/csv.py', 'util/miscellaneous.py'], [('export_csv', 'import_export/csv.py'), ('write_to_file_or_path', 'util/miscellaneous.py')], ['bytes written, return value, re-imported object'])

p('D03', 'JSON import mirrors the document as nested relations',
  'import_json turns every JSON object into the relation of its members, where a string, number or boolean value becomes an atom of the same Python type, an object value '
  'its nested relation, and an array of objects one couplet per array element under the same key; a top-level array of objects becomes the set of the element relations. '
  'File objects and paths give the same result, and nothing of the document is dropped or invented except duplicates.',
  ['inputs'], 'all JSON documents built from objects, arrays of objects, strings, numbers and booleans',
  'Tests import two fixed documents.',
  ['import_export/json.py'], [('import_json', 'import_export/json.py')], ['returned relation'])

p('D04', 'XML import mirrors elements, attributes and text',
  'import_xml returns a relation with one couplet for the root element, and recursively represents every element as the relation of its attributes, child elements and stripped nonempty '
  'text (left "$"), or directly as the text atom if text is all it has. With convert_numerics texts and attributes that read as int or float become those numbers, '
  'otherwise all stay strings; path and file-object input agree.',
  ['inputs', 'configurations'], 'all XML documents of elements, attributes and text',
  'Tests import one fixed document.',
  ['import_export/xml.py', 'import_export/_util.py'], [('import_xml', 'import_export/xml.py')], ['returned relation'])

p('D05', 'MoJSON encoding round-trips every supported object',
  'Encoding any math object whose atoms hold supported values (None, booleans, ints, floats, strings, bytes, complex numbers, frozensets, tuples, ranges, nested in '
  'each other) as JSON and decoding it again gives an equal object with the same atom types, nested to any depth and embedded in lists or dictionaries. The '
  'produced text is valid JSON.',
  ['inputs'], 'all nestings of math objects and supported Python values',
  'Tests round-trip a fixed list of objects.',
  ['import_export/mojson.py'], [('ExportJson/ImportJson', 'import_export/mojson.py')], ['text and decoded object'])

p('D06', 'RDF graphs import, match and join like a triple store',
  'import_graph returns the clan with exactly one s/p/o triple per distinct triple of the parsed graph, with IRIs, blank-node IRIs and native literal values (without language tags) as atoms. triple_match returns exactly the bindings of '
  'the given (pairwise different) variables over all triples that equal the given constants, match_and_project and pattern_match do so for any pattern and renaming, and join combines '
  'all compatible pairs of solutions. is_triple/is_graph and their absolute variants recognise exactly the relations/clans with lefts s, p and o.',
  ['inputs', 'histories'], 'all graphs, patterns, variable choices and joins of several solutions',
  'Tests run a few fixed queries on one small graph.',
  ['import_export/rdf.py', 'util/rdf.py', 'algebras/clans.py'],
  [('import_graph', 'import_export/rdf.py'), ('triple_match, join, match_and_project, pattern_match', 'util/rdf.py')], ['returned clans'])

p('D07', 'RDF table export is a parseable, complete table',
  'export_table writes, for every absolute clan and set of lefts, a document with the lefts in ascending order and one row per relation that holds exactly the values the relation has '
  'for these lefts (nothing where it has no single value). The CSV form parses back to these texts '
  'and the JSON form is valid JSON with the SPARQL results layout, giving uri, bnode or literal type and the literal datatype with the value in its lexical form.',
  ['inputs', 'configurations'], 'all absolute clans incl. ragged rows, missing values, special characters; both formats; file objects and paths',
  'Tests compare output for one fixed table.',
  ['import_export/rdf.py', 'util/miscellaneous.py'], [('export_table and its writers', 'import_export/rdf.py')], ['bytes written'])

p('D08', 'Queries over imported data compute the relational result',
  'A query that imports tables (CSV, JSON, XML, MoJSON or native objects) as clans or multiclans and selects, filters, projects, renames, joins (inner, left outer, semi, product), unites, subtracts, extends by computed '
  'columns, groups, aggregates and slices rows in any number of steps gives exactly the rows (with their multiplicities for multiclans, and with missing values left out) that evaluation row by row gives, and its exported table holds exactly these rows.',
  ['programs', 'inputs'], 'all query plans over all tables, including empty, ragged, duplicate-ridden and large ones',
  'The tests check operations one at a time; a query hands remembered facts from step to step.',
  ['algebras/clans.py', 'algebras/multiclans.py', 'algebras/sets.py', 'algebras/multisets.py', 'algebras/relations.py', 'extension.py', 'partition.py', 'import_export/csv.py', 'import_export/json.py', 'import_export/xml.py', 'import_export/mojson.py'],
  [('clan and multiclan algebra', 'algebras/'), ('imports and exports', 'import_export/')],
  ['result of every step of a query, exported table'])

p('E01', 'Text renderings show the whole object',
  'mo_to_str, the LaTeX printer and the HTML helpers accept every math object, do not change it, and give the same text for the same object (LaTeX, HTML: also for equal objects). Unless limited by options the rendering contains every element, '
  'component and multiplicity exactly as often as the object does, and limiting depth or length only elides and cuts long lines.',
  ['inputs', 'configurations'], 'all math objects and option values',
  'Tests render a few literals.',
  ['util/mathobjectprinter.py', 'util/latexprinter.py', 'util/html.py'], [('mo_to_str', 'util/mathobjectprinter.py'), ('math_object_to_latex', 'util/latexprinter.py'), ('HtmlReport helpers', 'util/html.py')], ['returned text'])

p('E02', 'Diagnostic and formatting helpers report faithfully',
  'print_var prints the name, length (if any) and value of the named variable of the chosen caller, cut, indented and extended as asked. FunctionTimer prints one START line, the LAP lines and one END line '
  'per function, indented by call depth, which is restored however functions end, and the times that have passed; PerformanceTimer measures the time to its first end. xml_to_str returns the same document consistently indented, shortened only as asked, from files in any encoding. '
  'get_file_url gives a file URL that leads back to the path, and write_to_file_or_path writes exactly the given text.',
  ['inputs', 'configurations', 'histories'], 'all variables, call trees, XML documents, paths and option values',
  'The tests hardly use these helpers.',
  ['util/miscellaneous.py', 'import_export/xml.py', 'util/rdf.py'],
  [('print_var, FunctionTimer', 'util/miscellaneous.py'), ('xml_to_str', 'import_export/xml.py'), ('get_file_url', 'util/rdf.py')],
  ['printed and returned text'], [('FunctionTimer._indent', 'process-wide indent level', 'util/miscellaneous.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
