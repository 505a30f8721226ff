prop("C01", "Index labels determine type, position and conjugate",
     "An index built from a label has the type named by its letter, the position given by its sign and keeps its name; raising/lowering and conjugating are involutions that change only the position, or only the type (undotted and dotted) or the position (colour). Counting indices gives the Dynkin labels, freshly generated indices are never repeated and match the labels asked for, and a field, an epsilon or a delta is accepted exactly on indices that fit it.",
     "all index labels (any text after the type letter), all index lists, all Dynkin labels",
     "tests use a few hand-written labels such as u0, -i1; names containing other type letters, generation indices, or other orders are never sampled",
     [T + "core.py", T + "utils.py"],
     [("Index", T + "core.py"), ("get_dynkin", T + "core.py"), ("assert_consistent_indices", T + "core.py"), ("eps, delta", T + "core.py")],
     "Proved for labels of any length over digits and any position/type; names with arbitrary text bounded. Assumes the interface of sympy's TensorIndex/Tensor (vx/ghost_tensor.py).")
prop("C02", "Conjugating a field negates charges, conjugates labels, and is an involution",
     "The conjugate of a field has every charge negated, its two Lorentz and its two colour labels swapped, the same isospin, statistics and flavour count, and the opposite conjugation flag; conjugating twice gives the field back. Conjugating a field that carries indices conjugates each index in its slot, commutes with forgetting the indices, and the predicates on fields (scalar, left-handed, vector, singlet, ...) say exactly what the labels say.",
     "all Dynkin labels, charges and flags; index lists of any labels",
     "tests check a handful of Standard Model fields; other charges, coloured or higher representations and index lists are not sampled",
     [T + "core.py", T + "sm.py"],
     [("Field.conj, IndexedField.conj", T + "core.py"), ("IndexedField.field, substitute_indices", T + "core.py"), ("Standard Model fields", T + "sm.py")],
     "Proved for free labels, digits and charges at the listed index shapes. Assumes the interface of sympy's tensors (vx/ghost_tensor.py).")
prop("C03", "Derivatives change only the Lorentz labels, and stripping them undoes this",
     "A derivative acts on a field exactly when each target Lorentz label differs by one from the field's, and the result has those labels, one more derivative, and the same gauge labels, charges, statistics, flavour count and flag. Stripping the derivatives gives back the undifferentiated field, with the gauge indices in place. Letting the derivatives of an operator act in other ways keeps its stripped fields, its number of derivatives and its dimension.",
     "all fields and Lorentz targets; operators with derivatives in the catalogue",
     "tests differentiate two or three Standard Model fields",
     [T + "core.py", CP + "completions.py", CP + "utils.py"],
     [("D", T + "core.py"), ("strip_derivs, strip_derivs_with_indices", T + "core.py"), ("derivative_combinations, operator_strip_derivs", CP + "completions.py")],
     "Proved for D and both stripping functions at the listed shapes with free labels, digits (up to 2) and charges; operators of the catalogue bounded.")
prop("C04", "Equality is symmetric, blind to charge order, and agrees with hashing",
     "Equality of fields, indexed fields and exotic fields is symmetric and reflexive, does not depend on the order in which charges were given, and equal objects have equal hashes. Indices are equal exactly when name, type and position are. Completions can be hashed, and copies with the same operator and content are equal and hash equal.",
     "all pairs of fields, charges in any order, all index labels",
     "tests compare objects built in one way only; hash collisions and missed equalities need particular orders and labels",
     [T + "core.py", CP + "core.py"],
     [("__eq__, __hash__", T + "core.py"), ("FieldType, Completion __eq__, __hash__", CP + "core.py")],
     "Proved for fields with free labels and charges; completions bounded to catalogue operators. Assumes hash(tuple) depends only on its parts' hashes.")
prop("C05", "Products of fields add the charges and give every irrep of the tensor product",
     "Multiplying fields gives exactly the irreps of the tensor product of their Lorentz, colour and isospin representations, each as often as it occurs, carrying the sum of the charges and remembering the factors; fields with different sets of charges are refused. A product of several fields has the same irreps in any order, and is a singlet exactly when all labels and the hypercharge vanish. Scalars and vectors have dimension one and fermions three halves.",
     "all pairs and lists of fields, all charges",
     "tests multiply two or three Standard Model fields; charges, orders and higher representations are not sampled",
     [T + "core.py"],
     [("Field.__mul__, walked", T + "core.py"), ("decompose_product", T + "core.py"), ("mass_dim, is_singlet", T + "core.py")],
     "Charges proved for all values on listed representations; irreps and multiplicities compared with an independent oracle (bounded). Assumes basisgen's tensor product.")
prop("C06", "Contracting SU(2) indices gives exactly the asked-for representation",
     "Contracting two tensors to a target leaves exactly as many free undotted, dotted and isospin indices as the target says, each still an index of a factor, joins only an index of one factor with one of the other by an epsilon, uses every index at most once, gives a result exactly when the target occurs in the product, and leaves colour and ignored types alone. Singlets of one type are all pairings of its free indices, each once. A failed construction leaves later ones unaffected. A product has exactly the fields and epsilons multiplied, however they are grouped.",
     "all index names and labels; the numbers of indices listed in the contracts",
     "tests contract two or three fixed operators and count results",
     [T + "contract.py", T + "core.py"],
     [("contract_su2, contract_su2_helper", T + "contract.py"), ("su2_singlets_type, epsilon_combos, lorentz_singlets", T + "contract.py"), ("construct_operators", T + "contract.py"), ("Operator, Operator.__mul__", T + "core.py")],
     "Proved with free index names for up to 3 indices a side (helper) and listed shapes (contract_su2); sympy's own tensors bounded. Assumes the interface of vx/ghost_tensor.py.")
prop("C07", "Colour singlets are all joinings of raised with lowered colour indices",
     "With as many raised as lowered colour indices, the colour singlets of an operator are all ways of joining each raised to a lowered one by a delta, each once; three raised or three lowered are joined by one epsilon; anything else is refused. No colour index stays free, every other index and every field is left alone, and each result is invariant under SU(3). With the overcomplete flag two pairs also give the product of epsilons.",
     "all operators with up to four colour indices (three pairs bounded), all index names",
     "tests count singlets of one or two operators",
     [T + "contract.py", T + "core.py"],
     [("colour_singlets", T + "contract.py"), ("delta, eps", T + "core.py")],
     "Proved with free index names for up to two pairs or three raised/lowered; three pairs and linear independence bounded.")
prop("C08", "The invariants of a list of fields are complete, neutral and not repeated",
     "Every invariant built from a list of fields contains each field once, has no free index, is invariant under Lorentz, colour and isospin transformations and has vanishing hypercharge; for distinct fields the invariants span all singlets of the tensor product, and for repeated fields what is left after cleaning and removing relabellings still spans what all contractions span up to exchanging copies. Cleaning keeps exactly the first operator of each non-vanishing canonical form.",
     "all lists of operators (cleaning); random fields with up to about five indices (span)",
     "tests compare counts for a few Standard Model operators; dropped or duplicated structures of others go unseen",
     [T + "contract.py", T + "core.py"],
     [("invariants, unsimplified_invariants, construct_operators", T + "contract.py"), ("clean_operators, remove_relabellings", T + "contract.py"), ("extract_relabellings, is_identity_mapping, compare_singlets", T + "contract.py")],
     "clean_operators, is_identity_mapping proved (lists up to 4, free canonical forms); completeness and invariance checked numerically (components modulo a prime) on bounded draws.")
prop("C12", "Exotic fields, their partners and mass terms are consistent",
     "A field becomes a real scalar, complex scalar, Majorana or Dirac fermion exactly as its spin, colour, isospin and hypercharge say, and impossible ones are refused. The Dirac partner has opposite charges, conjugate colour and toggles the bar, the partner of the partner is the field; conjugation keeps the bar. The mass term is the field times its partner, has no free index, vanishing charges and one epsilon per SU(2) index. Lowering indices renames each once and joins it to the old by an epsilon.",
     "all labels, charges and index names, listed index shapes",
     "tests build two or three exotics; the conjugated and barred combinations are not sampled",
     [CP + "core.py", T + "core.py"],
     [("dirac_partner, majorana_partner, conj, swap_colour_indices", CP + "core.py"), ("mass_term, lower_su2", CP + "core.py"), ("cons_completion_field, assert_real_rep", CP + "core.py")],
     "Proved for free labels, charges and names at listed shapes (up to three indices); invariance under the groups bounded. Assumes the interface of vx/ghost_tensor.py.")
prop("C09", "The Lagrangian's U(1) symmetries are those of its interactions",
     "Each interaction gives one row counting, for every field, how often it minus its conjugate (and Dirac partner) occurs; the symmetries found are exactly the charge assignments under which every term, Standard Model Yukawa terms included, is neutral, and their number is the dimension of that space. The full Lagrangian of a model contains every renormalisable term of its fields and the Standard Model's that does not vanish, up to conjugation, and none that is charged.",
     "all lists of interaction terms over Standard Model and exotic fields (listed sizes), all index names",
     "tests count symmetries of two or three completions",
     [T + "lagrangian.py", CP + "core.py"],
     [("Lagrangian.u1_symmetries, term_to_row, clean_fields, contains", T + "lagrangian.py"), ("Lagrangian.generate_full, generate_uv_terms, npoint_terms", T + "lagrangian.py"), ("Completion.lagrangian", CP + "core.py")],
     "Rows, fields and terms proved for free labels at listed shapes; kernels, completions and full Lagrangians compared with exact linear algebra (bounded). Assumes exotics of vanishing hypercharge are self-conjugate.")
prop("C10", "The epsilons of an operator are shared out among its vertices without loss",
     "Splitting off the gauge epsilons of the fields at a vertex divides the epsilons in two: those fully contracted with the fields' indices and all the others, each kept once. The Lorentz epsilons chosen for the fields at a vertex join only their free Lorentz indices of the same kind, each at most once, and leave exactly the indices a scalar, a fermion or the derivatives of the fields need; a derivative vertex leaves what the outgoing field carries.",
     "all index names; vertices of two, three or four fields of the listed kinds; lists of up to three epsilons",
     "tests contract a few hand-picked vertices; more than two indices of one kind, or epsilons shared between vertices, are not sampled",
     [CP + "completions.py", T + "core.py"],
     [("get_lorentz_epsilons, drop_scalar, all_scalars, all_fermions", CP + "completions.py"), ("separate_gauge_epsilons, is_contracted_epsilon", CP + "completions.py"), ("Operator.__mul__", T + "core.py")],
     "Proved with free index names at the listed kinds of fields; products with the epsilons on sympy's tensors bounded. Assumes the interface of vx/ghost_tensor.py.")
prop("C11", "Every vertex of a completion is an invariant coupling fixing one exotic field",
     "Contracting the fields at a vertex gives an exotic field whose charges are the sums of the fields', whose labels are those of the indices left over, and a coupling of exactly the fields, the exotic field's conjugate (or partner) and epsilons that has no free index and vanishing charges, or says why there is none. The same quantum numbers get the same symbol and different ones different symbols. The line joining two vertices is found between exactly those.",
     "all index names and charges at the listed vertices; random vertices of catalogue fields",
     "tests contract one or two vertices and never check invariance or neutrality of the coupling",
     [CP + "completions.py", CP + "core.py"],
     [("contract, exotic_field_and_term, process_derivative_term", CP + "completions.py"), ("check_charges, check_singlet, get_connecting_edge", CP + "completions.py"), ("cons_completion_field, lower_su2", CP + "core.py")],
     "Proved for free names and charges at listed vertices; Lorentz, colour and isospin invariance checked on components modulo a prime (bounded). Assumes the interface of vx/ghost_tensor.py.")
prop("C13", "Every way of putting an operator's fields on a topology is found, none lost",
     "Placing fields on the leaves of a topology changes exactly one free leaf of the right kind at a time, keeps the shape and the numbers of the nodes, and uses each field once. All distinguishable assignments of scalars and fermions to the leaves are produced, each representable arrangement once up to the symmetries of the nested tuple, and interchangeable fields of an operator share one counter, different ones do not. Every assignment comes with a graph of its own whose ends carry its fields' labels.",
     "nested tuples of the listed shapes with any leaf values; catalogue operators and random repeated fields",
     "tests place the fields of one or two operators; a lost assignment loses models silently",
     [CP + "completions.py", CP + "utils.py", CP + "topologies.py"],
     [("replace, replace_fields, distribute_fields, quick_remove_equivalent_partitions", CP + "completions.py"), ("partitions, set_external_fields, node_dictionary, indexed_fields_with_counters", CP + "completions.py"), ("flatten, chunks", CP + "utils.py")],
     "Proved for free leaf values at the listed shapes; whole operators on the topologies compared with an independent enumeration (bounded).")
prop("C14", "The topologies shipped are all trees with the given ends, each once",
     "For each number of scalar and fermion ends with data, the topologies returned are exactly the tree diagrams with three- and four-point vertices allowed by dimension and spin, no two alike, each with a nested tuple and a graph describing the same tree and every node numbered once. Asking for missing data is refused. Reading a file gives what it says.",
     "every data file in the tree; the text parser on random files",
     "tests read one or two files and never compare them with the set of all trees",
     [CP + "topologies.py", CP + "topology_data"],
     [("get_topology_data, read_topology_file, eval_partition, eval_graph", CP + "topologies.py"), ("topology data", CP + "topology_data")],
     "Not a proof: a complete run-time check of the contract on every shipped file, against an independent enumeration of trees.",
     level="exploration", tech=TECHR)
prop("C16", "Removing equivalent completions keeps exactly one of each kind",
     "The text of a field's conjugate is the conjugate of its text, conjugating text twice gives it back and keeps Standard Model names readable. Two completions of a topology have the same characteristic number exactly when their terms agree up to conjugation, and cleaning keeps exactly one completion of each kind per topology, ordered by topology. Equivalence of completions is symmetric, holds between a completion and itself, and never between completions with different field content or different terms.",
     "all charges and labels (texts); lists of completions from a pool; completions of catalogue operators",
     "tests clean the completions of a few operators and compare counts",
     [CP + "completions.py", "neutrinomass/utils/functions.py"],
     [("clean_completions, completion_characteristic_number, cons_term_prime_dict", CP + "completions.py"), ("are_equivalent_completions, compare_terms, check_remapping_on_terms", CP + "completions.py"), ("negate_u1, conjugate_field, conjugate_term, stringify_qns", "neutrinomass/utils/functions.py")],
     "Proved for free texts and digits, and for cleaning over pools of terms; equivalence of real completions bounded. Assumes unique factorisation.")
prop("C17", "Filtering keeps exactly the models that contain no model of the sieve",
     "Collecting completions by their field content loses none and mixes none. Filtering models against a sieve keeps exactly those whose content contains no sieve model's content, with all their completions; the order of either does not matter, filtering against nothing keeps everything, and filtering twice is filtering once.",
     "all models over four (thorough: five) fields; catalogue operators",
     "tests filter one operator's models against one other's",
     [CP + "completions.py", CP + "utils.py"],
     [("filter_completions, prime_registry, model_registry", CP + "completions.py"), ("collect_completions, collect_models", CP + "completions.py"), ("factors", CP + "utils.py")],
     "Proved by complete enumeration of models and sieves of the stated sizes on the instrumented code; real completions bounded. Assumes unique factorisation.")
prop("C19", "Removing duplicates keeps the first of each kind, whatever the list",
     "remove_equivalent and remove_equivalent_nopop keep exactly the first element of every equivalence class in the original order, the latter without changing its argument; removing twice is removing once. The other list functions do what they say on every input: chunks loses and reorders nothing, flatten gives the leaves from left to right, foldr folds from the right, fixedpoint stops at a value the function keeps, multisets are compared up to order, and replacing texts replaces every key at once.",
     "lists of any length under any equivalence (unbounded proof); nested lists, functions and texts of the listed shapes",
     "one test removes duplicates of a list of numbers; runs of duplicates, duplicates at the ends, empty lists and mappings are not sampled",
     [CP + "utils.py", "neutrinomass/utils/functions.py"],
     [("remove_equivalent, remove_equivalent_nopop, dropped_vals", "neutrinomass/utils/functions.py"), ("flatten, chunks, foldr, fixedpoint, multiset_equality, multiple_replace, allowed_lor_dyn", CP + "utils.py")],
     "remove_equivalent, remove_equivalent_nopop and dropped_vals proved for lists of any length with loop invariants and variants; the others for free elements at the listed lengths; multiple_replace bounded.")
prop("C20", "Pattern matching finds the binding exactly when there is one",
     "Matching a pattern with variables against data gives the bindings under which the pattern is the data, each variable bound to one value wherever it occurs, and fails exactly when no such binding exists. Bindings already made are kept and obeyed, and a failed match stays failed, through whichever of the functions it is asked.",
     "patterns with up to three variables of the listed shapes (lists and tuples to depth two), any leaves",
     "tests match two or three fixed patterns; repeated variables, empty texts and collections of unequal length are not sampled",
     ["neutrinomass/utils/match.py"],
     [("pattern_match, pmatch, is_match, _extend_if_consistent, _match_on_collection", "neutrinomass/utils/match.py")],
     "Proved with free leaves (texts) at the listed shapes, patterns with lists where the data have lists and tuples where they have tuples; deeper shapes bounded.")
prop("C21", "Model numbers tell models apart, and queries lose no model",
     "Two models of a database have the same democratic number exactly when their fields agree up to conjugation, and the same stringent number exactly when their interactions do; a number divides another exactly when the content is contained. Removing equivalent models keeps the first of each content per operator. Queries give exactly the models they hold for, in order, changing nothing; forcing and reading from files keep every model of every operator.",
     "all models over six fields and six terms, databases of two operators; queries over any number of models",
     "tests build one database of a few models; collisions and losses need particular contents and orders",
     [DB + "database.py"],
     [("ModelDatabase.__init__, democratic_model_number, stringent_model_number", DB + "database.py"), ("remove_equivalent_models, query, filter_by_query, force", DB + "database.py"), ("LazyCompletion, read_completions", DB + "database.py")],
     "Queries and products proved for any number of models; numbers and duplicates by complete enumeration over the stated pools; reading and forcing bounded. Assumes unique factorisation and sympy's prime.")
prop("C22", "Database filtering keeps exactly the models no leading operator implies",
     "Filtering by neutrino mass removes from every operator exactly the models that contain a model of an operator with a larger new-physics scale, filtering by dimension exactly those that contain a model of an operator of smaller dimension; operators of the same scale or dimension leave each other alone, the order of operators and models does not matter, and filtering twice is filtering once. Ordering keeps every operator's models and sorts by decreasing scale or increasing dimension.",
     "any number of models (one filtering step), any scales, dimensions and model numbers; whole databases of two or three operators",
     "tests filter one prepared database and compare counts",
     [DB + "database.py"],
     [("filter, filter_by_mass, filter_model_by_mass", DB + "database.py"), ("filter_by_dimension, filter_model_by_dimension, filter_one_loop_weinberg", DB + "database.py"), ("order, order_by_mass, order_by_dimension, fill_scale_dict, process", DB + "database.py")],
     "One step of filtering proved for any number of models with loop invariants; whole databases at the listed sizes for any scales and dimensions; real operators bounded. Assumes the scale estimates and C21.")
prop("C23", "Related models are exactly those built from two or more of the same fields",
     "The related models of a row of the model data frame are the other rows with two or more exotic fields all of which are among the row's, each once and whole, and asking changes nothing. The dictionaries of fields and terms lead to their numbers and back, are kept when rows are selected, and a row's completion is the one its text describes.",
     "tables of up to three rows over three fields (proof, complete), larger ones and any row labels at random",
     "no test looks at the data frame's own functions",
     [DB + "database.py", DB + "utils.py"],
     [("ModelDataFrame.related_models, new, completion", DB + "database.py"), ("subsets", DB + "utils.py")],
     "Proved by complete enumeration of tables of the stated size against the assumed interface of pandas; pandas itself bounded. Assumes factorint and square-free numbers.")
prop("C24", "Exported operators and completions read back the same",
     "The text exported for a field, an epsilon, an operator or a completion evaluates to the same thing: fields with the same label, indices, charges, statistics, conjugation, bar and latex, operators with the same factors in order, completions with the same operator, partition, graph, terms, exotic fields and topology. The lazy form is one line, holds the operator's name and the quantum numbers and terms the completion has, and is forced to the same completion; files of them are read back whole and in order.",
     "all index names, labels and charges at the listed shapes; completions of catalogue operators",
     "tests export the first completion of five operators; conjugate, barred and charged exotic fields and latex are not compared",
     [DB + "export.py", DB + "database.py"],
     [("export_tensor, export_operator, export_terms", DB + "export.py"), ("export_completion, export_graph, export_partition, export_exotics", DB + "export.py"), ("LazyCompletion.force, read_completions", DB + "database.py")],
     "Tensors and operators proved for free names, labels and charges (the text is evaluated with its opaque pieces in place); completions and files bounded. Assumes the interface of vx/ghost_tensor.py.")
prop("C25", "Stored operators read back the same; the catalogue breaks lepton number by two",
     "An operator stored as plain data and read back has the same fields with all their parts and the same epsilons and deltas in the same order; its fields and epsilons are those it was multiplied from. Every operator of the catalogue is made of Standard Model fields, has lepton number two, vanishing hypercharge and baryon number, odd dimension, all isospin indices joined, and the number its field content has in the list of operators.",
     "operators of the listed shapes with any names, charges and flags; every operator of the catalogue",
     "one test reads one operator of the catalogue",
     [T + "core.py", CP + "operators.py", T + "lnv.py"],
     [("Operator.pickle_form, from_pickle_form, fields, epsilons", T + "core.py"), ("EFF_OPERATORS, DERIV_EFF_OPERATORS", CP + "operators.py"), ("BL_classification, contains_derivative", T + "core.py")],
     "Storing and parts proved for free names and charges at the listed shapes; the catalogue is checked completely at run time. Assumes the interface of vx/ghost_tensor.py.")
prop("C26", "Summaries of operators and models count every field once",
     "An operator's mass dimension is the sum of those of its fields plus its derivatives, and is refused when it is not whole; its topology type counts each field once, as scalar or fermion. The exotic fields of a completion are listed each with spin, colour, isospin and charges, taken at non-negative hypercharge so that a field and its conjugate are listed alike; a model's numbers are the formatted content, sorted, each once, and formatting writes the dimensions of the representations and the charges.",
     "operators with any number of fields; exotic fields of listed index shapes with any names and charges",
     "tests look at one or two models' numbers and topology types",
     [CP + "core.py"],
     [("EffectiveOperator.mass_dimension, topology_type", CP + "core.py"), ("Completion.exotic_info, exotic_fields", CP + "core.py"), ("Model.exotic_numbers, format_quantum_numbers", CP + "core.py")],
     "Dimension and kinds proved for any number of fields (sum, loop invariants); quantum numbers for free names and charges at listed shapes; sorting of a model's numbers bounded.")
prop("C27", "Closing an operator conserves charges, loses no component and always ends",
     "An operator is expanded into all its SU(2) components, each as often as it occurs, whatever the names of its indices. Every closure rule conserves electric charge, lepton number, baryon number and the number of doublets, brings in a Yukawa coupling just when a right-handed field goes or comes, and rewriting always ends: the first matching rule is applied until none does. A structure is estimated exactly if it closes, as v^2/Lambda times its couplings and loops, each further pair of vevs giving loopv2, and the leading mass is the largest estimate.",
     "every rule; every operator of the catalogue; any number of rewriting steps, any lists of factors of the listed sizes, any values of estimates",
     "tests compare leading estimates of some sixty operators; lost structures that do not lead, and rules fired by few operators, go unseen",
     [DB + "closures.py", DB + "utils.py"],
     [("RULES, apply_rules, fixed_point, clean", DB + "closures.py"), ("parse_operator, neutrino_mass_estimate", DB + "closures.py"), ("get_leading_mv, estimate_np_scale, loop_data", DB + "utils.py")],
     "Rewriting, cleaning, estimates and leading masses proved at the stated sizes, with matchpy assumed; rules and catalogue checked completely at run time. Numerical values (sympy.solve, floats) are not specified.")
prop("C28", "Completions found reproduce their operator and its diagram",
     "Of every assignment of an operator's fields to a topology a completion is made exactly if no contraction fails; it has one term for each vertex, made of the fields that meet there, neutral in every charge, without free indices or derivatives; every inner line of its diagram is labelled by the exotic field the fields beyond it were contracted to, which has their quantum numbers and statistics; its outer fields are the operator's, and its exotic fields those of its lines. Without derivatives, it fails exactly where fermions of opposite handedness meet or a coupling vanishes. Every assignment is tried, operators with derivatives for every way these can act.",
     "any outcomes of the contractions on the listed topologies (proved); operators of the catalogue on random assignments (bounded); any number of assignments (proved)",
     "tests look at the completions of a few operators, mostly their number; wrong diagrams, lost lines or terms of particular assignments go unseen",
     [CP + "completions.py"],
     [("partition_completion, construct_completion", CP + "completions.py"), ("replace_and_mutate, reduced_row", CP + "completions.py"), ("operator_completions, deriv_operator_completions, completions", CP + "completions.py")],
     "Diagram, terms and exotic fields proved for any outcomes of contract and its helpers (their contracts: C09-C11), operator_completions for any number of partitions; quantum numbers and charges of whole completions bounded.")
prop("C29", "A Hilbert series is read as every operator content it counts",
     "A series is read as the list of field contents of its terms: every symbol as its own field or conjugate with its multiplicity, numbers dropped, derivatives distributed by the product rule and acting in every way: an n-th derivative gives a field for each sequence of Lorentz labels a vector apart (fermions without lowering both, bosons without raising one and lowering the other). Of contents with derivatives those remain in which each field has at most one, with labels (1,1), (1,0) or (0,1); a structure is given the invariants of a content that has most of them, each a name of its own.",
     "any Lorentz labels up to three and orders up to four, any lists of factors of the listed sizes, any number of contents (proved); random series (bounded)",
     "the test of parse is empty; tests look at no derivative structure",
     [T + "parse_hs.py", T + "deriv_operators.py"],
     [("parse, parse_hs, proc_term, distribute_derivatives", T + "parse_hs.py"), ("deriv_possibilities, FIELD_LOOKUP", T + "parse_hs.py"), ("remove_unwanted_deriv_structures, keep_longest_invariants, label_operators", T + "deriv_operators.py")],
     "Derivative labels, terms, the choice of structures and of the longest list proved; sympy's product rule and whole series bounded.")
prop("C30", "Copies of indices, fields, operators and completions keep everything",
     "A copy of an index is the same index: type, name, position and label. A deep copy of an indexed field, of an exotic field or of an operator equals the original in every part (labels, charges, statistics, flags, the symmetry of its indices, the order of fields, epsilons and deltas), is made of objects of its own, and changing its charges leaves the original as it was. A deep copy of a completion has the same operator, partition, topology, diagram, exotic fields and terms, all its own.",
     "indices with any labels; fields, exotic fields and operators of the listed shapes with any names, charges and flags; completions of catalogue operators",
     "no test copies anything but one exotic field",
     [T + "core.py", CP + "core.py"],
     [("Index.__reduce_ex__, IndexedField.__deepcopy__, Operator.__deepcopy__", T + "core.py"), ("FieldType.__deepcopy__, Completion.__deepcopy__", CP + "core.py")],
     "Indices, fields, exotic fields and operators proved at the listed shapes for free names and charges; completions bounded. Assumes the interface of vx/ghost_tensor.py.")
prop("C31", "Every choice of fields that can make an invariant is listed once",
     "For every choice of n of the given fields, their conjugates and (if wanted) the derivative, accepted by the filter, whose product contains a neutral singlet, exactly one such singlet is listed, for no other choice any; it knows the fields it was multiplied from and their lepton number. Up to a dimension, those strings are listed whose mass dimension, the sum of those of their fields, does not exceed it; of the products every singlet, once. Listing strings, or importing the module that does, leaves the fields as they were.",
     "any products of the choices of up to three of the listed fields, any filter, any masses (proved); strings of Standard Model fields up to four (bounded)",
     "no test lists strings",
     [T + "lagrangian.py", T + "smeft.py"],
     [("npoint_fieldstrings, with_lepton_number", T + "lagrangian.py"), ("prod_mass_dim, generate_fieldstrings", T + "lagrangian.py"), ("generate_operators, prod_mass_dim", T + "smeft.py")],
     "Which choices are listed proved for any outcomes of decompose_product (its contracts: C05) and any mass dimensions at the listed sizes; strings of Standard Model fields bounded, against an independent count of singlets.")
prop("C32", "LaTeX shows every field once and exactly the contractions there are",
     "The LaTeX of an operator contains every field once (those of the Standard Model first, in the order L e Q u d H), conjugates of fields with isospin with a tilde and of others with a dagger, also under derivatives; each field has one letter for each of its indices, of the alphabet of the index's type; two indices have the same letter exactly if they are contracted directly; every epsilon and delta carries the letters of the indices it contracts, epsilons contracted with one another a letter found nowhere else. Types of indices that are to be ignored are shown nowhere.",
     "operators of two fields of the listed index shapes with any index names, joined in every way (proved); all operators of the catalogue, terms of completions (bounded)",
     "no test reads the LaTeX of an operator",
     [T + "core.py", T + "utils.py"],
     [("Operator.latex, IndexedField.latex_and_pop", T + "core.py"), ("Field.get_latex, conj_latex", T + "core.py"), ("to_tex, TEX_GREEK_LOWERCASE", T + "utils.py")],
     "Fields proved for any labels and LaTeX names; operators proved for free index names at the listed shapes; the catalogue, terms of completions and chains of epsilons bounded. Assumes the interface of vx/ghost_tensor.py.")
prop("C33", "Completions written as JSON say everything the completion holds",
     "The plain data exported for a field says its name, its conjugation and every index under its type and in order; for an exotic field also its latex, charges, Lorentz, colour and isospin labels, symmetry, statistics and bar; for a derivative its Lorentz labels. The data of an operator is that of its fields, epsilons and deltas in order. The data of a completion says its effective operator, its partition with the same nesting, fields and nodes, its terms, its exotic fields, and every line of its diagram with its ends and field, and can be written as JSON.",
     "fields and operators of the listed shapes with any names, charges and flags (proved); completions of catalogue operators (bounded)",
     "no test writes a completion as JSON",
     [DB + "json_serialiser.py"],
     [("export_tensor, export_operator, export_terms, export_partition, export_graph, export_completion", DB + "json_serialiser.py")],
     "Fields, operators and partitions proved for free names, labels and charges at the listed shapes; completions and graphs bounded. Assumes the interface of vx/ghost_tensor.py and networkx's node_link_data.")
prop("C34", "Mixing matrices are unitary with the given angles; couplings give the masses",
     "For any angles and phases the mixing matrix has the entries of the standard parametrisation R23 U13 R12 times the Majorana phases, in numbers and in symbols; it is unitary, its columns are those of its transpose and its dagger is its inverse. The PMNS and CKM matrices are those of the measured angles. The two vectors of couplings of the flavour-anomaly model give the neutrino-mass matrix, m0 (x Z^T + Z x^T) = U* diag(0, m2, m3) U^dagger, whatever the free complex parameter and the scale m0.",
     "all angles, phases, parameters and scales",
     "no test touches the analysis package",
     ["neutrinomass/analysis/utils.py", "neutrinomass/analysis/flavour_anomalies.py"],
     [("UnitaryMatrix, PMNS, CKM", "neutrinomass/analysis/utils.py"), ("x, Z", "neutrinomass/analysis/flavour_anomalies.py")],
     "The real code is run on indeterminates and every entry is reduced modulo sine^2 + cosine^2 = 1 (exact arithmetic in place of numpy's); numbers bounded. Assumes sympy's polynomial division.")
prop("C35", "Mass and scale estimates are the estimate's value at the measured parameters",
     "The neutrino mass of an estimate is its value with every symbol, whatever its power, at its measured value and new physics at 1 TeV, also where the scale comes in through loopv2. The new-physics scale is the positive scale, in TeV, at which the estimate equals the measured neutrino mass. The leading estimate of an operator has the largest mass; scales are given for every estimate in order; the table shows the largest scale with the loops of its estimate.",
     "estimates with any powers (substitution proved); powers up to 5 with loopv2 to the first or second (values and scales)",
     "tests compare leading estimates of a few operators; no value and no scale is compared",
     [DB + "closures.py", DB + "utils.py"],
     [("numerical_mv, numerical_np_scale_estimate", DB + "closures.py"), ("get_leading_mv, estimate_np_scale, table_data", DB + "utils.py")],
     "Substitution and the equation solved proved for every power; values, scales, the leading estimate bounded. Assumes sympy's subs and solve.")
