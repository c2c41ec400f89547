prop("C16", "A specification is accepted exactly if it follows the rules of the language",
     "cocogen accepts a specification if and only if it follows the documented rules: every reference names a definition of a kind allowed there, names and uids are unique and not reserved, values, fields, prefixes and functions are unique within their scope, every part that is required is present, there is one root and one start phase, and no phase contains itself. The verdict does not depend on the order of the definitions. A specification that breaks a rule leaves a diagnostic and no generated code, and cocogen always ends in an orderly way.",
     ["inputs", "configurations"], "one specification with every kind of definition: each identifier replaced by each other identifier in three letter cases, by each reserved word and keyword; all pairs of names exchanged; all combinations of optional parts; each part removed; all root and start patterns over three; all reference graphs over three phases; all orders of six definitions",
     "The tests hold 17 faulty and 13 correct specifications, each with one fault.",
     ["cocogen/frontend/scanAndParse/dsl-parser.y", "cocogen/frontend", "cocogen/main.ccn"],
     [("existence and kind of references, duplicate names", "cocogen/frontend/buildsymboltable.c, check_existance.c"), ("recursion of phases", "cocogen/frontend/reachability.c"), ("required parts", "cocogen/frontend/scanAndParse/dsl-parser.y")],
     "exhaustive enumeration of single and paired deviations from the language's rules, executed by the real generator, against a model of the rules",
     "Every assignment within the bound is generated and its verdict, diagnostics and files compared with a model of the rules; cases on which documentation and implementation are silent (24 % of the bound) are only required to end orderly.")
prop("C17", "Attributes and equations are accepted exactly if they follow their rules",
     "A specification with inherited and synthesized attributes is accepted if and only if every synthesized attribute of a node and every inherited attribute of its children has exactly one equation there and no other attribute has one, every argument names an existing attribute once, no inherited or synthesized attribute is in the constructor or has lifetimes, the root has no inherited attributes, nodesets with attributes use neither intersection nor difference and give each of their members each attribute exactly once. Otherwise it is rejected with a diagnostic and without generated code, in whatever order things are written.",
     ["inputs", "configurations"], "every subset and duplication of the equations of three node types, every argument of every equation replaced by every existing and missing attribute, every attribute kind and flag on nodes, roots and nodesets, every set expression with attributes",
     "The tests hold four faulty attribute grammars; most rules have no test.",
     ["cocogen/frontend/check_product_rules.c", "cocogen/frontend/check_attributes.c", "cocogen/frontend/nodesets", "cocogen/frontend"],
     [("required and superfluous equations, arguments", "cocogen/frontend/check_product_rules.c"), ("attributes of nodesets given to members", "cocogen/frontend/nodesets/propagate_attributes.c"), ("combinations of attribute flags", "cocogen/frontend/check_attributes.c")],
     "exhaustive enumeration of single and combined deviations from the rules of attribute grammars, executed by the real generator, against a model of the rules",
     "Every grammar within the bound is generated by the real cocogen and its verdict compared with a model of the rules; accepted ones are compiled.")
prop("C18", "Evaluating attributes gives every attribute the value its equations define",
     "For every accepted attribute grammar and every tree, starting the evaluation gives every inherited and synthesized attribute of every node exactly the value its equation defines from the values of the arguments, with the variant for absent children where an optional child is absent. Each equation is evaluated at most once per node and only after its arguments; evaluating again after a change gives the new values. Reading an attribute before it is evaluated, or starting at a node with inherited attributes, is refused.",
     ["inputs", "configurations", "histories"], "all grammars over families of lists, trees, siblings, nested and mixed nodesets with one or two visits (every subset of the possible dependencies of each equation), each evaluated on all trees up to 3-4 nodes, at every possible start, twice",
     "Tests generate grammars without compiling or running the evaluators.",
     ["cocogen/dynamic_backend/gen_visit_source.c", "cocogen/dynamic_backend/gen_equation_functions.c", "cocogen/frontend/attribute_scheduler", "copra/src/dynamic_core.c"],
     [("visit functions, arguments and alternatives per member", "cocogen/dynamic_backend/gen_visit_source.c"), ("partition of attributes into visits, schedule of each visit", "cocogen/frontend/attribute_scheduler")],
     "exhaustive enumeration of attribute grammars and trees, the generated evaluator executed with equations that record an uninterpreted term, against a fixed point evaluation of the equations",
     "Every accepted grammar within the bound is generated, compiled and evaluated on every tree; all attribute values (hashes of the complete terms), the number and the order of evaluations are compared with the model.")
prop("C19", "Attribute grammars are rejected if circular and accepted if ordered",
     "If in some tree an attribute could depend on itself, the specification is rejected with a diagnostic and no code is generated; if the attributes of each node type and nodeset can be evaluated in one fixed order that satisfies the dependencies of all trees, it is accepted. The verdict depends neither on the order in which nodes, children, attributes, equations and arguments are defined nor on the run. A limit of iterations (--ag-scheduler-max-iter) only decides whether a plan is found: from some limit on the specification is accepted, and the generated code is the same whatever the limit; below it is rejected with a diagnostic and no code is generated.",
     ["inputs", "configurations"], "all subsets of the possible dependencies of each equation over families of lists, trees, siblings, rings of nodes, nested and mixed nodesets with one or two visits, each in two orders of definition; every limit of iterations from 0 to two above the first that suffices, for every 60th of them",
     "Three grammars in the tests reach the scheduler; circularity over more than one production, or over nodesets, is never tested.",
     ["cocogen/frontend/attribute_scheduler", "cocogen/frontend"],
     [("transitive closure and induced dependencies", "cocogen/frontend/attribute_scheduler/graph.c, schedule_attribute_visits.c"), ("partition and visit sequences", "cocogen/frontend/attribute_scheduler/partition_nodes.c, generate_visits.c")],
     "exhaustive enumeration of dependency relations, executed by the real scheduler, against an independent circularity and orderedness analysis",
     "Every dependency relation within the bound is given to the real generator and its verdict compared with a model: circular must be rejected, ordered must be accepted; grammars that are neither (not circular, no fixed order by the documented partitioning) only have to end in an orderly way here, what they evaluate to if accepted is decided by C18.")
prop("C20", "Every accepted specification gives a compiler that compiles, links and runs",
     "For every specification that cocogen accepts, the generated sources, headers and user file skeletons together with copra and palm compile as C without errors, implicit declarations or conversions between unlike pointers, link without missing or duplicate definitions once the user's gates and types exist, and the resulting program performs all its actions and ends, whatever names, texts and combination of parts are in the specification. Names that clash in the generated code are rejected instead. Names with the documented reserved prefixes, and C functions that the user names, are outside this.",
     ["inputs", "configurations"], "every combination of the optional parts of every definition; for every identifier each name for which some generated identifier would equal another one of the generated code or copra, C keywords and letter cases; names with underscores that join to the same identifier; every text of an info; 1 to 100 (thorough 400) definitions, members, actions of every kind",
     "Tests compile the code of a few specifications with harmless names, and never the user file skeletons.",
     ["cocogen/dynamic_backend", "cocogen/phase_driver", "cocogen/frontend/check_existance.c", "cocogen/generator/generator.c"],
     [("generated declarations, definitions and skeletons", "cocogen/dynamic_backend"), ("reserved and clashing names", "cocogen/frontend/check_existance.c, check_attributes.c, check_product_rules.c")],
     "exhaustive enumeration of specifications, executed by the real generator, and of names derived from the generated code, each result compiled, linked and run",
     "Every specification within the bound that is accepted is compiled with its skeletons, linked and run; candidates for clashes are computed from the identifiers of the generated code itself, so new generated identifiers are covered.")
prop("C21", "What is generated depends on nothing but the specification",
     "The sources and headers cocogen generates, and whether it accepts, are the same bytes whatever the options that do not concern them, the environment, the locale, memory addresses and contents, the names and places of specification and output directory, what the output directory held before, the order of the arguments, the build of cocogen and the compiler it is built with. It changes no file outside its output directory, and command lines that ask for help, the version or the structure or are wrong generate nothing and exit accordingly. A generated compiler prints the same with every compiler, optimisation level and assertion setting, and never reads memory it has not written.",
     ["configurations", "inputs"], "every single deviation in 8 dimensions (61 values) for about 30 specifications and all pairs of deviations for one (thorough: six); MemorySanitizer over about 1000 (thorough 3000) specifications; generated compilers built in 16 ways; about 200 command lines that do not generate",
     "Tests run one command line, in one environment, into fresh directories.",
     ["cocogen/main.c", "cocogen/main.ccn", "cocogen/generator/generator.c", "palm/src", "copra/src", "cocogen/dynamic_backend"],
     [("options and mode", "cocogen/main.c"), ("output files", "cocogen/generator/generator.c"), ("iteration over tables", "palm/src/hash_table.c")],
     "exhaustive enumeration of configuration deviations and of their pairs on the real cocogen, byte comparison with the plain run; every build configuration of generated compilers executed on the same inputs",
     "Every configuration in the bound is executed on the real programs and compared with the undisturbed run.")

prop("C22", "Input that is no specification is refused at the token where it goes wrong",
     "Whatever bytes cocogen is given, it ends in an orderly way. If they are not a sequence of tokens and definitions that the language allows, it exits with an error, generates no code and prints a diagnostic that names the line and column of the first token that cannot continue a specification, together with that line of the input, as long as the line's characters are printable.",
     ["inputs"], "a specification with every kind of definition: each token removed, doubled, exchanged with the next, replaced by and preceded by up to 50 other tokens; cut at every token (thorough: every byte); every byte value at eight places; all sequences of up to two tokens; strings over several lines, names longer than the lexer's buffers",
     "The tests hold no input with a syntax error and never look at a diagnostic.",
     ["cocogen/frontend/scanAndParse/dsl-lexer.l", "cocogen/frontend/scanAndParse/dsl-parser.y", "cocogen/frontend"],
     [("tokens and their locations", "cocogen/frontend/scanAndParse/dsl-lexer.l"), ("grammar and error reports", "cocogen/frontend/scanAndParse/dsl-parser.y")],
     "exhaustive enumeration of single and paired token edits of a specification, executed by the real generator, against an independent recogniser",
     "Every input within the bound is given to the real generator (ASan/UBSan); verdict, exit status, files and the location of the first error are compared with a separately written recogniser of the language.")
prop("C23", "Layout, comments and the letter case of references do not change the result",
     "Two specifications that differ only in white space, line ends, comments or the letter case of references generate the same compiler, byte for byte, or are both rejected; comments and white space are accepted between any two tokens. A comment or string without end is an error.",
     ["inputs"], "one specification with every kind of definition: 19 separators at every token boundary (thorough: at pairs of boundaries) and everywhere at once, no separator where tokens allow it; every reference in up to 64 letter cases; the file ended after every token inside a comment",
     "Tests never compare two generated compilers.",
     ["cocogen/frontend/scanAndParse/dsl-lexer.l", "cocogen/frontend", "cocogen/dynamic_backend"],
     [("comment and line states of the lexer", "cocogen/frontend/scanAndParse/dsl-lexer.l"), ("lower-cased lookup keys", "cocogen/frontend/symboltable.c")],
     "exhaustive enumeration of layouts and letter cases of a specification, executed by the real generator, generated sources compared",
     "All layouts within the bound generate the same C sources and headers as the plain layout of the same build; graphs (.dot) are not compared, they print references as written.")
prop("C01", "Hash tables behave as maps under every operation history",
     "A hash table always holds exactly the last value inserted for every key not removed or cleared since: lookup, removal, count, fold, map and iteration agree with that content, with keys compared by content (strings, integers) or identity (pointers). Copies are equal to and independent of the original, and over a table's life every block of memory is released exactly once.",
     ["histories", "configurations"], "all operation histories over 4 keys (incl. colliding ones and equal keys in different memory) and 4 values, for every table kind and several bucket counts",
     "The repository has no test of the table; cocogen itself only inserts and looks up.",
     ["palm/src/hash_table.c", "palm/include/palm/hash_table.h"],
     [("bucket chains: insert replaces or appends, remove unlinks", "palm/src/hash_table.c"), ("element count kept in step with the chains", "palm/src/hash_table.c")],
     "explicit-state search of the real table to closure plus exhaustive operation sequences, against a map model",
     "Every reachable content (4 keys, 4 values) of the real table x every operation, by breadth-first search to a fixed point, and every history of length 3 (thorough 4) without merging, under ASan/UBSan with exact allocation accounting. Trusts the 40-line map model and that states with equal observable content and order have equal futures (bfs only).",
     observe=["return values and iteration of the HT* functions", "live allocations"])

prop("C02", "String functions agree with their documentation on every input",
     "Every string function returns what its documentation says for every argument, including NULL, empty, overlapping-token and out-of-range arguments; results that are documented as new are fresh allocations and arguments documented as untouched stay untouched. The tokenizer yields every token once and releases its memory after the last one.",
     ["inputs"], "all strings up to length 3-4 over 5 characters and NULL, in all combinations of arguments, all small counts and offsets",
     "No test calls these functions except through cocogen's own fixed uses.",
     ["palm/src/str.c", "palm/include/palm/str.h"],
     [("NULL handling and bounds per function", "palm/src/str.c"), ("static copy of the tokenized string", "palm/src/str.c STRtok")],
     "exhaustive bounded enumeration of the real functions against reference implementations",
     "All calls within the stated string lengths and alphabet are executed (ASan/UBSan, allocation accounting) and compared with an independent reference; nothing is said about longer strings.")

prop("C03", "Diagnostics are counted, printed completely, and decide the exit status",
     "Every diagnostic is written once to standard error with its kind, its complete text and, if given, its location and marked source line; errors and warnings are counted exactly. Aborting ends the process with status 1 and the exact totals, and aborting-on-error does so if and only if an error was reported.",
     ["histories", "inputs"], "all histories of up to 4 diagnostic calls of every kind; messages over all combinations of word lengths around the line width and every printable character; all location field combinations",
     "Tests only look at cocogen's exit code; no message text, counter or location is ever compared.",
     ["palm/src/ctinfo.c", "palm/include/palm/ctinfo.h"],
     [("error and warning counters", "palm/src/ctinfo.c HandleCtiCall"), ("line breaking of messages", "palm/src/ctinfo.c ProcessMessage"), ("location printing", "palm/src/ctinfo.c PrintInfo")],
     "exhaustive history exploration with one process per history, plus exhaustive message and location enumeration",
     "Every call history within the bound is executed in its own process and its status, stderr and counters compared with a counter model; text compared up to white space.")

prop("C04", "Actions run in the specified order; gates alone decide what is skipped",
     "A compiler run executes exactly the actions of its phase structure in the specified order, descending into nested phases; a phase or cycle runs if and only if it has no gate or its gate function, asked each time right before it, answers true. Each action receives the tree the previous action returned, every run numbers actions by their position in the structure whatever was skipped, and the tree is released at the end.",
     ["configurations", "histories"], "all phase structures of up to 5 (thorough 6) actions with phases, cycles, passes and traversals, shared and inline definitions, all gate answer patterns and tree replacements",
     "No test ever executes a generated compiler other than cocogen itself, whose structure is one fixed tree with constant gates.",
     ["copra/src/phase_driver.c", "cocogen/phase_driver/gen_action_array.c", "cocogen/phase_driver/gen_ids_table.c", "cocogen/phase_driver/gen_gate_header.c", "cocogen/frontend/scanAndParse/dsl-parser.y"],
     [("dispatch of actions and phases", "copra/src/phase_driver.c"), ("generated action tables", "cocogen/phase_driver/gen_action_array.c, gen_ids_table.c"), ("action numbering when phases are skipped", "copra/src/phase_driver.c SkipPhase")],
     "exhaustive enumeration of phase structures and schedules, executed end to end and compared with a reference interpreter",
     "For every structure in the bound the compiler is generated, compiled and run under every scenario; each trace must equal the reference interpreter's.",
     observe=["order of pass, traversal and gate calls", "action number reported to actions"])

prop("C05", "Cycles iterate until the fixed point or the maximum, also when nested",
     "A cycle repeats its actions exactly as long as some action executed during the last iteration, directly or in a nested phase or cycle, notified a change, and at most as often as the maximum number of iterations currently set (100 unless changed). Nested phases and cycles neither end, prolong nor restart the count of an enclosing cycle, and plain phases never repeat.",
     ["histories", "configurations"], "all structures of up to 5 (thorough 6) actions, all notification patterns {never, once, twice, always, later} per action, maxima 1-4 and default, changed while running",
     "cocogen itself has no cycle that notifies; no test reaches a second iteration.",
     ["copra/src/phase_driver.c"],
     [("fixed point flag and iteration counter", "copra/src/phase_driver.c StartPhase")],
     "exhaustive enumeration of structures x notification schedules on generated compilers, against a reference interpreter",
     "All scenarios within the bounds executed on the real driver and generated tables; traces compared event by event; runaway loops are cut off and reported.")

prop("C06", "Error signals stop the compiler exactly after the action or phase concerned",
     "After an action signals an action error, no further action runs and the process ends with status 1; after a phase error is signalled, the remaining actions of that phase still run, nothing after that phase does, and the process ends with status 1. Errors never leak to sibling or enclosing phases that ended normally, and without a signal the run completes.",
     ["fault_sequences", "configurations"], "every single error and pairs of errors at every action and invocation of all structures of up to 5 (thorough 6) actions, with gates and cycles",
     "No test signals an action or phase error.",
     ["copra/src/phase_driver.c"],
     [("action and phase error flags, saved around nested phases", "copra/src/phase_driver.c CCNdispatchAction, StartPhase")],
     "exhaustive fault placement over enumerated phase structures, against a reference interpreter",
     "Every placement within the bounds is executed on the generated compiler; traces and exit status compared.")

prop("C07", "Breakpoints stop after exactly the named or numbered action",
     "With a breakpoint set, by dotted path or name in any letter case or by number, the run stops right after the first execution of a matching action, hands the current tree to the breakpoint handler once and exits successfully; a breakpoint that matches nothing changes nothing. The structure listing shows every action once, with the number that breakpoints use and its nesting.",
     ["inputs", "configurations"], "every path, path tail, name and number for all structures of up to 5 (thorough 6) actions, with non-matching names, closed gates and iterating cycles",
     "No test sets a breakpoint or prints the structure.",
     ["copra/src/phase_driver.c"],
     [("breakpoint prefix stripping on phase entry and restoring on exit", "copra/src/phase_driver.c Checkbreakpoint"), ("structure printing", "copra/src/phase_driver.c ShowTree")],
     "exhaustive enumeration of breakpoints over enumerated phase structures, against a reference interpreter",
     "All listed breakpoints executed on generated compilers; traces, handler calls, tree handed over and exit status compared; listing compared with a preorder numbering model.")

prop("C08", "Traversals call exactly the handlers of their target nodes, in tree order",
     "A traversal over any tree of any specification calls its handler for every reachable node it targets, once, top down and left to right in the order children are declared, visiting untargeted nodes on the way without skipping any subtree that holds a target; a handler that does not descend prunes its subtree. The node a handler returns replaces the visited node in its parent, and the traversal stack is balanced afterwards, also for nested traversals.",
     ["configurations", "inputs"], "all child list shapes over three and four node types with nodesets and recursion, a traversal for every non-empty subset of the node types, all trees of up to 4-5 nodes, handlers that descend, prune, revisit, replace or start another traversal",
     "Tests only generate code for fixed specifications; the generated traversals of one fixed tree (cocogen's own) are ever executed.",
     ["cocogen/dynamic_backend/gen_traversal_functions.c", "cocogen/frontend/reachability.c", "copra/src/dynamic_core.c", "cocogen/dynamic_backend/gen_node_trav_table.c"],
     [("pass-through of untargeted nodes decided by reachability", "cocogen/frontend/reachability.c, cocogen/dynamic_backend/gen_node_trav_table.c"), ("dispatch through the traversal and node type tables", "copra/src/dynamic_core.c TRAVstart, TRAVopt")],
     "exhaustive enumeration of specifications and stateless exploration of trees x handler behaviours on the generated code, against a reference traversal",
     "Each specification in the bound is generated and compiled; all trees and deviation patterns within the bound are executed and the complete event trace compared with a recursive reference traversal over the set semantics of the specification.",
     observe=["sequence of handler calls (traversal, node)", "children after the traversal", "TRAVgetCurrent"])

prop("C09", "Traversal data is initialised, private to one traversal, and released",
     "Every start of a traversal with travdata calls its init function once before and its fini function once after the handlers, and handlers see, through the accessors, the data of the innermost running instance of that traversal only: nested, recursive and anonymous traversals keep separate data and restore the enclosing one. All of it is released at the end.",
     ["histories", "configurations"], "all nestings of three traversals with and without travdata to depth 3, started from handlers, init and fini functions, with all data types and counts up to 3",
     "No test defines travdata with nesting; cocogen's own traversals are not nested recursively with data observed.",
     ["copra/src/dynamic_core.c", "cocogen/dynamic_backend/gen_trav_data_ctors.c", "cocogen/dynamic_backend/gen_trav_structs.c"],
     [("traversal stack push and pop", "copra/src/dynamic_core.c TRAVpush, TRAVpop"), ("data constructor calls init, destructor calls fini", "cocogen/dynamic_backend/gen_trav_data_ctors.c")],
     "stateless exhaustive exploration of nested traversal histories on generated code, against a stack model",
     "All nestings within the bound executed with allocation accounting; every read of every datum is compared with the stack model.")

prop("C10", "Copying a subtree yields an equal, independent tree and leaves the source alone",
     "CCNcopy of any node returns a tree of the same shape, types, locations and attribute values, made of new memory only: children and strings are duplicated, links and other pointers keep their target, NULL stays NULL. The source is unchanged, nothing is leaked, and releasing the copy does not touch the source; this also holds inside a running traversal.",
     ["inputs", "configurations"], "all attribute types in and out of the constructor and all child list shapes over three node types; all trees of up to 3 (thorough 4) nodes, every subtree, strings NULL, empty and text, links to nothing, root, self and elsewhere",
     "Copying is not executed by any test.",
     ["cocogen/dynamic_backend/gen_copy_traversal.c", "copra/src/phase_driver.c"],
     [("per node copy functions: shallow copy of the attributes, duplicated strings, traversed children", "cocogen/dynamic_backend/gen_copy_traversal.c")],
     "exhaustive enumeration of specifications, trees and attribute values on the generated copy traversal, with complete memory accounting",
     "Every copy within the bound is compared field by field with its source and block by block with the allocator's record (new blocks poisoned, freed blocks quarantined).")

prop("C11", "Releasing a tree frees each of its blocks exactly once and nothing else",
     "CCNfree of any subtree, and the end of a compiler run, release every node of that tree, its attributes, strings and file name exactly once, never a linked node, a user pointer or any other memory, and leave nothing allocated behind; a run releases the tree the last action returned.",
     ["inputs", "configurations"], "all attribute types in and out of the constructor and all child list shapes over three node types; all trees of up to 3 (thorough 4) nodes, every subtree, strings NULL, empty and text, links to nothing, root, self and elsewhere",
     "Tests neither run generated compilers on trees nor look at memory.",
     ["cocogen/dynamic_backend/gen_free_traversal.c", "copra/src/phase_driver.c"],
     [("per node free functions", "cocogen/dynamic_backend/gen_free_traversal.c")],
     "exhaustive enumeration of specifications, trees and attribute values on the generated free traversal, with complete memory accounting",
     "Every release within the bound is executed; the set of freed blocks must equal the set of blocks of the tree, each freed once.")

prop("C12", "The consistency check reports exactly the children of disallowed types",
     "For every tree, the consistency check reports every child whose type is not among the types declared for it (a node type or the members of a nodeset), naming it, and every missing child or pointer attribute that is mandatory there; it reports nothing else. In a compiler run it precedes the actions when enabled, and a reported error ends the run with status 1 before the action runs; when disabled, it has no effect.",
     ["inputs", "configurations"], "all child list shapes over three and four node types with nodesets, all trees of up to 4 (thorough 5) nodes with a node of every type in every child position",
     "No test runs the generated check on any tree.",
     ["cocogen/dynamic_backend/gen_check_traversal.c", "copra/src/phase_driver.c"],
     [("type check per child and nodeset", "cocogen/dynamic_backend/gen_check_traversal.c"), ("check run before each action", "copra/src/phase_driver.c CCNdispatchAction")],
     "exhaustive enumeration of specifications and ill-typed trees on the generated check traversal, against set membership",
     "Every tree within the bound is checked in process; the multiset of messages must equal that of the reference. Trees up to 3 nodes are also run through complete compilers.")

prop("C13", "Lifetimes are enforced exactly between their begin and end actions",
     "A child, attribute or node that is disallowed or mandatory in a range of actions is reported if and only if it is present (or missing) before an action whose position lies in the range, where inclusive and exclusive bounds denote the first or last action of the pass, traversal, phase or dotted path named, open bounds the start or end of compilation, and allowed and optional the complement of disallowed and mandatory. All lifetimes of an item hold together; bounds that name no action, or several, are rejected.",
     ["configurations", "histories"], "all pairs of bounds, inclusive and exclusive, over every action and path of 45 phase structures (nested, cyclic, shared), every lifetime kind on children, attributes and nodes; every action position; item present and absent",
     "No test generates or executes a check with lifetimes.",
     ["cocogen/frontend/lifetimes", "cocogen/dynamic_backend/gen_check_traversal.c", "copra/src/phase_driver.c"],
     [("resolution of targets to action numbers", "cocogen/frontend/lifetimes"), ("range tests in the generated check", "cocogen/dynamic_backend/gen_check_traversal.c")],
     "exhaustive enumeration of lifetimes over enumerated phase structures, executed on the generated check at every action, against interval semantics on the action tree",
     "Every lifetime in the bound is generated, compiled and evaluated at every action position with the item present and absent; rejected specifications are compared with the resolver model.")

prop("C14", "Generated constructors and accessors keep every field apart and typed",
     "A new node has the declared type, the constructor's arguments in the declared order in the fields of their names, all other children NULL and attributes at the default of their type. Reading a field gives the last value written to exactly that field, for every type; child count and child array agree with the named children. Attributes of a nodeset are the attribute of each of its members, also of nested sets. Enum values are in order, distinct and different from the default. In debug builds an accessor applied to a node of another type stops the program.",
     ["configurations", "histories"], "child lists of up to 3 (thorough 4) children with every constructor pattern, every pair of attribute types with every constructor pattern, names in several letter cases, all sequences of two writes; nodesets with attributes of every type over overlapping and nested sets",
     "Tests compile generated code of a few specifications without running it.",
     ["cocogen/dynamic_backend/gen_node_constructor.c", "cocogen/dynamic_backend/gen_node_structs.c", "cocogen/dynamic_backend/gen_node_macros.c", "cocogen/dynamic_backend/gen_nodeset_access_funcs.c", "cocogen/dynamic_backend/gen_enums.c", "cocogen/frontend/nodesets"],
     [("constructor parameters and initialisation", "cocogen/dynamic_backend/gen_node_constructor.c"), ("nodeset attribute access", "cocogen/dynamic_backend/gen_nodeset_access_funcs.c")],
     "exhaustive enumeration of node declarations and write histories on the generated node interface, against a record model",
     "Every node declaration in the bound is generated and compiled; all histories of up to two writes are executed and the complete node compared with a record model after each.")

prop("C15", "A node set contains exactly the nodes its set expression denotes",
     "A set expression denotes the set obtained by applying its operators from left to right, unless parenthesised, to literals and to the final value of the named sets, wherever in the specification and however often those are defined and used. Exactly the members are accepted as children of that set, carry its attributes and are visited by a traversal over it. Sets that depend on themselves are rejected, all others accepted; a traversal over an empty set is rejected or visits nothing.",
     ["inputs", "configurations"], "all expressions of up to 2 (thorough 3) operators over three sets with every membership pattern, literals in all orders and letter cases, chains of four references in all definition orders, all 512 reference graphs over three sets",
     "Tests generate two specifications with sets and never look at the members.",
     ["cocogen/sets", "cocogen/frontend", "cocogen/dynamic_backend"],
     [("evaluation of set expressions and resolution of references", "cocogen/sets, cocogen/frontend")],
     "exhaustive enumeration of set expressions and reference graphs executed by the real generator, membership read from generated code by executing it, against set algebra",
     "For every expression in the bound the generated check, copy and traversal are executed on every node type; acceptance of every reference graph is compared with acyclicity.")

prop("C24", "Failures of files and memory are reported, never silent and never a crash",
     "If opening, creating, writing or closing a file, creating a directory, or an allocation fails at any point of a run of cocogen, it either still produces exactly the files of an undisturbed run and exits with 0, or says so on stderr and exits with a nonzero status; it never crashes, hangs or reports success with incomplete files. A run that is ended at any point is repaired by the next run. A generated compiler that runs out of memory anywhere in the run-time system (nodes, traversal data, copies, tables, strings, messages) ends with the out-of-memory message.",
     ["fault_sequences", "crash_points"], "every single fopen, mkdir, read, write, close and allocation of runs over two accepted and eight rejected specifications (thorough: also a rich specification), failing once or from there on, or ending the process; every allocation of a generated compiler that uses all of the run-time system",
     "Tests never run with failures.",
     ["cocogen/generator/generator.c", "cocogen/frontend/scanAndParse", "cocogen/frontend/attribute_scheduler", "palm/src/memory.c", "palm/src/hash_table.c", "palm/src/filesystem.c", "copra/src"],
     [("errors of output files", "cocogen/generator/generator.c GNcloseFile"), ("out of memory", "palm/src/memory.c, palm/src/ctinfo.c CTIabortOutOfMemory")],
     "exhaustive fault and crash-point enumeration on the real cocogen and generated compilers under a preloaded fault injector, against the files of an undisturbed run",
     "Every fault point of the runs is executed on the real programs; files are compared byte by byte with those of a run without the injector.")

prop("C25", "Every part of a definition takes effect, in every combination",
     "Whatever optional parts a definition of a phase, cycle, pass, traversal, node, nodeset, enum, child, attribute, traversal data or equation has, whether it stands at the top level or inside a list of actions, alone or next to any other definition: every part takes effect in the generated compiler. Children and attributes are in constructor and accessors as their options say; equations define their attributes; lifetimes are enforced; gates are asked; passes call the function named by func, or else by uid and name; traversals call the handlers of exactly their nodes, and have their data with its init and fini function; cycles repeat; uids can be used in lifetimes; members and attributes of nodesets and values of enums exist; everything runs in the order of the actions.",
     ["configurations", "programs"], "all 54 forms of definitions at top level and 32 inside action lists, each alone and every ordered pair next to each other (thorough: every three of a kind); all forms of the start phase and root node; all pairs of travdata types, child forms and equation forms; all lists of attribute options",
     "Tests use a handful of the productions of the grammar, and never run what comes of them.",
     ["cocogen/frontend/scanAndParse/dsl-parser.y", "cocogen/frontend", "cocogen/dynamic_backend", "copra/src"],
     [("productions of the grammar and what they keep", "cocogen/frontend/scanAndParse/dsl-parser.y"), ("generation from the parts", "cocogen/dynamic_backend")],
     "exhaustive enumeration of the forms of definitions and their adjacent pairs; the generated compilers are executed with every node and gate state and compared with a reference of events",
     "For each specification the generated compiler runs once for every node type below its root and with gates open and closed; all events, values, types and refusals must be those of the reference.")

prop("C26", "At every verbosity a compiler reports exactly what it does",
     "A quiet compiler run (PD_V_QUIET) reports nothing of its progress. From PD_V_SMALL on, every phase or cycle is announced by name when its turn comes and when it is done (not if the run ends in it), whether or not its gate lets it run, also in every iteration of an enclosing cycle; an action error or phase error that ends the run is reported. From PD_V_MEDIUM on, also every pass and traversal that runs is announced before it runs, each time. PD_V_HIGH also names the phases skipped by their gate. Nothing else is announced, the announcements are in the order of what they announce, and the verbosity never changes what runs, in which order, or the exit status.",
     ["configurations", "histories"], "all phase structures of up to 5 (thorough 6) actions, every verbosity, gates open, closed and opening, notifications, errors of every action, breakpoints at every action, with and without consistency checks, repeated runs",
     "No test sets the verbosity of a compiler.",
     ["copra/src/phase_driver.c", "copra/ccn/phase_driver.h"],
     [("announcements around the dispatch of actions", "copra/src/phase_driver.c CCNdispatchAction"), ("skipped phases and phase errors", "copra/src/phase_driver.c")],
     "exhaustive enumeration of phase structures, scenarios and verbosities on generated compilers; the report is read as part of the event trace and compared with a reference of the phase driver",
     "Every scenario within the bound is executed on the generated compiler with its stderr intercepted in process, so that announcements and events of actions form one trace; it must equal that of the reference.")

prop("C27", "Cocogen rebuilt from the code it generates of itself is the same generator",
     "Cocogen accepts its own definition (cocogen/main.ccn); with the code it generates of it, cocogen builds; and the rebuilt cocogen behaves the same on every definition file: same exit status, same messages, same generated files. In particular it generates the same code of its own definition again, so that the same holds for every later generation.",
     ["programs", "inputs"], "every definition file of the repository and all members (quick: every k-th) of the families of definitions of the other checks, valid and invalid, plus every prefix and every single deletion in a specification; the generations of cocogen until they repeat",
     "Tests use the committed generated code; the bootstrap script is not part of them and only repeats the tests.",
     ["cocogen/main.ccn", "cocogen/dynamic_backend", "cocogen/phase_driver", "cocogen/ccngen", "copra/src", "scripts/test_new_gen.tcl"],
     [("definition of cocogen's own tree, traversals and phases", "cocogen/main.ccn"), ("generation of code", "cocogen/dynamic_backend")],
     "iteration of the self-application of cocogen to its fixed point, and differential exhaustive enumeration of definition files on both generations of the real program (equality of all observable results)",
     "The generations form a deterministic chain of states: the second one reproduces its own code, so the reachable ones are explored completely. Both are executed on every member of the enumerated space; the rebuilt one also with sanitizers and assertions.")

prop("C28", "The run-time interface can be used in any order; the innermost traversal decides",
     "However TRAVstart, PASSstart, TRAVpush, TRAVpop, TRAVdo, TRAVopt, TRAVchildren, CCNcopy, CCNfree and CCNrun follow each other or nest inside handlers, passes and init and fini functions: every started or pushed traversal is the current one until it ends, and then the one before is again; the handler called for a node is that of the current traversal, and children without handler are traversed; each start has traversal data of its own, initialised once before its first and finished once after its last handler; a pass runs in the traversal it is called from; what they return replaces what they were called with; a copy is a separate tree; nothing is used after it is freed, and nothing is leaked.",
     ["histories"], "all trees of up to 3 nodes, all sequences of up to 4 operations at the outermost level, and all choices of up to 2 nested operations inside handlers and passes",
     "Tests call the interface at most once from each handler.",
     ["copra/src/dynamic_core.c", "copra/ccn/dynamic_core.h", "cocogen/dynamic_backend"],
     [("stack of traversals", "copra/src/dynamic_core.c TRAVpush, TRAVpop"), ("dispatch", "copra/src/dynamic_core.c TRAVdo, TRAVstart, PASSstart")],
     "exhaustive enumeration of histories of interface calls on the real run-time system and generated code, in lockstep with a model of the traversal stack",
     "Every history within the bound is executed; the trace of handlers, data, current traversals and results must equal that of the model; sanitizers and a leak count accompany it.")

prop("C29", "Diagrams show exactly the tree and attribute dependencies of a specification",
     "Each diagram that cocogen draws is a valid graph of the DOT language. ast.dot has exactly one vertex for each node type and nodeset, named as it is defined; one edge labelled with its name for each child and (red) for each attribute of a node type, also those that come from nodesets, to the vertex of its type; and a (blue) edge from each nodeset to each of its members; however references are spelled and whatever the names are. The diagrams in ag_dot of an accepted attribute grammar have exactly one production for each node type and for each member of a nodeset, with the inherited and synthesized attributes of the node, its children and the nodeset each drawn once; the solid edges are exactly the dependencies in equations and between nodeset and member; dotted edges are the dependencies between attributes of one node that follow from them (in partitioned.dot: from the whole grammar), and the numbers at attributes are their visits.",
     ["programs"], "645 specifications of tree definitions (child lists, attribute types, set expressions, letter cases, names that are keywords of DOT) and 4000 attribute grammars of 14 families",
     "Tests never look at a diagram.",
     ["cocogen/dot/gen_dot.c", "cocogen/dot/gen_dot_ag.c", "cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c", "cocogen/sets"],
     [("diagram of the tree", "cocogen/dot/gen_dot.c"), ("diagrams of productions", "cocogen/dot/gen_dot_ag.c GDag_dot_add_graph")],
     "exhaustive enumeration of tree definitions and attribute grammars given to the real generator; the diagrams are read and compared with the definitions and with a model of the dependency analysis",
     "For every specification in the bound the drawn graphs, read by a parser of DOT, must equal the reference graphs.")

prop("C30", "The tree that cocogen prints is the specification, with a plan that works",
     "With --show-ast, cocogen prints of every accepted specification exactly what it is, once, and nothing without the option: every phase with its actions in their order and the numbers that lifetimes and breakpoints mean; every traversal with its number and the node types its set denotes, and every pass; every node type with its number, its children, its attributes (also those from nodesets) with their types and flags, and its equations; every nodeset with its members, the nodesets it is made of and its attributes; and a table that says for every traversal and node type whether it is a target (4), has a target below it in some tree (2), or neither (0). The visits it prints for node types are a plan that works on every tree: over all visits each inherited attribute is an input and each synthesized one an output once, every equation is evaluated once and after all it depends on, and the visits of a child are started in order, for every member of its nodeset, with their inputs evaluated.",
     ["programs"], "6000 specifications: all phase structures of up to 5 actions, all trees of 4 node types with one child each under 17 traversals, all set expressions of up to 2 operations, all pairs of attribute types, and 4000 attribute grammars of 14 families",
     "No test uses --show-ast, and none looks at a plan.",
     ["cocogen/print/print.c", "cocogen/frontend/reachability.c", "cocogen/frontend/lifetimes/assign_id_to_actions.c", "cocogen/frontend/attribute_scheduler/generate_visits.c", "cocogen/frontend/nodesets"],
     [("printing", "cocogen/print/print.c"), ("reach of traversals", "cocogen/frontend/reachability.c"), ("plan", "cocogen/frontend/attribute_scheduler/generate_visits.c")],
     "exhaustive enumeration of specifications given to the real generator; what it prints is read and compared with reference models of numbering, set expressions, reach and attributes; each printed plan is explored as a transition system over sets of evaluated attributes",
     "For every specification in the bound the printed numbers, sets, attributes and reach must equal those of the models, and running each plan abstractly must find every attribute evaluated before it is used, for every member of every set.")

prop("C31", "The debug library and the directory helper of palm do what they document",
     "In every sequence of calls: DBUG and DBUGprint write exactly their formatted message on stdout, after the name of the module in brackets if one is defined or given, until DBUGoff is called, and nothing from then on; DBUG_ASSERT and DBUG_ASSERTF evaluate their condition once and do nothing if it holds, and otherwise write file, line, function and the formatted message on stderr and abort, also after DBUGoff; with NDEBUG none of the macros writes or evaluates anything. FSensureDirExists returns silently if and only if the path is then a directory that can be opened: a missing one is created with the given mode (under the umask), an existing one and everything else is left as it is; otherwise the program ends with a failure that names the path and the reason.",
     ["histories", "configurations"], "all sequences of up to 4 (thorough 5) calls of 25 kinds, with and without NDEBUG; 28 states of the file system x 5 modes x 3 umasks x privileged or not x once or twice",
     "No test uses either of them on purpose.",
     ["palm/src/dbug.c", "palm/include/palm/dbug.h", "palm/src/filesystem.c", "palm/include/palm/filesystem.h"],
     [("debug output and assertions", "palm/src/dbug.c, palm/include/palm/dbug.h"), ("directories", "palm/src/filesystem.c FSensureDirExists")],
     "exhaustive enumeration of call sequences and of states of the file system on the real functions, in lockstep with a model",
     "Every sequence within the bound is executed with its output captured and abort intercepted; every state of the file system is built in a scratch directory and compared before and after the call.")
