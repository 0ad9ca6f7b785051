# read by properties.py

SIM = 'deterministic simulation with fault injection: '
TRUST = ('Seeded search, not exhaustive. Real code: all of the parser and the syntax tree (generated scanner and grammar included), instrumented by the compiler; '
         'stub: none but the heap and the thread scheduler, and stand-in headers of takatori/yugawara in deps/. ')

prop('A01', 'Every damaged input ends in one tree or in one diagnostic at the first fault',
     'Whatever bytes are parsed - truncated, overwritten, duplicated, bit-flipped or carrying a foreign token - the parse ends with exactly one of a syntax tree or a diagnostic; it never crashes, hangs, throws or ends the process. '
     'The diagnostic has a code and a message, refers to the parsed document, its contents are the text at its region, and the region is the first token which no accepted text can have after what precedes it (the end of the text if it is the end which is unexpected). '
     'The syntax tree refers to the parsed document and its comments, and every region lies inside of the text and of the region of its parent, and statements follow each other in order.',
     ['inputs', 'fault_sequences'],
     'all input texts, and all places and kinds of damage: cuts, lost pieces, overwritten bytes, foreign tokens; all options of the parser',
     'The tests parse about a thousand well-formed statements and a handful of faulty ones; a fault has as many places as there are tokens in every sentence of the grammar, and its report must be right at each.',
     [P + 'sql_parser.yy', P + 'sql_scanner.ll', P + 'sql_driver.cpp', P + 'sql_parser.cpp'],
     [('error reporting of the generated parser with lookahead correction', P + 'sql_parser.yy'), ('rules for unexpected characters and ends', P + 'sql_scanner.ll'),
      ('conversion of faults to diagnostics', P + 'sql_driver.cpp')],
     TRUST + 'Oracles: structural conditions on every result; position, extent and code of an injected token in a sentence known to be accepted; what precedes a reported fault must be a beginning of a sentence, and what follows it must not matter.',
     SIM + 'corrupted, truncated and token-injected input', observe=[PI + 'sql_parser_result.h', PI + 'sql_parser_diagnostic.h'])

prop('A02', 'Running out of memory during a parse is reported and leaves nothing behind',
     'If any allocation fails while a text is parsed, the parse either raises std::bad_alloc or gives the result it gives when memory is sufficient, never another result, another exception, a crash or an end of the process. '
     'Everything which the failed parse allocated is released, the document is not referred to any more, and the same parser afterwards answers any text as a new one does.',
     ['inputs', 'fault_sequences'],
     'all input texts, every allocation of the parse (one, several consecutive ones, or all from one on)',
     'No test makes an allocation fail; each parse has hundreds of them, in the scanner, the parser stack and the semantic actions.',
     [P + 'sql_parser.cpp', P + 'sql_driver.cpp', P + 'sql_parser.yy', P + 'sql_scanner.ll', P + 'sql_scanner.h'],
     [('ownership of nodes by the semantic values', P + 'sql_parser.yy'), ('fatal errors of the scanner', P + 'sql_scanner.ll'), ('driver lives for one parse', P + 'sql_parser.cpp')],
     TRUST + 'Failures are drawn from the allocations of the fault-free reference execution, one per program point preferred. A failing allocation inside of an error message may shorten the message; code and place must be right. Two findings in code written by bison and flex are listed in known_findings.txt.',
     SIM + 'allocation failures at every point of a parse')

prop('A03', 'Concurrent parses do not affect each other',
     'However the parses of several threads interleave, through one shared parser or through one each, every parse gives exactly the result which it gives alone. '
     'A parser may be used by several threads at once without synchronization: parsing changes no state which is shared, so no two parses conflict on memory; this also holds while memory runs out in one of them.',
     ['schedules', 'inputs', 'fault_sequences'],
     'all interleavings of 2 to 4 threads at every basic block and memory access; all input texts; allocation failures in one thread',
     'All tests parse in one thread; an interference needs a switch at one of ten thousand points of a parse.',
     [P + 'sql_parser.cpp', P + 'sql_driver.cpp', P + 'sql_driver.h', P + 'sql_scanner.h', P + 'sql_scanner.ll', P + 'sql_tree_validator.cpp'],
     [('operator() const creates one driver and scanner per parse', P + 'sql_parser.cpp'), ('no static mutable state', P + 'sql_driver.cpp')],
     TRUST + 'A happens-before race detector (vector clocks over instrumented accesses) runs with every schedule; results are compared with solo executions in a fresh process.',
     SIM + 'seeded thread schedules over shared parsers, with a race detector')

prop('A04', 'A parse depends on nothing but the tokens and the options',
     'The result of a parse is a function of the sequence of tokens and of the options of the parser: blanks, line ends, comments (other than descriptions), the distance of a token from the start of the text and the case of keywords change nothing but the positions reported. '
     'Neither do the contents and layout of the heap, the locale, errno, what was parsed before by this parser or any other, or whether the parser was copied or moved.',
     ['inputs', 'histories', 'configurations'],
     'all token sequences with all layouts of their text, up to several times the buffer of the scanner; all histories of parses in a process; heap and locale states',
     'Tests parse short texts with single blanks in a fresh parser; refills of the scanner buffer, reused memory and other locales do not happen in them.',
     [P + 'sql_scanner.ll', P + 'sql_driver.cpp', P + 'sql_parser.yy', P + 'sql_parser.cpp'],
     [('reading of the input in blocks', P + 'sql_scanner.ll'), ('location of tokens', P + 'sql_driver.cpp'), ('state per parse', P + 'sql_parser.cpp')],
     TRUST + 'Oracle: the same tokens in their plainest layout, parsed in a fresh process; regions are compared by the tokens at which they begin and end.',
     SIM + 'randomised layout of text, heap, locale and history against solo executions')

prop('A05', 'Configured limits of the parser are exact and independent',
     'A text is accepted under a limit of nodes, of depth or of elements of one kind if and only if its syntax tree is within it (zero is no limit); the numbers of nodes and of depth which a result reports are those of its tree, whatever part of the grammar the text uses. '
     'A text over a limit is answered by the diagnostic of that limit, and each limit only counts its own kind of elements. '
     'Options may be changed between any two parses, and each parse obeys those in effect when it begins.',
     ['inputs', 'configurations', 'histories'],
     'all texts, all combinations of limits, all histories of reconfiguration (assignment, move) of one or more parsers',
     'Tests check each limit with one text and one value; limits guard against every input which an attacker may send, in each place where an expression or a list can stand.',
     [P + 'sql_tree_validator.cpp', P + 'sql_parser.cpp', P + 'sql_parser.yy', P + 'sql_parser_options.cpp', PI + 'sql_parser_options.h', PI + 'sql_parser_element_kind.h'],
     [('walk over the whole tree', P + 'sql_tree_validator.cpp'), ('element counts in the semantic actions', P + 'sql_parser.yy')],
     TRUST + 'Oracle: an independent walk over the tree by reflected structure, and lists of known sizes for all 20 kinds of elements; limits are set one below, at and one above.',
     SIM + 'histories of reconfigured parsers against a reference count')

prop('A06', 'Syntax trees are values: copies, moves, comparison and their output agree',
     'A copy or clone of a syntax tree or of any part has all contents and regions of its source and shares nothing with it: changing, moving or destroying either never changes the other. '
     'A node which a constructor builds from the values of the properties of another has the contents and regions of that one. '
     'Two trees, parts or clauses are equal by operator== exactly when their contents are the same (regions set aside), operator!= is its negation, and an object is equal to itself. '
     'Their serialized and printed forms are the same exactly when their contents are, in every history of parsing, copying, moving, editing and destroying.',
     ['histories', 'inputs'],
     'all sequences of copy, move, clone, edit, graft, compare, serialize, print and destroy over trees of all node kinds of the grammar',
     'Tests build a few small objects per class and compare their clones with operator== itself, so a member which copy and comparison both forget is never noticed.',
     [AST, 'include/mizugaki/ast/', 'include/mizugaki/ast/common/clone_wrapper.h'],
     [('clone constructors of every node', AST), ('comparison of every node', AST), ('serialize of every node', AST)],
     TRUST + 'Oracle: canonical forms taken through the accessors of every class (generated from the headers by tools/reflect_gen.py), independent of clone, operator== and serialize.',
     SIM + 'random histories over syntax trees against a reference model')

prop('A07', 'Running out of memory in an operation on syntax trees is safe',
     'If any allocation fails while a syntax tree is built, copied, moved, cloned, edited, compared, serialized or printed, the operation raises std::bad_alloc or completes; it never ends the process, leaks, or damages a tree. '
     'The source of a failed copy, comparison, serialization or print is unchanged, and every tree can still be used or destroyed.',
     ['fault_sequences', 'histories'],
     'every allocation of every operation on trees of all node kinds of the grammar',
     'No test makes an allocation fail.',
     [AST, 'include/mizugaki/ast/common/clone_wrapper.h', 'include/mizugaki/ast/common/serializers.h'],
     [('members own their values', AST), ('clone_wrapper', 'include/mizugaki/ast/common/clone_wrapper.h')],
     TRUST + 'Trees are compared with their canonical form before the failure; leaks are counted by the simulated heap.',
     SIM + 'allocation failures in operations on syntax trees')

prop('A08', 'A syntax tree can be read by several threads at once',
     'Copying, comparing, serializing and printing one syntax tree from several threads at once gives each thread the result it gets alone, for every interleaving. '
     'Reading operations write no memory which the threads share.',
     ['schedules', 'inputs'],
     'all interleavings of 2 to 4 readers at every basic block and memory access; trees of all node kinds of the grammar',
     'All tests read trees in one thread.',
     [AST, 'include/mizugaki/ast/'],
     [('const members without caches', AST)],
     TRUST + 'A happens-before race detector runs with every schedule.',
     SIM + 'seeded schedules of concurrent readers, with a race detector')

prop('A09', 'Serialization and printing survive failing and re-entrant receivers',
     'If the receiver of a serialization or the stream of a print fails at any point, exactly its exception (or the stream state) reaches the caller, and what was delivered before is the beginning of the complete output, every begun structure being ended. '
     'The tree is unchanged, and serializing it again, even from within a receiver, gives the complete output.',
     ['fault_sequences', 'inputs'],
     'every event of a serialization and every character of a printed form; exceptions of any type; trees of all node kinds of the grammar',
     'Tests print to streams which do not fail, and there is no test of a receiver which does.',
     [AST, 'include/mizugaki/ast/common/serializers.h', 'include/mizugaki/ast/node.h'],
     [('scopes which end what they begin', 'include/mizugaki/ast/common/serializers.h')],
     TRUST + 'Oracle: the complete output of a solo execution in a fresh process, and a protocol automaton for begin and end events.',
     SIM + 'failing and re-entrant receivers and streams')

prop('A10', 'A syntax tree says exactly what the text says, and where',
     'Whenever a text is accepted, its syntax tree states every token of it once and in order and nothing else: all keywords, options, operators, names (with whether they are delimited), values, signs, and the ordinals of placeholders, each as the text has it; what is optional is there exactly if the text says it. '
     'Operators, set operations and joins take their operands together by their precedence and associativity unless parentheses say otherwise. '
     'The region of each node and of each of its elements is exactly the text of it (possibly with redundant parentheses around it), and what is not stated has no region. '
     'The tree lists all comments of the text, and the description of a declaration is the last description comment between the previous token and it. '
     'This holds for every layout of the text and whatever the parser did before, parses which failed for syntax, limits or lack of memory included.',
     ['inputs', 'histories', 'fault_sequences'],
     'all sentences of the grammar in all layouts, texts near to them which are accepted, histories of a parser, and failing allocations',
     'Tests compare the trees of about a thousand short statements, mostly one construct at a time and without most regions; combinations and nesting of constructs are unbounded.',
     [P + 'sql_parser.yy', P + 'sql_scanner.ll', P + 'sql_driver.cpp', AST],
     [('what each rule builds', P + 'sql_parser.yy'), ('tokens and their values', P + 'sql_scanner.ll'), ('numbering of placeholders', P + 'sql_driver.cpp')],
     TRUST + 'Oracle: a reader which follows the tree with a cursor over the tokens of the generated text, written from the documentation of the tree and knowing nothing of the grammar.',
     SIM + 'histories of random texts under failing allocations, read along their trees')

prop('A11', 'A parser diagnostic lists what may come next, and nothing else',
     'If a token is reported as unexpected, or the end of the text is, then every token which the message lists as expected can take its place, '
     'that is, a text with this token there is accepted up to and including it; and every token which can is listed, with the exceptions that an identifier stands for delimited identifiers and for the keywords which are identifiers where one is expected. '
     'No token is listed twice, exactly as many are listed as there are up to `max_expected_candidates`, the message ends its list with `...` if and only if there are more, and there is no list if the limit is 0. '
     'The limit changes nothing but the list. This holds for every text and whatever the parser did before, parses which ran out of memory and changes of the options included.',
     ['inputs', 'histories', 'fault_sequences'],
     'all texts, limits of the list, histories of a parser and its options, and failing allocations',
     'Tests look at the messages of a handful of short texts; the expected tokens depend on the whole stack of the parser, of which there are unboundedly many, and bison asks lookahead correction for them.',
     [P + 'sql_parser.yy', P + 'sql_scanner.cpp', P + 'sql_driver.cpp'],
     [('report of unexpected tokens', P + 'sql_parser.yy'), ('identifiers for contextual keywords', P + 'sql_scanner.cpp (collapse_identifier_like_tokens)')],
     TRUST + 'The list is compared with the parser itself: probes replace the unexpected token by another one, followed by a character which no token begins with, and look where the diagnostic moves. Messages of calls in which allocations failed are not judged, as output streams swallow those failures.',
     SIM + 'histories of texts which break off at random places; metamorphic probes decide which tokens can follow')

# ---------------------------------------------------------------- analyzer
TRUSTB = ('Seeded search, not exhaustive. Real code: all of the analyzer, the syntax tree and the parser, instrumented by the compiler; '
          'simulated: catalogs, heap, thread scheduler, caller; stand-in headers of takatori/yugawara in deps/ (all 1229 unit tests of the repository pass with them). ')
D = AN + 'details/'

prop('B01', 'An analyzer works on one statement at a time and refuses others meanwhile',
     'While an analyzer works on a statement, every further call of it - by another thread, or by a catalog which it is asking - is refused by an exception at once, and neither call disturbs the other: the accepted one gives the result it gives alone. '
     'An analyzer which is idle never refuses a statement: it is idle again as soon as a call has returned or has raised, whatever the reason (a result, diagnostics, an exception of the catalog, memory running out, a refused inner call). '
     'This holds for every interleaving of threads, and no two calls ever both work.',
     ['schedules', 'histories', 'fault_sequences'],
     'all interleavings of 1 to 4 threads on one analyzer, all re-entrant calls, all histories of failed and refused calls',
     'No test calls an analyzer which is at work, from a thread or from a provider.',
     [D + 'analyzer_context.cpp', D + 'analyzer_context.h', AN + 'sql_analyzer_impl.cpp', AN + 'sql_analyzer.cpp'],
     [('atomic ownership of the context', D + 'analyzer_context.cpp'), ('finalizer which ends it', D + 'analyzer_context.cpp')],
     TRUSTB + 'Oracle: the history of calls must be one of an object which is either idle or at work (calls are at work at least between their first and last catalog lookup); accepted results equal those of solo executions; race detector.',
     SIM + 'seeded schedules and re-entrant lookups on one analyzer, checked against an exclusive object')

prop('B02', 'An analyzer is as good as new after any history of calls',
     'Whatever an analyzer was used for before - other statements, other options, statements which failed, calls in which the catalog raised exceptions or memory ran out, moves of the analyzer - its next result is exactly that of a new analyzer. '
     'No diagnostics, names, variables, types, options or placeholders of an earlier call are visible in a later one.',
     ['histories', 'fault_sequences', 'inputs'],
     'all sequences of calls of one analyzer with all statements, options and faults',
     'Tests make an analyzer per test and call it once, and compare parts of the result.',
     [D + 'analyzer_context.cpp', D + 'analyzer_context.h', AN + 'sql_analyzer_impl.cpp', D],
     [('context is cleared when a call ends', D + 'analyzer_context.cpp'), ('state of one call', D + 'query_scope.h')],
     TRUSTB + 'Oracle: canonical form of the complete result (plan, statement or diagnostics, with regions) of a solo execution in a fresh process.',
     SIM + 'histories of disturbed calls against solo executions')

prop('B03', 'An analysis leaves its inputs unchanged and lets go of them',
     'An analysis changes neither the syntax tree, comments, options, catalog nor placeholders it is given, also if it fails; the same objects can be analysed again, with the same result. '
     'Once the result is gone, nothing of the inputs is held any more.',
     ['inputs', 'fault_sequences', 'histories'],
     'all statements and options, with the same objects as inputs of several analyses, also while memory runs out or the catalog throws or changes its mind',
     'Tests use their inputs once and do not look at them afterwards.',
     [AN, AI + 'sql_analyzer.h', 'include/mizugaki/placeholder_map.h'],
     [('inputs are const', AI + 'sql_analyzer.h'), ('context is cleared when a call ends', D + 'analyzer_context.cpp')],
     TRUSTB + 'Oracle: contents and addresses of every node, option and catalog object before and after; reference counts.',
     SIM + 'repeated and disturbed analyses of the same objects')

prop('B04', 'A result of an analysis stands alone',
     'The result of an analysis stays complete and unchanged after the analyzer, the options, the syntax tree, its document, the placeholders and other results are gone or were reused, in any order. '
     'Results can be moved and destroyed in any order, and after the last of them nothing remains allocated; only objects of the catalog which it names must live as long.',
     ['histories', 'inputs', 'fault_sequences'],
     'all orders of destruction of analyzer, inputs and results; all statements',
     'Tests keep everything alive until they end; a dangling reference shows only if the memory is used for something else.',
     [AN, AI + 'sql_analyzer_result.h'],
     [('results own what they refer to', AN + 'sql_analyzer_result.cpp'), ('bless and create', D + 'analyzer_context.h')],
     TRUSTB + 'Freed memory is poisoned or reused, and every access to it is reported; oracle: solo executions; block counts of the simulated heap.',
     SIM + 'randomised object lifetimes over a poisoned heap')

prop('B05', 'An error of the catalog reaches the caller and nothing else happens',
     'If a provider of the catalog raises an exception at any lookup, of any type, exactly this exception reaches the caller of the analyzer: no result, no other exception, no further lookup, no end of the process. '
     'Nothing is leaked, and the analyzer is as good as new.',
     ['fault_sequences', 'inputs', 'histories'],
     'every lookup of every statement: schemas, relations, indices, sequences, variables, functions, aggregate functions, host variables; exceptions of any type',
     'No provider in the tests raises an exception.',
     [AN, D + 'collect_callable.h', D + 'analyzer_context.cpp'],
     [('no handler which swallows', AN), ('ownership during the analysis', D)],
     TRUSTB + 'The failing lookup is drawn from those of the fault-free reference execution; leaks are counted by the simulated heap.',
     SIM + 'exceptions at every lookup of the catalog')

prop('B06', 'Every analysis ends in a well-formed plan, a statement or diagnostics',
     'Whatever a statement says and whatever objects the catalog has, misses or answers instead, an analysis returns exactly one of: an execution plan, an executable statement, or at least one diagnostic, each with code, message and a region inside of the document. '
     'A plan is complete: it ends in its emit or write, all its inputs and outputs are connected without cycles, variables are used only where they are defined, columns belong to the relation they are taken from, numbers of columns and keys agree, and everything is resolved. '
     'An analysis never crashes, hangs, throws on its own account or ends the process.',
     ['inputs', 'configurations', 'fault_sequences'],
     'all statements of the grammar over all objects of a catalog, well-typed or not; all options; catalogs which miss objects or answer with others',
     'Tests check a few hundred statements piece by piece; the combinations of clauses, scopes, options and missing objects are beyond any list.',
     [AN, D + 'analyze_query_expression.cpp', D + 'analyze_scalar_expression.cpp', D + 'analyze_statement.cpp', D + 'set_function_processor.cpp'],
     [('construction of plans', D + 'analyze_query_expression.cpp'), ('scopes', D + 'query_scope.h'), ('reports', D + 'analyzer_context.cpp')],
     TRUSTB + 'Oracle: a complete walk of the result by sim/analyze/plan.cpp. The catalog is stable within one call: an object which was found is found again (a catalog which changes while a call is at work is outside of the contract).',
     SIM + 'random statements over catalogs with missing and wrong answers')

prop('B07', 'Running out of memory during an analysis is reported and leaves nothing behind',
     'If any allocation fails while a statement is analysed, the analysis either raises std::bad_alloc or gives the result it gives when memory is sufficient (messages may be shortened), never another result, another exception, a crash or an end of the process. '
     'Everything which the failed analysis allocated is released, and the analyzer afterwards works as a new one does.',
     ['fault_sequences', 'inputs', 'histories'],
     'every allocation of every analysis: one, several consecutive ones, or all from one on',
     'No test makes an allocation fail; an analysis has hundreds to thousands of them.',
     [AN, D + 'analyzer_context.cpp', D + 'set_function_processor.cpp'],
     [('ownership during the analysis', D), ('functions declared noexcept do not allocate', D)],
     TRUSTB + 'Failures are drawn from the distinct allocation sites and all allocations of the fault-free reference execution.',
     SIM + 'allocation failures at every point of an analysis')

prop('B08', 'Analyzers of several threads do not affect each other',
     'However the analyses of several threads interleave, each with its own analyzer but all with the same catalog, options, placeholders and syntax trees, every analysis gives exactly the result which it gives alone. '
     'Analyses change no state which is shared, so no two of them conflict on memory; this also holds while memory runs out or the catalog raises an exception in one of them.',
     ['schedules', 'inputs', 'fault_sequences'],
     'all interleavings of 2 to 4 threads at every basic block and memory access; all statements; failures in one thread',
     'All tests analyse in one thread; an interference needs a switch at one of ten thousand points of an analysis.',
     [AN, 'include/mizugaki/placeholder_map.h', AST],
     [('no static mutable state', AN), ('inputs are only read', AI + 'sql_analyzer.h')],
     TRUSTB + 'A happens-before race detector (vector clocks over instrumented accesses) runs with every schedule; results are compared with solo executions in a fresh process.',
     SIM + 'seeded thread schedules of analyzers with shared inputs, with a race detector')

prop('B09', 'A result depends on statement, options and contents of the catalog alone',
     'Analysing the same statement with equal options over a catalog of equal contents gives the same result, whatever else differs: addresses and previous contents of memory, the locale (set aside numbers in messages), the thread, what the process did before, '
     'whether the syntax tree or the options are originals, clones, copies or were moved, and whether the objects of the catalog are the same or were created anew.',
     ['histories', 'configurations', 'schedules', 'inputs'],
     'all environments in which a statement may be analysed: heap, locale, history, copies of the inputs',
     'Tests run in one environment, with inputs built on the spot; uninitialised memory and order by address are constant there.',
     [AN, AI + 'sql_analyzer_options.h', AST],
     [('canonical order of candidates', D), ('copies of options', AI + 'sql_analyzer_options.h')],
     TRUSTB + 'Oracle: canonical form of the complete result of a solo execution in a fresh process with a plain environment.',
     SIM + 'randomised environments against solo executions')

prop('B10', 'Every analysis sees the catalog as it is at the time of the call',
     'When objects of the catalog are created, replaced, redefined or dropped between the calls of an analyzer, each call gives the result which a new analyzer gives over the catalog as it is then, also for the same syntax tree and options, and after calls which failed. '
     'Objects which were dropped are never used again by later calls.',
     ['histories', 'fault_sequences', 'inputs'],
     'all sequences of analyses and changes of the catalog',
     'Tests build one catalog, and do not change it once it was used.',
     [AN, D + 'analyzer_context.cpp', AI + 'sql_analyzer_options.h'],
     [('lookups are made anew in each call', D + 'find_element_result.h'), ('context is cleared when a call ends', D + 'analyzer_context.cpp')],
     TRUSTB + 'Replaced objects are destroyed, their memory is poisoned or reused, and every access to it is reported. Catalogs do not change while a call is at work.',
     SIM + 'histories of changing catalogs over a poisoned heap')

prop('B11', 'Host values reach the statements which refer to them',
     'After any history of adding, replacing, copying and clearing host values, a name has exactly the value added last under it, or none; a step which fails for lack of memory changes nothing. '
     'In a plan each reference by name or position stands for exactly this value and type, or, if there is none, for the host variable declared under the name; a reference which is neither is reported at its place, and none other.',
     ['histories', 'fault_sequences', 'inputs'],
     'all histories of maps of host values and all statements which refer to them, with memory running out at any point',
     'Tests add one or two values to a map and resolve them once.',
     ['src/mizugaki/placeholder_map.cpp', 'src/mizugaki/placeholder_entry.cpp', 'include/mizugaki/placeholder_map.h', D + 'analyze_scalar_expression.cpp'],
     [('map of host values', 'src/mizugaki/placeholder_map.cpp'), ('resolution of references', D + 'analyze_scalar_expression.cpp')],
     TRUSTB + 'Oracle: a reference map, and the immediate or variable at the region of each reference.',
     SIM + 'histories of host values against a reference map')

prop('B12', 'A query plan returns the rows which the query means, in every state of the data',
     'The execution plan of each accepted query, executed on any rows, returns exactly the rows - with their multiplicity, their column names, and their order where ORDER BY defines it - which the query means in SQL: '
     'three-valued logic, joins of all kinds, grouping and aggregation, set operations, correlated subqueries, WITH, ORDER BY and LIMIT, scopes of names, conversions of types, host variables. '
     'This holds for each later execution of the same plan as well, when rows and host variables have changed meanwhile, after calls which failed, and after a restart of the database from its definitions; and no such query is refused.',
     ['inputs', 'histories', 'fault_sequences'],
     'all queries of the supported language, all schemas and rows, all histories of queries, changes of rows and restarts, with failing allocations and catalog lookups before',
     'Tests compare the plans of a few hundred queries with expected trees; whether a plan means the query is decided on rows, and wrong plans need a combination of clauses, hidden or renamed columns, nulls and empty groups.',
     [D + 'analyze_query_expression.cpp', D + 'analyze_scalar_expression.cpp', D + 'analyze_name.cpp',  D + 'set_function_processor.cpp', D + 'query_scope.cpp', D + 'query_info.cpp'],
     [('translation of queries to plans', D + 'analyze_query_expression.cpp'), ('scalar expressions and conversions', D + 'analyze_scalar_expression.cpp'), ('scopes', D + 'query_scope.cpp')],
     TRUSTB + 'Oracle: a reference model of SQL which generates each query together with its meaning; executor of plans and database are part of the simulator and share only operations on single values with the model. Constructs the compiler does not support are not generated; answers which are not determined (order of ties, LIMIT without total order) are compared as far as they are determined.',
     SIM + 'a simulated database which executes the plans, with shuffled rows, restarts and failing calls, against a reference model')

prop('B13', 'INSERT, UPDATE and DELETE change exactly the rows which they state',
     'The plan or write statement of each accepted INSERT, UPDATE and DELETE, executed on any rows, leaves in every table exactly the rows which the statement means in SQL: which rows are affected (three-valued conditions, subqueries), '
     'values converted to the types of their columns, SET from old values, default values and sequences for columns which are not named, OR REPLACE and OR IGNORE, constraints; all other rows and tables are as before, and no such statement is refused. '
     'This holds for every later execution of the same plan too, whatever rows and host variables are then, after calls which failed, and after restarts.',
     ['inputs', 'histories', 'fault_sequences'],
     'all changes of rows in the supported language, all schemas and rows, all histories of changes and restarts, with failing allocations and catalog lookups before',
     'Tests compare plans with expected trees for a few tables; what is written depends on the order of columns in statement, table and key, defaults, hidden columns, types and the data.',
     [D + 'analyze_statement.cpp', D + 'analyze_query_expression.cpp', D + 'analyze_scalar_expression.cpp'],
     [('INSERT, UPDATE, DELETE', D + 'analyze_statement.cpp'), ('sources of rows', D + 'analyze_query_expression.cpp')],
     TRUSTB + 'Oracle: a reference model which generates each statement together with its effect. Generated values may be given to new rows in any order; where a statement conflicts with itself the outcome is not compared.',
     SIM + 'a simulated database which executes the changes, with shuffled rows, restarts and failing calls, against a reference model')

prop('B14', 'Definitions of tables and indices mean exactly what they state',
     'Each CREATE, ALTER, DROP, TRUNCATE, GRANT and REVOKE yields a statement which defines exactly what its text says: columns with types, nullability, defaults, identity sequences and descriptions, keys with their order and direction, indices, new names, privileges; with IF EXISTS or IF NOT EXISTS nothing happens where it says so. '
     'It is refused exactly if it conflicts with the catalog as it is then or with itself, for this reason and at the place which conflicts. Rows of tables defined this way behave accordingly, also after restarts.',
     ['inputs', 'histories', 'fault_sequences'],
     'all histories of definitions, changes of rows and restarts, with failing allocations and catalog lookups',
     'Tests look at single definitions over a fixed catalog; what is stated interacts (constraints of columns and of the table, options, earlier definitions).',
     [D + 'analyze_statement.cpp', D + 'analyze_type.cpp', 'include/mizugaki/analyzer/sql_analyzer_options.h'],
     [('DDL statements', D + 'analyze_statement.cpp'), ('types', D + 'analyze_type.cpp')],
     TRUSTB + 'Oracle: a reference model of the definitions, applied beside the results; the catalog of later calls is built from what the results define.',
     SIM + 'a simulated database whose definitions change by the results, with restarts and failing calls, against a reference model')

prop('B15', 'An invalid statement is refused, for its reason and at its place',
     'A query or change of rows which is valid but for one error - a name which is missing, ambiguous, used twice or out of scope, wrong arguments or numbers of columns, a column which is not grouped, an aggregate where none can be, a literal, type or limit which is none - '
     'is answered by diagnostics which have the code of this error and whose regions lie in it, wherever in the statement it is, whatever the rest of the statement says and whatever was analysed before; and it is never accepted.',
     ['inputs', 'histories', 'fault_sequences'],
     'all statements with one error at any place, in all histories, with failing allocations and catalog lookups before',
     'Tests have one example of some of the errors, mostly at the top of a short statement, and seldom look at regions.',
     [D + 'analyze_name.cpp', D + 'analyze_query_expression.cpp', D + 'analyze_scalar_expression.cpp', D + 'analyze_statement.cpp', D + 'analyze_literal.cpp'],
     [('resolution of names', D + 'analyze_name.cpp'), ('queries', D + 'analyze_query_expression.cpp'), ('aggregates', D + 'set_function_processor.cpp')],
     TRUSTB + 'Oracle: the generator, which makes a valid statement and one error in it. Types of conditions are not judged: the compiler which takes the plan checks them.',
     SIM + 'histories of statements with one error over a changing simulated database, with failing calls')

prop('B16', 'Literals and data types mean exactly what they state',
     'Each literal - exact and approximate numbers of any sign, length and scale, strings and binary strings in one or more pieces, dates, times and timestamps with and without time zone, truth values, NULL - stands in the result for exactly the value its text states, with the data type which the options demand (smallest or common type, declared length and precision), converted to the type of the column it is for. '
     'Each data type stands for exactly the type which its name, length, precision and scale state, with the defaults and limits of the options. '
     'One which has no such meaning - too many digits, out of range, malformed, a length of zero, a scale above the precision - is refused with its reason at its place, and none other is. '
     'This does not depend on the locale of the process, on earlier calls or on options of earlier calls, or on calls which failed.',
     ['inputs', 'histories', 'fault_sequences'],
     'all literals and data types under all options, in all histories of calls, locales of the process and failing allocations',
     'Tests have a few literals of each kind with default options in the locale C; limits, options and conversions interact.',
     [D + 'analyze_literal.cpp', D + 'analyze_type.cpp', AI + 'sql_analyzer_options.h', 'src/mizugaki/parser/sql_driver.cpp'],
     [('literals', D + 'analyze_literal.cpp'), ('types', D + 'analyze_type.cpp'), ('signs and sizes', 'src/mizugaki/parser/sql_driver.cpp')],
     TRUSTB + 'Oracle: the generator, which makes each literal or type name from its value. Parsing of dates and times is that of the stand-in for takatori. The length of binary literals is always told: the unit tests fix it, though the option prefer_small_binary_literals says otherwise.',
     SIM + 'histories of statements with literals and types under simulated locales, leftover errno and failing allocations, against their generator')

prop('B17', 'A statement means the same however, and wherever in a text, it is written',
     'The result of an analysis - plan, statement or diagnostics - is the same, with each region at the same tokens, whatever blanks and comments (other than description comments) are between the tokens, whatever case the letters of keywords have, which other statements are before and behind the statement in the text, and how far from the beginning it is. '
     'Words which are synonyms (INT and INTEGER, VARCHAR and CHAR VARYING, <> and !=) or say what holds anyway (INNER, OUTER, ALL, UNION DISTINCT, WITHOUT TIME ZONE) change nothing but regions. '
     'Without comments nothing changes, and without the source text the result is the same but has no regions and no descriptions. '
     'This holds for each call of an analyzer, whatever calls with or without a source there were before, calls which ran out of memory included.',
     ['inputs', 'histories', 'fault_sequences'],
     'all statements in all ways of writing them, all histories of an analyzer, and failing allocations in them',
     'Tests analyse hand-made trees without places or texts in one layout with one statement each.',
     [AN + 'sql_analyzer.cpp', D + 'analyzer_context.cpp', D + 'analyze_statement.cpp', D + 'analyze_query_expression.cpp', D + 'analyze_scalar_expression.cpp', D + 'analyze_type.cpp'],
     [('source, comments and regions of a call', D + 'analyzer_context.cpp'), ('overloads with and without source', AN + 'sql_analyzer.cpp'), ('regions of results', D + 'analyzer_context.h')],
     TRUSTB + 'Oracle: the same tokens, separated by single blanks, analysed alone in a fresh process, with places named by tokens. Messages are compared for the same tokens only, as they may show the syntax tree.',
     SIM + 'histories of rewritten statements under failing allocations; metamorphic comparison with the plainest text in a fresh process')
