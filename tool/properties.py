"""The table properties.jsonl and MANIFEST.json are written from (see mkmanifest.py)."""
PROPS = []
NA = []
def prop(**k): PROPS.append(k)
def na(**k): NA.append(k)

NOTE = 'Decides the whole source tree the build compiles, over-approximating feasible paths; '

prop(id='C01', title='State shared between worker threads is only touched under its lock',
  statement='Everything that several threads use while tasks run (the task queue and its flags, the ordered-output buffers, the symbol tables, the shared best tuning result) is read and written only while the one lock that guards it is held. This holds for every interleaving and every entry point, including read-only and housekeeping calls.',
  over=['schedules'], forall='every access, on every path, in every function a worker or the submitting thread can reach',
  why='The tests run with a handful of threads and tiny queues, so a racy interleaving almost never happens in them, and a race that does happen is usually benign.',
  files=['src/lib/thread-pool.cc', 'src/include/travatar/thread-pool.h', 'src/lib/output-collector.cc', 'src/include/travatar/output-collector.h', 'src/include/travatar/symbol-set.h', 'src/lib/dict.cc', 'src/lib/tune-greedy-mert.cc'],
  state=[('queue and flags', 'tasks waiting, stop flags, running count', 'ThreadPool'), ('saved output', 'out-of-order output and next id', 'OutputCollector'), ('symbol table', 'word ids', 'SymbolSet')],
  mech=[('mutex_ / boost scoped_lock', 'thread-pool.cc, output-collector.cc'), ('shared_mutex', 'symbol-set.h'), ('result_mutex_', 'tune-greedy-mert.cc')],
  technique='lockset dataflow', note=NOTE + 'locks are identified by access path (class member), so two objects of one class are not told apart; construction and destruction are taken to be single-threaded.')

prop(id='C02', title='The thread pool runs every task exactly once and never loses a wake-up',
  statement='Every task handed to the pool is run exactly once, outside the pool\'s lock, and is deleted exactly when the pool owns it; stopping with "process remaining" and waiting both return only when no submitted task is still queued. No wait can miss its wake-up, workers end only once told to stop, and everything that submits tasks waits for them before returning.',
  over=['schedules', 'histories'], forall='every interleaving of submitters, workers and a stopper, every queue limit and thread count',
  why='The unit tests submit a few tasks to one pool configuration; lost wake-ups and lost tasks need a particular interleaving.',
  files=['src/lib/thread-pool.cc', 'src/lib/travatar-runner.cc', 'src/lib/rescorer-runner.cc', 'src/lib/tune-greedy-mert.cc', 'src/lib/batch-tune-runner.cc'],
  state=[('tasks_', 'tasks waiting', 'thread-pool.h'), ('stopped_/stopping_', 'stop protocol', 'thread-pool.h')],
  mech=[('condition variables', 'thread-pool.cc Run/Submit/Wait/Stop')],
  technique='path-sensitive typestate with inlining', note=NOTE + 'the pool\'s protocol is decided per method under the lock invariant; it is not a proof of liveness under an unfair scheduler.')

prop(id='C03', title='Parallel output is exactly the sequential output, record for record',
  statement='For every input line each tool that works in parallel hands the ordered writer exactly one record under that line\'s own number, numbers follow input order from zero without gaps, and the writer emits records strictly in that order whatever order they arrive in, sending main output and diagnostics to their own streams. Output is therefore independent of the number of threads and of scheduling, and one failing or skipped line never shifts or withholds the others.',
  over=['schedules', 'inputs'], forall='every arrival order of records, every path through every worker task and every submitting loop',
  why='Tests run one or two sentences on a single thread; reordering and early exits of a task never happen there.',
  files=['src/lib/output-collector.cc', 'src/lib/travatar-runner.cc', 'src/lib/rescorer-runner.cc', 'src/lib/tune-greedy-mert.cc', 'src/lib/tree-converter-runner.cc', 'src/lib/tokenizer-runner.cc'],
  state=[('saved output and next id', 'records that arrived early', 'OutputCollector'), ('sentence number', 'id of each task', 'TravatarRunner::Run, RescorerRunner::Run')],
  mech=[('OutputCollector::Write', 'output-collector.cc'), ('tasks\' Run', 'travatar-runner.cc, rescorer-runner.cc, tune-greedy-mert.cc')],
  technique='typestate over the writer and every producer\'s control-flow graph', note=NOTE + 'the order of the writer is decided from its own loop (which record it emits and how the next number advances), not from runs.')

prop(id='C04', title='Worker tasks never modify the models, tables and settings they share',
  statement='While worker tasks run, nothing they can reach that another task or the submitting thread can also reach is modified without a lock: models, rule and language-model tables, weights, tuning examples, settings, global and static variables stay as they were loaded. Modes in which a task does update the weights or the settings run on one thread only.',
  over=['schedules', 'configurations'], forall='every function a task can reach, for every concrete model, lookup table and tuner class that can be plugged in',
  why='Tests run one task at a time, so writing into shared state from a task goes unnoticed.',
  files=['src/lib/travatar-runner.cc', 'src/lib/rescorer-runner.cc', 'src/lib/tune-greedy-mert.cc', 'src/lib/tune-mert.cc', 'src/lib/tune-lbfgs.cc', 'src/lib/lookup-table.cc', 'src/lib/lm-composer-bu.cc', 'src/lib/lm-composer-incremental.cc'],
  state=[('models and tables', 'everything reachable from a runner, tuner or example set', 'TravatarRunner, Tune, TuningExample')],
  mech=[('task Run methods', 'travatar-runner.cc, rescorer-runner.cc, tune-greedy-mert.cc'), ('one-thread rule for online tuning', 'travatar-runner.cc Run')],
  technique='interprocedural may-modify analysis over access paths', note=NOTE + 'objects are told apart by access path; external libraries (KenLM, marisa, liblbfgs) are taken to honour their const interfaces.')

prop(id='C05', title='No self-deadlock, lock-order cycle, or unreleased lock',
  statement='No thread ever asks for a lock it already holds, no two locks are ever taken in opposite orders, no thread keeps a lock past the function that took it, and none blocks (joins threads, runs a task, waits on another lock\'s condition) while it holds a lock other threads need.',
  over=['schedules'], forall='every call path through every function that takes a lock, early exits and thrown errors included',
  why='Deadlocks need two threads at particular points, or an error path taken while a lock is held; the tests do neither.',
  files=['src/lib/thread-pool.cc', 'src/lib/output-collector.cc', 'src/include/travatar/symbol-set.h', 'src/lib/dict.cc', 'src/lib/tune-greedy-mert.cc'],
  mech=[('scoped locks', 'thread-pool.cc, output-collector.cc, symbol-set.h')],
  technique='lock-order and lock-balance analysis over the call graph', note=NOTE + 'locks are told apart by class member.')

prop(id='C12', title='No decision is made on a value nothing has set',
  statement='Every setting, counter, score and pointer an object carries has a definite value from the moment the object is constructed, whichever constructor made it, and every local number, flag or pointer is set on every path before it is read. Behaviour therefore never depends on leftover memory.',
  over=['inputs', 'configurations'], forall='every constructor, every path through every function',
  why='An unset value is usually zero in a fresh test process, so tests pass on it.',
  files=['src/include/travatar/', 'src/lib/'],
  mech=[('constructors', 'src/lib, src/include/travatar')],
  technique='definite-assignment dataflow', note=NOTE + 'scalar members and scalar locals; array elements are counted as set once any element is, and a member handed to a function by reference counts as set.')

prop(id='C19', title='Inputs taken for reading are never modified, at any depth',
  statement='Transforming, binarizing, trimming, extracting from, scoring or writing a tree, forest, alignment, n-best list or set of weights leaves the given object, and everything reachable from it, exactly as it was; the only exceptions are scores that are computed on demand and remembered. A result that needs different values is built on copies.',
  over=['inputs'], forall='every argument taken as read-only and every read-only operation, on every path and through any number of pointers',
  why='C++ const does not reach through pointers, and tests look at the result, seldom at the input afterwards.',
  files=['src/lib/binarizer-cky.cc', 'src/lib/binarizer-directional.cc', 'src/lib/trimmer-nbest.cc', 'src/lib/lm-composer-bu.cc', 'src/lib/lm-composer-incremental.cc', 'src/lib/forest-extractor.cc', 'src/lib/rule-composer.cc', 'src/lib/word-splitter.cc', 'src/lib/hyper-graph.cc', 'src/lib/lookup-table.cc'],
  state=[('hypergraph nodes and edges', 'reached through pointers from a const graph', 'HyperGraph')],
  mech=[('TransformGraph and other const methods', 'graph transformers, extractors, evaluators')],
  technique='interprocedural may-modify (deep const) analysis', note=NOTE + 'the remembered-on-demand values are listed in the check; objects a function copies first are its own.')

prop(id='C07', title='An unknown mode name is an error, and every documented mode works',
  statement='Wherever behaviour is chosen by name (formats, algorithms, evaluation measures, storage types, search strategies, case conversions, key=value settings), a name that is none of the known ones is reported as an error and never silently treated like some other mode. Every default and every alternative that an option\'s own help text lists is a name the code accepts, and no enumerated mode falls through a dispatch unhandled.',
  over=['configurations', 'inputs'], forall='every value that is compared with names, on every path that compares it; every option and every documented alternative; every switch over a mode',
  why='Tests use the right names; a misspelt option that quietly selects a default changes results without a sign.',
  files=['src/lib/', 'src/include/travatar/config-travatar-runner.h', 'src/lib/eval-measure.cc', 'src/lib/caser.cc', 'src/lib/lm-func.cc'],
  mech=[('chains of comparisons ending in THROW_ERROR', 'runners and CreateFromString functions'), ('option tables', 'config-*.h')],
  technique='control-flow walk under assumed disequalities', note=NOTE + 'only names that appear as literals in the code; file names and free text are told apart from modes by what they are used for.')

prop(id='C08', title='A file that cannot be opened is always reported as an error',
  statement='Every input or output file any tool opens is checked before it is first read or written, and a file that could not be opened ends that operation in an error; it is never treated as an empty file or as a place where output may vanish. This holds for every file an option can name, including lists of files and optional ones.',
  over=['fault_sequences', 'configurations'], forall='every file stream any function opens, through every variable, container and helper it passes',
  why='Every file the tests name exists; a missing file silently read as empty yields a plausible but wrong result.',
  files=['src/lib/', 'src/lib/input-file-stream.cc', 'src/lib/travatar-runner.cc', 'src/lib/batch-tune-runner.cc', 'src/lib/mt-segmenter-runner.cc', 'src/lib/tree-converter-runner.cc'],
  mech=[('if(!stream) THROW_ERROR', 'runners and model readers')],
  technique='typestate', note=NOTE + 'what a stream reports is trusted; faults after a successful open (disk full) are not covered.')

prop(id='C09', title='Parallel input files are read in step, and a length mismatch is an error',
  statement='Wherever records of several files belong together line by line (sources and references, trees and alignments, n-best lists and features), one file that ends before another is reported as an error; no loop pairs a record with nothing, drops the rest of a longer file, or goes on with the record of an earlier line. Text is used only when the read that should have produced it succeeded.',
  over=['inputs'], forall='every loop that reads two or more inputs and every combination of read outcomes; every single line that is read',
  why='Tests use files of equal length; one missing line elsewhere would silently shift every later pair.',
  files=['src/lib/forest-extractor-runner.cc', 'src/lib/batch-tune-runner.cc', 'src/lib/mt-evaluator-runner.cc', 'src/lib/travatar-runner.cc', 'src/lib/tree-converter-runner.cc', 'src/lib/rescorer-runner.cc', 'src/lib/tokenizer-runner.cc'],
  mech=[('read loops', 'runners')],
  technique='finite abstract interpretation', note=NOTE + 'reads are modelled by success or failure only; the contents of records are not.')

prop(id='C21', title='The debugging level changes diagnostics, never results',
  statement='Raising or lowering the debugging level, or building without assertions, changes only what is written to the diagnostic stream: no model, graph, score, weight, counter or record is altered or skipped, no error appears or disappears, and the main output is the same at every level.',
  over=['configurations'], forall='every branch decided, directly or through other values, by the debugging level, and every asserted condition',
  why='Tests run at one level; a computation placed inside a diagnostic branch or an assertion works in them and vanishes elsewhere.',
  files=['src/include/travatar/global-debug.h', 'src/lib/'],
  state=[('GlobalVars::debug', 'level', 'global-debug.h')],
  mech=[('PRINT_DEBUG and branches on the level', 'throughout src/lib')],
  technique='taint and control-dependence analysis with may-modify effects', note=NOTE + 'values remembered on demand and interning of symbols are allowed in diagnostic branches.')

prop(id='C10', title='Errors are never swallowed, and cut-off input is not taken for its end',
  statement='An error that is raised anywhere ends the run with a failing status and its message, or, where a defined fallback exists, its message is printed and the fallback value put in place; it is never caught and dropped, and nothing gives up with a status of success. A value whose reading failed is never used, and input that ends in the middle of a nested record is an error rather than the end of the input.',
  over=['inputs', 'fault_sequences'], forall='every handler of an exception, every exit, every extraction from a stream and every reader of nested records, on every path',
  why='Tests feed well-formed input; a swallowed error shows only as output that is silently shorter or wrong.',
  files=['src/lib/tree-io.cc', 'src/lib/forest-extractor-runner.cc', 'src/lib/tree-converter-runner.cc', 'src/lib/hiero-extractor.cc', 'src/lib/tuning-example-forest.cc', 'src/lib/config-base.cc', 'src/bin/'],
  mech=[('exception handlers', 'runners and extractors'), ('THROW_ERROR', 'global-debug.h'), ('tree readers', 'tree-io.cc')],
  technique='dataflow over handlers, exits and extractions', note=NOTE + 'errors a library reports only through ignored return values are not modelled.')

prop(id='C23', title='Combined evaluation measures apply every operation to every part',
  statement='A measure or statistic that combines several others carries out every operation of the common interface (preparing, clearing, adding, scaling, comparing, reading, writing, scoring) on each of its parts exactly once, with the same arguments and coefficients in their places; elementwise operations on statistics cover all elements and pair like with like. Nothing that looks like an implementation of an interface operation is bypassed because its signature differs.',
  over=['configurations', 'inputs'], forall='every operation of every interface, for every class that implements it and every number of parts',
  why='Tests combine two simple measures and call two or three operations; an operation that silently does nothing, or skips a part, is not among them.',
  files=['src/lib/eval-measure-interp.cc', 'src/lib/eval-measure-adv-interp.cc', 'src/lib/eval-measure.cc', 'src/include/travatar/eval-measure.h', 'src/include/travatar/eval-measure-interp.h', 'src/include/travatar/eval-measure-adv-interp.h'],
  state=[('stats_, measures_', 'parts of a combination', 'EvalStatsInterp, EvalMeasureInterp, EvalStatsAdvInterp, EvalMeasureAdvInterp')],
  mech=[('virtual interface', 'eval-measure.h'), ('loops over the parts', 'eval-measure-interp.cc, eval-measure-adv-interp.cc')],
  technique='class-hierarchy queries and loop-coverage analysis', note=NOTE + 'loops of a shape the analysis does not know are counted as undecided and not reported.')


prop(id='C17', title='Copies of graphs, statistics and symbol tables are complete and independent',
  statement='Copying a hypergraph, appending one to another, copying a symbol table or cloning evaluation statistics gives an object of the same kind in which every attribute (the words, the edge type, scores, smoothing and flags) has the original\'s value. Nothing in the copy points into the original: nodes, edges and parts are copied one by one, and every node-to-edge and edge-to-node link in every copied element leads to the element of the copy. Objects that free what they hold are never duplicated without being given such a copy.',
  over=['inputs', 'histories'], forall='every copy constructor, clone function and place that copies graph elements; every attribute, every kind of original and every number of elements',
  why='A shared part or a lost flag shows only when original and copy are later used differently, or when the original is gone; tests compare a fresh copy of a small graph.',
  files=['src/lib/hyper-graph.cc', 'src/include/travatar/hyper-graph.h', 'src/include/travatar/symbol-set.h', 'src/lib/trimmer.cc', 'src/lib/binarizer-cky.cc', 'src/lib/lm-composer-incremental.cc', 'src/include/travatar/eval-measure-bleu.h', 'src/lib/eval-measure-interp.cc'],
  state=[('nodes_, edges_, words_, edge_type_', 'graph', 'hyper-graph.h'), ('vals_ and options', 'evaluation statistics', 'eval-measure*.h'), ('map_, vocab_', 'symbol table', 'symbol-set.h')],
  mech=[('copy constructor, Append, RefreshPointers', 'hyper-graph.cc'), ('Clone', 'eval-measure*.h/.cc')],
  technique='field-flow dataflow from original to copy', note=NOTE + 'that the ids used to find the copied element equal its position is taken as given; offsets in Append are not computed.')

prop(id='C18', title='Orderings are consistent; equality is symmetric and compares everything',
  statement='Every ordering used for sorting, priority queues and sorted sets is a consistent order: nothing comes before itself, of two objects at most one comes before the other, and it is transitive; where it is by score, the better score comes first. Equality of edges, nodes, paths, rules, vectors and statistics gives the same answer with its arguments exchanged, looks at every attribute that makes up the value and at every element of containers of equal size, and inequality is its exact negation.',
  over=['inputs'], forall='every ordering and every equality test, for all values of what they compare (ties, empty containers and different sizes included)',
  why='Sorting with an inconsistent order misbehaves only for particular ties, and an equality test that looks at too little makes the very tests that use it pass.',
  files=['src/lib/hyper-graph.cc', 'src/include/travatar/hyper-graph.h', 'src/lib/lookup-table.cc', 'src/lib/lm-composer-bu.cc', 'src/lib/lookup-table-cfglm.cc', 'src/lib/mert-geometry.cc', 'src/lib/sparse-map.cc', 'src/include/travatar/cfg-data.h', 'src/include/travatar/rescorer-runner.h', 'src/lib/eval-measure.cc'],
  mech=[('comparison functors and operator<', 'hyper-graph.h, lookup-table.cc, mert-geometry.cc, rescorer-runner.h, cfg-data.h'), ('operator==, Equals', 'hyper-graph.cc, sparse-map.cc, eval-measure*.cc, translation-rule*.h')],
  technique='abstract interpretation over signs; canonical-term comparison', note=NOTE + 'scores are taken to be ordinary numbers (no NaN); tolerances make equality symmetric but not transitive.')
prop(id='C26', title='Results do not depend on memory addresses or the clock',
  statement='Whenever the same program is run again on the same input with the same options (and one thread), its results are the same: nothing is sorted, selected, hashed or printed by the address it happens to have in memory, and no value read from the clock or from a process or thread number takes part in a result. The only exception is a random seed taken from the clock where the user asks for that; the seed is set before anything random is drawn and before any worker starts.',
  over=['inputs', 'histories'], forall='every ordering, container, comparison, printed value and clock reading in the library and the tools, and every path from the start of a program to its first random draw',
  why='Address order changes with the allocator, the build and the machine, and a tie is needed before it shows; a test that runs once can not see that a second run differs.',
  files=['src/lib/rule-composer.cc', 'src/lib/tuning-example-nbest.cc', 'src/lib/batch-tune-runner.cc', 'src/lib/weights-online-pro.cc', 'src/lib/tune-mert.cc', 'src/lib/tune-online.cc', 'src/lib/mt-evaluator-runner.cc', 'src/lib/timer.cc', 'src/lib/hyper-graph.cc', 'src/include/travatar/hyper-graph.h', 'src/lib/lookup-table.cc', 'src/lib/lm-composer-bu.cc'],
  mech=[('random seed', 'batch-tune-runner.cc, weights-online-pro.cc'), ('sorting and priority queues', 'rule-composer.cc, tuning-example-nbest.cc, hyper-graph.cc, lookup-table.cc'), ('timers', 'timer.cc')],
  technique='type-directed queries, taint analysis of clock values, forward dataflow for seeding', note=NOTE + 'with several tuning threads the draws of one shared generator are handed out in an order that depends on scheduling; that is not part of this property. Reading uninitialised memory is C12.')

prop(id='C27', title="A nonterminal's number means the same child everywhere",
  statement='Nonterminal number k in the target words of a rule always stands for child k of the edge: it is written and read back in the same way everywhere, is told apart from words by the same test, and translations, language model states and spans are looked up for exactly that child. The children of an edge that is built, copied, composed, binarized or found by a search are in the order of the rule\'s nonterminals, never backwards, in the order of the target words or with some left out. When two rules are composed, the words of every factor are renumbered so that each nonterminal still stands for the same child.',
  over=['inputs', 'configurations'], forall='every rule with any number of nonterminals in any target order, every factor, and every place that stores, reads, copies or renumbers them',
  why='Rules with one or two nonterminals in order hide most mistakes; exchanged children give fluent output with the wrong content.',
  files=['src/lib/hyper-graph.cc', 'src/lib/lm-func.cc', 'src/lib/lm-composer-bu.cc', 'src/lib/lm-composer-incremental.cc', 'src/lib/rule-composer.cc', 'src/lib/lookup-table.cc', 'src/lib/lookup-table-cfglm.cc', 'src/lib/rule-fsm.cc', 'src/lib/dict.cc', 'src/lib/trimmer.cc', 'src/lib/hiero-extractor.cc', 'src/lib/forest-extractor.cc'],
  state=[('tails_', 'children of an edge, in the order of its nonterminals', 'hyper-graph.h'), ('words', 'target words; below zero for nonterminals', 'cfg-data.h')],
  mech=[('translation of a path', 'hyper-graph.cc CalcTranslation'), ('language model states', 'lm-func.cc CalcNontermScore'), ('composition', 'rule-composer.cc ComposeEdge'), ('incremental search', 'lm-composer-incremental.cc Complete')],
  technique='linear index forms, order-of-filling dataflow through callers, abstract evaluation of the renumbering', note=NOTE + 'containers whose order of filling cannot be told (counted in the evidence) are not reported; that a rule\'s own source and target numbering is right when it is extracted is not covered.')

prop(id='C06', title='Every option of every program has its effect',
  statement='Every option a program declares in its help is read, its value reaches the part of the program the option is named after (not that of another option, and not replaced on the way), and is read as the kind of value it is: real numbers are not cut to whole ones, and text that only begins with a number is refused. No program asks for an option it does not declare, whose default its reader would refuse, or for more arguments than it requires. What is given on the command line takes precedence over the configuration file.',
  over=['configurations'], forall='every option of every program, every place that reads one, and every start of a program',
  why='There are about a hundred options; tests set a handful of members directly and never start the programs with most of them. An option without effect makes experiments silently wrong.',
  files=['src/include/travatar/config-base.h', 'src/lib/config-base.cc', 'src/include/travatar/config-travatar-runner.h', 'src/include/travatar/config-batch-tune.h', 'src/include/travatar/config-forest-extractor-runner.h', 'src/include/travatar/config-tree-converter-runner.h', 'src/include/travatar/config-rescorer-runner.h', 'src/lib/travatar-runner.cc', 'src/lib/batch-tune-runner.cc', 'src/lib/forest-extractor-runner.cc', 'src/lib/tree-converter-runner.cc', 'src/lib/rescorer-runner.cc', 'src/bin/travatar.cc'],
  state=[('optArgs_', 'options and their values', 'ConfigBase')],
  mech=[('declaration of options', 'config-*.h'), ('readers of options', 'config-base.cc'), ('use of options', '*-runner.cc'), ('loading', 'src/bin/*.cc')],
  technique='interprocedural value-flow liveness and name-consistency queries; forward dataflow over program starts', note=NOTE + 'an option counts as having its effect when one of its reads reaches a use; that the use does what the help says is not decided. Two declared options of travatar that nothing reads are recorded as findings.')

prop(id='C14', title='What was looked up and not found is never used',
  statement='Wherever a table, a map or a text is searched, and wherever an operation may come back with nothing (no rule matches, a line holds no tree, an unknown name), the answer is used only after it has been established that there is one. An absent answer is never read, changed, put into a collection or passed to something that reads it, and no place inside a text is computed from a position that was not found.',
  over=['inputs', 'configurations'], forall='every search and every operation that may come back with nothing, on every path that leads from it to a use',
  why='Tests look up what is there; a missing answer needs an input with an unknown word, an empty line or a table entry without rules, and then reads memory that means nothing.',
  files=['src/lib/lookup-table.cc', 'src/lib/lookup-table-hash.cc', 'src/lib/lookup-table-marisa.cc', 'src/lib/lookup-table-cfglm.cc', 'src/lib/lookup-table-fsm.cc', 'src/lib/rule-fsm.cc', 'src/lib/tree-io.cc', 'src/lib/forest-extractor-runner.cc', 'src/lib/forest-extractor.cc', 'src/lib/caser.cc', 'src/lib/binarizer.cc', 'src/lib/config-base.cc', 'src/lib/eval-measure-nist.cc', 'src/lib/eval-measure-loader.cc', 'src/lib/lm-composer.cc', 'src/lib/trimmer.cc', 'src/lib/tune.cc', 'src/lib/mt-segmenter-runner.cc'],
  mech=[('searches', 'find, lower_bound and the like throughout src/lib'), ('functions that may return nothing', 'FindRules, Match*, ReadTree, Create*FromString, FindChildNode')],
  technique='typestate dataflow with interprocedural null summaries', note=NOTE + 'the results of checked casts, of map[key] and of nothing-or-value members are not followed.')

prop(id='C13', title='Nothing is used after it has been freed, erased or moved',
  statement='A reference, pointer or iterator to something kept in a container is not used after an operation that may have moved or removed it, and a container is not changed in such a way while a loop goes over it, also when the change happens inside a function that is called. An object is not used after it was deleted, and no reference or pointer to a local or temporary object is used after that object has ended.',
  over=['inputs', 'histories'], forall='every path through every function, whatever the sizes of the containers and whatever the memory holds after it is freed',
  why='Freed memory mostly keeps its contents and containers mostly have room left, so tests pass; whether a loop survives a change of its container depends on sizes, hash tables and the allocator.',
  files=['src/lib/weights-perceptron.cc', 'src/lib/weights-average-perceptron.cc', 'src/lib/lookup-table.cc', 'src/lib/lookup-table-fsm.cc', 'src/lib/lm-composer-bu.cc', 'src/lib/lookup-table-cfglm.cc', 'src/lib/forest-extractor.cc', 'src/lib/hyper-graph.cc', 'src/lib/word-splitter.cc', 'src/lib/thread-pool.cc'],
  state=[('current_', 'the weights that are gone through', 'WeightsPerceptron'), ('nodes_', 'nodes of a graph', 'HyperGraph'), ('tasks_', 'waiting tasks', 'ThreadPool')],
  mech=[('erasing', 'GetCurrent, TransformGraph'), ('queues', 'BuildChartCubePruning, CubePrune, ExtractMinimalRules'), ('deleting', 'ThreadPool::Run, HieroExtractor::ExtractHieroRule')],
  technique='typestate dataflow over places in containers, freed objects and temporaries, with what called functions change and free computed over the call graph', note=NOTE + 'elements are told apart by the text of their index; a place that is kept in an attribute, or an object that several pointers lead to, is not followed.')

prop(id='C20', title='Language models are used as what they are and count under their own names',
  statement='A language model of any storage format is scored and freed as exactly the kind of model it was created as, in every search method. With any number of models and target factors, each model sees the words of its own factor through its own vocabulary and goes on from its own states; its probability counts with its own weight under its own feature, and its unknown words with its own unknown-word weight under its own unknown-word feature. The weights are taken from the features of those names, and the options in a model\'s description apply to that model and to what they name.',
  over=['inputs', 'configurations'], forall='every combination of language model formats, numbers of models, factors, feature names, weights and input forests',
  why='Tests use one small model of one format with one factor; a mix-up shows only with a second model, another format or unknown words, as slightly wrong scores or a crash at exit.',
  files=['src/lib/lm-func.cc', 'src/lib/lm-composer.cc', 'src/lib/lm-composer-bu.cc', 'src/lib/lm-composer-incremental.cc', 'src/lib/lookup-table-cfglm.cc', 'src/lib/word-splitter-compound.cc', 'src/include/travatar/lm-func.h', 'src/include/travatar/lm-composer-bu.h', 'src/include/travatar/lm-composer-incremental.h'],
  state=[('lm_', 'the model', 'LMData'), ('type_', 'its kind', 'LMData'), ('funcs_', 'scoring functions, one per model', 'LMComposerBU, LookupTableCFGLM')],
  mech=[('kinds', 'LMData constructor and destructor, LMFunc::CreateFromType, TransformGraph, StringSplit'), ('scoring', 'LMFuncTemplate, ScoreRule'), ('counting', 'BuildChartCubePruning, CubePrune, Forest::Complete'), ('weights', 'LMComposer::UpdateWeights')],
  technique='dataflow over tests of the kind; role analysis (which quantity, of which model) through variables, attributes and calls in every calling context', note=NOTE + 'models told apart only by iterators are not told apart here; scores that are handed on in a way that is not followed are counted and raise no alarm.')

prop(id='C22', title='Feature vectors add, subtract and multiply as vectors do',
  statement='Whether kept as a sorted sequence or as a map, and also mixed, a feature vector acts as a function from features to numbers that is zero where nothing is stored: sums, differences, products with a number and inner products have, for every feature, exactly the value that arithmetic gives, on the spot as well as into a new vector. Adding one value changes that feature alone; a vector made from pairs adds up the values of a feature that comes several times; turning it into a map loses nothing. A sorted sequence always stays sorted, with every feature once, and is changed by nobody but these operations.',
  over=['inputs', 'histories'], forall='every pair of vectors, with any features below, between and above each other, and any sequence of operations',
  why='Model scores, weight updates and every tuner rest on these few functions; tests try a handful of vectors, and a mistake for one arrangement of features only shows as weights that are slightly off.',
  files=['src/lib/sparse-map.cc', 'src/include/travatar/sparse-map.h', 'src/include/travatar/weights.h', 'src/lib/weights-perceptron.cc', 'src/lib/weights-adagrad.cc'],
  state=[('impl_', 'sorted pairs of feature and value', 'SparseVector')],
  mech=[('arithmetic', 'operators in sparse-map.cc'), ('single values', 'SparseVector::Add'), ('putting pairs in order', 'SparseVector constructor')],
  technique='abstract interpretation seen from one arbitrary key, with polynomial values', note=NOTE + 'rounding is not covered, nor an operation whose two arguments are the same object; operations written in a way the interpreter does not cover are counted as undecided and raise no alarm.')

prop(id='C28', title='Evaluation statistics add, scale and compare element by element',
  statement='For statistics of any lengths, adding gives the sum of each pair of elements (a missing element counts as nothing), adding a multiple gives the sum with that multiple, and scaling multiplies every element, on the spot as well as into new statistics. Statistics are called empty exactly when every element is zero, whatever the signs, and equal exactly when no element differs noticeably in either direction. Statistics put together from parts do the same to every part.',
  over=['inputs'], forall='every pair of statistics of any lengths and values, and every factor',
  why='Corpus scores, tuning and bootstrap tests all accumulate sentence statistics through these few operations; tests add statistics of the same length with positive values only.',
  files=['src/include/travatar/eval-measure.h', 'src/lib/eval-measure.cc', 'src/lib/eval-measure-interp.cc', 'src/lib/eval-measure-adv-interp.cc'],
  state=[('vals_', 'the elements', 'EvalStats'), ('stats_', 'the parts', 'EvalStatsInterp, EvalStatsAdvInterp')],
  mech=[('arithmetic', 'PlusEquals, PlusEqualsTimes, TimesEquals, Plus, Times'), ('tests', 'IsZero, Equals')],
  technique='abstract interpretation seen from one arbitrary index, with polynomial values', note=NOTE + 'rounding is not covered; operations written in a way the interpreter does not cover are counted as undecided and raise no alarm.')

# ---- properties that this family of technique does not decide ---------------------------------------------------------
na(id='N01', title='The best derivation under the model is found when nothing is pruned',
   statement='With no pruning and no limits, the translation that is printed first is one of the highest-scoring derivations of the forest under the rule table, language models and weights; later n-best entries follow in order of score.',
   over=['inputs'], forall='every forest, rule table, language model and weight vector', why='A test compares a few small forests; optimality is about all of them.',
   files=['src/lib/hyper-graph.cc', 'src/lib/lm-composer-bu.cc', 'src/lib/lm-composer-incremental.cc'], mech=[('k-best extraction', 'hyper-graph.cc')],
   reason='Optimality of a search over runtime forests and scores: what is found depends on the values of the scores, which no static argument in reach bounds. The consistency of the orderings the search uses (C18) and of the children it combines (C27) is decided.')
na(id='N02', title='Evaluation measures have the values their definitions give',
   statement='BLEU, RIBES, TER, NIST, word error rate and their relatives give, for every output and reference, the value the published definition gives.',
   over=['inputs'], forall='every pair of output and reference', why='Tests check a few sentence pairs.',
   files=['src/lib/eval-measure-bleu.cc', 'src/lib/eval-measure-ribes.cc', 'src/lib/eval-measure-nist.cc', 'src/lib/eval-measure-ter.cc'], mech=[('CalculateStats / ConvertToScore', 'eval-measure-*.cc')],
   reason='Numeric results of counting and dynamic programming over arbitrary sentences; a static check could only restate the code. The algebra of the statistics (C28) and their combination (C23) is decided.')
na(id='N03', title='Tuning does not end with worse weights than it began with',
   statement='Each tuning algorithm returns weights whose score on the tuning data is no lower than that of the weights it started from, and line search finds the best point of its line.',
   over=['inputs', 'histories'], forall='every set of n-best lists or forests', why='Tests tune on two or three examples.',
   files=['src/lib/tune-mert.cc', 'src/lib/tune-lbfgs.cc', 'src/lib/tune-online.cc', 'src/lib/mert-geometry.cc'], mech=[('line search', 'tune-mert.cc'), ('L-BFGS', 'liblbfgs')],
   reason='Numerical optimisation: convergence and the value reached depend on floating-point runtime data.')
na(id='N04', title='Extracted rules are consistent with the word alignment and minimal',
   statement='Every rule that is extracted covers source and target spans that are closed under the alignment, and the minimal rules of a derivation put together give the sentence pair back.',
   over=['inputs'], forall='every tree, target sentence and alignment', why='Tests use a handful of trees.',
   files=['src/lib/forest-extractor.cc', 'src/lib/hiero-extractor.cc'], mech=[('span and frontier computation', 'forest-extractor.cc')],
   reason='A relation between sets of runtime positions computed by recursion over the tree; needs a functional proof of the algorithm, not a dataflow fact.')
na(id='N05', title='Every derivation the grammar allows is in the forest that is built',
   statement='Matching a rule table against a tree, or parsing with it, yields exactly the rule applications whose source side matches: none missing, none added.',
   over=['inputs'], forall='every input and rule table', why='Tests use small tables.',
   files=['src/lib/lookup-table-hash.cc', 'src/lib/lookup-table-cfglm.cc'], mech=[('chart parsing and tree matching', 'lookup-table-*.cc')],
   reason='Completeness of chart parsing over runtime grammars needs an inductive proof about the chart; static rules in reach decide only local parts (C14, C27).')
na(id='N06', title='Tokenizing, casing and splitting give the intended words',
   statement='The tokenizer separates words as its rules describe, the caser changes exactly the intended words, and compound splitting chooses the best-scoring parts.',
   over=['inputs'], forall='every line of text', why='Tests have a few lines per mode.',
   files=['src/lib/tokenizer-penn.cc', 'src/lib/caser.cc', 'src/lib/word-splitter-compound.cc'], mech=[('regular expressions', 'tokenizer-penn.cc')],
   reason='The behaviour is that of regular expressions and character classes on arbitrary text; there is no specification other than the expressions themselves.')
na(id='N07', title='What is written can be read back unchanged',
   statement='A tree, forest, n-best list, weight vector or set of statistics that a tool writes and another reads in the same format comes back with the same value.',
   over=['inputs'], forall='every value that can be written', why='Tests write and read a few objects per format.',
   files=['src/lib/tree-io.cc', 'src/lib/dict.cc', 'src/lib/eval-measure-bleu.cc'], mech=[('ReadTree / WriteTree', 'tree-io.cc')],
   reason='Holds only for values without the separators of the text formats and up to the printing precision of numbers, both runtime quantities. What can be decided of it (records cut off, fields missing) is in C10.')
na(id='N08', title='Incremental and bottom-up search agree with the language model score',
   statement='The language model score a search adds up along a derivation is the score the language model gives to the finished sentence.',
   over=['inputs'], forall='every derivation and language model', why='Tests compare single sentences.',
   files=['src/lib/lm-composer-bu.cc', 'src/lib/lm-composer-incremental.cc', 'src/kenlm/lm'], mech=[('chart states', 'lm-composer-*.cc')],
   reason='An equality of floating-point sums over runtime n-gram tables, computed by the KenLM library with state minimisation.')
na(id='N09', title='Every run ends',
   statement='Every tool ends on every finite input: fixed-point loops, search queues and tuning iterations stop.',
   over=['inputs'], forall='every finite input and every setting', why='Tests only show that small inputs end.',
   files=['src/lib/tune-mert.cc', 'src/lib/lookup-table-cfglm.cc', 'src/lib/rule-composer.cc'], mech=[('convergence thresholds', 'tune-mert.cc')],
   reason='Several loops run until a numeric gain falls below a threshold; that this happens depends on floating-point runtime values.')
