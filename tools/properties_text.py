E = 'src/SearchEngine.cpp'
p('E01', 'Every reported plan is a correct solution',
  'Whenever the planner prints a plan, the printed primitive actions are executable one after the other from the initial state and reach every goal, and the printed decompositions derive exactly these actions from the initial task, respecting every ordering constraint. The printed cost and length are those of the printed plan.',
  ['inputs', 'configurations', 'schedules'], 'All ground problems, all search strategies, heuristics, weights and pruning options, all heap layouts, clocks, random streams and input chunkings.', NOTESTS,
  ['src/search/PriorityQueueSearch.h', 'src/ProgressionNetwork.cpp', 'src/Model.cpp', 'src/VisitedList.cpp', E],
  [('progression of task networks', 'src/Model.cpp: decompose, apply'), ('plan extraction from the search tree', 'src/ProgressionNetwork.cpp: extract2Plan*')], observe=['standard output between ==> and <==', 'exit status'])
p('E02', 'Verdicts are right: solved iff solvable, time-out only after the limit',
  'If the planner says that a problem is unsolvable then it has no solution, if it says it is solved then it has one, and it reports a time-out only if the time limit has really passed. It always ends with exactly one such verdict, whatever pruning is switched on.',
  ['inputs', 'configurations', 'schedules'], 'All ground problems, all search configurations whose pruning is documented as complete, all heap layouts, clocks, random streams and input chunkings.', NOTESTS,
  ['src/search/PriorityQueueSearch.h', 'src/VisitedList.cpp', 'src/heuristics/rcHeuristics', 'src/Model.cpp', E],
  [('duplicate detection of search nodes', 'src/VisitedList.cpp: insertVisi'), ('dead-end detection by heuristics', 'src/heuristics/rcHeuristics/hhRC2.h'), ('pre-processing', 'src/Model.cpp')], observe=['the Status line'])
p('E03', 'Optimal search configurations return cost-optimal plans',
  'With an admissible heuristic and a search ordered by action costs, by plan length including decompositions, or by both, the first plan reported is minimal in that measure among all solutions of the problem; with a weight w on the heuristic it is at most w times the minimum.',
  ['inputs', 'configurations', 'schedules'], 'All ground problems, all admissible configurations (three measures, weights from one to four), all tie-breakings by heap layout, random stream and clock.', NOTESTS,
  ['src/search/PriorityQueueSearch.h', 'src/heuristics/landmarks', 'src/heuristics/rcHeuristics', 'src/VisitedList.cpp'],
  [('re-opening of visited nodes on cheaper paths', 'src/VisitedList.cpp: insertVisi'), ('admissible estimates', 'src/heuristics/rcHeuristics/hhRC2.h; src/heuristics/rcHeuristics/hsLmCut.cpp')], observe=['standard output'])
p('E05', 'Same problem, options and seed: same result in every environment',
  'Two runs with the same problem, options and random seed print the same verdict, plan and search statistics, whatever the heap addresses, the content of uninitialised memory, the speed and jumps of the clock and the sizes in which the input arrives.',
  ['inputs', 'configurations', 'schedules'], 'All ground problems and configurations, and all pairs of environments.', NOTESTS,
  ['src/search', 'src/translation', 'src/symbolic_search', 'src/VisitedList.cpp', E], [('initialisation of all data before use', 'src'), ('seeded random numbers', 'src/SearchEngine.cpp')], observe=['standard output without timings', 'exit status'])
p('E06', 'A planner with a time limit ends soon after the limit',
  'Progression search that is given a time limit ends and says so once the limit has passed on the clock: after that it generates at most a few thousand further search nodes, however fast or unevenly the clock advances. Preprocessing of a problem always ends, also if the problem has no finite decomposition.',
  ['inputs', 'configurations', 'schedules', 'faults'], 'All ground problems, also those with infinite search spaces, all progression configurations, all clock speeds and forward jumps.', NOTESTS,
  ['src/search/PriorityQueueSearch.h', 'src/Model.cpp', E], [('check of the limit during search', 'src/search/PriorityQueueSearch.h: checkAfter'), ('minimal implied costs and distances', 'src/Model.cpp: calcMinimalImpliedX'), ('minimal progression bound', 'src/translation/htnToSAS.cpp: calcMinimalProgressionBound')], observe=['standard output', 'exit status'])
p('E07', 'Running out of memory never leads to a wrong answer',
  'Whenever memory runs out, at any allocation and in any planning algorithm, the planner either goes on correctly or ends without success. It never prints a wrong plan, a wrong verdict or a wrong cost, never ends with exit status 0 but without a result, and never hangs.',
  ['inputs', 'configurations', 'crash points', 'faults'], 'All ground problems, all planning algorithms, every allocation as the one that fails (once, several times or from then on), all memory caps and all memory limits of the decision-diagram library.', NOTESTS,
  ['src', 'src/symbolic_search/cudd-3.0.0/cudd'], [('failures inside the decision-diagram library', 'src/symbolic_search/cudd-3.0.0/cplusplus/cuddObj.cc: checkReturnValue'), ('use of decision diagrams', 'src/symbolic_search')], observe=['standard output', 'exit status'])
p('E08', 'An incomplete problem file is never planned for',
  'If the problem file ends early, at whatever byte, or cannot be read to its end, the planner ends promptly with a nonzero exit status. It prints no plan, no verdict and no export for such a file, and it neither crashes nor reads on for ever.',
  ['inputs', 'crash points', 'faults'], 'All ground problems, every proper prefix of their files, read errors at every call, from a file or from standard input, all planning algorithms.', NOTESTS,
  ['src/Model.cpp', E], [('reading the problem', 'src/Model.cpp: read, readClassical, readHierarchical'), ('reading lists', 'src/Model.cpp: readIntList, readConditionalIntList')], observe=['exit status', 'standard output'])
p('E09', 'Planning by translation returns correct plans and misses none',
  'When an external classical planner that does its job is used, the hierarchical plan that is reported is a correct solution of the input problem, and the planner does not give up on a solvable problem. The files it hands to the classical planner are always well-formed: the mutex groups they declare hold, and with real costs a classical plan costs what the hierarchical plan made from it costs.',
  ['inputs', 'configurations', 'schedules'], 'All ground problems, all translations and bounds, all plans the classical planner may return, under either plan file name and with stale plan files around.', NOTESTS,
  ['src/translation', E], [('bound computation and iteration', 'src/translation/translationController.cpp'), ('encodings', 'src/translation/htnToStrips*.cpp, htnModel.cpp'), ('plan extraction', 'src/translation/translationController.cpp: planToHddl')], observe=['standard output', 'the files handed to the classical planner'])
p('E10', 'A failing classical planner never makes the translation planner lie',
  'Whatever the external classical planner does (it crashes, is killed, is not installed, returns any exit status, leaves no plan, an empty plan or a plan that is cut off, or old plan files lie around), planning by translation does not crash, and every plan it prints is a correct solution of the input problem. It ends with exit status 0 only after it has printed such a plan.',
  ['inputs', 'configurations', 'crash points', 'faults'], 'All ground problems, all translations, all launches of the classical planner as the one that fails, all ways to fail listed above.', NOTESTS,
  ['src/translation', E], [('iteration and plan files', 'src/translation/translationController.cpp: runTranslationPlanner, runFD'), ('plan extraction', 'src/translation/htnToSAS.cpp: planToHddl')], observe=['standard output', 'exit status'])
p('E11', 'SAT-based planning returns correct plans for every model of the solver',
  'Whatever satisfying assignments the SAT solver returns for the formulas it is given, every plan that SAT-based planning prints (also while it looks for cheaper ones) is a correct solution whose printed cost is its cost and which keeps to the cost bound that was announced for it. It does not crash and does not end with success but without a plan, also if the solver is interrupted.',
  ['inputs', 'configurations', 'schedules', 'faults'], 'All ground problems, all options of the SAT planner, all answers a correct SAT solver may give, interruptions of the solver at any call.', NOTESTS,
  ['src/sat', E], [('decomposition and ordering encoding', 'src/sat/pdt.cpp, sog.cpp, partial_order.cpp'), ('state encoding', 'src/sat/state_formula.cpp'), ('plan output', 'src/sat/sat_planner.cpp: printSolution')], observe=['standard output', 'exit status'])
p('E12', 'SAT-based planning finds a plan once the depth bound allows one',
  'On a solvable problem without recursion, SAT-based planning reports a plan at the latest at the depth bound within which every decomposition ends, and from then on, while it looks for cheaper plans, it refuses no cost bound that a solution meets. It never reports a plan for an unsolvable problem.',
  ['inputs', 'configurations', 'schedules'], 'All ground problems without recursion, all pruning and encoding options, all answers a correct SAT solver may give.', NOTESTS,
  ['src/sat', 'src/Invariants.cpp', E], [('decomposition tree and merging of method orderings', 'src/sat/pdt.cpp, sog.cpp'), ('h2 and mutex pruning', 'src/Invariants.cpp, src/sat/pdt.cpp'), ('number of time steps', 'src/sat/state_formula.cpp')], observe=['standard output'])
p('E13', 'Symbolic search: correct cost-optimal plans, correct unsolvability verdicts',
  'On a totally ordered problem whose methods have at most two subtasks, symbolic search reports a correct plan of minimal cost if there is one and otherwise says that the problem is unsolvable. The result does not depend on the sizes of the decision-diagram tables and caches or on garbage collection and reordering.',
  ['inputs', 'configurations', 'schedules'], 'All totally ordered problems, all sizes of unique tables and caches, all garbage collection and reordering schedules they lead to.', NOTESTS,
  ['src/symbolic_search/automaton.cpp', 'src/symbolic_search/sym_variables.cpp', 'src/symbolic_search/transition_relation.cpp', 'src/symbolic_search/cudd-3.0.0/cudd'],
  [('search over cost layers', 'src/symbolic_search/automaton.cpp: build_automaton'), ('plan extraction by regression', 'src/symbolic_search/automaton.cpp: extract, extract2From'), ('transition relations', 'src/symbolic_search/transition_relation.cpp')], observe=['standard output'])
p('E14', 'Success means that everything was written, and exports equal the problem',
  'If the planner ends with exit status 0 then its whole output was written, also if the disk is full, fails or takes the data in pieces. The exported HDDL files describe exactly the loaded problem (facts, initial state, goal, actions, tasks, and methods with their subtasks and orderings, leaving out only no-ops), and the exported SAS+ file is well-formed.',
  ['inputs', 'configurations', 'crash points', 'faults'], 'All ground problems, HDDL and SAS+ export, plans on the standard output, write errors and full disks at every byte, partial and interrupted writes. Action costs are not part of the HDDL export.', NOTESTS,
  ['src/Model.cpp', 'src/translation/htnToSAS.cpp', E], [('HDDL export', 'src/Model.cpp: writeToPDDL'), ('SAS+ export', 'src/translation/htnToSAS.cpp: writeToFastDown'), ('standard output', 'src/SearchEngine.cpp')], observe=['exit status', 'exported files', 'standard output'])
p('E15', 'Interactive planning follows the choices of its user and ends with them',
  'In interactive mode every menu shows exactly the tasks that may be processed next in the task network that the previous choices lead to, and exactly the methods of the chosen task. Only applicable actions are executed, words that are no choice are asked for again, and the planner ends normally at the end of the input, whatever the user types.',
  ['inputs', 'histories', 'faults'], 'All ground problems, all histories of choices and of words that are no choices, the end of the input at every point.', NOTESTS,
  ['src/interactivePlanner.cpp', 'src/Model.cpp'], [('dialogue', 'src/interactivePlanner.cpp'), ('progression of task networks', 'src/Model.cpp: decompose, apply')], observe=['standard output', 'exit status'])
p('E21', 'Search steps follow the semantics of hierarchical task networks',
  'Every search node that progression search creates by applying an action or decomposing a task holds exactly the state, remaining task network (with its ordering), cost and depth that the semantics of hierarchical planning prescribe. Goal tests and applicability tests agree with the semantics, and expanding a node leaves the node itself and its siblings unchanged.',
  ['inputs', 'configurations', 'schedules', 'histories'], 'All ground problems, all nodes reached by any search strategy, whatever parts of the network siblings share in memory.', NOTESTS,
  ['src/Model.cpp', 'src/ProgressionNetwork.cpp', 'src/search/PriorityQueueSearch.h'],
  [('progression', 'src/Model.cpp: apply, decompose'), ('structure sharing between search nodes', 'src/ProgressionNetwork.cpp')], observe=['the results of Model::apply, decompose, isGoal and isApplicable'])
p('E22', 'Duplicate detection discards only true duplicates',
  'Progression search discards a node as already visited only if an equivalent node (same state and the same task network up to renaming) was visited before, with optimal cost-based search only at no higher cost. In totally ordered problems, a node that was visited before at no higher cost is recognised.',
  ['inputs', 'configurations', 'histories'], 'All ground problems, all visited-list options, all histories of insertions, including hash collisions.', NOTESTS,
  ['src/VisitedList.cpp', 'src/VisitedList.h', 'src/search/primeNumbers.h'], [('hashing and comparison of task networks', 'src/VisitedList.cpp: insertVisi'), ('isomorphism of partially ordered networks', 'src/VisitedList.cpp: matching')], observe=['the answers of VisitedList::insertVisi'])
p('E23', 'Heuristics are safe; admissible ones never overestimate',
  'A search node that a heuristic declares to be a dead end has no solution. An estimate of a heuristic used as admissible (the relaxed composition with the filter or LM-cut estimators on action costs, and the plain hierarchical distance to the goal) is never larger than the true remaining cost.',
  ['inputs', 'configurations', 'histories'], 'All ground problems, all heuristics and their options, all search nodes, whatever nodes were evaluated before.', NOTESTS,
  ['src/heuristics', 'src/search/PriorityQueueSearch.h'], [('relaxed composition', 'src/heuristics/rcHeuristics'), ('landmark cut', 'src/heuristics/rcHeuristics/hsLmCut.cpp'), ('landmark counting', 'src/heuristics/landmarks/hhLMCount.cpp')], observe=['estimates of search nodes and nodes given up'])
D = 'src/symbolic_search/cudd-3.0.0/'
CD = D + 'cudd'
OB = ['return values of the library calls', 'the functions that the returned diagrams represent', "the library's own consistency checks"]
p('C01', 'Decision-diagram operations compute the right Boolean function',
  'Every operation on binary decision diagrams returns the diagram of the function (or the number, cube, prime, cover, minterm) that its documentation prescribes for the functions of its operands, or reports a failure that has a cause. Operands and all other diagrams that are held keep their functions.',
  ['inputs', 'histories', 'schedules', 'configurations'], 'All functions and histories of operations, all table and cache sizes, all points at which garbage is collected or variables are reordered in the middle of an operation.', CUTESTS,
  [CD], [('recursive operators with the computed table', CD + '/cuddBdd*.c'), ('retry after reordering', 'the do ... while (dd->reordered == 1) loops'), ('garbage collection', CD + '/cuddTable.c')], observe=OB)
p('C02', 'Arithmetic decision-diagram operations compute the right values',
  'Every operation on arithmetic decision diagrams returns the diagram of the function that its documentation prescribes for the values of its operands, or reports a failure that has a cause. Operands and all other diagrams that are held keep their values.',
  ['inputs', 'histories', 'schedules', 'configurations'], 'All functions and histories of operations, all table and cache sizes, all points at which garbage is collected or variables are reordered in the middle of an operation.', CUTESTS,
  [CD], [('apply operators', CD + '/cuddAddApply.c'), ('matrix operators', CD + '/cuddMatMult.c'), ('constants', CD + '/cuddTable.c: cuddUniqueConst')], observe=OB)
p('C03', 'Zero-suppressed diagram operations compute the right families of sets',
  'Every operation on zero-suppressed decision diagrams returns the diagram of the family of sets (or the number) that its documentation prescribes for the families of its operands, or reports a failure that has a cause. Conversions from and to binary diagrams keep the meaning, and all other diagrams that are held keep theirs.',
  ['inputs', 'histories', 'schedules', 'configurations'], 'All families and histories of operations, all table and cache sizes, all points at which garbage is collected or variables are reordered in the middle of an operation.', CUTESTS,
  [CD], [('set and cover operators', CD + '/cuddZdd*.c'), ('reordering linked to that of the binary diagrams', CD + '/cuddZddReord.c')], observe=OB)
p('C04', 'A failed allocation fails the operation only; the manager stays usable',
  'If any memory request of the decision-diagram library fails, at any point, the running operation reports a failure and nothing is lost: all diagrams that are held keep their functions, the tables stay consistent, nothing leaks, and once memory is available again all operations work. A result that is returned in spite of a failed request is right.',
  ['histories', 'fault_sequences', 'inputs'], 'All histories of operations and all sets of failing requests, from the creation of the manager to its end.', CUTESTS,
  [CD, D + 'mtr', D + 'st'], [('clean-up on failure', CD + '/*.c: error exits'), ('growing tables', CD + '/cuddTable.c: cuddResizeTableZdd, ddResizeTable, cuddRehash')], observe=OB)
p('C05', 'Reordering keeps every function, count and variable group',
  'Whatever method is used and whenever it is interrupted, reordering leaves every diagram with the function it had at the same address, keeps the reference counts, produces a permutation of the variables, and keeps the variables of each group adjacent and, where demanded, in order. It ends after a bounded number of steps.',
  ['inputs', 'histories', 'schedules', 'configurations'], 'All diagrams, all reordering methods and their limits, group trees, growth bounds, population sizes and random choices, started explicitly or by the manager.', CUTESTS,
  [CD, D + 'mtr'], [('swap of adjacent variables', CD + '/cuddReorder.c: cuddSwapInPlace'), ('sifting, symmetric, group, linear, window, exact, genetic and annealing methods', CD + '/cudd{Reorder,Symmetry,Group,Linear,Window,Exact,Genetic,Anneal}.c'), ('zero-suppressed diagrams', CD + '/cuddZdd{Reord,Symm,Lin,Group}.c')], observe=OB)
p('C07', 'Limits on time, memory, nodes and termination requests are safe',
  'When a time limit, a memory or node limit or a termination request stops an operation, it reports exactly this, all diagrams that are held keep their functions, the tables stay consistent, nothing leaks, and after the limit is lifted all operations work again. An operation is not refused without such a cause, and a result that is returned under a limit is right.',
  ['histories', 'fault_sequences', 'schedules'], 'All histories of operations, all limits, all jumps of the clock and all points at which a termination request arrives.', CUTESTS,
  [CD], [('checks of limits', CD + '/cuddInt.h: checkWhetherToGiveUp'), ('error codes', CD + '/cuddAPI.c'), ('bounded variants of operators', CD + '/cuddBddIte.c, cuddAndAbs.c: *Limit')], observe=OB)
p('C08', 'Diagrams are canonical and exactly the unreferenced nodes are reclaimed',
  'At every moment two diagrams that are held represent the same function exactly if they are the same node. Every node is in its place in the unique table, its reference count is the number of references that exist, exactly the nodes without references are counted as dead and reclaimed, and everything is released when the manager ends.',
  ['histories', 'inputs', 'schedules', 'configurations'], 'All histories of operations, releases and garbage collections, all table sizes and growth policies, with and without reordering.', CUTESTS,
  [CD], [('unique table and garbage collection', CD + '/cuddTable.c'), ('reference counting', CD + '/cuddRef.c'), ('computed table', CD + '/cuddCache.c')], observe=OB)
