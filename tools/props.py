WHY = "The repository's tests exercise only the bundled CUDD package; "
PROPS = []
def P(id, title, stmt, over, qtext, why, files, mech, obs, tech, note, na=None):
    PROPS.append(dict(id=id, title=title, stmt=stmt, over=over, qtext=qtext, why=WHY + why if not id.startswith("C") else why, files=files, mech=mech, obs=obs, tech=tech, note=note, na=na))

P("P01", "A reported plan is a valid decomposition and its numbers are right",
  "Whenever the progression search reports a solution, the printed plan (action sequence, decomposition tree and root) is a correct refinement of the initial task: every decomposition uses a method of its task with exactly its subtasks, the action sequence respects all induced orderings, is executable from the initial state and reaches the goal. The reported plan length and the reported total action cost are those of the printed plan.",
  ["inputs", "configurations"], "all well-formed HTN problems (totally, parallel-chain and partially ordered; recursive or not) and all combinations of progression options",
  "no planning problem is ever run; a wrong plan needs particular orderings, configurations and state spaces.",
  ["src/Model.cpp", "src/search/PriorityQueueSearch.h", "src/ProgressionNetwork.cpp", "src/SearchEngine.cpp"],
  [("successor functions", "src/Model.cpp (apply, decompose, initializeMethod)"), ("goal test and plan extraction", "src/search/PriorityQueueSearch.h, src/search/PriorityQueueSearch.cpp, src/ProgressionNetwork.cpp")],
  ["standard output of the planner"], "property-based testing: generated HTN problems, independent plan verifier as oracle",
  "Randomised exploration; trusts the independent plan verifier in lib/htn.hpp.")
P("P02", "Progression verdicts are sound and exact",
  "With complete duplicate detection, the progression search answers 'Solved' only for solvable problems and 'Proven unsolvable' only for problems without any solution, whichever heuristic, evaluation, weight, seed or duplicate-detection option is used.",
  ["inputs", "configurations"], "all well-formed HTN problems small enough for an exhaustive reference solver, and all complete configurations",
  "an unsound pruning needs task networks that look alike but differ, which no sampled problem contains.",
  ["src/VisitedList.cpp", "src/Model.cpp", "src/heuristics/rcHeuristics/hhRC2.h", "src/search/PriorityQueueSearch.h"],
  [("duplicate detection", "src/VisitedList.cpp"), ("dead-end detection by heuristics", "src/heuristics/rcHeuristics"), ("open list and expansion", "src/search/PriorityQueueSearch.h, src/search/fringes")],
  ["standard output of the planner"], "property-based testing against an exact reference HTN solver (differential)",
  "Randomised exploration; problems are small (reference explores at most 6000 nodes).")
P("P03", "Verdict and optimum do not depend on how the problem is written down",
  "Semantics-preserving rewritings of a problem (renumbering facts, tasks and methods, redundant or implied orderings, wrapping a task into a one-method task, inlining a one-method task, duplicating a method, adding unreachable facts and actions) and changes among complete configurations never change whether a solution is reported. Configurations that guarantee optimal plans report the same optimal value before and after the rewriting.",
  ["inputs", "configurations"], "all problems, all listed rewritings and all pairs of complete configurations, including problems too large for an exhaustive reference",
  "it relates pairs of runs on problems that no test contains.",
  ["src/Model.cpp", "src/VisitedList.cpp", "src/heuristics", "src/search"],
  [("input normalisation", "src/Model.cpp (read)"), ("duplicate detection", "src/VisitedList.cpp")],
  ["standard output of the planner"], "metamorphic property-based testing",
  "Randomised exploration of rewritings; the rewritings are proved equivalent only by construction.")
P("P04", "A* with an admissible heuristic returns an optimal plan",
  "With weight one, re-opening enabled and an admissible heuristic (blind, or LM-cut in the configuration matching the cost measure), the plan reported for the action-cost, path-length or mixed evaluation has the minimal value of that measure over all plans.",
  ["inputs", "configurations"], "all small solvable problems, three evaluation measures, blind / LM-cut / filter heuristics, all duplicate-detection options",
  "optimality is a statement about all plans of a problem.",
  ["src/search/PriorityQueueSearch.h", "src/search/fringes/OneQueueWAStarFringe.cpp", "src/heuristics/rcHeuristics/hsLmCut.cpp", "src/VisitedList.cpp", "src/Model.cpp"],
  [("A* expansion order and re-opening", "src/search/fringes/OneQueueWAStarFringe.cpp, src/VisitedList.cpp"), ("admissible LM-cut on the relaxed composition model", "src/heuristics/rcHeuristics")],
  ["standard output of the planner"], "property-based testing against an exact optimal reference solver",
  "Randomised exploration; the reference enumerates the search space exhaustively.")
P("P06", "Duplicate detection merges exactly the equal search nodes",
  "A search node is rejected as already visited only if an earlier node with the same state and an isomorphic task network was accepted at no higher evaluation (at any evaluation when re-opening is off), whatever hashing and memory options are chosen. For totally ordered and parallel-sequence problems every such repetition is rejected; for partially ordered problems at least one that is presented identically.",
  ["inputs", "histories", "configurations"], "all sequences of insertions of search nodes of arbitrary problems, all hash/memory options, with and without re-opening",
  "wrong merging needs hash collisions or near-isomorphic task networks.",
  ["src/VisitedList.cpp", "src/intDataStructures/CompressedSequenceSet.cpp", "src/intDataStructures/HashTable.cpp", "src/Model.cpp"],
  [("node fingerprints and graph matching", "src/VisitedList.cpp"), ("sequence trie", "src/intDataStructures/CompressedSequenceSet.cpp"), ("detection of ordering classes", "src/Model.cpp (computeTransitiveChangeOfMethodOrderings)")],
  ["result of inserting a node"], "stateful model-based testing against an explicit list with exact isomorphism test",
  "Randomised histories of up to 300 insertions; nodes with more than 24 tasks are skipped.")
P("P08", "Runs are reproducible for a fixed seed",
  "Two runs of the progression search on the same input with the same options and random seed print the same output (apart from reported times), independently of memory layout, environment and working directory.",
  ["inputs", "configurations", "schedules"], "all problems and configurations, pairs of runs with different heap and stack layouts",
  "memory layouts vary outside the control of a test.",
  ["src/Model.cpp", "src/VisitedList.cpp", "src/search", "src/SearchEngine.cpp", "src/heuristics"],
  [("ordering of newly unconstrained tasks", "src/Model.cpp (apply)"), ("seeded random numbers", "src/SearchEngine.cpp")],
  ["standard output of the planner"], "metamorphic property-based testing (pairs of runs with perturbed memory layout)",
  "Randomised; layouts are perturbed by heap noise, environment size and stack offset.")
P("P09", "The time limit stops the search and is reported as a timeout",
  "A search whose time limit has passed stops within a bounded number of further search nodes, reports 'Timeout' (never 'Proven unsolvable') and prints no plan; a search that stays below its limit never reports a timeout. A plan found before the limit is noticed is reported normally.",
  ["inputs", "configurations", "schedules"], "all problems, limits and clock behaviours",
  "it depends on when the clock passes the limit relative to the search.",
  ["src/search/PriorityQueueSearch.h", "src/SearchEngine.cpp"],
  [("periodic clock check", "src/search/PriorityQueueSearch.h"), ("status report", "src/search/PriorityQueueSearch.h")],
  ["standard output of the planner"], "property-based testing with an injected fake clock",
  "Randomised problems; the clock is replaced by a stand-in at link time.")
P("P05", "The relaxed heuristics compute what they are defined to compute",
  "On every search node, the relaxed-composition heuristics agree with their definitions over the delete-relaxed task-composition model: a value is infinite exactly when the relaxed model cannot produce all tasks and goal facts; the additive value is the exact hadd fixpoint; the relaxed plan behind hFF is a plan of the relaxed model; LM-cut lies between hmax and h+ (hence never above the true remaining cost), each of its cuts being a landmark; results are cut at the integer range, do not change the node and do not depend on earlier evaluations.",
  ["inputs", "histories", "configurations"], "all search nodes of all problems, all estimates (distance, cost, mixed) with and without task counting, any order of evaluations",
  "no heuristic is ever evaluated; wrong values surface only as rare suboptimal plans.",
  ["src/heuristics/rcHeuristics/hhRC2.h", "src/heuristics/rcHeuristics/hsAddFF.cpp", "src/heuristics/rcHeuristics/hsLmCut.cpp", "src/heuristics/rcHeuristics/hsFilter.cpp", "src/heuristics/rcHeuristics/RCModelFactory.cpp"],
  [("relaxed composition model", "src/heuristics/rcHeuristics/RCModelFactory.cpp"), ("state setup and goals for a node", "src/heuristics/rcHeuristics/hhRC2.h"), ("hadd/hFF and LM-cut", "src/heuristics/rcHeuristics/hsAddFF.cpp, src/heuristics/rcHeuristics/hsLmCut.cpp")],
  ["heuristic value of a node"], "property-based testing against textbook reference implementations of the relaxed heuristics",
  "Randomised nodes; h+ and hmax/hadd are computed by an independent reference.")
P("P07", "Successor nodes follow the HTN semantics",
  "Progressing an action or decomposing a task yields exactly the node the HTN semantics prescribes: the state after the effects, the task network with the step removed or replaced by the method's subtasks with inherited and inner orderings, the first steps unconstrained, the step counters, contained-task counts, reachable facts/tasks and dead-end flag right, the steps for the plan recorded - and neither parents nor siblings change.",
  ["inputs", "histories"], "all sequences of applications and decompositions on all problems",
  "networks are shared between nodes; damage appears only in siblings many steps later.",
  ["src/Model.cpp", "src/ProgressionNetwork.cpp", "src/intDataStructures/FlexIntStack.h"],
  [("apply / decompose", "src/Model.cpp (apply, decompose, generateNodes)"), ("goal test", "src/Model.cpp (isGoal)"), ("reachability of tasks", "src/Model.cpp (calcSCCGraph, updateReachability)")],
  ["search nodes returned by apply and decompose"], "stateful model-based testing against a keyed reference network",
  "Randomised histories; the reference network is an explicit labelled dag.")
P("P10", "The model read from a file and its derived tables are right",
  "Reading a grounded problem yields exactly the tasks, preconditions, effects, variables, initial state, goal, methods and orderings written in the file, whatever the order of the entries; the derived tables (inverse maps, first/last tasks, task-graph components and their order, contained and minimal implied tasks, minimal implied costs and distances, ordering classes, action/method mutex information) equal their definitions.",
  ["inputs"], "all well-formed problem files",
  "no file is ever read.",
  ["src/Model.cpp", "src/Model.h"],
  [("reader", "src/Model.cpp (read, readClassical, readHierarchical)"), ("analysis", "src/Model.cpp (calcSCCs, calcMinimalImpliedX, computeTransitiveChangeOfMethodOrderings)")],
  ["the model object after reading"], "property-based testing against independently computed tables",
  "Randomised problems.")
P("P11", "The HDDL export describes the same problem",
  "The domain and problem files written by --writeInputToHDDL are well formed and describe the problem that was read: the same facts, tasks, initial state, goal and initial task, every used action with the same precondition and effects, and for every method the same subtask network, where a compiled method precondition may become a :precondition section and no-op tasks may be left out without losing or inventing orderings between the other subtasks.",
  ["inputs"], "all well-formed problems whose names stay distinct after replacing special characters",
  "the export is never run.",
  ["src/Model.cpp", "src/SearchEngine.cpp", "src/intDataStructures/StringUtil.cpp"],
  [("writer", "src/Model.cpp (writeToPDDL)"), ("ordering tables", "src/Model.cpp (buildOrderingDatastructures, isMethodTotallyOrdered)")],
  ["the two HDDL files"], "property-based testing: round trip through an independent HDDL reader, compared up to isomorphism",
  "Randomised problems.")
P("P12", "No input makes the planner touch memory wrongly or run into undefined behaviour",
  "On every well-formed problem and with every combination of options of the progression search, the SAT planner, the symbolic planner, the translations and the problem writer, the planner never reads or writes outside an object or after its release, never uses a value that was not set to decide anything, never overflows a signed number, divides by zero or calls through a bad pointer, and never ends by a signal.",
  ["inputs", "configurations"], "the generated problems and configurations of the properties P01, P02, P04, P08, P11, P14, P15, P16, P18, P19",
  "a bad access is often silent in one run, and corrupts the answer in another.",
  ["src/Model.cpp", "src/ProgressionNetwork.cpp", "src/search", "src/sat", "src/symbolic_search", "src/translation", "src/heuristics"],
  [("successor functions", "src/Model.cpp"), ("formula construction", "src/sat/sat_planner.cpp, src/sat/state_formula.cpp, src/sat/pdt.cpp"), ("symbolic search", "src/symbolic_search/automaton.cpp"), ("encodings", "src/translation/htnToSAS.cpp")],
  ["abnormal end of the planner, reports of the address and undefined-behaviour sanitizers"], "property-based testing: generated problems and configurations run in an instrumented build (address and undefined-behaviour sanitizers, pattern-filled fresh memory)",
  "Randomised; uninitialised values are detected only by what they change.")
P("P14", "The BDD-based planner is sound, complete and optimal",
  "On totally ordered problems whose methods have one or two subtasks, the symbolic planner terminates with the exact answer: it reports the problem unsolvable if and only if it has no solution, and otherwise the reported length is the least cost of any solution, and the plan it extracts is a correct executable refinement of the initial task with exactly that cost.",
  ["inputs"], "all totally ordered problems within the planner's input class, with zero and positive action costs, recursion and shared subtasks",
  "wrong answers need particular interleavings of cost layers, epsilon edges and already known edges.",
  ["src/symbolic_search/automaton.cpp", "src/symbolic_search/sym_variables.cpp", "src/symbolic_search/transition_relation.cpp", "src/symbolic_search/cudd-3.0.0"],
  [("layered construction of the automaton", "src/symbolic_search/automaton.cpp (build_automaton)"), ("plan extraction", "src/symbolic_search/automaton.cpp (extract2From)"), ("state and transition encoding", "src/symbolic_search/sym_variables.cpp, transition_relation.cpp")],
  ["standard output of the planner"], "property-based testing against an exact cost-optimal reference solver (differential), independent plan verifier",
  "Randomised; problems small enough for the reference.")
P("P15", "SAT-based plans are valid and their reported costs and orders are right",
  "Every plan that the SAT-based planner prints, with or without plan optimisation, is a correct executable refinement of the initial task; the reported true cost is the sum of the action costs and the scaled cost the sum of the scaled action costs. With plan optimisation, after the re-solved first plan every further plan has a strictly smaller scaled cost. With order output, there is one line per plan step, it lists only later steps as successors, and it lists every successor that the chosen methods impose.",
  ["inputs", "configurations", "schedules"], "all well-formed HTN problems, all SAT configurations, and any model the SAT solver may return",
  "which of the many models a SAT solver returns is not under the control of a test, and an encoding error shows only in some models.",
  ["src/sat/sat_planner.cpp", "src/sat/partial_order.cpp", "src/sat/state_formula.cpp", "src/sat/sat_encoder.cpp", "src/sat/pdt.cpp", "src/sat/sog.cpp"],
  [("state encoding", "src/sat/state_formula.cpp"), ("leaf-to-position matching", "src/sat/partial_order.cpp"), ("plan extraction", "src/sat/sat_planner.cpp (printSolution), src/sat/pdt.cpp (printDecomposition)")],
  ["standard output of the planner"], "property-based testing with a randomised SAT solver behind the IPASIR interface; independent plan verifier as oracle",
  "Randomised; the bundled external SAT solver is replaced by the check's own CDCL solver with randomised phases and activities, and depth is limited to 9.")
P("P16", "The SAT-based planner answers each depth exactly",
  "The formula for depth k is reported satisfiable if and only if the problem has a solution whose decomposition tree has height at most k, so the first satisfiable depth is the least height of a solution, for all combinations of block compression, mutexes, pruning method and separate leaves. With plan optimisation, every further formula for depth k and scaled cost x is satisfiable if and only if there is a solution of height at most k and scaled cost at most x, and the planner does not stop before a plan of scaled cost zero.",
  ["inputs", "configurations"], "all small HTN problems and all SAT configurations",
  "lost or invented solutions need particular combinations of methods, orderings and prunings.",
  ["src/sat/pdt.cpp", "src/sat/sog.cpp", "src/sat/sat_planner.cpp", "src/sat/state_formula.cpp", "src/sat/disabling_graph.cpp", "src/sat/partial_order.cpp", "src/Invariants.cpp"],
  [("path decomposition tree and pruning", "src/sat/pdt.cpp, src/sat/sat_planner.cpp (filter_leafs_*)"), ("merging of method task networks", "src/sat/sog.cpp"), ("invariants and mutexes", "src/Invariants.cpp, src/sat/state_formula.cpp"), ("block compression", "src/sat/disabling_graph.cpp")],
  ["standard output of the planner"], "property-based testing against an exact reference for the least decomposition height (differential)",
  "Randomised; heights up to 6.")
P("P17", "SAT-based answers do not depend on options or presentation",
  "The first satisfiable depth is the same for all SAT configurations without optimisation, and unchanged by renumbering, redundant orderings, duplicated methods and added unreachable facts and actions.",
  ["inputs", "configurations"], "all HTN problems including ones beyond an exact reference, pairs of SAT configurations, height-preserving rewritings",
  "it relates pairs of runs on problems that no test contains.",
  ["src/sat", "src/Invariants.cpp", "src/Model.cpp"],
  [("encoding options", "src/sat/sat_planner.cpp (createFormulaForDepth)")],
  ["standard output of the planner"], "metamorphic property-based testing",
  "Randomised; depths up to 6.")
P("I19", "Computed invariants hold in every reachable state",
  "Every two-literal invariant the planner derives, from the mutex groups, clauses and state variables of the problem file or by its fixpoint computation over the actions, holds in every state reachable from the initial state by executable actions; an invariant stated in the file is known afterwards; and two facts (or their negations) are declared unable to hold together only if no reachable state has both.",
  ["inputs"], "all problems whose stated mutex groups, clauses and state variables are themselves true, with any actions",
  "an invariant is a statement about all reachable states of all problems; a wrong one silently removes plans.",
  ["src/Invariants.cpp", "src/Invariants.h", "src/Model.cpp"],
  [("extraction and resolution", "src/Invariants.cpp (extract_invariants_from_parsed_model)"), ("fixpoint computation", "src/Invariants.cpp (compute_Rintanen_Invariants)")],
  ["the invariant table and can_state_features_co_occur, called in-process"], "property-based testing: generated state machines, exhaustive reachable-state enumeration as oracle",
  "Randomised; at most 20000 reachable states per case.")
P("P18", "Translations are well-formed and their classical plans become valid HTN plans",
  "For every problem whose initial task has one method and occurs nowhere else, and every translation encoding suited to its ordering, the generated SAS+ file is a well-formed classical planning task; any plan of that task, turned back by the planner, is printed as a correct executable refinement of the initial task whose action costs equal the operator costs of the classical plan; the metric follows the real-costs option; with generation only, the file is written and the exit code is 0; and a plan file left over from earlier runs is never used.",
  ["inputs", "configurations", "schedules"], "all well-formed HTN problems of the three ordering classes, the encodings for totally ordered, parallel-sequence and partially ordered problems, any bound, and any plan that a classical planner may return",
  "which of the many classical plans an external planner returns is not under the control of a test, and an encoding error shows only in some plans.",
  ["src/translation/htnToSAS.cpp", "src/translation/translationController.cpp"],
  [("encodings", "src/translation/htnToSAS.cpp (htnToCondSorted, tohtnToStrips, htnPS, htnToStrips, htnToCond)"), ("SAS+ writer", "src/translation/htnToSAS.cpp (writeToFastDown, sasPlus)"), ("plan reconstruction", "src/translation/htnToSAS.cpp (planToHddl)"), ("iteration over bounds", "src/translation/translationController.cpp")],
  ["standard output of the planner and the generated SAS+ file"], "property-based testing with a randomised exact classical search in place of the external planner; strict SAS+ reader and independent plan verifier as oracles",
  "Randomised; the external planner is replaced by a breadth-first, random or least-cost explicit search with a state limit.")
P("P19", "Translation is complete at sufficient progression bounds",
  "For every problem whose initial task has one method and occurs nowhere else, and every translation encoding suited to its ordering: if the problem has a solution whose decomposition tree has n tasks, the generated classical task is solvable for every progression bound of at least n, and already for every bound that some solution can be progressed with, holding at any time no more tasks than the bound, as the encoding counts them; it is unsolvable for every bound if the problem has no solution; bounds start at the requested value and grow by the requested step while no plan is found; and with real costs no plan of the classical task is cheaper than the optimal HTN plan, and its optimal plan is optimal if every decomposition of the problem fits the bound.",
  ["inputs", "configurations"], "all small HTN problems of the three ordering classes, all encodings suited to them, and all bounds",
  "lost solutions need particular combinations of methods, orderings, head positions and bounds.",
  ["src/translation/htnToSAS.cpp", "src/translation/translationController.cpp"],
  [("encodings", "src/translation/htnToSAS.cpp (htnToCondSorted, tohtnToStrips, htnPS, htnToStrips, htnToCond)"), ("iteration over bounds", "src/translation/translationController.cpp (runTranslationPlanner)")],
  ["standard output of the planner and the generated SAS+ file"], "property-based testing against an exact reference for the smallest decomposition tree, the least bound a solution can be progressed with and the optimal cost (differential)",
  "Randomised; problems small enough for the reference and for exhausting the classical state space.")

CW = "CUDD's tests compare the output of a few fixed circuits; "
def C(id, title, stmt, over, qtext, why, files, mech, note="Randomised; at most 10 variables, 30-odd operations per history."):
    P(id, title, stmt, over, qtext, CW + why, ["src/symbolic_search/cudd-3.0.0/" + f for f in files], [(a, ", ".join("src/symbolic_search/cudd-3.0.0/" + x for x in b)) for a, b in mech], ["functions and numbers returned through cudd.h"], "stateful model-based property-based testing: random operation histories on a BDD manager, explicit truth tables as the model", note)
HIST = "all histories of operations on any functions, any cache and table sizes, with garbage collection and dynamic reordering striking at any point inside an operation"
C("C20", "BDD Boolean operations are exact and diagrams stay canonical",
  "Every Boolean operation of the decision-diagram library (and, or, xor, if-then-else, negation and their size-limited and constant-detecting variants, containment, intersection, evaluation) returns exactly the function it is named after; size-limited variants return the exact function or give up. Equal functions are always the same node, stored functions never change, and once every function is released no node keeps a reference.",
  ["inputs", "histories", "schedules"], HIST, "a wrong cached result, lost reference or broken canonicity needs a particular history and moment of garbage collection or reordering.",
  ["cudd/cuddBddIte.c", "cudd/cuddCache.c", "cudd/cuddTable.c", "cudd/cuddRef.c"], [("if-then-else and apply", ["cudd/cuddBddIte.c"]), ("computed table", ["cudd/cuddCache.c"]), ("unique table and garbage collection", ["cudd/cuddTable.c", "cudd/cuddRef.c"])])
C("C21", "BDD quantification, substitution and relations are exact",
  "Existential and universal quantification (also combined with and, xor, and size limits), Boolean difference, cofactors, every form of composition, variable permutation, swapping and bulk substitution, equation solving, and the comparison relations between numbers encoded in variables (order, equality, distance, differences, intervals) return exactly the function they are defined to be on every input, leaving all other stored functions unchanged and no reference behind.",
  ["inputs", "histories", "schedules"], HIST, "a wrong result needs particular variables, cache contents and reorderings.",
  ["cudd/cuddBddAbs.c", "cudd/cuddCompose.c", "cudd/cuddCof.c", "cudd/cuddPriority.c", "cudd/cuddSolve.c"], [("quantification", ["cudd/cuddBddAbs.c", "cudd/cuddAndAbs.c"]), ("substitution", ["cudd/cuddCompose.c", "cudd/cuddCof.c"]), ("relations", ["cudd/cuddPriority.c"]), ("equations", ["cudd/cuddSolve.c"])])
C("C22", "BDD variable reordering preserves every function",
  "Reordering by any method (sifting and its symmetric, grouped and converging variants, windows, random, annealing, genetic, exact, or a given order), on demand or triggered automatically inside operations, with any variable groups and new variables inserted anywhere, never changes a stored function, its node or the reference counts; the result is a permutation of the variables that keeps groups together, a given order is reached exactly, and the diagram stays canonical. A declined automatic reordering does not make an operation fail.",
  ["inputs", "histories", "schedules"], HIST + ", all reordering methods except the linear-transformation ones", "it depends on the history of orders, groups and table sizes.",
  ["cudd/cuddReorder.c", "cudd/cuddGroup.c", "cudd/cuddSymmetry.c", "cudd/cuddWindow.c", "cudd/cuddExact.c", "cudd/cuddAnneal.c", "cudd/cuddGenetic.c", "cudd/cuddTable.c"], [("adjacent swap and sifting", ["cudd/cuddReorder.c"]), ("groups", ["cudd/cuddGroup.c", "mtr/mtrBasic.c", "mtr/mtrGroup.c"]), ("exact, annealing, genetic, window, symmetric methods", ["cudd/cuddExact.c", "cudd/cuddAnneal.c", "cudd/cuddGenetic.c", "cudd/cuddWindow.c", "cudd/cuddSymmetry.c"])])
C("C23", "BDD minimisation, primes and cubes meet their contracts",
  "Simplification under don't-cares (constrain, restrict, minimise, squeeze, compaction and interpolation between bounds) returns a function that agrees with the original wherever the care set holds and, where promised, is not larger; prime implicants are implicants that cannot be shrunk; largest cubes and shortest paths have the least number of literals or weight; essential variables, two-literal clauses and cube conversions are exactly those of the function.",
  ["inputs", "histories", "schedules"], HIST, "a wrong result still looks like a plausible simplification.",
  ["cudd/cuddGenCof.c", "cudd/cuddSat.c", "cudd/cuddEssent.c", "cudd/cuddUtil.c"], [("generalised cofactors", ["cudd/cuddGenCof.c"]), ("shortest paths, primes", ["cudd/cuddSat.c"]), ("essential variables, clauses", ["cudd/cuddEssent.c"])])
C("C24", "BDD counting, support, enumeration and picking are exact",
  "Minterm counts in every arithmetic (double, long double, extended precision, arbitrary precision), densities, path and node counts, supports (of one or several functions), variable classifications, and correlations are exact up to the rounding of the result type; cube, prime and node generators visit every element exactly once; picked cubes and minterms lie in the function, and every split or chosen subset has the promised size.",
  ["inputs", "histories", "schedules"], HIST, "an off-by-one in a count or a lost cube shows only on functions of a particular shape.",
  ["cudd/cuddUtil.c", "cudd/cuddSplit.c", "cudd/cuddApa.c", "cudd/cuddBddCorr.c", "cudd/cuddSign.c", "epd/epd.c"], [("counting", ["cudd/cuddUtil.c", "cudd/cuddApa.c", "epd/epd.c"]), ("generators and picking", ["cudd/cuddUtil.c", "cudd/cuddSplit.c"])])
C("C25", "BDD approximation and decomposition are sound",
  "Every under-approximation (subsetting by heavy branches, short paths, compression, remapping, biased or plain) implies the function and every over-approximation is implied by it, also when reordering strikes inside; conjunctive and disjunctive decompositions (approximate, iterative, general, variable-based) consist of factors whose conjunction or disjunction is exactly the function; no reference is lost or left behind.",
  ["inputs", "histories", "schedules"], HIST, "approximation heuristics take different code paths depending on the size and shape of the diagram.",
  ["cudd/cuddSubsetHB.c", "cudd/cuddSubsetSP.c", "cudd/cuddApprox.c", "cudd/cuddDecomp.c"], [("subsetting", ["cudd/cuddSubsetHB.c", "cudd/cuddSubsetSP.c", "cudd/cuddApprox.c"]), ("decomposition", ["cudd/cuddDecomp.c"])])
C("C26", "Arithmetic decision diagrams compute exactly",
  "Every operation on functions from assignments to numbers (pointwise arithmetic and comparison, thresholds, rounding, residues, if-then-else, quantification, composition in all its forms, permutation, matrix products and shortest paths, Walsh and other constructions, conversion from and to Boolean functions, minimum, maximum, minterm counts, comparison within a tolerance) returns exactly the function it is defined to be, equal functions are the same node, other stored functions stay unchanged, and no reference is lost or left behind, also when a reordering strikes inside.",
  ["inputs", "histories", "schedules"], HIST + ", with small integers, fractions and infinities as values", "a wrong value needs particular operands, cache contents and reorderings.",
  ["cudd/cuddAddApply.c", "cudd/cuddAddAbs.c", "cudd/cuddAddIte.c", "cudd/cuddCompose.c", "cudd/cuddMatMult.c", "cudd/cuddBridge.c"], [("pointwise operations", ["cudd/cuddAddApply.c", "cudd/cuddAddIte.c", "cudd/cuddAddNeg.c", "cudd/cuddAddInv.c", "cudd/cuddAddFind.c"]), ("quantification, substitution", ["cudd/cuddAddAbs.c", "cudd/cuddCompose.c"]), ("matrices", ["cudd/cuddMatMult.c", "cudd/cuddAddWalsh.c"]), ("conversion", ["cudd/cuddBridge.c"])],
  "Randomised; at most 8 variables.")
C("C27", "Zero-suppressed decision diagrams represent exactly their families of sets",
  "Every operation on families of sets (union, intersection, difference, if-then-else, subsets and changes by an element, containment, products, weak and exact division of covers, irredundant sums of products, complements, conversion from and to Boolean functions) returns exactly the family it is defined to be; counts, supports, path generators and evaluation are exact; equal families are the same node; every reordering method, on demand or striking inside an operation, preserves all stored families; no reference is lost or left behind.",
  ["inputs", "histories", "schedules"], HIST, "the zero-suppression rule, the reordering and the caches interact only in particular histories.",
  ["cudd/cuddZddSetop.c", "cudd/cuddZddFuncs.c", "cudd/cuddZddIsop.c", "cudd/cuddZddReord.c", "cudd/cuddZddSymm.c", "cudd/cuddZddGroup.c", "cudd/cuddZddLin.c"], [("set operations", ["cudd/cuddZddSetop.c", "cudd/cuddZddCount.c", "cudd/cuddZddMisc.c", "cudd/cuddZddUtil.c"]), ("covers", ["cudd/cuddZddFuncs.c", "cudd/cuddZddIsop.c"]), ("reordering", ["cudd/cuddZddReord.c", "cudd/cuddZddSymm.c", "cudd/cuddZddGroup.c"]), ("conversion", ["cudd/cuddZddPort.c"])],
  "Randomised; at most 8 elements.")
C("C28", "Interrupted diagram operations leave everything intact",
  "Whenever an operation of the decision-diagram library is cut short, at whatever step, by the application's termination request, a time limit or a limit on live nodes, it either still returns the result it would have returned, or returns no result together with the error code of that interruption; every other function keeps its node and its references, no reference, node or memory block is left behind or lost, and the operation gives its full result when it is tried again.",
  ["inputs", "fault_sequences"], "all operations on Boolean functions, functions to numbers and families of sets that can be interrupted, any operands and any step", "the tests never interrupt an operation, and each step has its own path for cleaning up.",
  ["cudd/cuddTable.c", "cudd/cuddCompose.c", "cudd/cuddDecomp.c", "cudd/cuddApprox.c", "cudd/cuddGenCof.c", "cudd/cuddMatMult.c", "cudd/cuddZddFuncs.c", "cudd/cuddZddIsop.c"], [("checks for interruptions", ["cudd/cuddInt.h", "cudd/cuddTable.c"]), ("failure paths of the recursions", ["cudd/cuddBddIte.c", "cudd/cuddBddAbs.c", "cudd/cuddCompose.c", "cudd/cuddDecomp.c", "cudd/cuddGenCof.c", "cudd/cuddZddFuncs.c"])],
  "Randomised; at most 8 variables; the interruption strikes at one step, three times in a row. The check for zddSupport, composition and other parts that never look at the clock is only that they still give their result.")
PROPS[-1]["tech"] = "property-based testing with fault injection: random operations on random diagrams, interrupted at chosen steps; the uninterrupted run as the oracle"
C("C29", "Diagram operations survive running out of memory",
  "Whenever one memory allocation is refused, at any point of an operation of the decision-diagram library, the operation either still returns the result it would have returned, or returns no result together with the error code for exhausted memory; every other function keeps its node and its references, no reference, node or memory block is left behind or lost, and the operation gives its full result when it is tried again. (Known: the subsetting operations by heavy branches and short paths do not.)",
  ["inputs", "fault_sequences"], "all operations on Boolean functions, functions to numbers and families of sets, any operands and any allocation", "the tests never run out of memory, and each allocation has its own path for cleaning up.",
  ["cudd/cuddTable.c", "cudd/cuddLCache.c", "cudd/cuddLevelQ.c", "cudd/cuddApprox.c", "cudd/cuddDecomp.c", "cudd/cuddGenCof.c", "cudd/cuddSat.c", "cudd/cuddSplit.c", "cudd/cuddUtil.c"], [("unique tables and caches", ["cudd/cuddTable.c", "cudd/cuddLCache.c", "cudd/cuddCache.c"]), ("auxiliary tables of the operations", ["cudd/cuddApprox.c", "cudd/cuddDecomp.c", "cudd/cuddGenCof.c", "cudd/cuddSat.c", "cudd/cuddSplit.c", "cudd/cuddUtil.c", "st/st.c"])],
  "Randomised; at most 8 variables; one allocation is refused per run, three runs in a row. The subsetting operations by heavy branches and short paths are excluded (known findings).")
PROPS[-1]["tech"] = "property-based testing with fault injection: random operations on random diagrams with one refused memory allocation; the unhindered run as the oracle"
