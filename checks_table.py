"""What each property's check runs, for how long, and what its evidence says."""
ENG_REAL = ['the planner: option parsing, input parser, preprocessing, progression search, heuristics, visited lists, symbolic search, translations, SAT planner (all compiled from /repo/src)', 'CUDD (from /repo/src/symbolic_search/cudd-3.0.0)', 'libstdc++ and libc']
ENG_STUB = ['heap (seeded placement, fill and reuse)', 'clock, CPU time, rusage', 'rand/srand', 'read and write system calls (chunking, EINTR, errors)']
ENG_ASSUME = ['the reference semantics of the simulator (its own parser, plan checker and exhaustive solver) are right', 'sampling: seeds that were not run decide nothing']
TABLE = {}
def P(id, sim, quick, thorough, rule, level='exploration', real=ENG_REAL, stub=ENG_STUB, assume=ENG_ASSUME, **k):
    TABLE[id] = dict(sim=sim, quick=quick, thorough=thorough, rule=rule, level=level, real=real, stub=stub, assume=assume, **k)
P('E01', 'engine', 25, 600, 'a case is a generated ground HTN problem, a search configuration and a simulated environment; non-trivial: the planner reported a plan, which was checked')
P('E02', 'engine', 25, 600, 'a case is a generated ground HTN problem, a search configuration and a simulated environment; non-trivial: the planner gave a definite verdict and the exhaustive reference solver knew the answer')
P('E03', 'engine', 25, 600, 'a case is a generated ground HTN problem with an optimal search configuration (measure: action costs, plan length or both; a weight); non-trivial: a plan was reported and the reference optimum of that measure is known')
P('E05', 'engine', 30, 600, 'a case is a problem, a configuration and an environment, run once in a plain environment and once in the drawn one; non-trivial: both runs ended within the allocation budget')
P('E06', 'engine', 25, 600, 'a case is a problem whose search goes on for ever or for long, a configuration with a time limit and a simulated clock (its speed, its jumps); non-trivial: the run reported a time-out, and the search nodes generated after the limit were counted')
P('E07', 'engine', 25, 600, 'a case is a problem, a configuration of one of the planning algorithms and a memory fault (single, repeated or lasting allocation failures, a memory cap, a node limit of the decision diagrams); non-trivial: the fault struck', stub=ENG_STUB + ['the SAT solver and the classical planner process'])
P('E08', 'engine', 20, 600, 'a case is a problem file that is cut off at a drawn byte or cannot be read from a drawn call on, and a configuration of one of the planning algorithms; non-trivial: the fault struck')
P('E09', 'engine', 40, 600, 'a case is a generated problem, a translation configuration and a schedule of the simulated classical planner; non-trivial: a plan came back and was checked, or the reference solver knows that none exists', stub=ENG_STUB + ['the classical planner process behind system()'])
P('E10', 'engine', 25, 600, 'a case is a problem, a translation configuration and a classical planner that fails at a drawn launch: wrong exit status, death by signal, torn, empty or missing plan, not installed, stale files; non-trivial: the fault struck', stub=ENG_STUB + ['the classical planner process behind system()'])
P('E11', 'engine', 35, 600, 'a case is a generated problem, a configuration of the SAT planner and a simulated SAT solver (its choices of models, its interruptions); non-trivial: a plan was printed and checked, or the solver was interrupted', stub=ENG_STUB + ['the SAT solver (a small CDCL solver with seeded decisions behind the IPASIR interface)'])
P('E12', 'engine', 35, 600, 'a case is a generated problem, a configuration of the SAT planner and a simulated SAT solver; non-trivial: the reference solver knows the answer and it was compared', stub=ENG_STUB + ['the SAT solver (a small CDCL solver with seeded decisions behind the IPASIR interface)'])
P('E13', 'engine', 30, 600, 'a case is a generated totally ordered problem, a table and cache size of the decision-diagram manager and a reordering method; non-trivial: the symbolic planner gave a plan or a verdict that was compared with the reference solver')
P('E14', 'engine', 25, 600, 'a case is a problem that is exported (as HDDL or SAS+) or planned for while the disk is full, fails or takes the output in pieces; non-trivial: the run ended, and what it wrote was compared with the problem or with the run without faults', stub=ENG_STUB + ['the write system calls', 'the SAT solver and the classical planner process'])
P('E15', 'engine', 20, 600, 'a case is a problem and a simulated user: choices, words that are no choices, the end of the input; non-trivial: at least one choice was made, and every menu was compared with the reference task network', stub=ENG_STUB + ['the user'])
P('E21', 'engine', 25, 600, 'a case is a problem, a configuration and an environment; non-trivial: at least one step of the search was compared with the reference semantics')
P('E22', 'engine', 25, 600, 'a case is a problem, a configuration and an environment; non-trivial: the search discarded at least one node as a duplicate and the discarded node was compared with all nodes inserted before')
P('E23', 'engine', 25, 600, 'a case is a problem, a configuration and an environment; non-trivial: a node that was given up, or an estimate, was compared with the reference solver')
CU_REAL = ['the decision-diagram library: manager, unique tables, computed table, garbage collection, reordering, BDD, ADD and ZDD operations, group trees, dddmp file formats (all compiled from /repo/src/symbolic_search/cudd-3.0.0)', 'libc']
CU_STUB = ['heap (seeded placement, fill and reuse; chosen allocations fail)', 'clock and CPU time', 'random numbers', 'files (simulated disks: full, failing, short, truncated)', 'termination callback and time-out handlers']
CU_ASSUME = ['the truth tables and value tables of the reference model are right (at most 10 variables)', 'sampling: seeds that were not run decide nothing']
CASE = 'a case is a history of operations on one manager, with its table sizes, order, reordering, limits and faults drawn from the seed; '
def C(id, quick, what): P(id, 'cudd', quick, 600, CASE + what, real=CU_REAL, stub=CU_STUB, assume=CU_ASSUME, min=200)
C('C01', 20, 'non-trivial: at least one operation was answered and its answer compared with the truth tables')
C('C02', 20, 'non-trivial: at least one operation was answered and its answer compared with the value tables')
C('C03', 20, 'non-trivial: at least one operation was answered and its answer compared with the families of sets')
C('C04', 25, 'non-trivial: an allocation failed, and afterwards everything that was held was compared with the reference model')
C('C05', 25, 'non-trivial: a reordering took place, and everything that was held was compared with the reference model')
C('C07', 20, 'non-trivial: an operation was refused because of a limit, or reordered or collected under one, and the manager was checked afterwards')
C('C08', 20, 'non-trivial: the whole manager was checked: every node in its place, every reference count explained by what is held')
