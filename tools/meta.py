#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/meta.py rewrites both."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, otext, why, files, mech, state=(), observe=(), note="", technique="deterministic simulation"):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=otext), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
             state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None), _note=note, _tech=technique))

TESTS = "The unit tests run the pool with mocks or a few fixed environments on whatever schedule the OS happens to pick; "
prop("C01", "A search runs exactly the requested number of trials",
     "When a search is asked for N trials and its time limit does not pass, exactly N complete trials are executed before the blocking call (or the later wait) returns, none of them starts before the request or after that return, and the root's visit count has grown by exactly N. "
     "This holds for every number of worker threads (more or fewer than N), for N of zero, for several searches in a row on the same pool, for several threads waiting at once, with or without a logger, and for every algorithm.",
     ["schedules", "configurations", "fault_sequences"], "all interleavings of the caller and 1-8 workers, spurious wakeups, stalled threads, clock jumps that stay inside the limit, sequences of run/wait calls, all algorithms and options",
     TESTS + "an over- or under-run needs two workers to interleave around the shared counter, or a wakeup to be missed.",
     ["src/thts.cpp", "include/thts.h"], [("work counter guarded by one lock", "src/thts.cpp worker_fn / work_left"), ("waiting for idle workers", "src/thts.cpp join")],
     [("trials_remaining", "trials not yet claimed", "include/thts.h"), ("num_threads_working", "workers inside a trial", "include/thts.h")], ["environment callbacks (contexts sampled, steps taken)", "root visit count"])
prop("C02", "Searches, waits, evaluation and shutdown always finish",
     "Every blocking call (running a search, waiting for it, running evaluation rollouts, switching the pool to a new problem, destroying the pool) returns after a bounded number of scheduling steps once its trials are done or its time limit has passed. "
     "No schedule, spurious wakeup, stalled thread or clock jump leads to a deadlock, a lost wakeup or endless waiting, with or without a transposition table and whatever the lock contention between trials.",
     ["schedules", "configurations", "fault_sequences"], "all interleavings, spurious wakeups, stalls, wall-clock jumps in both directions, time limits expiring at any instant, shared nodes with any parent order",
     TESTS + "a deadlock or lost wakeup shows only on particular interleavings of lock acquisitions, notifications and clock readings.",
     ["src/thts.cpp", "src/mc_eval.cpp", "src/algorithms/common/dp_chance_node.cpp", "src/algorithms/ments/ments_chance_node.cpp", "src/thts_chance_node.cpp"],
     [("notification whenever the last work is done or abandoned", "src/thts.cpp worker_fn, join, stop_workers"), ("children locked in a global order", "src/thts_chance_node.cpp, chance node backups")], observe=["return of the blocking calls", "simulator deadlock and step-bound detector"])
prop("C03", "Time limits are honoured",
     "A search with a time limit runs at most the requested number of trials; after the limit has passed each worker starts at most one further trial, the wait returns when the trials in flight finish, and no trial starts after that, whatever the wall clock does then. "
     "As long as time and trials remain (and the wall clock is not set back) the search does not stop early: if fewer trials than requested were run, at least the full time limit has elapsed.",
     ["schedules", "inputs", "fault_sequences"], "time limits from zero to hours relative to simulated trial cost, expiring at any step of any worker; wall-clock jumps; several limited searches in a row on one pool",
     "Tests with real clocks can only sample a few limits with slack; the interesting cases are expiry between two particular steps and limits left over from an earlier call.",
     ["src/thts.cpp", "include/thts.h"], [("elapsed time compared with the limit of the current call", "src/thts.cpp work_left"), ("left-over trials are dropped when the limit passes", "src/thts.cpp worker_fn, join")], observe=["start and end times of trials on the simulated clocks", "return time of the wait"])
prop("C04", "Multi-threaded use has no data race and no invalid memory access",
     "Running searches (any algorithm, with or without transposition table and logger), evaluation rollouts, the random service, pool reuse and pool shutdown with several threads never performs two conflicting unsynchronised accesses to the same memory. "
     "None of these operations reads or writes freed, unallocated or out-of-bounds memory, frees a block twice, or destroys or releases a lock that is held by or waited for by another thread.",
     ["schedules", "configurations"], "all interleavings at memory-access granularity of the scenarios of the other properties, happens-before race detection on every instrumented access, every heap block guarded",
     "The test binary is not built with a race detector, and a detector on real schedules sees only the interleavings the OS produces.",
     ["src/thts.cpp", "src/thts_chance_node.cpp", "src/thts_decision_node.cpp", "include/thts_manager.h", "src/mc_eval.cpp", "src/algorithms"], [("node locks", "include/thts_decision_node.h, include/thts_chance_node.h"), ("transposition table locks", "src/thts_chance_node.cpp"), ("random service lock", "include/thts_manager.h"), ("logging lock", "src/thts.cpp try_log")],
     observe=["instrumented loads and stores", "allocator"], technique="deterministic simulation with happens-before race detection and guarded heap")
prop("C05", "Every trial follows the select, sample, back-up protocol",
     "Each trial uses one context of its own for all its node operations and consists of: visit then select at a decision node, visit then sample at the chance node of the selected action, continuing at the decision node of the sampled outcome, a final visit of the last node, then one back-up per chosen chance and decision node from the bottom to the top. "
     "Each back-up receives exactly the rewards before it, the rewards from it onward ending in the value estimate of the last node, and their sums. "
     "At any time at most one thread operates on a given tree node, whatever the number of workers.",
     ["schedules", "configurations"], "all interleavings; user-defined node types plugged in through the extension interface; rewards depending on outcomes; with and without transposition table, depth limit, single-expansion mode",
     TESTS + "the protocol tests use one thread and one mocked tree.",
     ["src/thts.cpp", "include/thts_decision_node.h", "include/thts_chance_node.h"], [("selection phase", "src/thts.cpp run_selection_phase"), ("back-up phase", "src/thts.cpp run_backup_phase"), ("node lock around each operation", "src/thts.cpp")], observe=["calls received by probe nodes derived from the public node classes"])
prop("C06", "The search tree records exactly the trials that were run",
     "After any search, the visit count of every decision and chance node equals the number of trials that went through it (plus configured prior visits), and the tree contains exactly the actions and outcomes that trials took: no lost, duplicated or invented node. "
     "A trial ends only at a terminal state, at the depth limit or, when one node is added per trial, at the first decision node it newly creates; trials never continue past a terminal state or the depth limit, and in single-expansion mode every non-leaf outcome is the end of exactly one trial.",
     ["schedules", "configurations", "inputs"], "all interleavings of 1-8 workers over generated environments, all algorithms, depth limits, expansion modes, prior visits, several searches on one tree",
     TESTS + "lost updates and double creation need two trials inside the same node.",
     ["src/thts.cpp", "src/thts_decision_node.cpp", "src/thts_chance_node.cpp", "src/algorithms"], [("child creation under the node lock", "src/thts_decision_node.cpp, src/thts_chance_node.cpp"), ("end of selection", "src/thts.cpp should_continue_selection_phase"), ("visit counting", "visit functions of the algorithms")], observe=["public tree accessors", "pretty printed visit counts", "environment steps"])
prop("C07", "With a transposition table each (time, state) has exactly one node",
     "With the transposition table enabled, every path that reaches the same state at the same time step shares one and the same decision node, states or time steps that differ never share a node, and the shared node accumulates the visits and results of all trials from all its parents. "
     "This holds for any number of table locks and workers, for all trees that use one manager, whatever time steps they start at, and also when trees are released while others live on or a manager is used again for a new tree.",
     ["schedules", "configurations", "histories"], "all interleavings of workers creating the same node at once; 1-5 table locks; cyclic and layered environments; fresh or shared state objects; manager reuse; several live trees on one manager",
     "Tests look up the table from one thread; double insertion needs two workers to miss the same entry at once, expiry needs a released tree.",
     ["src/thts_chance_node.cpp", "include/thts_manager.h", "src/thts_types.cpp"], [("table keyed by (time step, observation) and split per lock", "src/thts_chance_node.cpp create_child_node_itfc"), ("weak entries", "include/thts_manager.h")], observe=["identity of child nodes reached through the public accessors"])
prop("C08", "UCT-style searches keep exact averages and choose by the confidence bound",
     "In UCT and PUCT the value of every decision and chance node is the arithmetic mean of the returns (from that node onward) of the trials through it, including the configured number of prior trials worth the node's value estimate; the empirical-value variants of the entropy-based searches keep the same means. "
     "Without a prior policy and random exploration no action of a node is repeated before all its actions were tried; apart from that and from the configured random exploration each selection maximises the documented upper confidence bound (bias, automatic bias, prior weights, opponent's sign in two-player games) over the statistics (visits count trials under way) at that moment.",
     ["schedules", "configurations", "histories"], "all interleavings for the averages and try-all rule; every selection of every single-worker history and nodes with trials under way for the bound; generated environments, bias, prior, power, pseudo-trial and opponent settings",
     TESTS + "means are lost by interleaved read-modify-write; the choice rule is tested on hand-made nodes only.",
     ["src/algorithms/uct/uct_decision_node.cpp", "src/algorithms/uct/uct_chance_node.cpp", "src/algorithms/uct/puct_decision_node.cpp", "src/algorithms/common/emp_node.cpp"], [("running average under the node lock", "backup functions"), ("confidence bound", "uct_decision_node.cpp select_action_ucb / fill_ucb_values")], observe=["printed node values", "actions taken in the environment"])
prop("C09", "Entropy-based searches keep values consistent with their children",
     "After any search with MENTS, RENTS, TENTS, DBMENTS, DENTS or EST every node's values satisfy the algorithm's own equations with respect to its children and visit counts: a chance node holds expected reward plus the visit-weighted mean of its children; a decision node holds the soft maximum (log-sum-exp, sparse maximum), the best child value, or value plus tempered policy entropy, of all its actions, using the configured temperature schedule, default or prior values for untried actions, and the opponent's sign in two-player games. "
     "Unexpanded nodes hold their value estimate. All these values are finite numbers.",
     ["schedules", "configurations", "histories"], "all interleavings, generated environments, temperatures and decay schedules, epsilon incl. 0, priors and shifts, default values, value-temperature schedules",
     TESTS + "a stale or half-updated value needs two back-ups to interleave; the equation tests use fixed small trees.",
     ["src/algorithms/ments", "src/algorithms/common", "src/algorithms/est"], [("soft back-ups", "ments_decision_node.cpp, ments_chance_node.cpp"), ("dynamic-programming and entropy back-ups", "dp_*_node.cpp, ent_*_node.cpp, dents_*.cpp"), ("temperature decay", "decaying_temp.cpp")], observe=["printed node values"])
prop("C10", "Recommendations are best by the configured criterion and change nothing",
     "At every node of a searched tree the recommended action is a valid action that is best by the configured criterion (highest value for the player to move, subject to the visit threshold, or most visited), with ties broken among the best only. "
     "Asking for recommendations any number of times changes neither the tree nor its values.",
     ["schedules", "configurations", "histories"], "trees produced by arbitrary multi-worker searches of all algorithms, including empty and partially expanded nodes, both players, thresholds",
     "Tests ask a handful of hand-made nodes; trees from interleaved searches, thresholds that no child passes and opponent nodes are combinations they do not reach.",
     ["src/algorithms/uct/uct_decision_node.cpp", "src/algorithms/ments/ments_decision_node.cpp", "src/algorithms/common/dp_decision_node.cpp", "src/algorithms/common/emp_node.cpp", "src/helper_templates.cc"], [("recommend functions", "uct/ments/dents/est decision nodes"), ("random tie breaking", "src/helper_templates.cc")], observe=["returned actions", "tree before and after"])
prop("C11", "The shared random service is a linearizable seeded stream",
     "However many threads draw from one random service, the draws they receive are together exactly the first draws of the stream fixed by the seed, each handed out once, and a draw that finishes before another begins comes earlier in the stream. "
     "Integers lie in the requested half-open range (also with negative bounds), reals in [0,1); without a fixed seed two services give different streams.",
     ["schedules", "inputs"], "all interleavings of 1-6 drawing threads, arbitrary ranges and seeds, integer, real and mixed draws",
     "Tests draw from one thread; a torn generator state needs two threads inside the generator.",
     ["include/thts_manager.h"], [("lock around the generators", "include/thts_manager.h get_rand_int, get_rand_uniform")], observe=["returned draws with invocation order"])
prop("C12", "A single-worker search with a fixed seed is reproducible",
     "Two searches with one worker, the same fixed seed, the same configuration and environment execute the same trials and build identical trees, values, recommendations and single-threaded evaluation results. "
     "This holds regardless of memory layout, contents of fresh memory, operating-system entropy, clock speed, thread scheduling, logging, unrelated searches running at the same time in the same process, and how the trials are split over calls.",
     ["schedules", "configurations", "fault_sequences"], "pairs of runs under different heap layouts, memory fill, entropy, clock rates, stalls, call splits, logger settings and an unrelated concurrent search; all algorithms",
     "A test runs in one process with one layout; dependence on addresses, uninitialised values, wall-clock or entropy only shows when those are changed on purpose.",
     ["include/thts_manager.h", "src/algorithms", "src/helper_templates.cc", "src/mc_eval.cpp"], [("all randomness drawn from the seeded service", "include/thts_manager.h"), ("hashing by value", "src/thts_types.cpp")], observe=["environment steps", "tree", "recommendations", "evaluation mean"])
prop("C13", "The log is complete, ordered and on schedule",
     "A logger attached to a pool gets one origin row at the start of the first search and then one row whenever the configured number of further trials has completed or the configured amount of search time has elapsed, over any number of searches on the pool, also when the intervals are changed between searches; rows never disappear. "
     "Row times and visit counts never decrease, times count only time spent searching, and each row shows the root's counts and values as of that moment. "
     "The written table has a header and one row per entry, with the algorithm-specific columns of the logger in use.",
     ["schedules", "configurations", "histories"], "1-8 workers finishing trials in any order, deltas by trials and by time, several searches with pauses between them, time-limited searches, forward clock jumps",
     TESTS + "row cadence under concurrent completion and over several calls depends on the order of trial completions.",
     ["src/thts_logger.cpp", "src/thts.cpp", "src/algorithms/uct/uct_logger.cpp", "src/algorithms/ments/ments_logger.cpp", "src/algorithms/ments/dbments_logger.cpp"], [("logging under a lock after each trial", "src/thts.cpp try_log"), ("runtime accumulated per search", "src/thts.cpp try_finish_run, src/thts_logger.cpp")], observe=["written log"])
prop("C14", "Evaluation runs the requested rollouts and reports their statistics",
     "Evaluating a tree runs exactly the requested number of rollouts for any number of threads; each starts in the initial state, follows the tree's recommendation while it is inside the tree and takes uniformly random valid actions outside, and ends at a terminal state or after exactly the maximum number of steps. "
     "The reported mean and standard deviation are the mean and sample standard deviation of the returns of all rollouts so far, also when the tree was searched further between evaluations or several evaluators work at once; evaluation does not change the tree.",
     ["schedules", "configurations", "inputs"], "all interleavings of 1-6 rollout threads over trees of all algorithms, cyclic environments, maximum lengths from 0, repeated evaluations",
     "Tests evaluate with one thread or a fixed environment; rollouts sharing a policy position or context only show when threads interleave.",
     ["src/mc_eval.cpp", "include/mc_eval.h"], [("a policy copy per thread", "src/mc_eval.cpp run_rollouts"), ("returns collected under a lock", "src/mc_eval.cpp run_rollout")], observe=["environment steps of rollouts", "reported statistics"])
prop("C15", "A pool can be pointed at a new problem without mixing the two",
     "Switching an idle pool to a new problem (manager, root and logger) always succeeds; while requested trials remain it is refused with an error and nothing changes. "
     "After a switch every trial of the old problem has completed, no trial mixes the two problems, no trial of the new problem runs unasked, and each problem's tree and log record exactly the trials requested for it.",
     ["schedules", "histories"], "any sequence of searches (blocking, non-blocking, time-limited) and switches between 2-3 problems of different algorithms, at any moment of the running search",
     "Tests switch at most once on an idle pool; the damage needs a switch while the last trials are still in flight.",
     ["src/thts.cpp", "include/thts.h"], [("switch waits for trials in flight", "src/thts.cpp set_new_env")], observe=["environment steps per problem", "trees", "logs", "errors"])
prop("C16", "Shutdown at any moment is clean",
     "Destroying the pool at any moment, idle or in the middle of a search, waits for the trials in flight, abandons the rest, ends all worker threads, and leaves a tree that is consistent with the trials that were completed. "
     "When pool, tree, manager and environment are released, all memory they allocated has been freed.",
     ["schedules", "crash_points", "configurations"], "destruction at any scheduling step of a running search, any number of workers, trials left and time limits",
     "Tests destroy idle pools; shutdown in the middle of a search depends on where each worker is.",
     ["src/thts.cpp", "include/thts_decision_node.h", "include/thts_chance_node.h"], [("stop flag, notification and join", "src/thts.cpp stop_workers"), ("weak references to parents", "include/thts_chance_node.h, include/thts_decision_node.h")], observe=["live threads and heap blocks in the simulator", "tree", "trial history"])
prop("C17", "Sampling succeeds on every legal draw and follows the given weights",
     "Sampling from a weighted set (normalised or not), from the distribution objects (including after weights were updated or outcomes added) and choosing a random best key succeed for every legal value of the random service, including the extremes of its range, and never return a value that is absent or has zero weight. "
     "The frequency of each value follows its weight, and searches driven by such extreme draws still run to completion over legal outcomes only.",
     ["inputs", "fault_sequences"], "weights over 26 orders of magnitude, zero weights, single outcomes, extreme draws (0, largest value below 1) injected at any call; 1500-draw frequency tests with 7.5 sigma bounds",
     "Tests use a few well-behaved distributions with ordinary draws; rounding failures need draws within 1e-16 of the boundary.",
     ["src/helper_templates.cc", "src/distributions", "include/distributions"], [("cumulative-mass sampling", "src/helper_templates.cc"), ("alias tables", "src/distributions/categorical_distribution.cc")], observe=["sampled values"], technique="deterministic simulation with injected random draws")
prop("C18", "Refused threads and failed allocations are reported cleanly",
     "If the system refuses to start a worker or rollout thread, or an allocation made by the calling thread fails, then constructing the pool, requesting a search or running the evaluation either reports an error to the caller or performs the work completely; the process is not terminated and no lock stays held. "
     "When an error is reported no started thread or running trial is left behind, no memory is leaked, and the same pool, tree, manager and evaluator can be used again afterwards.",
     ["fault_sequences", "schedules"], "any subset of thread starts failing and any single allocation of the calling thread failing, under all interleavings with the threads already started",
     "Tests cannot make the operating system refuse a thread or memory on demand.",
     ["src/thts.cpp", "src/mc_eval.cpp"], [("cleanup on failed start", "src/thts.cpp constructor, src/mc_eval.cpp run_rollouts")], observe=["exceptions", "live threads", "live heap blocks", "trial history"])

prop("C19", "Search draws actions and outcomes from the documented distributions",
     "At every node of every searched tree the entropy-based algorithms draw the next action with exactly the probabilities of their documented search policy: the exponential, relative-entropy or sparse policy of the current action values at the current temperature, mixed with the prior policy and with uniform exploration whose weight follows the configured epsilon and the node's visit count. "
     "UCT and PUCT choose among the maximisers of the confidence bound, except for uniform random actions with the configured exploration probability. "
     "Outcomes of an action are drawn with the environment's transition probabilities. With RENTS the value of a node weighs its actions by the distribution from which the parent selected.",
     ["configurations", "histories", "inputs"], "fresh roots, nodes of trees built by 1-8 interleaved workers and every step of single-worker histories; temperatures, decay, epsilon (root and inner nodes), priors incl. zero weights, shifts, opponent nodes",
     "Unit tests compute the policy on mocked nodes with a few numbers; a wrong probability in a searched tree leaves every test green and only changes how often an action is taken.",
     ["src/algorithms/ments/ments_decision_node.cpp", "src/algorithms/ments/rents/rents_decision_node.cpp", "src/algorithms/ments/tents/tents_decision_node.cpp", "src/algorithms/ments/dents/dents_decision_node.cpp", "src/algorithms/est/est_decision_node.cpp", "src/algorithms/uct/uct_decision_node.cpp", "src/helper_templates.cc"],
     [("search policy weights and mixture", "ments_decision_node.cpp compute_action_weights / compute_action_distribution and overrides"), ("random exploration", "uct_decision_node.cpp select_action"), ("outcome sampling", "chance nodes' sample_observation")],
     observe=["actions taken and outcomes met in the environment", "selection calls on quiescent nodes with scripted draws"], technique="deterministic simulation with scripted random draws and reference policies",
     note="Exact where one selection consumes one uniform draw (the unit interval is swept on a grid and the measure of each action compared with the reference policy); otherwise a frequency test whose bounds are set for a false-alarm probability below 1e-11 per test, and a martingale bound over single-worker histories. Evidence, not proof.")
prop("C20", "Fully explored problems are solved exactly",
     "When a search has tried every action of every reachable node of a deterministic problem, the root's reported values are the solution of the problem: the optimal (for two players: minimax) value for the dynamic-programming back-ups, and the soft or sparse optimal value at the configured temperature for MENTS and TENTS. "
     "The recommended action is then an optimal one, and evaluating the recommended policy returns exactly the optimal value; on one-step problems UCT's recommendation is optimal as well.",
     ["schedules", "configurations", "inputs"], "generated deterministic one- and two-player problems, depth limits and heuristics, all entropy-based algorithms, 1-8 workers under all interleavings, searches split over several calls",
     TESTS + "an end-to-end answer depends on selection, expansion, back-up order and recommendation together, which are tested one by one with mocks.",
     ["src/algorithms/common", "src/algorithms/ments", "src/algorithms/est", "src/algorithms/uct", "src/mc_eval.cpp"], [("back-ups to the root", "src/thts.cpp run_backup_phase"), ("recommendation", "recommend functions")], observe=["root values", "recommended actions", "evaluation mean"],
     technique="deterministic simulation with a backward-induction reference")
prop("C21", "Partially observable problems are searched and evaluated by observation",
     "In an environment whose observations are objects of their own, with user-defined nodes: a chance node has exactly one child per distinct observation sampled there (with the transposition table one node per time step and observation), every trial continues at the node of the observation it drew, and each reward is the environment's reward for the node's state, the action and that observation. "
     "Evaluation advances the hidden state by the transition distribution, draws the observation from the environment's observation distribution for the action and the new hidden state, is rewarded by it and follows the tree by it, taking random actions valid in the hidden state once outside the tree. Fully observable environments observe exactly their state.",
     ["schedules", "configurations", "inputs"], "generated hidden-state problems with 1-6 aliased observations, observation hashes that collide, 1-8 workers, transposition tables, depth limits, both expansion modes",
     "No test uses an environment whose observations differ from its states, so code that confuses the two passes them all.",
     ["src/thts.cpp", "src/thts_chance_node.cpp", "src/thts_env.cpp", "src/mc_eval.cpp"], [("child by observation", "src/thts_chance_node.cpp create_child_node_itfc"), ("reward of the trial step", "src/thts.cpp run_selection_phase"), ("default observation sampling", "src/thts_env.cpp"), ("rollout and policy update", "src/mc_eval.cpp")],
     observe=["node operations, hidden transitions and rewards recorded by the environment and the nodes", "the tree through its interface", "evaluation results"])
prop("C22", "A slow trial holds up no other worker",
     "While trials (or rollouts) are stuck in a slow environment, in the reward function or when their context is made, every other worker keeps working: with fewer slow trials than workers all other requested trials start and finish in the meantime, and with several evaluation threads only the rollouts assigned to the slow thread wait. "
     "A non-blocking search request returns without waiting for any trial, and searches of unrelated problems in the same process are not delayed.",
     ["schedules", "fault_sequences", "configurations"], "any subset of up to workers-1 trials stalled for a practically unlimited time at their first step or at their beginning, 2-8 workers, all algorithms, tables, loggers, all interleavings",
     "Tests run fast environments, where serialised and parallel searches give the same results; that workers really run in parallel cannot be seen in any result they assert.",
     ["src/thts.cpp", "src/mc_eval.cpp"], [("trial outside the pool's lock", "src/thts.cpp worker_fn"), ("environment step outside node locks", "src/thts.cpp run_selection_phase"), ("rollout threads", "src/mc_eval.cpp run_rollouts")],
     observe=["start and end of each trial on the simulated clock", "return of calls"])

NA = [
  dict(id="N01", title="Value semantics of states, actions and observations", statement="Equality and hashing of the built-in state, action and observation types agree with their contents, and equal values have equal hashes.",
       why="A pure function of its arguments."),
  dict(id="N02", title="Context map returns what was stored", statement="A value stored in a trial context under a key is returned unchanged for that key until replaced or erased.",
       why="A single-owner map used by one thread at a time."),
  dict(id="N03", title="Printed trees show the tree to the requested depth", statement="The printed form of a tree lists each node's value and visits down to the requested depth.",
       why="A pure function of a quiescent tree."),
]
NAREASON = {
  "N01": "pure functions of their arguments: no schedule, clock, fault or I/O for a simulation to decide; their effect on sharing (C07) and reproducibility (C12) is checked there",
  "N02": "a plain map owned by one trial: nothing concurrent, timed or faulty in it; context lifetime and per-trial ownership are part of C05",
  "N03": "pure formatting of a quiescent tree; values and counts it prints are the observation point of C06-C10, the layout itself has no nondeterminism",
}
def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
        for n in NA:
            f.write(json.dumps(dict(id=n["id"], title=n["title"], statement=n["statement"], quantifier=dict(over=["inputs"], text="all values"), why_tests_cant=n["why"] + " Unit tests sample it; no schedule or fault enters.",
                    anchors=dict(files={"N01": ["src/thts_types.cpp"], "N02": ["src/thts_env_context.cpp"], "N03": ["src/thts_decision_node.cpp", "src/thts_chance_node.cpp"]}[n["id"]], mechanism=[], hook_needed=None))) + "\n")
    m = dict(version=1, setup_cmd="python3 check.py build",
             hooks=dict(guard="none", enable="no hooks in /repo: the simulator interposes pthread, clock, random-device and allocation entry points at link time and uses compiler instrumentation (-fsanitize=thread callbacks implemented by /verif/sim/rt.cpp)", source_commits=[]),
             checks=[dict(property=p["id"], quick_cmd=f"python3 check.py check {p['id']} --tier quick", thorough_cmd=f"python3 check.py check {p['id']} --tier thorough", technique=p["_tech"], level="exploration",
                          level_note=p["_note"] or "Seeded search over schedules, faults, configurations and environments of the real code under a deterministic scheduler; every violation is re-executed, minimised and replayed in a fresh process before it is reported. Evidence, not proof; sequentially consistent interleavings only.") for p in P],
             not_applicable=[dict(property=k, reason=v) for k, v in NAREASON.items()])
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
    design()
def design():
    """fills the generated tables of DESIGN.md"""
    import glob, re
    p = os.path.join(HERE, "DESIGN.md"); d = open(p).read()
    def put(k, body):
        nonlocal d
        d = re.sub(rf"<!-- {k} -->.*<!-- /{k} -->", lambda m: f"<!-- {k} -->\n{body}\n<!-- /{k} -->", d, flags=re.S)
    fx = [re.match(r"fixed: property=(\S+) (\S+) (.*)", l) for l in open(os.path.join(HERE, "known_findings.txt"))]
    put("FIXES", "| property | commit | what failed |\n|---|---|---|\n" + "\n".join(f"| {m[1]} | {m[2]} | {m[3]} |" for m in fx if m))
    res = json.load(open(os.path.join(HERE, "tools", "seed_results.json"))) if os.path.exists(os.path.join(HERE, "tools", "seed_results.json")) else {}
    rows = []
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        i = os.path.basename(os.path.dirname(f)); m = json.load(open(f)); r = res.get(i, {})
        rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {r.get('caught', '?')} |")
    put("SEEDS", "| id | property | breaks | caught by its property's quick check |\n|---|---|---|---|\n" + "\n".join(rows))
    mp = os.path.join(HERE, "tools", "mut_results.md")
    if os.path.exists(mp): put("MUTS", open(mp).read().strip())
    open(p, "w").write(d)
if __name__ == "__main__": main()
