import os, json, subprocess, shutil, sys
R="/tmp/seedgen/repo"
S=[]
def s(id, prop, edits, demo, needs, breaks, flags="-fno-access-control"): S.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,flags=flags))
T="src/thts.cpp"; MG="include/thts_manager.h"; EV="src/mc_eval.cpp"
s("uct-average-by-visits","C08",[("src/algorithms/uct/uct_chance_node.cpp","/ (double) num_backups;","/ (double) num_visits;")],r'''
#include "toy.h"
// Two trials visit the same chance node before either of them backs up.
int main() {
    auto env = make_shared<Toy>(); Meet meet; env->on_reward = [&](int s, int) { if (s == 2) meet(2); };
    UctManagerArgs a(env); a.mcts_mode = false; a.seed = 7; auto m = make_shared<UctManager>(a);
    auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    { ThtsPool pool(m, root, 2); pool.run_trials(2); }
    double v = root->get_child_node(Toy::ac(0))->avg_return;
    CHECK(fabs(v - 3.0) < 1e-9, "every trial returned 3 but the chance node's average is %g", v);
    printf("ok\n"); return 0;
}
''',"two trials in flight through the same chance node when the first of them backs up","chance node averages in UCT divide by visits instead of back-ups, so they are too small when trials overlap")
s("expansion-read-before-lock","C06",[(T,"            chance_node->lock();\n            int pre_visit_children = chance_node->get_num_children();\n","            int pre_visit_children = chance_node->get_num_children();\n            chance_node->lock();\n")],r'''
#include "toy.h"
// One trial is creating the child of the only chance node (slowly) while a second trial arrives there.
int main() {
    auto env = make_shared<Toy>(); atomic<int> once(0); env->nact = [&](int s) { if (s == 1 && once++ == 0) sleep_ms(400); return 1; };
    UctManagerArgs a(env); a.mcts_mode = true; a.seed = 7; a.epsilon_exploration = 1.0; auto m = make_shared<UctManager>(a);
    auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    { ThtsPool pool(m, root, 2); pool.run_trials(2); }
    auto n1 = root->get_child_node(Toy::ac(0))->get_child_node_itfc(Toy::st(1));
    CHECK(n1->get_num_visits() == 2, "visits %d", n1->get_num_visits());
    CHECK(n1->get_num_children() == 1, "the second trial stopped at a node it did not create");
    printf("ok\n"); return 0;
}
''',"a second trial reaches a chance node while the first is creating its child","a trial that did not create a node ends as if it had, so single-expansion trials end early")
s("int-draws-unlocked","C11",[(MG,"                std::lock_guard<std::mutex> lg(rng_lock);\n                int len = int_distr(int_gen) % (max_excluded - min_included);","                int len = int_distr(int_gen) % (max_excluded - min_included);")],r'''
#include "toy.h"
#include <algorithm>
// Concurrent integer draws must together be exactly the first draws of the seeded stream.
int main() {
    for (int round = 0; round < 5; round++) {
        const int K = 4, N = 1000000; RandManager shared(11), ref(11); vector<vector<int>> got(K); vector<thread> t; atomic<int> ready(0);
        for (int k = 0; k < K; k++) t.emplace_back([&, k] { got[k].reserve(N); ready++; while (ready < K) {} for (int i = 0; i < N; i++) got[k].push_back(shared.get_rand_int(0, 1 << 30)); });
        for (auto& x : t) x.join();
        vector<int> all, want; for (auto& g : got) all.insert(all.end(), g.begin(), g.end()); for (int i = 0; i < K * N; i++) want.push_back(ref.get_rand_int(0, 1 << 30));
        sort(all.begin(), all.end()); sort(want.begin(), want.end());
        CHECK(all == want, "concurrent draws are not the draws of the seeded stream");
    }
    printf("ok\n"); return 0;
}
''',"two threads drawing integers at the same time","integer draws are no longer protected: draws are duplicated or lost and the generator state is corrupted")
s("rollouts-lost-remainder","C14",[(EV,"        for (int i=thread_id; i < total_rollouts; i+=num_threads) {","        int share = total_rollouts / num_threads + (thread_id + 1 < total_rollouts % num_threads ? 1 : 0);\n        for (int i=0; i < share; i++) {")],r'''
#include "toy.h"
int main() {
    auto env = make_shared<Toy>(); UctManagerArgs a(env); a.seed = 7; auto m = make_shared<UctManager>(a);
    auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    { ThtsPool pool(m, root, 1); pool.run_trials(10); }
    EvalPolicy pol(root, env, *m);
    for (int th = 1; th <= 5; th++) for (int n = 0; n <= 12; n++) { MCEvaluator ev(env, pol, 10, *m); ev.run_rollouts(n, th); CHECK((int)ev.sampled_returns.size() == n, "%d rollouts with %d threads: %zu were run", n, th, ev.sampled_returns.size()); }
    printf("ok\n"); return 0;
}
''',"a number of rollouts that is not a multiple of the number of threads","one rollout of the remainder is never run")
s("soft-weights-underflow","C09",[("src/algorithms/ments/rents/rents_decision_node.cpp","normalisation_term = numeric_limits<double>::lowest();","normalisation_term = numeric_limits<double>::min();")],r'''
#include "toy.h"
// All action values are far below zero relative to the temperature.
int main() {
    auto env = make_shared<Toy>(); env->nact = [](int) { return 2; }; env->rew = [](int, int a, int) { return -1000.0 - a; }; env->sink = [](int s) { return s >= 1; };
    MentsManagerArgs a(env); a.seed = 7; a.temp = 0.5; a.epsilon = 0.5; a.default_q_value = -1000.0; auto m = make_shared<MentsManager>(a);
    auto root = make_shared<RentsDNode>(m, env->get_initial_state_itfc(), 0, 0);
    try { ThtsPool pool(m, root, 1); pool.run_trials(0); ThtsEnvContext c; root->visit_itfc(c); auto act = root->select_action_itfc(c); auto cn = root->get_child_node(act); cn->visit_itfc(c); cn->sample_observation_itfc(c); cn->backup_soft(); root->backup_soft(c); } catch (exception& e) { CHECK(false, "%s", e.what()); }
    CHECK(isfinite(root->soft_value) && root->soft_value > -1002 && root->soft_value < -998, "soft value of the root is %g", root->soft_value);
    printf("ok\n"); return 0;
}
''',"action values that are all strongly negative compared with the temperature","RENTS soft maxima underflow: the value becomes minus infinity and the policy not a number")
s("opponent-empirical-recommendation","C10",[("src/algorithms/common/emp_node.cpp","                avg_returns[action] = opp_coeff * child.avg_return;","                avg_returns[action] = child.avg_return;")],r'''
#include "toy.h"
// The opponent is to move at the root and no action has enough visits for the threshold.
int main() {
    auto env = make_shared<Toy>(); env->nact = [](int) { return 2; }; env->rew = [](int, int a, int) { return a ? 5.0 : -5.0; }; env->sink = [](int s) { return s >= 1; };
    DentsManagerArgs a(env); a.seed = 7; a.is_two_player_game = true; a.use_dp_value = false; a.recommend_most_visited = false; a.recommend_visit_threshold = 1000; a.epsilon = 50.0; auto m = make_shared<DentsManager>(a);
    auto root = make_shared<DentsDNode>(m, env->get_initial_state_itfc(), 0, 1);
    { ThtsPool pool(m, root, 1); pool.run_trials(40); }
    ThtsEnvContext c; int act = Toy::aid(*root->recommend_action_itfc(c));
    CHECK(act == 0, "the opponent is recommended the action that is best for the other player");
    printf("ok\n"); return 0;
}
''',"a two-player game, an opponent node, empirical values and no action that reached the visit threshold","the recommendation at opponent nodes below the threshold is the worst action for the player to move")
s("table-skips-leaves","C07",[("src/thts_chance_node.cpp","        dmap[dnode_id] = child_node;","        if (!child_node->is_leaf()) dmap[dnode_id] = child_node;")],r'''
#include "toy.h"
int main() {
    auto env = make_shared<Toy>(); env->nact = [](int) { return 2; }; env->trans = [](int s, int a) { return vector<pair<int,double>>{{s == 0 ? 1 + a : 3, 1.0}}; };
    UctManagerArgs a(env); a.seed = 7; a.use_transposition_table = true; a.mcts_mode = false; auto m = make_shared<UctManager>(a);
    auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    { ThtsPool pool(m, root, 1); pool.run_trials(30); }
    vector<shared_ptr<ThtsDNode>> seen; for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) { auto d = root->get_child_node_itfc(Toy::ac(x))->get_child_node_itfc(Toy::st(1 + x)); seen.push_back(d->get_child_node_itfc(Toy::ac(y))->get_child_node_itfc(Toy::st(3))); }
    for (auto& d : seen) CHECK(d == seen[0] && d->get_num_visits() == 30, "the same state at the same time has several nodes");
    printf("ok\n"); return 0;
}
''',"a terminal (or depth limit) state reached over two paths with the transposition table on","leaf nodes are duplicated instead of shared")
s("switch-before-wakeup","C15",[(T,"        if (work_left()) {\n            throw runtime_error(\"Tried to change","        if (work_left() && num_threads_working > 0) {\n            throw runtime_error(\"Tried to change")],r'''
#include "toy.h"
// The switch is requested between the request for trials and the moment a worker wakes up.
int main() {
    auto env = make_shared<Toy>(); env->on_reward = [](int, int) { sleep_ms(1); };
    UctManagerArgs a(env); a.seed = 7; auto m = make_shared<UctManager>(a);
    for (int i = 0; i < 400; i++) {
        auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0), other = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
        ThtsPool pool(m, root, 1); pool.run_trials(0); bool refused = false;
        pool.run_trials(1000, 1e9, false); try { pool.set_new_env(m, other, nullptr); } catch (exception&) { refused = true; }
        CHECK(refused, "the switch was accepted although 1000 requested trials remained");
    }
    printf("ok\n"); return 0;
}
''',"switching right after a request for trials, before any worker has woken up","the switch is accepted and the requested trials are dropped silently")
s("start-time-kept","C03",[(T,"        start_time = std::chrono::system_clock::now();\n        max_run_time","        if (trials_remaining <= 0) start_time = std::chrono::system_clock::now();\n        max_run_time"),(T,"        trials_remaining = max_trials;\n",""),(T,"        max_run_time =  std::chrono::duration<double>(max_time);\n","        max_run_time =  std::chrono::duration<double>(max_time);\n        trials_remaining = max_trials;\n")],r'''
#include "toy.h"
// A new timed search is requested while the previous one is still running.
int main() {
    auto env = make_shared<Toy>(); env->on_reward = [](int, int) { sleep_ms(5); };
    UctManagerArgs a(env); a.seed = 7; auto m = make_shared<UctManager>(a); auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    ThtsPool pool(m, root, 2); pool.run_trials(1 << 30, 2.0, false); sleep_ms(1200);
    auto t0 = chrono::system_clock::now(); pool.run_trials(1 << 30, 1.5, true); double d = chrono::duration<double>(chrono::system_clock::now() - t0).count();
    CHECK(d >= 1.45, "a search limited to 1.5 s stopped after %.2f s with trials remaining", d);
    printf("ok\n"); return 0;
}
''',"a second timed search requested while the first is still running","the time limit of the second search is measured from the start of the first, so it stops early")
s("log-under-two-locks","C02",[(T,"            if (logger->should_log()) {\n","            lock_guard<mutex> work_lg(work_left_lock);\n            if (logger->should_log() && num_trials > 0) {\n")],r'''
#include "toy.h"
// The caller requests further searches while workers are logging.
int main() {
    auto env = make_shared<Toy>(); UctManagerArgs a(env); a.seed = 7; auto m = make_shared<UctManager>(a); auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    atomic<bool> done(false); thread dog([&] { for (int i = 0; i < 600 && !done; i++) sleep_ms(100); CHECK(done, "a search request never returned"); });
    { auto lg = make_shared<UctLogger>(); lg->set_trials_delta(1000000); ThtsPool pool(m, root, 4, lg); for (int i = 0; i < 3000; i++) { pool.run_trials(50, 1e9, false); if (i % 16 == 0) this_thread::yield(); } pool.join(); }
    done = true; dog.join(); printf("ok\n"); return 0;
}
''',"a search requested while a worker of the running search is between the two locks in logging","lock order inversion between the pool's work lock and its logging lock: deadlock")
s("rand-int-global","C12",[(MG,"                int len = int_distr(int_gen) % (max_excluded - min_included);","                static std::mt19937 shared_gen(42);\n                int len = int_distr(rng_lock.native_handle() && max_excluded - min_included > 2 ? shared_gen : int_gen) % (max_excluded - min_included);")],r'''
#include "toy.h"
static string go() {
    auto env = make_shared<Toy>(); env->nact = [](int) { return 4; }; env->rew = [](int s, int a, int) { return (double)((s * 7 + a * 3) % 5); };
    UctManagerArgs a(env); a.seed = 7; auto m = make_shared<UctManager>(a); auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    { ThtsPool pool(m, root, 1); pool.run_trials(60); } return root->get_pretty_print_string(3);
}
int main() { string x = go(); for (int i = 0; i < 5; i++) CHECK(go() == x, "the same seeded search gave a different tree"); printf("ok\n"); return 0; }
''',"a second seeded search in the same process, at nodes with more than two choices","integer draws come partly from a generator shared by all managers of the process, so a seed no longer fixes a search")
s("alias-threshold-tie","C17",[("src/distributions/categorical_distribution.cc","alias_entry.threshold > rand_manager.get_rand_uniform()","alias_entry.threshold >= rand_manager.get_rand_uniform()")],r'''
#include "toy.h"
#include "distributions/categorical_distribution.h"
struct Zero : public RandManager { int i = 0; Zero() : RandManager(5) {} double get_rand_uniform() override { return 0.0; } int get_rand_int(int lo, int hi) override { return lo + (i++ % (hi - lo)); } };
int main() {
    auto d = make_shared<unordered_map<int,double>>(); (*d)[1] = 0.0; (*d)[2] = 1.0; (*d)[3] = 3.0; (*d)[4] = 0.0;
    CategoricalDistribution<int> c(d, true, 1); Zero z; for (int i = 0; i < 16; i++) { int x = c.sample(z); CHECK(x == 2 || x == 3, "sampled the value %d of probability zero", x); }
    printf("ok\n"); return 0;
}
''',"an outcome of weight zero and a uniform draw of exactly 0","alias-table sampling returns an outcome of probability zero")
s("tents-ties","C09",[("src/algorithms/ments/tents/tents_decision_node.cpp","            if (it->second != action) continue;\n            qval_to_act.erase(it);","            qval_to_act.erase(it);")],r'''
#include "toy.h"
#include <set>
// Four actions start with the same value; after one trial one of them is worth 0.5 and the others are worth 0.
int main() {
    for (int seed = 1; seed <= 20; seed++) {
        auto env = make_shared<Toy>(); env->nact = [](int) { return 4; }; env->rew = [](int, int, int) { return 0.5; }; env->sink = [](int s) { return s >= 1; };
        MentsManagerArgs a(env); a.seed = seed; a.temp = 1.0; a.epsilon = 0.5; a.default_q_value = 0.0; auto m = make_shared<MentsManager>(a);
        auto root = make_shared<TentsDNode>(m, env->get_initial_state_itfc(), 0, 0);
        { ThtsPool pool(m, root, 1); pool.run_trials(1); }
        set<int> in; auto s = root->get_sparse_action_set(); for (auto& x : *s) in.insert(Toy::aid(*x));
        CHECK(s->size() == 4 && in.size() == 4, "the sparse action set lists %zu actions, %zu of them different (all 4 belong to it)", s->size(), in.size());
    }
    printf("ok\n"); return 0;
}
''',"actions whose values are equal when one of them is updated","the value index drops another action's entry, so values and policies of TENTS use stale and duplicated entries")
s("count-after-trial","C01",[(T,"            trials_remaining--;\n            int trials_remaining_copy = trials_remaining;\n","            int trials_remaining_copy = trials_remaining - 1;\n"),(T,"            run_thts_trial(trials_remaining_copy);\n            work_left_lock.lock();\n","            run_thts_trial(trials_remaining_copy);\n            work_left_lock.lock();\n            trials_remaining--;\n")],r'''
#include "toy.h"
int main() {
    auto env = make_shared<Toy>(); env->on_reward = [](int, int) { sleep_ms(50); };
    UctManagerArgs a(env); a.seed = 7; auto m = make_shared<UctManager>(a); auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    ThtsPool pool(m, root, 4); pool.run_trials(2); CHECK(root->get_num_visits() == 2, "2 trials were requested, %d were run", root->get_num_visits());
    pool.run_trials(5); CHECK(root->get_num_visits() == 7, "7 trials were requested, %d were run", root->get_num_visits());
    printf("ok\n"); return 0;
}
''',"more workers than remaining trials, with the workers taking trials at the same time","trials are claimed only when they end, so concurrent workers run more trials than requested")
s("shutdown-skips-backup","C16",[(T,"        run_backup_phase(nodes_to_backup, rewards, *context);\n","        if (thread_pool_alive) run_backup_phase(nodes_to_backup, rewards, *context);\n")],r'''
#include "toy.h"
int main() {
    auto env = make_shared<Toy>(); atomic<int> n(0); env->on_reward = [&](int s, int) { if (s == 2) { n++; sleep_ms(300); } };
    UctManagerArgs a(env); a.seed = 7; a.mcts_mode = false; auto m = make_shared<UctManager>(a); auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    { ThtsPool pool(m, root, 2); pool.run_trials(1000, 1e9, false); while (n < 2) sleep_ms(1); sleep_ms(20); }
    CHECK(root->num_backups == root->get_num_visits(), "%d trials went through the root but %d were backed up", root->get_num_visits(), root->num_backups);
    printf("ok\n"); return 0;
}
''',"the pool is destroyed while trials are in their selection phase","trials in flight at shutdown are counted but their results are thrown away")
s("child-read-after-unlock","C04",[(T,"            shared_ptr<ThtsCNode> chance_node = cur_node->get_child_node_itfc(action);\n            cur_node->unlock();\n","            cur_node->unlock();\n            shared_ptr<ThtsCNode> chance_node = cur_node->get_child_node_itfc(action);\n")],r'''
#include "toy.h"
// Built with the thread sanitizer: many workers expand one wide node, and looking up an action takes a while.
static atomic<unsigned> lookups(0);
struct SlowAction : public IntAction { SlowAction(int a) : IntAction(a) {} size_t hash() const override { unsigned c = lookups.fetch_add(1, memory_order_relaxed); if ((c * 2654435761u) >> 30 == 0) this_thread::sleep_for(chrono::microseconds(200)); return IntAction::hash(); } };
struct SlowToy : public Toy { shared_ptr<ActionVector> get_valid_actions_itfc(shared_ptr<const State> s) const override { auto v = make_shared<ActionVector>(); if (!sink(sid(*s))) for (int a = 0; a < nact(sid(*s)); a++) v->push_back(make_shared<const SlowAction>(a)); return v; } };
int main() {
    auto env = make_shared<SlowToy>(); env->nact = [](int s) { return s ? 1 : 12; }; env->sink = [](int s) { return s >= 1; };
    for (int i = 0; i < 60; i++) { UctManagerArgs a(env); a.seed = 7 + i; a.epsilon_exploration = 1.0; auto m = make_shared<UctManager>(a); auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0); ThtsPool pool(m, root, 6); pool.run_trials(40); }
    printf("ok\n"); return 0;
}
''',"one worker looks up the chosen child while another worker adds a child to the same node","unsynchronised read of a node's child map during an insertion","-fsanitize=thread -g")
s("trial-count-unlocked","C13",[(T,"            lock_guard<mutex> logging_lg(logging_lock);\n            logger->trial_completed();\n\n","            logger->trial_completed();\n            lock_guard<mutex> logging_lg(logging_lock);\n\n")],r'''
#include "toy.h"
// Built with the thread sanitizer, and counts rows: 8000 trials, one row per 10 trials.
int main() {
    auto env = make_shared<Toy>(); env->sink = [](int s) { return s >= 1; };
    for (int i = 0; i < 4; i++) { UctManagerArgs a(env); a.seed = 7; auto m = make_shared<UctManager>(a); auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0); auto lg = make_shared<UctLogger>(); lg->set_trials_delta(10);
      { ThtsPool pool(m, root, 6, lg); pool.run_trials(2000); } CHECK(lg->size() == 201, "2000 trials at one row per 10 gave %d rows", lg->size()); }
    printf("ok\n"); return 0;
}
''',"two workers finishing a trial at the same time","completed trials are lost from the logger's count, so rows are missing or late","-fsanitize=thread -g")
s("estimate-of-shared-nodes","C05",[(T,"        rewards.push_back(cur_node->heuristic_value);\n","        rewards.push_back(new_decision_node_created_this_trial || nodes_to_backup.empty() ? cur_node->heuristic_value : 0.0);\n")],r'''
#include "toy.h"
static double hv(shared_ptr<const State> s, shared_ptr<ThtsEnv>) { return 10.0 * Toy::sid(*s); }
// Trials end at the depth limit, in the same node again and again.
int main() {
    auto env = make_shared<Toy>(); UctManagerArgs a(env); a.seed = 7; a.mcts_mode = false; a.max_depth = 2; a.heuristic_fn = hv; a.heuristic_psuedo_trials = 0; auto m = make_shared<UctManager>(a);
    auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    { ThtsPool pool(m, root, 1); pool.run_trials(5); }
    double v = root->get_child_node(Toy::ac(0))->avg_return; CHECK(fabs(v - 22.0) < 1e-9, "every trial is worth 2 + 20 but their average is %g", v);
    printf("ok\n"); return 0;
}
''',"a value estimate and a trial that ends (at the depth limit) in a node that exists already","the estimate of the last node is left out of the return of trials that end in an existing node")
s("dp-keeps-best","C20",[("src/algorithms/common/dp_decision_node.cpp","        dp_value = opp_coeff * -numeric_limits<double>::infinity();","        if (num_backups <= 1) dp_value = opp_coeff * -numeric_limits<double>::infinity();")],r'''
#include "toy.h"
// The only action first looks good (its estimate is too high) and turns out to be bad.
static double hv(shared_ptr<const State> s, shared_ptr<ThtsEnv>) { return Toy::sid(*s) == 1 ? 50.0 : 0.0; }
int main() {
    auto env = make_shared<Toy>(); MentsManagerArgs a(env); a.seed = 7; a.mcts_mode = true; a.heuristic_fn = hv; auto m = make_shared<MentsManager>(a);
    auto root = make_shared<DBMentsDNode>(m, env->get_initial_state_itfc(), 0, 0);
    { ThtsPool pool(m, root, 1); pool.run_trials(200); }
    CHECK(root->dp_value < 5.0, "the root is worth 3 but is valued %g after 200 trials", root->dp_value);
    printf("ok\n"); return 0;
}
''',"an action whose value goes down again after the node was first backed up (too optimistic estimate below)","dynamic programming values only ever go up, so early overestimates are kept for ever")
s("opponent-default-value","C19",[("src/algorithms/ments/ments_decision_node.cpp","        return manager.default_q_value * opp_coeff;","        return manager.default_q_value;")],r'''
#include "toy.h"
// The opponent moves at the root; nothing tried yet but one action.
int main() {
    auto env = make_shared<Toy>(); env->nact = [](int) { return 2; }; env->rew = [](int, int, int) { return 2.0; }; env->sink = [](int s) { return s >= 1; };
    MentsManagerArgs a(env); a.seed = 7; a.is_two_player_game = true; a.temp = 1.0; a.default_q_value = 2.0; a.epsilon = 0.0; auto m = make_shared<MentsManager>(a);
    auto root = make_shared<MentsDNode>(m, env->get_initial_state_itfc(), 0, 1);
    { ThtsPool pool(m, root, 1); pool.run_trials(1); }
    ActionDistr d; ThtsEnvContext c; root->compute_action_distribution(d, c);
    for (auto& p : d) CHECK(fabs(p.second - 0.5) < 0.01, "an untried action with the same value as the tried one has probability %g", p.second);
    printf("ok\n"); return 0;
}
''',"a two-player game, a non-zero default value and an opponent node where some action was not tried yet","untried actions have the wrong sign for the opponent, so the search policy is wrong")
s("limit-in-milliseconds","C03",[(T,"std::chrono::duration<double>(max_time);","std::chrono::milliseconds(max_time > 1.0e12 ? (long long) 1e15 : (long long) (1000.0 * max_time));")],r'''
#include "toy.h"
// Very short limits.
int main() {
    auto env = make_shared<Toy>(); UctManagerArgs a(env); a.seed = 7; auto m = make_shared<UctManager>(a); auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    ThtsPool pool(m, root, 2); int before = 0; for (int i = 0; i < 100; i++) pool.run_trials(1 << 30, 0.0009, true);
    CHECK(root->get_num_visits() > before, "100 searches of 0.9 ms ran no trial at all"); printf("ok\n"); return 0;
}
''',"a time limit that is not a whole number of milliseconds","limits are cut to whole milliseconds, so searches stop early, and searches under a millisecond do not run at all")
s("opponent-bonus-sign","C08",[("src/algorithms/uct/uct_decision_node.cpp","            if (has_child_node(action)) {\n                action_ucb_value += opp_coeff * get_child_node(action)->avg_return;\n            }","            if (has_child_node(action)) {\n                if (child_visits < num_visits / 2) action_ucb_value *= opp_coeff;\n                action_ucb_value += opp_coeff * get_child_node(action)->avg_return;\n            }")],r'''
#include "toy.h"
// The opponent's second action is only slightly worse; the exploration bonus must make it be tried again and again.
int main() {
    auto env = make_shared<Toy>(); env->nact = [](int) { return 2; }; env->rew = [](int, int a, int) { return a ? 0.3 : 0.0; }; env->sink = [](int s) { return s >= 1; };
    UctManagerArgs a(env); a.seed = 7; a.is_two_player_game = true; a.bias = 2.0; auto m = make_shared<UctManager>(a);
    auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 1);
    { ThtsPool pool(m, root, 1); pool.run_trials(400); }
    int n = root->get_child_node(Toy::ac(1))->num_visits; CHECK(n > 40, "the second action was tried %d times in 400 trials", n);
    printf("ok\n"); return 0;
}
''',"a two-player game, an opponent node and an action tried in less than half of the visits","the exploration bonus is subtracted at opponent nodes for rarely tried actions, so they are never tried again")
s("threshold-strict","C10",[("src/algorithms/common/dp_decision_node.cpp","child.num_backups >= visit_threshold","child.num_backups > visit_threshold")],r'''
#include "toy.h"
// Two actions with exactly as many visits as the threshold asks for and one with fewer.
int main() {
    for (int seed = 1; seed < 400; seed++) {
        auto env = make_shared<Toy>(); env->nact = [](int) { return 2; }; env->rew = [](int, int a, int) { return a ? 5.0 : -5.0; }; env->sink = [](int s) { return s >= 1; };
        MentsManagerArgs a(env); a.seed = seed; a.temp = 100.0; a.recommend_visit_threshold = 3; a.recommend_most_visited = false; auto m = make_shared<MentsManager>(a);
        auto root = make_shared<DBMentsDNode>(m, env->get_initial_state_itfc(), 0, 0);
        { ThtsPool pool(m, root, 1); pool.run_trials(4); }
        if (root->get_num_children() < 2) continue; int n0 = root->get_child_node(Toy::ac(0))->num_visits;
        if (n0 != 3) continue; ThtsEnvContext c; int act = Toy::aid(*root->recommend_action_itfc(c));
        CHECK(act == 0, "the action with the %d visits asked for was passed over for one with fewer", n0);
    }
    printf("ok\n"); return 0;
}
''',"an action with exactly the threshold number of visits and a better valued one with fewer","actions that meet the visit threshold exactly are treated as not meeting it")
s("relative-policy-of-root","C19",[("src/algorithms/ments/rents/rents_decision_node.cpp",'        return ctx.get_value_ptr<ActionDistr>(_parent_distr_key);','        return ctx.get_value_ptr<ActionDistr>(decision_depth > 2 ? "d_" + to_string(decision_timestep-2) : _parent_distr_key);')],r'''
#include "toy.h"
// Policies at the root, its child and grandchild differ; the great-grandchild must be relative to the grandchild's.
int main() {
    auto env = make_shared<Toy>(); env->nact = [](int) { return 2; }; env->sink = [](int s) { return s >= 5; };
    MentsManagerArgs a(env); a.seed = 7; a.epsilon = 0.0; auto m = make_shared<MentsManager>(a); ThtsEnvContext c;
    vector<shared_ptr<RentsDNode>> n; for (int d = 0; d < 5; d++) n.push_back(make_shared<RentsDNode>(m, Toy::st(d), d, d));
    for (int d = 0; d < 4; d++) { auto p = make_shared<ActionDistr>(); double q = 0.1 + 0.2 * d; (*p)[Toy::ac(0)] = q; (*p)[Toy::ac(1)] = 1 - q; n[d]->put_node_distr_in_context(p, c); }
    for (int d = 1; d < 5; d++) { auto p = n[d]->get_parent_distr_from_context(c); double q = p->at(Toy::ac(0)); CHECK(fabs(q - (0.1 + 0.2 * (d - 1))) < 1e-9, "at depth %d the parent's policy is %g", d, q); }
    printf("ok\n"); return 0;
}
''',"a trial that passes at least four decision nodes","RENTS policies deeper in the tree are relative to the grandparent's policy instead of the parent's")
s("switch-keeps-log","C15",[(T,"        logger = new_logger;\n","        if (new_logger != nullptr) logger = new_logger;\n")],r'''
#include "toy.h"
int main() {
    auto env = make_shared<Toy>(); UctManagerArgs a(env); a.seed = 7; auto m = make_shared<UctManager>(a);
    auto r1 = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0), r2 = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    auto lg = make_shared<UctLogger>(); lg->set_trials_delta(1); ThtsPool pool(m, r1, 2, lg); pool.run_trials(10); size_t n = lg->size();
    pool.set_new_env(m, r2, nullptr); pool.run_trials(10); CHECK(lg->size() == n, "the log of the first problem has %zu rows of the second", lg->size() - n);
    printf("ok\n"); return 0;
}
''',"switching from a problem with a log to one without","searches of the new problem are written into the old problem's log")
s("join-fast-path","C04",[(T,"    void ThtsPool::join() {\n        lock_guard<mutex> lg(work_left_lock);\n","    void ThtsPool::join() {\n        if (trials_remaining <= 0 && num_threads_working <= 0 && !run_in_progress) return;\n        lock_guard<mutex> lg(work_left_lock);\n")],r'''
#include "toy.h"
// Built with the thread sanitizer: wait while workers are running.
int main() {
    auto env = make_shared<Toy>(); UctManagerArgs a(env); a.seed = 7; auto m = make_shared<UctManager>(a); auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    ThtsPool pool(m, root, 4); for (int i = 0; i < 50; i++) { pool.run_trials(50, 1e9, false); sleep_ms(1); pool.join(); CHECK(root->get_num_visits() == 50 * (i + 1), "visits"); }
    printf("ok\n"); return 0;
}
''',"waiting for a search while its workers are running","the wait reads the pool's state without its lock","-fsanitize=thread -g")
s("request-before-log-entry","C18",[(T,"        num_trials = max_trials;\n        trials_remaining = max_trials;\n        start_time = std::chrono::system_clock::now();\n        max_run_time =  std::chrono::duration<double>(max_time);\n",""),(T,"        if (logger != nullptr) {\n            lock_guard<mutex> lg(logging_lock);\n            if (logger->size() == 0) {","        num_trials = max_trials;\n        trials_remaining = max_trials;\n        start_time = std::chrono::system_clock::now();\n        max_run_time =  std::chrono::duration<double>(max_time);\n        if (logger != nullptr) {\n            lock_guard<mutex> lg(logging_lock);\n            if (logger->size() == 0) {")],r'''
#include "toy.h"
// The first row of the log cannot be made (no memory).
struct NoMemory : public UctLogger { void add_origin_entry() override { throw bad_alloc(); } };
int main() {
    auto env = make_shared<Toy>(); UctManagerArgs a(env); a.seed = 7; auto m = make_shared<UctManager>(a);
    auto r1 = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0), r2 = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    ThtsPool pool(m, r1, 2, make_shared<NoMemory>()); bool err = false; try { pool.run_trials(10); } catch (bad_alloc&) { err = true; } CHECK(err, "no error");
    try { pool.set_new_env(m, r2, nullptr); } catch (exception& e) { CHECK(false, "after the failed request the pool still thinks it is working: %s", e.what()); }
    pool.run_trials(5); CHECK(r1->get_num_visits() == 0 && r2->get_num_visits() == 5, "trials of the failed request were run");
    printf("ok\n"); return 0;
}
''',"an allocation failure while the first row of the log is made, in a request for trials","the failed request stays in force: the pool is left with trials to run that nobody asked for")
s("batch-claims","C03",[(T,"            trials_remaining--;\n            int trials_remaining_copy = trials_remaining;\n","            int batch = trials_remaining > 1000 ? 4 : 1;\n            trials_remaining -= batch;\n            int trials_remaining_copy = trials_remaining;\n"),(T,"            run_thts_trial(trials_remaining_copy);\n","            for (int i=0; i<batch; i++) run_thts_trial(trials_remaining_copy + batch-1 - i);\n")],r'''
#include "toy.h"
// Each trial takes longer than the time limit.
int main() {
    auto env = make_shared<Toy>(); atomic<int> started(0); env->on_context = [&] { started++; sleep_ms(150); }; UctManagerArgs a(env); a.seed = 7; auto m = make_shared<UctManager>(a);
    auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    ThtsPool pool(m, root, 1); pool.run_trials(1000000, 0.05); CHECK(started <= 2, "%d trials were started by one worker although the limit passed during the first", started.load());
    printf("ok\n"); return 0;
}
''',"a time limit that passes in a search with many trials left","workers take several trials at once and start all of them although the time limit has passed")
s("draws-per-thread","C11",[(MG,"#include <random>\n","#include <random>\n#include <map>\n#include <thread>\n"),(MG,"                return real_distr(real_gen);","                std::vector<double>& mine = real_buffer[std::this_thread::get_id()];\n                if (mine.empty()) {\n                    for (int i=0; i<4; i++) mine.insert(mine.begin(), real_distr(real_gen));\n                }\n                double draw = mine.back();\n                mine.pop_back();\n                return draw;"),(MG,"            std::mutex rng_lock;\n","            std::mutex rng_lock;\n            std::map<std::thread::id,std::vector<double>> real_buffer;\n")],r'''
#include "toy.h"
// Two threads take turns: together they must see the seeded stream in order.
int main() {
    RandManager shared(11), ref(11); 
    for (int i = 0; i < 6; i++) { double got = 0; if (i & 1) { thread t([&] { got = shared.get_rand_uniform(); }); t.join(); } else got = shared.get_rand_uniform();
        double want = ref.get_rand_uniform(); CHECK(got == want, "draw %d is %.17g, the seeded stream has %.17g", i, got, want); }
    printf("ok\n"); return 0;
}
''',"draws from more than one thread","each thread draws from blocks of its own, so draws of the stream are skipped and out of order")
s("child-made-outside-table-lock","C07",[("src/thts_chance_node.cpp","        lock_guard<mutex> lg(thts_manager->dmap_mutexes[mutex_indx]);\n","        unique_lock<mutex> lg(thts_manager->dmap_mutexes[mutex_indx]);\n"),("src/thts_chance_node.cpp","        shared_ptr<ThtsDNode> child_node = create_child_node_helper_itfc(observation, next_state);\n        children[observation] = child_node;\n        dmap[dnode_id] = child_node;\n","        lg.unlock();\n        shared_ptr<ThtsDNode> child_node = create_child_node_helper_itfc(observation, next_state);\n        children[observation] = child_node;\n        lg.lock();\n        dmap[dnode_id] = child_node;\n")],r'''
#include "toy.h"
// Two trials reach the same state over different actions at the same time; making the node takes a while.
int main() {
    auto env = make_shared<Toy>(); env->nact = [&](int s) { if (s == 1) sleep_ms(300); return 2; }; env->sink = [](int s) { return s >= 2; };
    UctManagerArgs a(env); a.seed = 7; a.use_transposition_table = true; auto m = make_shared<UctManager>(a);
    auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    { ThtsPool pool(m, root, 2); pool.run_trials(2); }
    auto n0 = root->get_child_node(Toy::ac(0))->get_child_node_itfc(Toy::st(1)), n1 = root->get_child_node(Toy::ac(1))->get_child_node_itfc(Toy::st(1));
    CHECK(n0 == n1, "the same state at the same time has two nodes"); CHECK(n0->get_num_visits() == 2, "the shared node counts %d visits", n0->get_num_visits());
    printf("ok\n"); return 0;
}
''',"two trials that create the node of the same state over different parents at the same time","a state reached by two trials at once gets two nodes")
s("policy-stays-outside","C14",[(EV,"        cur_node = root_node;\n    }","        if (cur_node != nullptr) cur_node = root_node;\n    }")],r'''
#include "toy.h"
// The second step of every rollout leaves the tree; the next rollout of the thread must follow the tree again.
int main() {
    auto env = make_shared<Toy>(); env->nact = [](int) { return 4; }; env->rew = [](int, int a, int) { return a == 2 ? 1.0 : 0.0; }; env->sink = [](int s) { return s >= 4; };
    UctManagerArgs a(env); a.seed = 7; a.mcts_mode = true; auto m = make_shared<UctManager>(a); auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    { ThtsPool pool(m, root, 1); pool.run_trials(12); }
    atomic<int> first(0), good(0); env->on_reward = [&](int s, int act) { if (s == 0) { first++; if (act == 2) good++; } };
    EvalPolicy pol(root, env, *m); MCEvaluator ev(env, pol, 10, *m); ev.run_rollouts(40, 2);
    CHECK(first == 40 && good == first, "%d of %d rollouts began with the recommended action", good.load(), first.load());
    printf("ok\n"); return 0;
}
''',"a rollout that leaves the tree, followed by another one of the same thread","once a rollout has left the tree, later rollouts of the thread ignore the tree and act at random")
s("shutdown-finishes-search","C16",[(T,"        while (thread_pool_alive) {\n            num_threads_working--;","        while (thread_pool_alive || work_left()) {\n            num_threads_working--;")],r'''
#include "toy.h"
int main() {
    auto env = make_shared<Toy>(); atomic<int> started(0); env->on_context = [&] { started++; sleep_ms(2); }; UctManagerArgs a(env); a.seed = 7; auto m = make_shared<UctManager>(a);
    auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    { ThtsPool pool(m, root, 2); pool.run_trials(2000, 1e9, false); while (started < 4) sleep_ms(1); }
    CHECK(started < 1500, "%d of 2000 trials were run although the pool was destroyed at the beginning of the search", started.load());
    printf("ok\n"); return 0;
}
''',"destroying the pool while workers are in the middle of a search","workers that are busy at shutdown run all the remaining trials instead of abandoning them")
s("ties-in-pointer-order","C12",[("src/helper_templates.cc","#include <cstddef>\n","#include <algorithm>\n#include <cstddef>\n"),("src/helper_templates.cc","        if (best_keys.size() == 1) return best_keys[0];\n","        if (best_keys.size() == 1) return best_keys[0];\n        sort(best_keys.begin(), best_keys.end());\n")],r'''
#include "toy.h"
#include <algorithm>
// The same search again, with the environment's actions at other addresses.
struct Fixed : public Toy { vector<shared_ptr<const Action>> pool; bool rev; Fixed(bool rev) : rev(rev) { vector<shared_ptr<const Action>> p; for (int i = 0; i < 6; i++) p.push_back(nullptr); 
        vector<shared_ptr<const Action>> mem; for (int k = 0; k < 64; k++) mem.push_back(ac(k % 6)); sort(mem.begin(), mem.end()); if (rev) reverse(mem.begin(), mem.end());
        for (auto& x : mem) if (!p[aid(*x)]) { bool ok = true; for (int i = 0; i < aid(*x); i++) if (!p[i]) ok = false; if (ok) p[aid(*x)] = x; } pool = p; }
    shared_ptr<ActionVector> get_valid_actions_itfc(shared_ptr<const State> s) const override { auto v = make_shared<ActionVector>(); if (!sink(sid(*s))) for (auto& x : pool) v->push_back(x); return v; } };
vector<int> go(bool rev) { auto env = make_shared<Fixed>(rev); vector<int> seq; env->rew = [](int, int, int) { return 0.0; }; env->on_reward = [&](int, int a) { seq.push_back(a); };
    UctManagerArgs a(env); a.seed = 7; auto m = make_shared<UctManager>(a); auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0); { ThtsPool pool(m, root, 1); pool.run_trials(60); } return seq; }
int main() { CHECK(go(false) == go(true), "the same seed gave two different searches"); printf("ok\n"); return 0; }
''',"ties between actions whose objects lie at other addresses in the second run","ties are broken by the addresses of the action objects, so a fixed seed no longer fixes the search")
s("prior-trials-forgotten","C08",[("src/algorithms/uct/uct_decision_node.cpp","            num_backups = thts_manager->heuristic_psuedo_trials;\n","            num_backups = 0;\n")],r'''
#include "toy.h"
// Ten prior trials worth 5, then two trials that return 2 from the root's child.
int main() {
    auto env = make_shared<Toy>(); UctManagerArgs a(env); a.seed = 7; a.mcts_mode = false; a.heuristic_psuedo_trials = 10; a.heuristic_fn = [](shared_ptr<const State> s, shared_ptr<ThtsEnv>) { return Toy::sid(*s) >= 3 ? 0.0 : 5.0; };
    auto m = make_shared<UctManager>(a); auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0); { ThtsPool pool(m, root, 1); pool.run_trials(2); }
    double want = (10 * 5.0 + 2 * 3.0) / 12; CHECK(fabs(root->avg_return - want) < 1e-9, "the root's value is %g, the mean of prior and real trials is %g", root->avg_return, want);
    printf("ok\n"); return 0;
}
''',"a value estimate with prior trials","the configured prior trials no longer count in the average of decision nodes")
s("reward-of-hidden-state","C21",[(EV,"thts_env->get_reward_itfc(state, action, obsv)","thts_env->get_reward_itfc(state, action, next_state)")],r'''
#include "toy.h"
// A problem whose observations are not its states: the hidden state is s, only its parity is seen.
struct Seen : public Observation { int o; Seen(int o) : o(o) {} size_t hash() const override { return o; } bool equals_itfc(const Observation& x) const override { auto p = dynamic_cast<const Seen*>(&x); return p && p->o == o; } string get_pretty_print_string() const override { return to_string(o); } };
struct Hidden : public Toy { Hidden() { _is_fully_observable = false; }
    shared_ptr<ObservationDistr> get_observation_distribution_itfc(shared_ptr<const Action>, shared_ptr<const State> n) const override { auto d = make_shared<ObservationDistr>(); d->insert_or_assign(make_shared<const Seen>(sid(*n) % 2), 1.0); return d; }
    double get_reward_itfc(shared_ptr<const State> s, shared_ptr<const Action> a, shared_ptr<const Observation> o = nullptr) const override { if (!o) return 0; auto p = dynamic_cast<const Seen*>(o.get()); return p ? 10.0 * p->o : 0.0; } };

int main() {
    auto env = make_shared<Hidden>(); UctManagerArgs a(env); a.seed = 7; auto m = make_shared<UctManager>(a); auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    EvalPolicy pol(root, env, *m); MCEvaluator ev(env, pol, 10, *m); ev.run_rollouts(5, 2);
    CHECK(fabs(ev.get_mean_return() - 20.0) < 1e-9, "states 1, 2, 3 are observed as 1, 0, 1 and rewarded 10, 0, 10; reported %g", ev.get_mean_return());
    printf("ok\n"); return 0;
}
''',"an environment whose observations are not its states","evaluation asks for the reward of the hidden state instead of the observation")
s("table-by-hidden-state","C21",[("src/thts_chance_node.cpp","make_tuple(decision_timestep, observation);","make_tuple(decision_timestep, next_state != nullptr ? static_pointer_cast<const Observation>(next_state) : observation);")],r'''
#include "toy.h"
// A problem whose observations are not its states: the hidden state is s, only its parity is seen.
struct Seen : public Observation { int o; Seen(int o) : o(o) {} size_t hash() const override { return o; } bool equals_itfc(const Observation& x) const override { auto p = dynamic_cast<const Seen*>(&x); return p && p->o == o; } string get_pretty_print_string() const override { return to_string(o); } };
struct Hidden : public Toy { Hidden() { _is_fully_observable = false; }
    shared_ptr<ObservationDistr> get_observation_distribution_itfc(shared_ptr<const Action>, shared_ptr<const State> n) const override { auto d = make_shared<ObservationDistr>(); d->insert_or_assign(make_shared<const Seen>(sid(*n) % 2), 1.0); return d; }
    double get_reward_itfc(shared_ptr<const State> s, shared_ptr<const Action> a, shared_ptr<const Observation> o = nullptr) const override { if (!o) return 0; auto p = dynamic_cast<const Seen*>(o.get()); return p ? 10.0 * p->o : 0.0; } };

struct D;
struct C : public ThtsCNode { using ThtsCNode::ThtsCNode; 
    shared_ptr<const Observation> sample_observation_itfc(ThtsEnvContext&) override { auto n = thts_manager->thts_env->sample_transition_distribution_itfc(state, action, *thts_manager); auto o = thts_manager->thts_env->sample_observation_distribution_itfc(action, n, *thts_manager); create_child_node_itfc(o, n); return o; }
    void visit_itfc(ThtsEnvContext& c) override { ThtsCNode::visit_itfc(c); } void backup_itfc(const vector<double>&, const vector<double>&, const double, const double, ThtsEnvContext&) override {}
    shared_ptr<ThtsDNode> create_child_node_helper_itfc(shared_ptr<const Observation> o, shared_ptr<const State> n) const override; string get_pretty_print_val() const override { return ""; } };
struct D : public ThtsDNode { using ThtsDNode::ThtsDNode; int seen = -1;
    shared_ptr<const Action> select_action_itfc(ThtsEnvContext&) override { auto v = thts_manager->thts_env->get_valid_actions_itfc(state); auto a = v->at(thts_manager->get_rand_int(0, v->size())); create_child_node_itfc(a); return a; }
    shared_ptr<const Action> recommend_action_itfc(ThtsEnvContext&) const override { return Toy::ac(max(seen, 0)); }
    void visit_itfc(ThtsEnvContext& c) override { ThtsDNode::visit_itfc(c); } void backup_itfc(const vector<double>&, const vector<double>&, const double, const double, ThtsEnvContext&) override {}
    shared_ptr<ThtsCNode> create_child_node_helper_itfc(shared_ptr<const Action> a) const override { return make_shared<C>(thts_manager, state, a, decision_depth, decision_timestep, static_pointer_cast<const ThtsDNode>(shared_from_this())); } string get_pretty_print_val() const override { return ""; } };
shared_ptr<ThtsDNode> C::create_child_node_helper_itfc(shared_ptr<const Observation> o, shared_ptr<const State> n) const { auto d = make_shared<D>(thts_manager, n, decision_depth + 1, decision_timestep + 1, static_pointer_cast<const ThtsCNode>(shared_from_this())); d->seen = static_cast<const Seen&>(*o).o; return d; }

// From the initial state four hidden states can follow, two of each parity; two actions lead there.
int main() {
    auto env = make_shared<Hidden>(); env->nact = [](int) { return 2; }; env->trans = [](int s, int) { return s == 0 ? vector<pair<int,double>>{{1,.25},{2,.25},{3,.25},{4,.25}} : vector<pair<int,double>>{{9,1.0}}; }; env->sink = [](int s) { return s >= 9; };
    ThtsManagerArgs a(env); a.seed = 7; a.use_transposition_table = true; a.mcts_mode = false; auto m = make_shared<ThtsManager>(a); auto root = make_shared<D>(m, env->get_initial_state_itfc(), 0, 0, nullptr);
    { ThtsPool pool(m, root, 2); pool.run_trials(200); }
    for (int o = 0; o < 2; o++) { auto ob = make_shared<const Seen>(o); auto x = root->get_child_node_itfc(Toy::ac(0))->get_child_node_itfc(ob), y = root->get_child_node_itfc(Toy::ac(1))->get_child_node_itfc(ob); CHECK(x == y, "observation %d at the same time step has two nodes", o); }
    printf("ok\n"); return 0;
}
''',"a transposition table and an environment whose observations are not its states","nodes are shared by hidden state instead of by observation, so one observation has several nodes and histories that must be told apart are merged")
s("policy-follows-hidden-state","C21",[(EV,"            thread_policy.update_step(action, obsv);","            thread_policy.update_step(action, next_state);")],r'''
#include "toy.h"
// A problem whose observations are not its states: the hidden state is s, only its parity is seen.
struct Seen : public Observation { int o; Seen(int o) : o(o) {} size_t hash() const override { return o; } bool equals_itfc(const Observation& x) const override { auto p = dynamic_cast<const Seen*>(&x); return p && p->o == o; } string get_pretty_print_string() const override { return to_string(o); } };
struct Hidden : public Toy { Hidden() { _is_fully_observable = false; }
    shared_ptr<ObservationDistr> get_observation_distribution_itfc(shared_ptr<const Action>, shared_ptr<const State> n) const override { auto d = make_shared<ObservationDistr>(); d->insert_or_assign(make_shared<const Seen>(sid(*n) % 2), 1.0); return d; }
    double get_reward_itfc(shared_ptr<const State> s, shared_ptr<const Action> a, shared_ptr<const Observation> o = nullptr) const override { if (!o) return 0; auto p = dynamic_cast<const Seen*>(o.get()); return p ? 10.0 * p->o : 0.0; } };

struct D;
struct C : public ThtsCNode { using ThtsCNode::ThtsCNode; 
    shared_ptr<const Observation> sample_observation_itfc(ThtsEnvContext&) override { auto n = thts_manager->thts_env->sample_transition_distribution_itfc(state, action, *thts_manager); auto o = thts_manager->thts_env->sample_observation_distribution_itfc(action, n, *thts_manager); create_child_node_itfc(o, n); return o; }
    void visit_itfc(ThtsEnvContext& c) override { ThtsCNode::visit_itfc(c); } void backup_itfc(const vector<double>&, const vector<double>&, const double, const double, ThtsEnvContext&) override {}
    shared_ptr<ThtsDNode> create_child_node_helper_itfc(shared_ptr<const Observation> o, shared_ptr<const State> n) const override; string get_pretty_print_val() const override { return ""; } };
struct D : public ThtsDNode { using ThtsDNode::ThtsDNode; int seen = -1;
    shared_ptr<const Action> select_action_itfc(ThtsEnvContext&) override { auto v = thts_manager->thts_env->get_valid_actions_itfc(state); auto a = v->at(thts_manager->get_rand_int(0, v->size())); create_child_node_itfc(a); return a; }
    shared_ptr<const Action> recommend_action_itfc(ThtsEnvContext&) const override { return Toy::ac(max(seen, 0)); }
    void visit_itfc(ThtsEnvContext& c) override { ThtsDNode::visit_itfc(c); } void backup_itfc(const vector<double>&, const vector<double>&, const double, const double, ThtsEnvContext&) override {}
    shared_ptr<ThtsCNode> create_child_node_helper_itfc(shared_ptr<const Action> a) const override { return make_shared<C>(thts_manager, state, a, decision_depth, decision_timestep, static_pointer_cast<const ThtsDNode>(shared_from_this())); } string get_pretty_print_val() const override { return ""; } };
shared_ptr<ThtsDNode> C::create_child_node_helper_itfc(shared_ptr<const Observation> o, shared_ptr<const State> n) const { auto d = make_shared<D>(thts_manager, n, decision_depth + 1, decision_timestep + 1, static_pointer_cast<const ThtsCNode>(shared_from_this())); d->seen = static_cast<const Seen&>(*o).o; return d; }

int main() {
    auto env = make_shared<Hidden>(); env->nact = [](int) { return 2; }; ThtsManagerArgs a(env); a.seed = 7; a.mcts_mode = false; auto m = make_shared<ThtsManager>(a); auto root = make_shared<D>(m, env->get_initial_state_itfc(), 0, 0, nullptr);
    { ThtsPool pool(m, root, 1); pool.run_trials(200); }
    struct Watch : public EvalPolicy { using EvalPolicy::EvalPolicy; };
    atomic<int> steps(0), good(0); env->on_trans = [&](int s, int act) { steps++; if (act == s % 2) good++; };
    EvalPolicy pol(root, env, *m); MCEvaluator ev(env, pol, 10, *m); ev.run_rollouts(40, 2);
    CHECK(steps == 120 && good == steps, "%d of %d evaluation steps took the action recommended for what was observed", good.load(), steps.load());
    printf("ok\n"); return 0;
}
''',"an environment whose observations are not its states","evaluation looks for the hidden state among the observations, so rollouts leave the tree after the first step")
s("reward-under-node-lock","C22",[(T,"            shared_ptr<ThtsDNode> decision_node = chance_node->get_child_node_itfc(observation);\n            chance_node->unlock();\n","            shared_ptr<ThtsDNode> decision_node = chance_node->get_child_node_itfc(observation);\n"),(T,"            double reward = thts_manager->thts_env->get_reward_itfc(state, action, observation);\n","            double reward = thts_manager->thts_env->get_reward_itfc(state, action, observation);\n            chance_node->unlock();\n")],r'''
#include "toy.h"
// One trial is stuck in the reward function; the others must go on.
int main() {
    auto env = make_shared<Toy>(); atomic<int> calls(0), done(0); env->on_reward = [&](int s, int) { if (calls++ == 0) { for (int i = 0; i < 300 && done < 5; i++) sleep_ms(10); } else if (s == 2) done++; };
    UctManagerArgs a(env); a.seed = 7; a.mcts_mode = false; auto m = make_shared<UctManager>(a); auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    auto t0 = chrono::steady_clock::now(); { ThtsPool pool(m, root, 2); pool.run_trials(6); } double el = chrono::duration<double>(chrono::steady_clock::now() - t0).count();
    CHECK(el < 2.0, "the other worker made no progress while one trial was waiting for its reward");
    printf("ok\n"); return 0;
}
''',"a trial that waits in the reward function while another one takes the same action","the reward function is called with the chance node locked, so trials through the same action wait for a slow one")
s("rollouts-one-at-a-time","C22",[(EV,"        // Reset\n        thread_policy.reset();\n","        lock_guard lg(lock);\n\n        // Reset\n        thread_policy.reset();\n"),(EV,"        // store\n        lock_guard lg(lock);\n","        // store\n")],r'''
#include "toy.h"
int main() {
    auto env = make_shared<Toy>(); UctManagerArgs a(env); a.seed = 7; auto m = make_shared<UctManager>(a); auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    { ThtsPool pool(m, root, 1); pool.run_trials(5); }
    atomic<int> calls(0), done(0); env->on_reward = [&](int s, int) { if (calls++ == 0) { for (int i = 0; i < 300 && done < 5; i++) sleep_ms(10); } else if (s == 2) done++; };
    EvalPolicy pol(root, env, *m); MCEvaluator ev(env, pol, 10, *m); auto t0 = chrono::steady_clock::now(); ev.run_rollouts(10, 2); double el = chrono::duration<double>(chrono::steady_clock::now() - t0).count();
    CHECK(ev.sampled_returns.size() == 10, "rollouts"); CHECK(el < 2.0, "the other thread ran no rollout while one was waiting for its reward");
    printf("ok\n"); return 0;
}
''',"a rollout that waits in the environment while other threads have rollouts to run","a lock is held for the whole rollout, so evaluation threads run one at a time")
s("table-by-depth","C07",[("src/thts_chance_node.cpp","make_tuple(decision_timestep, observation)","make_tuple(decision_depth, observation)")],r'''
#include "toy.h"
// A receding horizon: the tree of the next time step is grown while the one of the last step is kept.
int main() {
    auto env = make_shared<Toy>(); env->trans = [](int s, int) { return vector<pair<int,double>>{{(s + 1) % 2, 1.0}}; }; env->sink = [](int) { return false; };
    UctManagerArgs a(env); a.seed = 7; a.use_transposition_table = true; a.mcts_mode = true; auto m = make_shared<UctManager>(a);
    auto now = make_shared<UctDNode>(m, Toy::st(0), 0, 4), later = make_shared<UctDNode>(m, Toy::st(0), 0, 6);
    { ThtsPool pool(m, now, 1); pool.run_trials(1); } { ThtsPool pool(m, later, 1); pool.run_trials(2); }
    auto x = now->get_child_node_itfc(Toy::ac(0))->get_child_node_itfc(Toy::st(1)), y = later->get_child_node_itfc(Toy::ac(0))->get_child_node_itfc(Toy::st(1));
    CHECK(x != y, "state 1 at time 5 and state 1 at time 7 share a node"); CHECK(x->get_num_visits() == 1 && y->get_num_visits() == 2, "visits %d and %d", x->get_num_visits(), y->get_num_visits());
    printf("ok\n"); return 0;
}
''',"two live trees of one manager that start at different time steps","the table is keyed by the depth in the tree, so the same state at different times shares a node")
s("bound-by-backups","C08",[("src/algorithms/uct/uct_decision_node.cpp","get_child_node(action)->num_visits : 0;","get_child_node(action)->num_backups : 0;")],r'''
#include "toy.h"
// Trials that have gone through the root and not yet come back: visits decide, so the actions are taken in turn.
int main() {
    auto env = make_shared<Toy>(); env->nact = [](int s) { return s == 0 ? 3 : 1; }; env->rew = [](int, int, int) { return 0.0; }; env->sink = [](int s) { return s >= 1; };
    UctManagerArgs a(env); a.seed = 7; a.bias = 5.0; auto m = make_shared<UctManager>(a);
    auto root = make_shared<UctDNode>(m, env->get_initial_state_itfc(), 0, 0);
    { ThtsPool pool(m, root, 1); pool.run_trials(3); }
    ThtsEnvContext ctx;
    for (int i = 0; i < 9; i++) { root->lock(); root->visit_itfc(ctx); auto act = root->select_action_itfc(ctx); root->unlock(); auto c = root->get_child_node_itfc(act); c->lock(); c->visit_itfc(ctx); c->unlock(); }
    for (int k = 0; k < 3; k++) { int v = root->get_child_node_itfc(Toy::ac(k))->num_visits; CHECK(v == 4, "action %d was tried %d times, expected 4: its trials under way were not counted", k, v); }
    printf("ok\n"); return 0;
}
''',"several trials in flight through the same decision node","selections ignore the trials under way: the confidence bound counts finished trials of an action instead of its visits")
s("log-counts-unfinished","C13",[("src/algorithms/ments/ments_logger.cpp","            ments_node.num_backups,","            ments_node.num_visits,")],r'''
#include "toy.h"
// One trial is held up in the environment while the others finish: the rows must not count it as backed up.
int main() {
    auto env = make_shared<Toy>(); atomic<bool> held(false); atomic<int> ends(0);
    env->on_reward = [&](int s, int) { if (s == 0 && !held.exchange(true)) { for (int i = 0; i < 500 && ends < 5; i++) sleep_ms(10); sleep_ms(50); } else if (s == 2) ends++; };
    MentsManagerArgs a(env); a.seed = 7; a.mcts_mode = false; auto m = make_shared<MentsManager>(a); auto root = make_shared<MentsDNode>(m, env->get_initial_state_itfc(), 0, 0);
    auto log = make_shared<MentsLogger>(); log->set_trials_delta(1);
    { ThtsPool pool(m, root, 2, log); pool.run_trials(6); }
    ostringstream os; log->write_to_ostream(os); istringstream is(os.str()); string l; getline(is, l); int row = -1;
    while (getline(is, l)) { row++; double t; int v, b; CHECK(sscanf(l.c_str(), "%lf,%d,%d", &t, &v, &b) == 3, "row %s", l.c_str()); if (row <= 5) CHECK(b <= 5, "row %d counts %d back-ups of 6 trials, one of which had not come back", row, b); }
    CHECK(row == 6, "%d rows", row); printf("ok\n"); return 0;
}
''',"rows written while another trial is still under way","the log's back-up column counts trials that have only visited the root")
if __name__=="__main__":
    names=sys.argv[1:]
    if not os.path.exists(R): subprocess.run(["git","clone","-q","/repo",R],check=True)
    for b in S:
        if names and b["id"] not in names: continue
        subprocess.run(f"git -C {R} checkout -q -- . && git -C {R} fetch -q /repo HEAD && git -C {R} reset -q --hard FETCH_HEAD",shell=True,check=True)
        ok=True
        for f,o,n in b["edits"]:
            p=f"{R}/{f}"; x=open(p).read()
            if x.count(o)!=1: print(b["id"],"edit matches",x.count(o),repr(o[:60])); ok=False; continue
            open(p,"w").write(x.replace(o,n))
        if not ok: continue
        d=f"/verif/seeded/{b['id']}"; os.makedirs(d,exist_ok=True)
        open(d+"/patch.diff","w").write(subprocess.run(["git","-C",R,"diff"],capture_output=True,text=True).stdout)
        fl=b["flags"]
        sh=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"demo.sh")).read()
        lines=[]
        for l in sh.split("\n"):
            lines.append(l.replace("FLAGS", fl))
        open(d+"/demo.sh","w").write("\n".join(lines)); os.chmod(d+"/demo.sh",0o755)
        shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)),"toy.h"),d); open(d+"/demo.cpp","w").write(b["demo"].lstrip())
        json.dump(dict(property=b["prop"],needs=b["needs"],what_it_breaks=b["breaks"]),open(d+"/meta.json","w"),indent=1)
