From 651dc85e1448d06232a95b31e76e6820b4b68b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:09 +0000
Subject: [PATCH 01/26] fix: join could hang, or trials run after it returned,
 when a time limit passed

---
 src/thts.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/thts.cpp b/src/thts.cpp
index e6cb9c9..f236bb4 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -288,6 +288,9 @@ namespace thts {
      * - indicate that they have completed a trial/unit of work, by decrementing num_threads_working
      * - if can't work (run a trial): 
      *      - notify work_left_cv to try to signal any threads waiting on workers completing
+     *      - if the time limit passed with trials remaining, then those trials are abandoned (so that the end of this
+     *          'run_trials' call is final, even if the system clock is set back), and any threads waiting on workers 
+     *          completing need to be signalled, as this may have happened after this worker was woken up
      *      - wait on work_left_cv until notified
      * - if just woken up from waiting on work_left_cv: 
      *      -check if thread_pool is still alive, and if not, exit
@@ -308,6 +311,10 @@ namespace thts {
                 work_left_cv.notify_all();
             }
             while (!work_left()) {
+                if (trials_remaining > 0) {
+                    trials_remaining = 0;
+                    work_left_cv.notify_all();
+                }
                 work_left_cv.wait(work_left_lock);
                 if (!thread_pool_alive) return;
             }
@@ -324,12 +331,16 @@ namespace thts {
 
     /**
      * Waits on workers to complete their work
+     * 
+     * If the time limit passed with trials remaining, then those trials are abandoned, so no trials are run after this
+     * function returns.
      */
     void ThtsPool::join() {
         lock_guard<mutex> lg(work_left_lock);
         while (work_left() || num_threads_working > 0) {
             work_left_cv.wait(work_left_lock);
         }
+        trials_remaining = 0;
     }
 
     /**
-- 
2.43.0


From 9331037adfb04b1ebf459763a56b143d67f3692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:25 +0000
Subject: [PATCH 02/26] fix: set_new_env swapped the problem under trials still
 in flight

---
 src/thts.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/thts.cpp b/src/thts.cpp
index f236bb4..3544918 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -72,15 +72,22 @@ namespace thts {
 
     /**
      * Setter for root node, so thread pool can be reused
+     * 
+     * Workers may still be running the last trials when there is no work left, so wait for them to finish.
     */
     void ThtsPool::set_new_env(
         shared_ptr<ThtsManager> new_thts_manager, 
         shared_ptr<ThtsDNode> new_root_node,
         shared_ptr<ThtsLogger> new_logger) 
     {
+        lock_guard<mutex> lg(work_left_lock);
         if (work_left()) {
             throw runtime_error("Tried to change root node in thts pool while it was working.");
         }
+        trials_remaining = 0;
+        while (num_threads_working > 0) {
+            work_left_cv.wait(work_left_lock);
+        }
         thts_manager = new_thts_manager;
         root_node = new_root_node;
         logger = new_logger;
-- 
2.43.0


From cea347b7f37d49a7a7280c559e0ae6a752583206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:26 +0000
Subject: [PATCH 03/26] fix: transposition table was one map guarded by several
 mutexes (data race)

---
 include/thts_manager.h   | 19 ++++++++++---------
 src/thts_chance_node.cpp |  7 ++++---
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/thts_manager.h b/include/thts_manager.h
index f791a73..11e9008 100644
--- a/include/thts_manager.h
+++ b/include/thts_manager.h
@@ -21,7 +21,7 @@ namespace thts {
      * 
      * Member variables (that are different to RandManager/ThtsManager):
      *      num_transposition_table_mutexes:
-     *          Specifies the size of 'dmap_mutexes' in ThtsManager
+     *          Specifies the size of 'dmaps' and 'dmap_mutexes' in ThtsManager
      *      seed:
      *          An integer seed to use for random number generation. Default of zero uses a 'random device' to generate 
      *          a seed 
@@ -164,13 +164,14 @@ namespace thts {
      *      is_two_player_game:
      *          If we are planning for a two player game, rather than a reward maximisation environment
      * Member variables (transposition table):
-     *      dmap:
-     *          A transposition table for decision nodes. Note that a transposition table for chance nodes is 
-     *          unnecessary, as an chance nodes that are transpositions, will be children of decision nodes that are 
-     *          transpositions.
+     *      dmaps:
+     *          A transposition table for decision nodes, split into one table per mutex in 'dmap_mutexes'. The entry 
+     *          for 'dnode_id' is in the table 'dmaps[hash(dnode_id) % dmap_mutexes.size()]'. Note that a transposition 
+     *          table for chance nodes is unnecessary, as an chance nodes that are transpositions, will be children of 
+     *          decision nodes that are transpositions.
      *      dmap_mutexes:
-     *          A vector of mutexes to use for protection around the dmap. Accessing 'dmap[dnode_id]', should be 
-     *          protected by the 'dmap_mutexes[hash(dnode_id) % dmap_mutexes.size()]'.
+     *          A vector of mutexes to use for protection around the dmaps. Accessing 'dmaps[i]', should be protected 
+     *          by 'dmap_mutexes[i]'.
      */
     class ThtsManager : public RandManager {
         public:
@@ -183,7 +184,7 @@ namespace thts {
             bool use_transposition_table;
             bool is_two_player_game;
 
-            DNodeTable dmap;
+            std::vector<DNodeTable> dmaps;
             std::vector<std::mutex> dmap_mutexes;
 
             /**
@@ -201,7 +202,7 @@ namespace thts {
                 mcts_mode(args.mcts_mode), 
                 use_transposition_table(args.use_transposition_table), 
                 is_two_player_game(args.is_two_player_game),
-                dmap(),
+                dmaps(args.num_transposition_table_mutexes),
                 dmap_mutexes(args.num_transposition_table_mutexes)
             {
             }
diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index 2fc2c1b..cbea04f 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -91,8 +91,9 @@ namespace thts {
      * If using a transposition table, we first check the transposition table to try get it from there. If it's not in 
      * the table, we make the child and insert it in children and the transposition table.
      * 
-     * Additionally, we protect accessing 'dmap[dnode_id]' with the mutex 'thts_manager->dmap_mutexes[mutex_indx]' 
-     * where 'mutex_indx = hash(dnode_id) % thts_manager->dmap_mutexes.size()', by locking it using a lock_guard.
+     * Additionally, we protect accessing the table 'thts_manager->dmaps[mutex_indx]' with the mutex 
+     * 'thts_manager->dmap_mutexes[mutex_indx]' where 'mutex_indx = hash(dnode_id) % thts_manager->dmap_mutexes.size()', 
+     * by locking it using a lock_guard.
      */
     shared_ptr<ThtsDNode> ThtsCNode::create_child_node_itfc(
         shared_ptr<const Observation> observation, shared_ptr<const State> next_state) 
@@ -105,7 +106,6 @@ namespace thts {
             return child_node;
         }
 
-        DNodeTable& dmap = thts_manager->dmap;
         DNodeIdTuple dnode_id = make_tuple(decision_timestep, observation);
 
         int mutex_indx = 0;
@@ -115,6 +115,7 @@ namespace thts {
         }
 
         lock_guard<mutex> lg(thts_manager->dmap_mutexes[mutex_indx]);
+        DNodeTable& dmap = thts_manager->dmaps[mutex_indx];
 
         auto iter = dmap.find(dnode_id);
         if (iter != dmap.end()) {
-- 
2.43.0


From 494f1b2a51695f26d2a98f70dd1c88dd7d8e5bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:42 +0000
Subject: [PATCH 04/26] fix: new tree with a used manager hit expired
 transposition table entries (bad_weak_ptr)

---
 src/thts_chance_node.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index cbea04f..ad07127 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -119,9 +119,12 @@ namespace thts {
 
         auto iter = dmap.find(dnode_id);
         if (iter != dmap.end()) {
-            shared_ptr<ThtsDNode> child_node = shared_ptr<ThtsDNode>(dmap[dnode_id]);
-            children[observation] = child_node;
-            return child_node;
+            // entry is a weak pointer, and the node may have been part of a tree that was since destroyed
+            shared_ptr<ThtsDNode> child_node = iter->second.lock();
+            if (child_node != nullptr) {
+                children[observation] = child_node;
+                return child_node;
+            }
         }
 
         shared_ptr<ThtsDNode> child_node = create_child_node_helper_itfc(observation, next_state);
-- 
2.43.0


From 016f8f6ad5d5ec5cf96340dfac369fe15d2a739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:44 +0000
Subject: [PATCH 05/26] fix: chance node backups could deadlock when sharing
 children through the transposition table

---
 include/algorithms/common/dp_chance_node.h  |  2 +-
 include/algorithms/common/ent_chance_node.h |  2 +-
 include/thts_chance_node.h                  |  8 ++++++++
 src/thts_chance_node.cpp                    | 20 +++++++++++++++++---
 4 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/include/algorithms/common/dp_chance_node.h b/include/algorithms/common/dp_chance_node.h
index 4d59ccb..b01b2bb 100644
--- a/include/algorithms/common/dp_chance_node.h
+++ b/include/algorithms/common/dp_chance_node.h
@@ -97,7 +97,7 @@ namespace thts {
             template <typename T>
             void backup_dp(DNodeChildMap& children, double local_reward, bool is_opponent=false) {
                 std::shared_ptr<DPDNodeChildMap> dp_children = convert_child_map<T>(children);
-                for (auto pr : children) pr.second->lock();
+                lock_dnodes_in_order(children);
                 backup_dp_impl(*dp_children, local_reward, is_opponent);
                 for (auto pr : children) pr.second->unlock();
             }
diff --git a/include/algorithms/common/ent_chance_node.h b/include/algorithms/common/ent_chance_node.h
index a92a5d5..26734af 100644
--- a/include/algorithms/common/ent_chance_node.h
+++ b/include/algorithms/common/ent_chance_node.h
@@ -94,7 +94,7 @@ namespace thts {
             template <typename T>
             void backup_ent(DNodeChildMap& children) {
                 std::shared_ptr<EntDNodeChildMap> ent_children = convert_child_map<T>(children);
-                for (auto pr : children) pr.second->lock();
+                lock_dnodes_in_order(children);
                 backup_ent_impl(*ent_children);
                 for (auto pr : children) pr.second->unlock();
             }
diff --git a/include/thts_chance_node.h b/include/thts_chance_node.h
index 0cc1540..d8ef6f4 100644
--- a/include/thts_chance_node.h
+++ b/include/thts_chance_node.h
@@ -15,6 +15,14 @@ namespace thts {
 
     // CNodeMap type is lengthy, so typedef
     typedef std::unordered_map<std::shared_ptr<const Observation>,std::shared_ptr<ThtsDNode>> DNodeChildMap;
+
+    /**
+     * Locks all of the decision nodes in 'children'.
+     * 
+     * When using a transposition table a decision node can be the child of many chance nodes, so the locks have to be 
+     * aquired in an order that is the same for every thread, otherwise threads may deadlock.
+     */
+    void lock_dnodes_in_order(const DNodeChildMap& children);
     
     /**
      * An abstract base class for Chance Nodes.
diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index ad07127..708aab0 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -4,17 +4,33 @@
 #include "thts_manager.h"
 #include "thts_types.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <functional>
 #include <mutex>
 #include <tuple>
 #include <utility>
+#include <vector>
 
 using namespace std;
 using namespace thts;
 
 
 namespace thts {
+    /**
+     * Locks nodes ordered by their address.
+     */
+    void lock_dnodes_in_order(const DNodeChildMap& children) {
+        vector<ThtsDNode*> dnodes;
+        for (const auto& pr : children) {
+            dnodes.push_back(pr.second.get());
+        }
+        sort(dnodes.begin(), dnodes.end(), less<ThtsDNode*>());
+        for (ThtsDNode* dnode : dnodes) {
+            dnode->lock();
+        }
+    }
+
     /**
      * Constructor mostly uses initialisation list. 
      */
@@ -61,9 +77,7 @@ namespace thts {
      * Helper function to lock all children nodes.
      */
     void ThtsCNode::lock_all_children() const {
-        for (auto action_child_pair : children) {
-            action_child_pair.second->lock();
-        }
+        lock_dnodes_in_order(children);
     }
 
     /**
-- 
2.43.0


From dae2ac5276275dd0303c2234ab2909bd3a5af009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:59 +0000
Subject: [PATCH 06/26] fix: evaluation rollouts used a context after it was
 destroyed

---
 src/mc_eval.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 0433d40..8fc29af 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -87,11 +87,11 @@ namespace thts {
         int num_actions_taken = 0;
         double sample_return = 0.0;
         shared_ptr<const State> state = thts_env->get_initial_state_itfc();
-        ThtsEnvContext& context = *thts_env->sample_context_itfc(state);
+        shared_ptr<ThtsEnvContext> context = thts_env->sample_context_itfc(state);
 
         // Run trial
         while (num_actions_taken < max_trial_length && !thts_env->is_sink_state_itfc(state)) {
-            shared_ptr<const Action> action = thread_policy.get_action(state, context);
+            shared_ptr<const Action> action = thread_policy.get_action(state, *context);
             shared_ptr<const State> next_state = thts_env->sample_transition_distribution_itfc(
                 state, action, rand_manager);
             shared_ptr<const Observation> obsv = thts_env->sample_observation_distribution_itfc(
-- 
2.43.0


From dab90fd9bb21860993944e853223a306ee69a733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:15 +0000
Subject: [PATCH 07/26] fix: evaluation rollouts ignored the maximum trial
 length

---
 src/mc_eval.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 8fc29af..7578b82 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -101,6 +101,7 @@ namespace thts {
 
             thread_policy.update_step(action, obsv);
             state = next_state;
+            num_actions_taken++;
         }
 
         // store
-- 
2.43.0


From f3331df8f434d732a552a2ecbd0baf5aa7021226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:30 +0000
Subject: [PATCH 08/26] fix: get_stddev_return returned the variance

---
 src/mc_eval.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 7578b82..abffdbb 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -165,10 +165,10 @@ namespace thts {
     double MCEvaluator::get_stddev_return() {
         double mean = get_mean_return();
         double weight = 1.0 / (sampled_returns.size() - 1.0);
-        double stddev = 0.0;
+        double variance = 0.0;
         for (double val : sampled_returns) {
-            stddev += weight * pow(val - mean, 2.0);
+            variance += weight * pow(val - mean, 2.0);
         }
-        return stddev;
+        return sqrt(variance);
     }
 }
\ No newline at end of file
-- 
2.43.0


From e026d1454b17f35c768f45f01e404fac8c2ceeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:20 +0000
Subject: [PATCH 09/26] fix: sample_from_distribution threw on legal
 distributions (rounding, zero masses, unnormalised weights)

---
 src/helper_templates.cc | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/helper_templates.cc b/src/helper_templates.cc
index 7e7a759..5676e97 100644
--- a/src/helper_templates.cc
+++ b/src/helper_templates.cc
@@ -70,25 +70,28 @@ namespace thts::helper {
             }
         }
         
-        int i = 0;
-        int distr_size = distribution.size();
         double rand_val = rand_manager.get_rand_uniform();
         double running_prob_mass = 0.0;
+        const T* last_possible_obj = nullptr;
 
-        for (pair<T,double> pr : distribution) {
+        for (const pair<const T,double>& pr : distribution) {
             // update mass considered
             running_prob_mass += pr.second / sum_weights;
+            if (pr.second > 0.0) last_possible_obj = &pr.first;
 
             // error checking
-            i++;
-            bool too_much_mass = running_prob_mass > sum_weights + EPS;
-            bool complete_mass_too_early = running_prob_mass >= sum_weights && i < distr_size;
-            if (too_much_mass || complete_mass_too_early) {
-                stringstream error_msg_ss;
-                error_msg_ss 
-                    << "Probability masses sum to greater than 1.0, have you forgotten to set normalised=false? "
-                    << "Distribution was: "<< unordered_map_pretty_print_string(distribution);
-                throw runtime_error(error_msg_ss.str());
+            if (normalised && running_prob_mass >= 1.0) {
+                double total_mass = 0.0;
+                for (const pair<const T,double>& mass_pr : distribution) {
+                    total_mass += mass_pr.second;
+                }
+                if (total_mass > 1.0 + EPS) {
+                    stringstream error_msg_ss;
+                    error_msg_ss 
+                        << "Probability masses sum to greater than 1.0, have you forgotten to set normalised=false? "
+                        << "Distribution was: "<< unordered_map_pretty_print_string(distribution);
+                    throw runtime_error(error_msg_ss.str());
+                }
             }
             
             // return if its time
@@ -97,6 +100,11 @@ namespace thts::helper {
             }
         }
 
+        // masses may sum to slightly less than 1.0 because of rounding
+        if (last_possible_obj != nullptr && running_prob_mass >= 1.0 - EPS) {
+            return *last_possible_obj;
+        }
+
         stringstream error_msg_ss;
         error_msg_ss << "Probability masses sum to less than 1.0, have you forgotten to set normalised=false? "
             << "Distribution was: "
-- 
2.43.0


From 3e9b6de465b264e9374f69208ece9fd33b4fd0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:35 +0000
Subject: [PATCH 10/26] fix: epsilon=0 gave NaN action probabilities at an
 unvisited node

---
 src/algorithms/ments/ments_decision_node.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/ments/ments_decision_node.cpp b/src/algorithms/ments/ments_decision_node.cpp
index dad6d88..2889e9b 100644
--- a/src/algorithms/ments/ments_decision_node.cpp
+++ b/src/algorithms/ments/ments_decision_node.cpp
@@ -202,7 +202,8 @@ namespace thts {
         MentsManager& manager = (MentsManager&) *thts_manager;
         double epsilon = manager.epsilon;
         if (is_root_node() && manager.root_node_epsilon > 0.0) epsilon = manager.root_node_epsilon;
-        double lambda = epsilon / log(num_visits+1);
+        double lambda = 0.0;
+        if (epsilon > 0.0) lambda = epsilon / log(num_visits+1);
         if (lambda > manager.max_explore_prob) {
             lambda = manager.max_explore_prob;
         }
-- 
2.43.0


From ec6de9e1ebc8dff97e8a1efef2b8349ef475c251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:50 +0000
Subject: [PATCH 11/26] fix: mean log prior weight was the last log weight, not
 the mean

---
 src/algorithms/ments/ments_decision_node.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algorithms/ments/ments_decision_node.cpp b/src/algorithms/ments/ments_decision_node.cpp
index 2889e9b..9996148 100644
--- a/src/algorithms/ments/ments_decision_node.cpp
+++ b/src/algorithms/ments/ments_decision_node.cpp
@@ -55,6 +55,7 @@ namespace thts {
                     }
                     mean_log_weight *= (i-1.0) / i;
                     mean_log_weight += log_weight / i;
+                    i++;
                 }
                 psuedo_q_value_offset = thts_manager->psuedo_q_value_offset - mean_log_weight;
             }
-- 
2.43.0


From 5227d95feb40b43c8fb0d42a87e0926a1a08c6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:08 +0000
Subject: [PATCH 12/26] fix: alias table went out of bounds when the number of
 outcomes changed

---
 src/distributions/categorical_distribution.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/distributions/categorical_distribution.cc b/src/distributions/categorical_distribution.cc
index bbe572b..1a0ec6a 100644
--- a/src/distributions/categorical_distribution.cc
+++ b/src/distributions/categorical_distribution.cc
@@ -37,7 +37,7 @@ namespace thts {
             return helper::sample_from_distribution(*distr, rand_manager, false);
         }
 
-        int rng = rand_manager.get_rand_int(0, distr->size());
+        int rng = rand_manager.get_rand_int(0, alias_table.size());
         AliasTableEntry& alias_entry = alias_table[rng];
         if (1.0 > alias_entry.threshold && alias_entry.threshold > rand_manager.get_rand_uniform()) {
             return alias_entry.first;
@@ -57,20 +57,13 @@ namespace thts {
 
     /**
      * If using alias table, then should reconstruct it
-     * If size(distr) == size(new_distr), then call reconstruct_alias_table, which assumes size(distr) hasn't changed
-     * If distirubtion has changes in size (num outcomes), then clear alias table and construct from scratch
     */
     template <typename T>
     void CategoricalDistribution<T>::update(shared_ptr<unordered_map<T,double>> new_distr) {
         distr = new_distr;
         num_updates = 0;
         if (use_alias_method) {
-            if (new_distr->size() == distr->size()) {
-                reconstruct_alias_table(false);
-            } else {
-                alias_table.clear();
-                construct_alias_table();
-            }
+            reconstruct_alias_table(false);
         }
     }
     
@@ -127,6 +120,13 @@ namespace thts {
             sum_weights += kv_pair.second;
         }
 
+        // if the number of outcomes has changed, then need to construct alias table from scratch
+        if (!just_constructed && alias_table.size() != distr->size()) {
+            alias_table.clear();
+            construct_alias_table();
+            return;
+        }
+
         if (!just_constructed) {
             int i = 0;
             int n = distr->size();
-- 
2.43.0


From 489d217bb17aa019649b8ba9fd305aa6ee145abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:55 +0000
Subject: [PATCH 13/26] fix: process was terminated when a worker thread could
 not be started

---
 include/thts.h  |  5 +++++
 src/mc_eval.cpp | 24 ++++++++++++++++--------
 src/thts.cpp    | 27 ++++++++++++++++++++-------
 3 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/include/thts.h b/include/thts.h
index faa88bb..db8b7fb 100644
--- a/include/thts.h
+++ b/include/thts.h
@@ -191,6 +191,11 @@ namespace thts {
             void try_log();
 
 
+            /**
+             * Tells the workers to exit, and waits for them to do so.
+             */
+            void stop_workers();
+
             /**
              * The worker thread thnuk.
              * 
diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index abffdbb..7d94347 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -130,14 +130,22 @@ namespace thts {
     void MCEvaluator::run_rollouts(int num_rollouts, int num_threads) {
         // spawn
         vector<thread> threads;
-        for (int i=0; i<num_threads; i++) {
-            threads.push_back(thread(
-                &MCEvaluator::thread_run_rollouts, 
-                this, 
-                num_rollouts, 
-                i, 
-                num_threads, 
-                make_unique<EvalPolicy>(policy)));
+        try {
+            for (int i=0; i<num_threads; i++) {
+                threads.push_back(thread(
+                    &MCEvaluator::thread_run_rollouts, 
+                    this, 
+                    num_rollouts, 
+                    i, 
+                    num_threads, 
+                    make_unique<EvalPolicy>(policy)));
+            }
+        } catch (...) {
+            // couldn't start a thread, still need to wait for the threads that were started
+            for (thread& started_thread : threads) {
+                started_thread.join();
+            }
+            throw;
         }
 
         // wait
diff --git a/src/thts.cpp b/src/thts.cpp
index 3544918..ef15160 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -46,30 +46,43 @@ namespace thts {
         if (thts_manager == nullptr || root_node == nullptr) {
             throw runtime_error("Cannot make ThtsPool without a thts manager, or root node");
         }
-        for (int i=0; i<num_threads; i++) {
-            workers[i] = thread(&ThtsPool::worker_fn, this);
+        try {
+            for (int i=0; i<num_threads; i++) {
+                workers[i] = thread(&ThtsPool::worker_fn, this);
+            }
+        } catch (...) {
+            // couldn't start a thread, destructor won't be called, so need to stop the threads that were started
+            stop_workers();
+            throw;
         }
     }
 
     /**
-     * Destructor
+     * Stops the worker threads
      * 
      * - Protected by work_left_lock does following:
      *      - Sets thread_pool_alive to false so that worker threads will exit
      *      - Signals all worker threads so they can exit
      *          (N.B. Workers only do not hold this lock when running a trial or waiting on the cv)
-     * - Waits for worker threads to exit using join
+     * - Waits for (started) worker threads to exit using join
      */
-    ThtsPool::~ThtsPool() {
+    void ThtsPool::stop_workers() {
         work_left_lock.lock();
         thread_pool_alive = false;
         work_left_cv.notify_all();
         work_left_lock.unlock();
-        for (int i=0; i<num_threads; i++) {
-            workers[i].join();
+        for (thread& worker : workers) {
+            if (worker.joinable()) worker.join();
         }
     }
 
+    /**
+     * Destructor
+     */
+    ThtsPool::~ThtsPool() {
+        stop_workers();
+    }
+
     /**
      * Setter for root node, so thread pool can be reused
      * 
-- 
2.43.0


From d2f18ba86dd5e6445997a66cff83b05aa131ca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:55 +0000
Subject: [PATCH 14/26] fix: loggers lost the algorithm specific columns of
 their entries (slicing)

---
 include/thts_logger.h                   |  4 ++--
 src/algorithms/ments/dbments_logger.cpp |  4 ++--
 src/algorithms/ments/ments_logger.cpp   |  4 ++--
 src/algorithms/uct/uct_logger.cpp       |  4 ++--
 src/thts_logger.cpp                     | 11 +++++------
 5 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/include/thts_logger.h b/include/thts_logger.h
index c9e714b..0dfda69 100644
--- a/include/thts_logger.h
+++ b/include/thts_logger.h
@@ -51,7 +51,7 @@ namespace thts {
      * 
      * Member variables:
      *      entries: 
-     *          A vector of LoggerEntry objects, each representing a datatype
+     *          A vector of (pointers to) LoggerEntry objects, each representing a datatype
      *      prior_runtime: 
      *          The amount of runtime logger from previous calls to ThtsPool run_trials
      *      start_time: 
@@ -70,7 +70,7 @@ namespace thts {
      */
     class ThtsLogger {
         protected:
-            std::vector<LoggerEntry> entries;
+            std::vector<std::shared_ptr<LoggerEntry>> entries;
             std::chrono::duration<double> prior_runtime;
             std::chrono::time_point<std::chrono::system_clock> start_time;
 
diff --git a/src/algorithms/ments/dbments_logger.cpp b/src/algorithms/ments/dbments_logger.cpp
index 0370a0a..c2d6b43 100644
--- a/src/algorithms/ments/dbments_logger.cpp
+++ b/src/algorithms/ments/dbments_logger.cpp
@@ -36,7 +36,7 @@ namespace thts {
         MentsLogger() {}
     
     void DBMentsLogger::add_origin_entry() {
-        entries.push_back(DBMentsLoggerEntry(
+        entries.push_back(make_shared<DBMentsLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -46,7 +46,7 @@ namespace thts {
     
     void DBMentsLogger::log(shared_ptr<ThtsDNode> node) {
         DBMentsDNode& dbments_node = (DBMentsDNode&) *node;
-        entries.push_back(DBMentsLoggerEntry(
+        entries.push_back(make_shared<DBMentsLoggerEntry>(
             get_current_total_runtime(), 
             dbments_node.num_visits,
             dbments_node.MentsDNode::num_backups,
diff --git a/src/algorithms/ments/ments_logger.cpp b/src/algorithms/ments/ments_logger.cpp
index 675489e..208c3f1 100644
--- a/src/algorithms/ments/ments_logger.cpp
+++ b/src/algorithms/ments/ments_logger.cpp
@@ -34,7 +34,7 @@ namespace thts {
         ThtsLogger() {}
     
     void MentsLogger::add_origin_entry() {
-        entries.push_back(MentsLoggerEntry(
+        entries.push_back(make_shared<MentsLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -43,7 +43,7 @@ namespace thts {
     
     void MentsLogger::log(shared_ptr<ThtsDNode> node) {
         MentsDNode& ments_node = (MentsDNode&) *node;
-        entries.push_back(MentsLoggerEntry(
+        entries.push_back(make_shared<MentsLoggerEntry>(
             get_current_total_runtime(), 
             ments_node.num_visits,
             ments_node.num_backups,
diff --git a/src/algorithms/uct/uct_logger.cpp b/src/algorithms/uct/uct_logger.cpp
index 5e9d747..b57ea7b 100644
--- a/src/algorithms/uct/uct_logger.cpp
+++ b/src/algorithms/uct/uct_logger.cpp
@@ -34,7 +34,7 @@ namespace thts {
         ThtsLogger() {}
     
     void UctLogger::add_origin_entry() {
-        entries.push_back(UctLoggerEntry(
+        entries.push_back(make_shared<UctLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -43,7 +43,7 @@ namespace thts {
     
     void UctLogger::log(shared_ptr<ThtsDNode> node) {
         UctDNode& uct_node = (UctDNode&) *node;
-        entries.push_back(UctLoggerEntry(
+        entries.push_back(make_shared<UctLoggerEntry>(
             get_current_total_runtime(), 
             uct_node.num_visits,
             uct_node.num_backups,
diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 5ec046f..dc1dea3 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -43,7 +43,7 @@ namespace thts {
     }
     
     void ThtsLogger::add_origin_entry() {
-        entries.push_back(LoggerEntry(
+        entries.push_back(make_shared<LoggerEntry>(
             chrono::duration<double>::zero(), 
             0));
     }
@@ -77,7 +77,7 @@ namespace thts {
     }
     
     void ThtsLogger::log(shared_ptr<ThtsDNode> node) {
-        entries.push_back(LoggerEntry(
+        entries.push_back(make_shared<LoggerEntry>(
             get_current_total_runtime(), 
             node->num_visits));
     }
@@ -90,12 +90,11 @@ namespace thts {
     void ThtsLogger::write_to_ostream(ostream& os) {
         if (entries.size() == 0) return;
         
-        LoggerEntry& first_entry = entries[0];
-        first_entry.write_header_to_ostream(os);
+        entries[0]->write_header_to_ostream(os);
         os << "\n";
 
-        for (LoggerEntry& logger_entry : entries) {
-            logger_entry.write_to_ostream(os);
+        for (shared_ptr<LoggerEntry>& logger_entry : entries) {
+            logger_entry->write_to_ostream(os);
             os << "\n";
         }
 
-- 
2.43.0


From 1b8a94a1c0e4c3c629f40fbe6f8630966b2dcb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:12 +0000
Subject: [PATCH 15/26] fix: logger counted trials from an uninitialised value

---
 src/thts_logger.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index dc1dea3..22dd764 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -27,8 +27,11 @@ namespace thts {
 
     ThtsLogger::ThtsLogger() : 
         prior_runtime(chrono::duration<double>::zero()), 
+        trials_completed(0),
         trials_delta(numeric_limits<int>::max()), 
-        runtime_delta(numeric_limits<double>::max()) {}
+        last_log_num_trials(0),
+        runtime_delta(numeric_limits<double>::max()),
+        next_log_runtime_threshold(numeric_limits<double>::max()) {}
 
     void ThtsLogger::set_trials_delta(int delta) {
         trials_delta = delta;
-- 
2.43.0


From 8d67c82c764abd41cb23b476ebf74936e96f6aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:30 +0000
Subject: [PATCH 16/26] fix: logger made extra entries at the start of every
 run_trials call but the first

---
 src/thts_logger.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 22dd764..8b93051 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -39,6 +39,7 @@ namespace thts {
     
     void ThtsLogger::set_runtime_delta(double delta) {
         runtime_delta = chrono::duration<double>(delta);
+        next_log_runtime_threshold = prior_runtime + runtime_delta;
     }
     
     int ThtsLogger::size() const {
@@ -53,8 +54,6 @@ namespace thts {
     
     void ThtsLogger::reset_start_time() {
         start_time = chrono::system_clock::now();
-        last_log_num_trials = 0;
-        next_log_runtime_threshold = runtime_delta;
     }
     
     chrono::duration<double> ThtsLogger::get_current_total_runtime() {
-- 
2.43.0


From b7aeb0e1fe176ec55a3e1c94fa36f683520c737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:27 +0000
Subject: [PATCH 17/26] fix: logged runtime went backwards over several
 run_trials calls

---
 include/thts.h | 12 +++++++++---
 src/thts.cpp   | 33 +++++++++++++++++++++++----------
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/include/thts.h b/include/thts.h
index db8b7fb..5bb4812 100644
--- a/include/thts.h
+++ b/include/thts.h
@@ -47,8 +47,8 @@ namespace thts {
      *          The number of trials the workers pool needs to run to have completed 'num_trials' trials.
      *      num_threads_working: 
      *          The number of threads currently working
-     *      trials_completed: 
-     *          The number of trials completed for 
+     *      run_in_progress:
+     *          If a 'run_trials' call has been made, for which there may be trials yet to finish
      *      thts_manager: 
      *          The ThtsManager to use in the thts planning routine
      *      root_node: 
@@ -74,9 +74,9 @@ namespace thts {
             // protected by can_work_lock - variables related to if should run more trials + updated by workers
             int trials_remaining;
             int num_threads_working;
+            bool run_in_progress;
 
             // protected by logging_lock - variables to do with logging
-            int trials_completed;
             std::shared_ptr<ThtsLogger> logger;
 
             // Manager and root node specifying the flavour of thts to run (the problem and algorithm)
@@ -191,6 +191,12 @@ namespace thts {
             void try_log();
 
 
+            /**
+             * Called (with work_left_lock held) when there is no work left. Once all workers are done, makes sure that 
+             * the logger is told that all trials have been run.
+             */
+            void try_finish_run();
+
             /**
              * Tells the workers to exit, and waits for them to do so.
              */
diff --git a/src/thts.cpp b/src/thts.cpp
index ef15160..8c477ca 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -38,7 +38,7 @@ namespace thts {
             max_run_time(0.0),
             trials_remaining(0),
             num_threads_working(num_threads),
-            trials_completed(0),
+            run_in_progress(false),
             logger(logger),
             thts_manager(thts_manager),
             root_node(root_node)
@@ -279,24 +279,29 @@ namespace thts {
     
     /**
     * If logging, grabs logging lock, checks if it is time to log and calls 'log' if it is, making sure to grab the
-    * lock for the root node as 'log' doesn't do that but needs to access the root node. When all trials are completed
-    * (trials_completed == num_trials), then call 'update_prior_runtime' for logger as it should be called after all
-    * trials are finished.
+    * lock for the root node as 'log' doesn't do that but needs to access the root node.
     */
     void ThtsPool::try_log() {
         if (logger != nullptr) {
             lock_guard<mutex> logging_lg(logging_lock);
-            trials_completed++;
             logger->trial_completed();
 
             if (logger->should_log()) {
                 lock_guard<mutex> root_node_lg(root_node->get_lock());
                 logger->log(root_node);
             }
+        }
+    }
 
-            if (trials_completed == num_trials) {
-                logger->update_prior_runtime();
-            }
+    /**
+     * Call 'update_prior_runtime' for logger (once) after all of the trials of a 'run_trials' call are finished.
+     */
+    void ThtsPool::try_finish_run() {
+        if (!run_in_progress || num_threads_working > 0) return;
+        run_in_progress = false;
+        if (logger != nullptr) {
+            lock_guard<mutex> logging_lg(logging_lock);
+            logger->update_prior_runtime();
         }
     }
 
@@ -307,6 +312,7 @@ namespace thts {
      * while this thts pool is 'alive' work threads perform the following (description of code from top to bottom):
      * - indicate that they have completed a trial/unit of work, by decrementing num_threads_working
      * - if can't work (run a trial): 
+     *      - if this was the last worker to finish, finish off logging for this 'run_trials' call
      *      - notify work_left_cv to try to signal any threads waiting on workers completing
      *      - if the time limit passed with trials remaining, then those trials are abandoned (so that the end of this
      *          'run_trials' call is final, even if the system clock is set back), and any threads waiting on workers 
@@ -328,11 +334,14 @@ namespace thts {
             num_threads_working--;
 
             if (!work_left()) {
+                trials_remaining = 0;
+                try_finish_run();
                 work_left_cv.notify_all();
             }
             while (!work_left()) {
                 if (trials_remaining > 0) {
                     trials_remaining = 0;
+                    try_finish_run();
                     work_left_cv.notify_all();
                 }
                 work_left_cv.wait(work_left_lock);
@@ -361,6 +370,7 @@ namespace thts {
             work_left_cv.wait(work_left_lock);
         }
         trials_remaining = 0;
+        try_finish_run();
     }
 
     /**
@@ -382,15 +392,18 @@ namespace thts {
      *      blocking: If this call is blocking, and waits for the trials to be completed
      */
     void ThtsPool::run_trials(int max_trials, double max_time, bool blocking) {
+        work_left_lock.lock();
         if (logger != nullptr) {
             lock_guard<mutex> lg(logging_lock);
             if (logger->size() == 0) {
                 logger->add_origin_entry();
             }
+            if (run_in_progress) {
+                logger->update_prior_runtime();
+            }
             logger->reset_start_time();
         }
-
-        work_left_lock.lock();
+        run_in_progress = max_trials > 0;
         num_trials = max_trials;
         trials_remaining = max_trials;
         start_time = std::chrono::system_clock::now();
-- 
2.43.0


From fa1ee74f45bd5ff6651eb4aa838296d21d7c2907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:34 +0000
Subject: [PATCH 18/26] fix: a second waiting thread could hang when the first
 wait saw the time limit pass

---
 src/thts.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/thts.cpp b/src/thts.cpp
index 8c477ca..859927c 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -97,7 +97,10 @@ namespace thts {
         if (work_left()) {
             throw runtime_error("Tried to change root node in thts pool while it was working.");
         }
-        trials_remaining = 0;
+        if (trials_remaining > 0) {
+            trials_remaining = 0;
+            work_left_cv.notify_all();
+        }
         while (num_threads_working > 0) {
             work_left_cv.wait(work_left_lock);
         }
@@ -362,14 +365,18 @@ namespace thts {
      * Waits on workers to complete their work
      * 
      * If the time limit passed with trials remaining, then those trials are abandoned, so no trials are run after this
-     * function returns.
+     * function returns. Any other threads waiting on workers completing need to be signalled when this happens, as they 
+     * may have started to wait before the time limit passed.
      */
     void ThtsPool::join() {
         lock_guard<mutex> lg(work_left_lock);
         while (work_left() || num_threads_working > 0) {
             work_left_cv.wait(work_left_lock);
         }
-        trials_remaining = 0;
+        if (trials_remaining > 0) {
+            trials_remaining = 0;
+            work_left_cv.notify_all();
+        }
         try_finish_run();
     }
 
-- 
2.43.0


From c080d34220f61c6e06c7323b03c37d32bbc2aae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:00 +0000
Subject: [PATCH 19/26] fix: process was terminated when memory ran out while
 starting rollout threads

---
 src/mc_eval.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 7d94347..1cf9fd6 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -130,6 +130,7 @@ namespace thts {
     void MCEvaluator::run_rollouts(int num_rollouts, int num_threads) {
         // spawn
         vector<thread> threads;
+        threads.reserve(num_threads);
         try {
             for (int i=0; i<num_threads; i++) {
                 threads.push_back(thread(
-- 
2.43.0


From 7d4a48b70dbac1d19a33dc4fc60d732c235cb716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:00 +0000
Subject: [PATCH 20/26] fix: run_trials kept its lock when the logger's first
 entry could not be made

---
 src/thts.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thts.cpp b/src/thts.cpp
index 859927c..25569e0 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -399,7 +399,7 @@ namespace thts {
      *      blocking: If this call is blocking, and waits for the trials to be completed
      */
     void ThtsPool::run_trials(int max_trials, double max_time, bool blocking) {
-        work_left_lock.lock();
+        unique_lock<mutex> work_left_lg(work_left_lock);
         if (logger != nullptr) {
             lock_guard<mutex> lg(logging_lock);
             if (logger->size() == 0) {
@@ -415,7 +415,7 @@ namespace thts {
         trials_remaining = max_trials;
         start_time = std::chrono::system_clock::now();
         max_run_time =  std::chrono::duration<double>(max_time);
-        work_left_lock.unlock();
+        work_left_lg.unlock();
 
         work_left_cv.notify_all();
         if (blocking) join();
-- 
2.43.0


From 280d01880ef0f3e4818fc7d991de5a668d5f7a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:34 +0000
Subject: [PATCH 21/26] fix: large prior policy search weight gave negative
 action probabilities

---
 src/algorithms/ments/ments_decision_node.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algorithms/ments/ments_decision_node.cpp b/src/algorithms/ments/ments_decision_node.cpp
index 9996148..5f719c7 100644
--- a/src/algorithms/ments/ments_decision_node.cpp
+++ b/src/algorithms/ments/ments_decision_node.cpp
@@ -217,6 +217,7 @@ namespace thts {
             action_distr[action] *= (1.0 - lambda) / sum_weights;
             if (manager.prior_policy_search_weight > 0.0) {
                 double lambda_tilde = manager.prior_policy_search_weight / log(num_visits+3);
+                if (lambda_tilde > 1.0) lambda_tilde = 1.0;
                 action_distr[action] *= (1.0 - lambda_tilde);
                 action_distr[action] += (1.0 - lambda) * lambda_tilde * policy_prior->at(action);
             }
-- 
2.43.0


From 8bd5f6851f95be5c20652ee8299ab6f254e088ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:34 +0000
Subject: [PATCH 22/26] fix: epsilon and visits scales of zero at the root node
 were ignored

---
 src/algorithms/ments/dents/dents_decision_node.cpp | 2 +-
 src/algorithms/ments/ments_decision_node.cpp       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/ments/dents/dents_decision_node.cpp b/src/algorithms/ments/dents/dents_decision_node.cpp
index 89db0f1..803cd2d 100644
--- a/src/algorithms/ments/dents/dents_decision_node.cpp
+++ b/src/algorithms/ments/dents/dents_decision_node.cpp
@@ -35,7 +35,7 @@ namespace thts {
         if (manager.value_temp_decay_fn == nullptr) return manager.value_temp_init;
 
         double visits_scale = manager.value_temp_decay_visits_scale;
-        if (is_root_node() && manager.value_temp_decay_root_node_visits_scale > 0.0) {
+        if (is_root_node() && manager.value_temp_decay_root_node_visits_scale >= 0.0) {
             visits_scale = manager.value_temp_decay_root_node_visits_scale;
         }
         return compute_decayed_temp(
diff --git a/src/algorithms/ments/ments_decision_node.cpp b/src/algorithms/ments/ments_decision_node.cpp
index 5f719c7..08685b1 100644
--- a/src/algorithms/ments/ments_decision_node.cpp
+++ b/src/algorithms/ments/ments_decision_node.cpp
@@ -78,7 +78,7 @@ namespace thts {
         if (manager.temp_decay_fn == nullptr) return manager.temp;
 
         double visits_scale = manager.temp_decay_visits_scale;
-        if (is_root_node() && manager.temp_decay_root_node_visits_scale > 0.0) {
+        if (is_root_node() && manager.temp_decay_root_node_visits_scale >= 0.0) {
             visits_scale = manager.temp_decay_root_node_visits_scale;
         }
         return compute_decayed_temp(
@@ -202,7 +202,7 @@ namespace thts {
         // compute lambda
         MentsManager& manager = (MentsManager&) *thts_manager;
         double epsilon = manager.epsilon;
-        if (is_root_node() && manager.root_node_epsilon > 0.0) epsilon = manager.root_node_epsilon;
+        if (is_root_node() && manager.root_node_epsilon >= 0.0) epsilon = manager.root_node_epsilon;
         double lambda = 0.0;
         if (epsilon > 0.0) lambda = epsilon / log(num_visits+1);
         if (lambda > manager.max_explore_prob) {
-- 
2.43.0


From 2902519271daf9900bff175686cef8be31ea0f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:14 +0000
Subject: [PATCH 23/26] fix: TENTS mixed action values scaled by different
 temperatures when the temperature decays

---
 .../algorithms/ments/tents/tents_decision_node.h | 11 ++++++-----
 .../ments/tents/tents_decision_node.cpp          | 16 ++++++++++------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/algorithms/ments/tents/tents_decision_node.h b/include/algorithms/ments/tents/tents_decision_node.h
index 9743771..3500e8d 100644
--- a/include/algorithms/ments/tents/tents_decision_node.h
+++ b/include/algorithms/ments/tents/tents_decision_node.h
@@ -23,9 +23,10 @@ namespace thts {
      * 
      * Paper: http://proceedings.mlr.press/v139/dam21a/dam21a.pdf
      * 
-     * Maps are maintained to map between the values of 'soft_q_value/temp' (where soft_q_value is the soft value of 
+     * Maps are maintained to map between the values of 'soft_q_value' (where soft_q_value is the soft value of 
      * a child) to prevent having to sort everytime the node is visited. So action selection may use slightly outdated 
-     * q values in a multi-threaded setting, but many threads probably outweighs this consistency cost.
+     * q values in a multi-threaded setting, but many threads probably outweighs this consistency cost. The values in the 
+     * maps are divided by the current temperature when they are used, as the temperature may decay between updates.
      * 
      * N.B. For convenience the code for tents frequently uses 'q_value' to mean the value of Q(s,a)/temp, trying to 
      * avoid being verbose.
@@ -35,10 +36,10 @@ namespace thts {
      * 
      * Member variables:
      *      qval_to_act: 
-     *          A multi-map from qvalue/temp values to actions (note that this is sorted from smallest to largest, so 
+     *          A multi-map from qvalues to actions (note that this is sorted from smallest to largest, so 
      *          the reverse iterator will iterate from largest to smallest)
      *      act_to_qval:
-     *          An unordered_map from action to qvalue/temp values, which is used for tents computations, and useful 
+     *          An unordered_map from action to qvalues, which is used for tents computations, and useful 
      *          for looking up items in the qval_to_act multimap.
      *      _selected_action_key:
      *          A key to use for storing the selected action in ThtsEnvContexts 
@@ -76,7 +77,7 @@ namespace thts {
              * 
              * Args:
              *      action: The action to be updated in the maps
-             *      new_q_value: The new q_value (over temp) to be updated in the maps
+             *      new_q_value: The new q_value to be updated in the maps
             */
             void update_maps(std::shared_ptr<const Action> action, double new_q_value);
 
diff --git a/src/algorithms/ments/tents/tents_decision_node.cpp b/src/algorithms/ments/tents/tents_decision_node.cpp
index ddb5703..2c637cc 100644
--- a/src/algorithms/ments/tents/tents_decision_node.cpp
+++ b/src/algorithms/ments/tents/tents_decision_node.cpp
@@ -30,8 +30,9 @@ namespace thts {
                 decision_timestep,
                 static_pointer_cast<const MentsCNode>(parent))
     {
+        double opp_coeff = is_opponent() ? -1.0 : 1.0;
         for (shared_ptr<const Action> action : *actions) {
-            double qval = get_soft_q_value_over_temp(action);
+            double qval = get_soft_q_value(action, opp_coeff);
             qval_to_act.insert(make_pair(qval, action));
             act_to_qval.insert_or_assign(action, qval);
         }
@@ -77,10 +78,11 @@ namespace thts {
     */
     unique_ptr<ActionVector> TentsDNode::get_sparse_action_set() const {
         unique_ptr<ActionVector> sparse_action_set = make_unique<ActionVector>();
+        double temp = get_temp();
         double i = 0;
         double sum_values = 0.0;
         for (auto it=qval_to_act.rbegin(); it != qval_to_act.rend(); it++) {
-            double value = it->first;
+            double value = it->first / temp;
             shared_ptr<const Action> action = it->second;
             sum_values += value;
             if (1.0 + (i+1.0)*value > sum_values) {
@@ -98,16 +100,17 @@ namespace thts {
     */
     double TentsDNode::spmax() const {
         unique_ptr<ActionVector> sparse_action_set = get_sparse_action_set();
+        double temp = get_temp();
 
         double sum_sparse_values = 0.0;
         for (shared_ptr<const Action> action : *sparse_action_set) {
-            sum_sparse_values += act_to_qval.at(action);
+            sum_sparse_values += act_to_qval.at(action) / temp;
         }
 
         double spmax_common_term = 0.5 * pow(sum_sparse_values-1.0, 2.0) / pow(sparse_action_set->size(), 2.0);
         double spmax = 0.5;
         for (shared_ptr<const Action> action : *sparse_action_set) {
-            double action_val = act_to_qval.at(action);
+            double action_val = act_to_qval.at(action) / temp;
             spmax += pow(action_val, 2.0) / 2.0 - spmax_common_term;
         }
 
@@ -174,15 +177,16 @@ namespace thts {
     */
    void TentsDNode::backup_update_map(ThtsEnvContext& ctx) {
         shared_ptr<const Action> selected_action = ctx.get_value_ptr_const<Action>(_selected_action_key);
+        double opp_coeff = is_opponent() ? -1.0 : 1.0;
         double new_q_value;
 
         if (has_child_node(selected_action)) {
             ThtsCNode& child_node = *get_child_node(selected_action);
             child_node.lock();
-            new_q_value = get_soft_q_value_over_temp(selected_action);
+            new_q_value = get_soft_q_value(selected_action, opp_coeff);
             child_node.unlock();
         } else {
-            new_q_value = get_soft_q_value_over_temp(selected_action);
+            new_q_value = get_soft_q_value(selected_action, opp_coeff);
         }
 
         update_maps(selected_action, new_q_value);
-- 
2.43.0


From ffbb651e1c73b2f3db67022d1127c8bb66580c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:05 +0000
Subject: [PATCH 24/26] fix: RENTS and TENTS mix up trial data when trees of
 one manager start at different time steps

Nodes shared through the transposition table keep the depth they had in the tree
that created them, so keying the trial context by depth made trials of another tree
read the entry of the wrong node, or one that does not exist.
---
 src/algorithms/ments/rents/rents_decision_node.cpp | 4 ++--
 src/algorithms/ments/tents/tents_decision_node.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algorithms/ments/rents/rents_decision_node.cpp b/src/algorithms/ments/rents/rents_decision_node.cpp
index 6cc4533..bc31988 100644
--- a/src/algorithms/ments/rents/rents_decision_node.cpp
+++ b/src/algorithms/ments/rents/rents_decision_node.cpp
@@ -25,12 +25,12 @@ namespace thts {
                 static_pointer_cast<const MentsCNode>(parent))
     {
         stringstream ss_n;
-        ss_n << "d_" << decision_depth;
+        ss_n << "d_" << decision_timestep;
         _node_distr_key = ss_n.str();
 
         if (decision_depth > 0) {
             stringstream ss_p;
-            ss_p << "d_" << decision_depth-1;
+            ss_p << "d_" << decision_timestep-1;
             _parent_distr_key = ss_p.str();
         }
     }
diff --git a/src/algorithms/ments/tents/tents_decision_node.cpp b/src/algorithms/ments/tents/tents_decision_node.cpp
index 2c637cc..47d98f6 100644
--- a/src/algorithms/ments/tents/tents_decision_node.cpp
+++ b/src/algorithms/ments/tents/tents_decision_node.cpp
@@ -38,7 +38,7 @@ namespace thts {
         }
 
         stringstream ss;
-        ss << decision_depth;
+        ss << decision_timestep;
         _selected_action_key = ss.str();
     }
 
@@ -162,7 +162,7 @@ namespace thts {
 
     /**
      * Calls the ments implementation of select action and stores the action in the context at 
-     * "{decision_depth}" -> selected_action
+     * "{decision_timestep}" -> selected_action
      */
     shared_ptr<const Action> TentsDNode::select_action(ThtsEnvContext& ctx) {
         shared_ptr<const Action> selected_action = select_action_ments(ctx);
-- 
2.43.0


From a1930cc0c89dd2aaadf34fb8ca1e07e267789fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:42 +0000
Subject: [PATCH 25/26] fix: logger logged every trial after its trial interval
 was set back to the default

---
 src/thts_logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 8b93051..27ced44 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -67,7 +67,7 @@ namespace thts {
     
     bool ThtsLogger::should_log() {
         bool result = false;
-        if (trials_completed >= last_log_num_trials + trials_delta) {
+        if (trials_completed - last_log_num_trials >= trials_delta) {
             last_log_num_trials = trials_completed;
             result = true;
         }
-- 
2.43.0


From f3255415cdbf6a665b4998fc0a5f97b680b6917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:59 +0000
Subject: [PATCH 26/26] fix: switching a pool whose time limit passed unnoticed
 left the old search open and spoilt the new logger's times

---
 src/thts.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thts.cpp b/src/thts.cpp
index 25569e0..d5f4068 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -104,6 +104,7 @@ namespace thts {
         while (num_threads_working > 0) {
             work_left_cv.wait(work_left_lock);
         }
+        try_finish_run();
         thts_manager = new_thts_manager;
         root_node = new_root_node;
         logger = new_logger;
-- 
2.43.0

