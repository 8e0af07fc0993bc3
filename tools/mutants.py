# Mutants for the sensitivity campaign (tools/mut.py).  keep=True marks behaviour-preserving edits on which every check must stay quiet.
M = []
def m(name, props, *edits, **k): M.append(dict(name=name, props=props.split(), edits=list(edits), **k))
T="src/thts.cpp"; CN="src/thts_chance_node.cpp"; DN="src/thts_decision_node.cpp"; UD="src/algorithms/uct/uct_decision_node.cpp"; UC="src/algorithms/uct/uct_chance_node.cpp"
MD="src/algorithms/ments/ments_decision_node.cpp"; MC="src/algorithms/ments/ments_chance_node.cpp"; TD="src/algorithms/ments/tents/tents_decision_node.cpp"; RD="src/algorithms/ments/rents/rents_decision_node.cpp"
DD="src/algorithms/ments/dents/dents_decision_node.cpp"; DC="src/algorithms/ments/dents/dents_chance_node.cpp"; LG="src/thts_logger.cpp"; EV="src/mc_eval.cpp"; HT="src/helper_templates.cc"; MG="include/thts_manager.h"
CD="src/distributions/categorical_distribution.cc"; CO="src/algorithms/common/"

# ---- C01
m("c01-decrement-after-trial","C01 C06",(T,"""            trials_remaining--;
            int trials_remaining_copy = trials_remaining;

            work_left_lock.unlock();
            run_thts_trial(trials_remaining_copy);
            work_left_lock.lock();""","""            int trials_remaining_copy = trials_remaining - 1;

            work_left_lock.unlock();
            run_thts_trial(trials_remaining_copy);
            work_left_lock.lock();
            trials_remaining--;"""))
m("c01-join-only-queue","C01 C02 C16",(T,"while (work_left() || num_threads_working > 0) {","while (work_left()) {"))
m("c01-join-if","C01 C03",(T,"""        while (work_left() || num_threads_working > 0) {
            work_left_cv.wait(work_left_lock);
        }""","""        if (work_left() || num_threads_working > 0) {
            work_left_cv.wait(work_left_lock);
        }"""))
m("c01-worker-if","C01",(T,"""            while (!work_left()) {
                if (trials_remaining > 0) {""","""            if (!work_left()) {
                if (trials_remaining > 0) {"""))
# ---- C02
m("c02-notify-one","C02 C01",(T,"""            if (!work_left()) {
                trials_remaining = 0;
                try_finish_run();
                work_left_cv.notify_all();""","""            if (!work_left()) {
                trials_remaining = 0;
                try_finish_run();
                work_left_cv.notify_one();"""))
m("c02-no-notify-when-expired","C02 C03",(T,"""                if (trials_remaining > 0) {
                    trials_remaining = 0;
                    try_finish_run();
                    work_left_cv.notify_all();
                }
""",""))
m("c02-lock-two","C02",(MD,"""        lock_all_children();
        compute_action_weights(action_weights, sum_weights, normalisation_term, ctx);
        unlock_all_children();""","""        lock_all_children();
        compute_action_weights(action_weights, sum_weights, normalisation_term, ctx);
        if (sum_weights > 0.0) unlock_all_children();"""),keep=True)
m("c02-log-lock-order","C02 C04",(T,"""            lock_guard<mutex> logging_lg(logging_lock);
            logger->trial_completed();

            if (logger->should_log()) {
                lock_guard<mutex> root_node_lg(root_node->get_lock());
                logger->log(root_node);
            }""","""            lock_guard<mutex> root_node_lg(root_node->get_lock());
            lock_guard<mutex> logging_lg(logging_lock);
            logger->trial_completed();

            if (logger->should_log()) {
                logger->log(root_node);
            }"""),keep=True)
# ---- C03
m("c03-time-only-every-8","C03",(T,"        chrono::time_point<chrono::system_clock> cur_time","        if ((trials_remaining & 7) != 0) return true;\n        chrono::time_point<chrono::system_clock> cur_time"))
m("c03-start-once","C03",(T,"        start_time = std::chrono::system_clock::now();\n        max_run_time","        if (num_threads_working == 0) start_time = std::chrono::system_clock::now();\n        max_run_time"))
m("c03-reserve","C03",(T,"        if (elapsed_time >= max_run_time) return false;","        if (elapsed_time * 1.02 >= max_run_time) return false;"))
m("c03-keep-start","C03",(T,"        start_time = std::chrono::system_clock::now();\n        max_run_time","        if (max_time < std::numeric_limits<double>::max() / 2 && trials_remaining > 0 && num_trials != max_trials) start_time = std::chrono::system_clock::now();\n        max_run_time"))
# ---- C04
m("c04-log-no-root-lock","C04 C13",(T,"                lock_guard<mutex> root_node_lg(root_node->get_lock());\n",""))
m("c04-rng-nolock","C04 C11",(MG,"""                std::lock_guard<std::mutex> lg(rng_lock);
                return real_distr(real_gen);""","""                return real_distr(real_gen);"""))
m("c04-visit-before-lock","C04 C05 C06",(T,"""            cur_node->lock();
            cur_node->visit_itfc(context);
            shared_ptr<const Action> action""","""            cur_node->visit_itfc(context);
            cur_node->lock();
            shared_ptr<const Action> action"""))
m("c04-final-visit","C04 C06 C05",(T,"""        cur_node->lock();
        cur_node->visit_itfc(context);
        rewards.push_back(cur_node->heuristic_value);
        cur_node->unlock();""","""        cur_node->visit_itfc(context);
        rewards.push_back(cur_node->heuristic_value);"""))
m("c04-ucb-children","C04",(UD,"        // Lock all children\n        lock_all_children();\n",""),(UD,"        // unlock all children\n        unlock_all_children();      \n",""))
m("c04-get-child-after-unlock","C04",(T,"""            shared_ptr<ThtsCNode> chance_node = cur_node->get_child_node_itfc(action);
            cur_node->unlock();""","""            cur_node->unlock();
            shared_ptr<ThtsCNode> chance_node = cur_node->get_child_node_itfc(action);"""))
m("c04-eval-nolock","C04 C14",(EV,"        lock_guard lg(lock);\n",""))
m("c04-tents-nolock","C04",(TD,"            child_node.lock();\n",""),(TD,"            child_node.unlock();\n",""))
m("c04-dp-nolock","C04",("include/algorithms/common/dp_decision_node.h","                for (auto pr : children) pr.second->lock();\n",""),("include/algorithms/common/dp_decision_node.h","                for (auto pr : children) pr.second->unlock();\n",""),count=2)
m("c04-emp-nolock","C04",("include/algorithms/common/emp_node.h","                for (auto pr : children) pr.second->lock();\n",""),("include/algorithms/common/emp_node.h","                for (auto pr : children) pr.second->unlock();\n",""),keep=True)
# ---- C05
m("c05-total-before","C05",(T,"        double total_return = 0.0;\n        for (double& reward : rewards) total_return += reward;\n","        double total_return = 0.0;\n        for (size_t i=0; i+1<rewards.size(); i++) total_return += rewards[i];\n"))
m("c05-pre-children-unlocked","C06 C04",(T,"""            chance_node->lock();
            int pre_visit_children = chance_node->get_num_children();
""","""            int pre_visit_children = chance_node->get_num_children();
            chance_node->lock();
"""))
m("c05-post-children-unlocked","C06 C04",(T,"""            int post_visit_children = chance_node->get_num_children();
            if (post_visit_children > pre_visit_children) {
                new_decision_node_created_this_trial = true;
            }
            shared_ptr<ThtsDNode> decision_node = chance_node->get_child_node_itfc(observation);
            chance_node->unlock();
""","""            shared_ptr<ThtsDNode> decision_node = chance_node->get_child_node_itfc(observation);
            chance_node->unlock();
            int post_visit_children = chance_node->get_num_children();
            if (post_visit_children > pre_visit_children) {
                new_decision_node_created_this_trial = true;
            }
"""))
m("c05-visited-means-new","C06",(T,"            if (post_visit_children > pre_visit_children) {\n                new_decision_node_created_this_trial = true;\n            }\n            shared_ptr<ThtsDNode> decision_node = chance_node->get_child_node_itfc(observation);","            shared_ptr<ThtsDNode> decision_node = chance_node->get_child_node_itfc(observation);\n            if (post_visit_children > pre_visit_children || decision_node->get_num_visits() == 0) {\n                new_decision_node_created_this_trial = true;\n            }"))
# ---- C07
m("c07-release-between","C07 C04",(CN,"        shared_ptr<ThtsDNode> child_node = create_child_node_helper_itfc(observation, next_state);\n        children[observation] = child_node;\n        dmap[dnode_id] = child_node;","        thts_manager->dmap_mutexes[mutex_indx].unlock();\n        shared_ptr<ThtsDNode> child_node = create_child_node_helper_itfc(observation, next_state);\n        thts_manager->dmap_mutexes[mutex_indx].lock();\n        children[observation] = child_node;\n        dmap[dnode_id] = child_node;"))
m("c07-depth-key","C07",(CN,"make_tuple(decision_timestep, observation)","make_tuple(decision_depth, observation)"))
m("c07-equal-hash","C07",("src/thts_types.cpp","""    bool equal_to<DNodeIdTuple>::operator()(const DNodeIdTuple& lhs, const DNodeIdTuple& rhs) const {
""","""    bool equal_to<DNodeIdTuple>::operator()(const DNodeIdTuple& lhs, const DNodeIdTuple& rhs) const {
        return hash<DNodeIdTuple>()(lhs) % 4096 == hash<DNodeIdTuple>()(rhs) % 4096 && get<1>(lhs)->equals_itfc(*get<1>(rhs));
"""),keep=True)
m("c07-no-table-insert-leaf","C07",(CN,"        dmap[dnode_id] = child_node;","        if (!child_node->is_leaf()) dmap[dnode_id] = child_node;"))
m("c07-stripe-by-time","C07 C02 C04",(CN,"            size_t tpl_hash = hash<DNodeIdTuple>()(dnode_id);","            size_t tpl_hash = get<0>(dnode_id);"),keep=True)
# ---- C08
m("c08-avg-by-visits-d","C08",(UD,"avg_return += (trial_return_after_node - avg_return) / (double) num_backups;","avg_return += (trial_return_after_node - avg_return) / (double) num_visits;"))
m("c08-avg-by-visits-c","C08",(UC,"avg_return += (trial_return_after_node - avg_return) / (double) num_backups;","avg_return += (trial_return_after_node - avg_return) / (double) num_visits;"))
m("c08-autobias-noabs","C08",(UD,"abs(get_child_node(action)->avg_return)","get_child_node(action)->avg_return"))
m("c08-prior-after","C08",(UD,"            action_ucb_value *= bias;\n            if (has_prior()) {\n                action_ucb_value *= policy_prior->at(action);\n            }","            action_ucb_value *= bias;\n            if (has_prior() && child_visits > 0) {\n                action_ucb_value *= policy_prior->at(action);\n            }"))
m("c08-pseudo-backups","C08",(UD,"            num_backups = thts_manager->heuristic_psuedo_trials;","            num_backups = thts_manager->heuristic_psuedo_trials > 1 ? 1 : thts_manager->heuristic_psuedo_trials;"))
m("c08-first-untried","C08 C19",(UD,"                int indx = thts_manager->get_rand_int(0,actions_yet_to_try.size());","                int indx = 0;"),keep=True)
m("c08-puct-sign","C08",(UD,"action_ucb_value += opp_coeff * get_child_node(action)->avg_return;","action_ucb_value += (has_prior() ? 1.0 : opp_coeff) * get_child_node(action)->avg_return;"))
m("c08-emp-drop-heur","C08",(DD,"EmpNode(1, heuristic_value)","EmpNode(0, heuristic_value)"))
# ---- C09
m("c09-cnode-visits","C09",(MC,"            sum_child_backups += child.num_backups;","            sum_child_backups += child.num_visits;"))
m("c09-norm-min","C09",(MD,"normalisation_term = numeric_limits<double>::lowest();","normalisation_term = 0.0;"))
m("c09-norm-min2","C09",(RD,"normalisation_term = numeric_limits<double>::lowest();","normalisation_term = numeric_limits<double>::min();"))
m("c09-temp-backups","C09",(MD,"manager.temp_decay_fn, manager.temp, manager.temp_decay_min_temp, num_visits, visits_scale);","manager.temp_decay_fn, manager.temp, manager.temp_decay_min_temp, num_backups, visits_scale);"))
m("c09-default-sign","C09",(MD,"return manager.default_q_value * opp_coeff;","return manager.default_q_value;"))
m("c09-dents-entropy-sign","C09",(CO+"ent_decision_node.cpp","subtree_entropy = opp_coeff * local_entropy;","subtree_entropy = local_entropy;"))
m("c09-dp-skip0","C09",(CO+"dp_chance_node.cpp","            if (child.num_backups == 0) continue;\n",""),keep=True)
m("c09-soft-skip0","C09",(MC,"            if (child.num_backups == 0) continue;\n",""))
m("c09-leaf-backups","C09",(MD,"        if (is_leaf()) {\n            num_backups++;\n        }\n",""))
m("c09-log-clamp","C09",(MD,"            } else if (weight > LOG_MIN_ARG) {\n                log_weight = log(weight);\n            }\n            return","            } else {\n                log_weight = log(weight);\n            }\n            return"))
m("c09-min-temp","C09",(CO+"decaying_temp.cpp","        if (temp < min_temp) return min_temp;\n",""))
m("c09-tents-set","C09",(TD,"if (1.0 + (i+1.0)*value > sum_values)","if (1.0 + i*value > sum_values)"))
m("c09-tents-update-once","C09",(TD,"            if (it->second != action) continue;\n",""))
m("c09-dp-opp","C09",(CO+"dp_decision_node.cpp","if (opp_coeff * child.dp_value > opp_coeff * dp_value) {","if (child.dp_value > dp_value || dp_value > 1e300) {"))
# ---- C10
m("c10-thresh-gt","C10",(MD,"get_child_node(action)->num_visits >= manager.recommend_visit_threshold","get_child_node(action)->num_visits > manager.recommend_visit_threshold"))
m("c10-uct-opp","C10",(UD,"action_values[action] = opp_coeff * get_child_node(action)->avg_return;","action_values[action] = get_child_node(action)->avg_return;"))
m("c10-emp-opp","C10",(CO+"emp_node.cpp","                avg_returns[action] = opp_coeff * child.avg_return;","                avg_returns[action] = child.avg_return;"))
m("c10-maxkey-int","C10 C17",(HT,"            NumericT val = pr.second;\n            if (val < best_val) continue;","            NumericT val = pr.second;\n            if (val < best_val - 1e-9) continue;"))
m("c10-dp-thr","C10",(CO+"dp_decision_node.cpp","                dp_values[action] = opp_coeff * child.dp_value;","                dp_values_thresholded[action] = opp_coeff * child.dp_value;"))
# ---- C11
m("c11-two-draws","C11",(MG,"                int len = int_distr(int_gen) % (max_excluded - min_included);","                int len = int_distr(int_gen) % (max_excluded - min_included);\n                if (max_excluded - min_included > 64) int_distr(int_gen);"))
m("c11-thread-local","C11 C12",(MG,"                std::lock_guard<std::mutex> lg(rng_lock);\n                return real_distr(real_gen);","                static thread_local std::mt19937 gen((unsigned)int_gen());\n                return real_distr(gen);"))
# ---- C12
m("c12-addr-ties","C12",(HT,"        if (best_keys.size() == 1) return best_keys[0];","        if (best_keys.size() == 1) return best_keys[0];\n        if (best_keys.size() > 2) return best_keys[((size_t)&best_keys[0] >> 4) % best_keys.size()];"))
m("c12-uninit-avg","C12 C08",("include/thts_manager.h","                if (seed == 0) init_random_seed();","                if (seed == 0) init_random_seed();\n                if (seed < 0) int_gen = std::mt19937(rd());"))
# ---- C13
m("c13-delta-add","C13",(LG,"            last_log_num_trials = trials_completed;","            last_log_num_trials += trials_delta - 1;"))
m("c13-time-origin","C13",(LG,"        next_log_runtime_threshold = prior_runtime + runtime_delta;","        next_log_runtime_threshold = runtime_delta + runtime_delta;"))
m("c13-either","C13",(LG,"            next_log_runtime_threshold += runtime_delta;\n            result = true;","            next_log_runtime_threshold += runtime_delta;\n            result = !result;"))
m("c13-dbments-soft","C13",("src/algorithms/ments/dbments_logger.cpp","            dbments_node.soft_value,\n            dbments_node.dp_value));","            dbments_node.dp_value,\n            dbments_node.soft_value));"))
m("c13-ments-backups","C13",("src/algorithms/ments/ments_logger.cpp","            ments_node.num_backups,","            ments_node.num_visits,"))
m("c13-trylog-nolock","C13 C04",(T,"            lock_guard<mutex> logging_lg(logging_lock);\n            logger->trial_completed();\n\n            if","            logger->trial_completed();\n            lock_guard<mutex> logging_lg(logging_lock);\n\n            if"))
# ---- C14
m("c14-even-split","C14",(EV,"        for (int i=thread_id; i < total_rollouts; i+=num_threads) {","        int share = total_rollouts / num_threads + (thread_id == 0 ? total_rollouts % num_threads : 0);\n        for (int i=0; i < share; i++) {"),keep=True)
m("c14-lost-rest","C14",(EV,"        for (int i=thread_id; i < total_rollouts; i+=num_threads) {","        int share = total_rollouts / num_threads + (thread_id+1 < total_rollouts % num_threads ? 1 : 0);\n        for (int i=0; i < share; i++) {"))
m("c14-no-reset","C14",(EV,"        // Reset\n        thread_policy.reset();\n",""))
m("c14-shared-policy","C14 C04",(EV,"            run_rollout(*thread_policy);","            run_rollout(total_rollouts > 6 ? policy : *thread_policy);"))
m("c14-var-int","C14",(EV,"        double weight = 1.0 / (sampled_returns.size() - 1.0);","        double weight = 1.0 / (double)sampled_returns.size();"))
m("c14-stay-in-tree","C14",(EV,"        if (!chance_node.has_child_node_itfc(obsv)) {\n            cur_node = nullptr;\n            return;\n        }","        if (!chance_node.has_child_node_itfc(obsv)) {\n            return;\n        }"))
# ---- C15
m("c15-no-refuse","C15",(T,"        if (work_left()) {\n            throw runtime_error(\"Tried to change root","        if (work_left() && num_threads_working > 0) {\n            throw runtime_error(\"Tried to change root"))
m("c15-keep-logger","C15 C13",(T,"        logger = new_logger;","        if (new_logger != nullptr) logger = new_logger;"))
m("c15-trial-reads-late","C15 C04",(T,"        thts_manager = new_thts_manager;\n        root_node = new_root_node;\n        logger = new_logger;","        thts_manager = new_thts_manager;\n        root_node = new_root_node;\n        work_left_lock.unlock();\n        logger = new_logger;\n        work_left_lock.lock();"),keep=True)
# ---- C16
m("c16-parent-shared","C16",("include/thts_chance_node.h","            std::weak_ptr<const ThtsDNode> parent;","            std::shared_ptr<const ThtsDNode> parent;"))
m("c16-exit-before-backup","C16",(T,"        run_backup_phase(nodes_to_backup, rewards, *context);","        if (thread_pool_alive) run_backup_phase(nodes_to_backup, rewards, *context);"))
# ---- C17
m("c17-le","C17",(HT,"            if (rand_val < running_prob_mass) {","            if (rand_val <= running_prob_mass) {"))
m("c17-alias-flip","C17",(CD,"if (1.0 > alias_entry.threshold && alias_entry.threshold > rand_manager.get_rand_uniform())","if (1.0 > alias_entry.threshold && alias_entry.threshold >= rand_manager.get_rand_uniform())"))
m("c17-alias-donor","C17",(CD,"            alias_table[l_index].threshold -= 1.0 - alias_table[s_index].threshold;","            alias_table[l_index].threshold -= alias_table[s_index].threshold;"))
m("c17-mixed","C17",(CD,"        num_updates++;\n","        if (use_alias_method) num_updates++; else num_updates = 0;\n"),keep=True)
# ---- C18
m("c18-detach","C18",(EV,"                started_thread.join();","                started_thread.detach();"))
# ---- C19 (search policy)
m("c19-lambda-visits","C19",(MD,"lambda = epsilon / log(num_visits+1);","lambda = epsilon / log(num_visits+2);"))
m("c19-rents-parent","C19",(RD,"        if (parent_distr->find(action) == parent_distr->end()) return 0.0;","        if (parent_distr->find(action) == parent_distr->end()) return 1.0;"))
m("c19-prior-mix","C19",(MD,"action_distr[action] += (1.0 - lambda) * lambda_tilde * policy_prior->at(action);","action_distr[action] += lambda_tilde * policy_prior->at(action);"))
m("c19-eps-uct","C19",(UD,"            if (manager->get_rand_uniform() < manager->epsilon_exploration) {","            if (manager->get_rand_uniform() > manager->epsilon_exploration) {"))
# ---- preserving refactorings
m("k-join-helper","C01 C02 C03 C16",(T,"""        while (work_left() || num_threads_working > 0) {
            work_left_cv.wait(work_left_lock);
        }
        if""","""        for (;;) {
            bool busy = num_threads_working > 0;
            if (!busy && !work_left()) break;
            work_left_cv.wait(work_left_lock);
        }
        if"""),keep=True)
m("k-notify-last","C01 C02 C03 C15 C16",(T,"""                trials_remaining = 0;
                try_finish_run();
                work_left_cv.notify_all();
            }
            while""","""                trials_remaining = 0;
                try_finish_run();
                if (num_threads_working == 0) work_left_cv.notify_all();
            }
            while"""),keep=True)
m("k-loggers","C13",(LG,"""        entries.push_back(make_shared<LoggerEntry>(
            get_current_total_runtime(), 
            node->num_visits));""","""        auto now = get_current_total_runtime();
        int visits = node->get_num_visits();
        entries.emplace_back(make_shared<LoggerEntry>(now, visits));"""),keep=True)
m("k-sample-suffix","C17 C12 C19",(HT,"            running_prob_mass += pr.second / sum_weights;","            const double mass = pr.second / sum_weights;\n            running_prob_mass = running_prob_mass + mass;"),keep=True)
m("k-rng-order","C11",(MG,"                int len = int_distr(int_gen) % (max_excluded - min_included);\n                return min_included + len;","                const int span = max_excluded - min_included;\n                const int raw = int_distr(int_gen);\n                return raw % span + min_included;"),keep=True)
m("k-ments-weights","C09 C19",(MD,"            double soft_q_value = get_soft_q_value(action,opp_coeff);\n            double action_weight = exp((soft_q_value/temp) - normalisation_term);","            double q_over_temp = get_soft_q_value(action,opp_coeff) / temp;\n            double action_weight = exp(q_over_temp - normalisation_term);"),keep=True)
m("k-mean","C08 C14",(EV,"        double weight = 1.0 / sampled_returns.size();\n        double mean = 0.0;\n        for (double val : sampled_returns) {\n            mean += weight * val;\n        }\n        return mean;","        double sum = 0.0;\n        for (double val : sampled_returns) sum += val;\n        return sum / sampled_returns.size();"),keep=True)

# ---- second round
m("n-elapsed-float","C03",(T,"chrono::duration<double> elapsed_time = cur_time - start_time;","chrono::duration<float> elapsed_time = cur_time - start_time;"),keep=True)
m("n-limit-float","C03",(T,"max_run_time =  std::chrono::duration<double>(max_time);","max_run_time =  std::chrono::duration<double>((float)max_time);"),keep=True)
m("n-log-drift","C13",(LG,"            next_log_runtime_threshold += runtime_delta;","            next_log_runtime_threshold = get_current_total_runtime() + runtime_delta;"))
m("n-stop-nolock","C02 C16 C04",(T,"""        work_left_lock.lock();
        thread_pool_alive = false;
        work_left_cv.notify_all();
        work_left_lock.unlock();""","""        thread_pool_alive = false;
        work_left_cv.notify_all();"""))
m("n-switch-nowait","C15 C04",(T,"""        while (num_threads_working > 0) {
            work_left_cv.wait(work_left_lock);
        }
        thts_manager""","""        while (logger != nullptr && num_threads_working > 0) {
            work_left_cv.wait(work_left_lock);
        }
        thts_manager"""))
m("n-eval-empty","C14",(EV,"        if (cur_node == nullptr) return get_random_action(state);","        if (cur_node == nullptr || cur_node->get_num_children() == 0) return get_random_action(state);"))
m("n-tents-key","C09",(TD,"        ss << decision_timestep;","        ss << (decision_timestep & 3);"))
m("n-rents-key","C19 C09",(RD,'ss_n << "d_" << decision_timestep;','ss_n << "d_" << (decision_timestep & 3);'),(RD,'ss_p << "d_" << decision_timestep-1;','ss_p << "d_" << ((decision_timestep-1) & 3);'))
m("n-table-keeps-dead","C07",(CN,"        dmap[dnode_id] = child_node;","        dmap.emplace(dnode_id, child_node);"))
m("n-lock-order","C02",(CN,"        sort(dnodes.begin(), dnodes.end(), less<ThtsDNode*>());\n",""))
m("n-eval-context","C14",(EV,"""        shared_ptr<ThtsEnvContext> context = thts_env->sample_context_itfc(state);
""","""        static thread_local shared_ptr<ThtsEnvContext> context = thts_env->sample_context_itfc(state);
"""))
m("n-seed-abs","C11",(MG,"                int_gen(seed),","                int_gen(std::abs(seed)),"),keep=True)
m("n-short-trials","C01",("include/thts.h","            int trials_remaining;","            short trials_remaining;"))
m("n-uct-backups","C08",(UD,"get_child_node(action)->num_visits : 0;","get_child_node(action)->num_backups : 0;"))
m("n-autobias-cache","C08 C19",(UD,"                if (!has_child_node(action)) continue;\n                double child_abs_val","                if (!has_child_node(action) || get_child_node(action)->num_visits > 40) continue;\n                double child_abs_val"))
m("n-dents-threshold","C10",(CO+"emp_node.cpp","if (child.num_backups >= visit_threshold) {","if (child.num_backups > visit_threshold) {"))
m("n-opp-depth","C09 C10 C20",(DN,"return (decision_timestep & 1) == 1;","return (decision_depth & 1) == 1;"))
m("n-opp-depth-c","C09 C10 C20",(CN,"return (decision_timestep & 1) == 1;","return (decision_depth & 1) == 1;"),keep=True)
m("n-update-freq","C17",(CD,"        distr = new_distr;\n        num_updates = 0;","        distr = new_distr;\n        num_updates++;"))
m("n-alias-size","C17",(CD,"alias_table.size() != distr->size()","alias_table.size() < distr->size()"))
m("n-sample-eps","C17",(HT,"running_prob_mass >= 1.0 - EPS","running_prob_mass >= 1.0"))
m("n-last-possible","C17",(HT,"            if (pr.second > 0.0) last_possible_obj = &pr.first;","            last_possible_obj = &pr.first;"))
m("n-log-count-unlocked","C13 C04",(T,"            lock_guard<mutex> logging_lg(logging_lock);\n            logger->trial_completed();","            logger->trial_completed();\n            lock_guard<mutex> logging_lg(logging_lock);"))
m("n-finish-early","C13",(T,"        if (!run_in_progress || num_threads_working > 0) return;","        if (!run_in_progress || num_threads_working > 1) return;"))
m("n-heur-leaf","C08 C09",(DN,"!thts_manager->thts_env->is_sink_state_itfc(state)","!is_leaf()"))
m("n-expired-negative","C03",(T,"        if (elapsed_time >= max_run_time) return false;","        if (elapsed_time >= max_run_time || elapsed_time.count() > 86400.0) return false;"))
m("n-depth-limit-root","C06",(DN,"decision_depth >= thts_manager->max_depth","decision_depth >= thts_manager->max_depth && decision_depth > 0"))
m("n-emp-inflight","C08",(CO+"emp_node.cpp","(_return - avg_return) / (double) num_backups;","(_return - avg_return) / (double) (num_backups > 300 ? 300 : num_backups);"))
m("n-eval-shared-rng","C14 C12",(EV,"        int indx = rand_manager.get_rand_int(0, actions->size());","        int indx = (int)(rand_manager.get_rand_uniform() * (actions->size() - 1) + 0.5);"))
m("n-rollout-ids","C14",(EV,"i < total_rollouts; i+=num_threads","i < total_rollouts; i+=(num_threads > 12 ? 12 : num_threads)"))
m("n-maxkey-lowest","C10 C17",(HT,"        NumericT best_val = numeric_limits<NumericT>::lowest();","        NumericT best_val = numeric_limits<NumericT>::lowest() / 2;"),keep=True)
m("n-maxkey-min","C10 C08",(HT,"        NumericT best_val = numeric_limits<NumericT>::lowest();","        NumericT best_val = numeric_limits<NumericT>::is_integer ? 0 : -1e4;"))
m("n-softq-prior-opp","C09",(MD,"            return log_weight + psuedo_q_value_offset;","            return log_weight + opp_coeff * psuedo_q_value_offset;"))
m("n-dents-childent","C09",(CO+"ent_decision_node.cpp","            subtree_entropy += policy[action] * child.subtree_entropy;","            if (child.num_backups > 0) subtree_entropy += policy[action] * child.subtree_entropy;"),keep=True)
m("n-chance-reuse","C06 C07",(CN,"        if (has_child_node_itfc(observation)) return get_child_node_itfc(observation);\n\n        if (!thts","        if (!thts"))
# ---- third set: one per mechanism, written after the checks were complete
ED="src/algorithms/est/est_decision_node.cpp"; EC="src/algorithms/est/est_chance_node.cpp"
m("z-eval-childless","C14",(EV,"if (cur_node == nullptr) return get_random_action(state);\n        return","if (cur_node == nullptr || cur_node->get_num_children() == 0) return get_random_action(state);\n        return"))
m("z-avg-float","C08",(UD,"avg_return += (trial_return_after_node - avg_return) / (double) num_backups;","avg_return += (float)((trial_return_after_node - avg_return) / (double) num_backups);"))
m("z-naive-var","C14",(EV,"""        double weight = 1.0 / (sampled_returns.size() - 1.0);
        double variance = 0.0;
        for (double val : sampled_returns) {
            variance += weight * pow(val - mean, 2.0);
        }
        return sqrt(variance);""","""        double n = sampled_returns.size();
        double sum_squares = 0.0;
        for (double val : sampled_returns) {
            sum_squares += val * val;
        }
        double variance = (sum_squares - n * mean * mean) / (n - 1.0);
        return variance > 0.0 ? sqrt(variance) : 0.0;"""))
m("z-tie-tol","C10 C17 C08",(HT,"""            if (val < best_val) continue;
            if (val > best_val) {
                best_keys = vector<T>();""","""            if (val < best_val - 1e-6) continue;
            if (val > best_val + 1e-6) {
                best_keys = vector<T>();"""))
m("z-tie-single-draw","C17",(HT,"        if (best_keys.size() == 1) return best_keys[0];\n","        if (best_keys.size() == 1) return best_keys[0];\n        if (best_keys.size() == map.size()) return best_keys[0];\n"))
m("z-puct-power-int","C08",("src/algorithms/uct/puct_decision_node.cpp","if (manager->puct_power != 0.5) {","if (manager->puct_power > 0.5) {"))
m("z-most-visited-zero","C10",(MD,"""            if (!has_child_node(action)) continue;
            visit_counts[action] = get_child_node(action)->num_visits;
        }

        // If no children, best we can do is select a random action to recommend
        if (visit_counts.size() == 0u) {""","""            if (!has_child_node(action)) continue;
            if (get_child_node(action)->num_visits > 1) visit_counts[action] = get_child_node(action)->num_visits;
        }

        // If no children, best we can do is select a random action to recommend
        if (visit_counts.size() == 0u) {"""))
m("z-dents-temp-child","C09 C19",(DD,"get_value_temp() * child.subtree_entropy)","child.get_value_temp() * child.subtree_entropy)"))
m("z-dents-rootscale","C09",(DD,"if (is_root_node() && manager.value_temp_decay_root_node_visits_scale >= 0.0)","if (is_root_node() && manager.value_temp_decay_root_node_visits_scale > 0.0)"))
m("z-est-leaf-dp","C09 C20",(EC,"backup_dp<EstDNode>(children, local_reward, is_opponent());","if (children.size() > 0) backup_dp<EstDNode>(children, local_reward, is_opponent());"),keep=True)
m("z-emp-prior0","C08",(DD,"EmpNode(1, heuristic_value)","EmpNode(heuristic_value != 0.0 ? 1 : 0, heuristic_value)"))
m("z-entropy-erased","C09",(CO+"ent_decision_node.cpp","if (prob == 0.0) continue;","if (prob < 1e-3) continue;"))
m("z-decay-sigmoid","C09",(CO+"decaying_temp.cpp","(1.0 + exp(scaled_visits - 5.0))","(1.0 + exp(min(scaled_visits, 10.0) - 5.0))"),(CO+"decaying_temp.cpp",'#include "algorithms/common/decaying_temp.h"','#include "algorithms/common/decaying_temp.h"\n#include <algorithm>\nusing std::min;'))
m("z-mintemp-zero","C09",(CO+"decaying_temp.cpp","if (temp < min_temp) return min_temp;","if (min_temp > 0.0 && temp < min_temp) return min_temp;"),keep=True)
m("z-eps-threshold","C19",(MD,"if (action_distr[action] < EPS) {","if (action_distr[action] < 1e-4) {"))
m("z-rents-eps","C19",(RD,"if (sum_action_weights < EPS) {","if (sum_action_weights < 1e-6) {"))
m("z-tents-order","C09 C19",(TD,"for (auto it=qval_to_act.rbegin(); it != qval_to_act.rend(); it++) {\n            double value = it->first / temp;","for (auto it=qval_to_act.rbegin(); it != qval_to_act.rend() && i < 8; it++) {\n            double value = it->first / temp;"))
m("z-alias-one","C17",(CD,"if (alias_table[i].threshold > 1.0) {\n                large_indices.push_back(i);\n            } else if (alias_table[i].threshold < 1.0) {","if (alias_table[i].threshold >= 1.0) {\n                large_indices.push_back(i);\n            } else if (alias_table[i].threshold < 1.0) {"),keep=True)
m("z-alias-newdistr-freq","C17",(CD,"""        distr = new_distr;
        num_updates = 0;
        if (use_alias_method) {""","""        bool same_size = distr->size() == new_distr->size();
        distr = new_distr;
        num_updates = 0;
        if (use_alias_method && !(same_size && reconstruct_alias_table_freq > 1)) {"""))
m("z-mixed-norm","C17",("src/distributions/mixed_distribution.cc","helper::sample_from_distribution(*distr, rand_manager)","helper::sample_from_distribution(*distr, rand_manager, false)"),keep=True)
m("z-rand-cast","C11",(MG,"int len = int_distr(int_gen) % (max_excluded - min_included);","unsigned len = int_distr(int_gen) % (unsigned)(max_excluded - min_included);"),keep=True)
m("z-rand-double","C11 C17",(MG,"int len = int_distr(int_gen) % (max_excluded - min_included);","int len = (int)((float)int_distr(int_gen) / (float)RAND_MAX * (max_excluded - min_included));"))
m("z-seed-rd-shared","C11",(MG,"""                int_gen = std::mt19937(rd());
                real_gen = std::mt19937(rd());""","""                static const unsigned process_seed = rd();
                int_gen = std::mt19937(process_seed);
                real_gen = std::mt19937(process_seed + 1);"""))
m("z-log-threshold-skip","C13",(LG,"next_log_runtime_threshold += runtime_delta;","next_log_runtime_threshold = get_current_total_runtime() + runtime_delta;"))
m("z-log-last-trials","C13",(LG,"last_log_num_trials = trials_completed;","last_log_num_trials += trials_delta;"))
m("z-log-write-dup","C13",(LG,"if (entries.size() == 0) return;","if (entries.size() <= 1) return;"))
m("z-switch-logger-origin","C13 C15",(T,"            if (logger->size() == 0) {\n                logger->add_origin_entry();","            if (logger->size() == 0 && root_node->num_visits == 0) {\n                logger->add_origin_entry();"))
m("z-run-zero","C13 C15",(T,"        unique_lock<mutex> work_left_lg(work_left_lock);\n        if (logger","        if (max_trials <= 0) return;\n        unique_lock<mutex> work_left_lg(work_left_lock);\n        if (logger"))
m("z-dp-float","C09",(CO+"dp_chance_node.cpp","double sum_child_backups = 0;","float sum_child_backups = 0;"))
m("z-cnode-lock-each","C02 C04 C09",(MC,"""        lock_all_children();
        for (pair<shared_ptr<const Observation>,shared_ptr<ThtsDNode>> pr : children) {
            MentsDNode& child = (MentsDNode&) *pr.second;""","""        for (pair<shared_ptr<const Observation>,shared_ptr<ThtsDNode>> pr : children) {
            MentsDNode& child = (MentsDNode&) *pr.second;
            lock_guard<mutex> child_lg(child.get_lock());"""),(MC,"""        }
        unlock_all_children();
        soft_value += local""","""        }
        soft_value += local"""),keep=True)
m("z-table-emplace","C07",(CN,"dmap[dnode_id] = child_node;","dmap.emplace(dnode_id, child_node);"))
m("z-eval-max-len","C14",(EV,"while (num_actions_taken < max_trial_length && !thts_env->is_sink_state_itfc(state)) {","while (!thts_env->is_sink_state_itfc(state) && (num_actions_taken < max_trial_length || num_actions_taken == 0)) {"))
m("z-eval-more-threads","C14 C02",(EV,"    void MCEvaluator::run_rollouts(int num_rollouts, int num_threads) {\n","    void MCEvaluator::run_rollouts(int num_rollouts, int num_threads) {\n        if (num_threads > num_rollouts) num_threads = num_rollouts;\n"),keep=True)
m("z-eval-reward-state","C21 C14",(EV,"sample_return += thts_env->get_reward_itfc(state, action, obsv);\n\n            thread_policy.update_step(action, obsv);\n            state = next_state;","thread_policy.update_step(action, obsv);\n            state = next_state;\n            sample_return += thts_env->get_reward_itfc(state, action, obsv);"))
m("z-switch-open-run","C15",(T,"        try_finish_run();\n        thts_manager","        thts_manager"))
m("z-dtor-drop","C16",(T,"        work_left_lock.lock();\n        thread_pool_alive = false;","        work_left_lock.lock();\n        trials_remaining = 0;\n        thread_pool_alive = false;"),keep=True)
m("z-opp-prior","C09",(MD,"return log_weight + psuedo_q_value_offset;","return opp_coeff * (log_weight + psuedo_q_value_offset);"))
m("z-heur-sink-child","C09 C08",(DN,"if (thts_manager->heuristic_fn != nullptr && !thts_manager->thts_env->is_sink_state_itfc(state)) {","if (thts_manager->heuristic_fn != nullptr && decision_depth < thts_manager->max_depth && !thts_manager->thts_env->is_sink_state_itfc(state)) {"))
m("z-ucb-visit0","C08",(UD,"double child_visits_d = (child_visits > 0) ? (double)child_visits : 1.0;","double child_visits_d = (double)child_visits + (child_visits > 0 ? 0.0 : 0.5);"))
m("z-autobias-opp","C08",(UD,"double child_abs_val = abs(get_child_node(action)->avg_return);","double child_abs_val = abs((int)get_child_node(action)->avg_return);"))
