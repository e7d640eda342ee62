# Mutants of the repository, each written from a property's text and the code. Development tool: mutate.py runs the
# check of the property (quick) on a copy of the tree with the mutant and reports the ones that are not caught.
D, C = 'src/thts_decision_node.cpp', 'src/thts_chance_node.cpp'
T, UD, UC = 'src/thts.cpp', 'src/algorithms/uct/uct_decision_node.cpp', 'src/algorithms/uct/uct_chance_node.cpp'
MD, MC = 'src/algorithms/ments/ments_decision_node.cpp', 'src/algorithms/ments/ments_chance_node.cpp'
RD, TD = 'src/algorithms/ments/rents/rents_decision_node.cpp', 'src/algorithms/ments/tents/tents_decision_node.cpp'
DD, DC = 'src/algorithms/ments/dents/dents_decision_node.cpp', 'src/algorithms/ments/dents/dents_chance_node.cpp'
ED, EC = 'src/algorithms/est/est_decision_node.cpp', 'src/algorithms/est/est_chance_node.cpp'
CM = 'src/algorithms/common/'
H, CAT, MCE = 'src/helper_templates.cc', 'src/distributions/categorical_distribution.cc', 'src/mc_eval.cpp'
TY, LG = 'src/thts_types.cpp', 'src/thts_logger.cpp'
M = [
 ('C01', 'a', T, 'if (post_visit_children > pre_visit_children) {', 'if (post_visit_children > pre_visit_children && pre_visit_children == 0) {'),
 ('C01', 'b', T, 'if (thts_manager->mcts_mode && new_decision_node_created_this_trial) return false;', 'if (thts_manager->mcts_mode && new_decision_node_created_this_trial && cur_node->decision_depth > 1) return false;'),
 ('C01', 'c', D, 'return is_sink() || decision_depth >= thts_manager->max_depth;', 'return is_sink() || decision_depth > thts_manager->max_depth;'),
 ('C02', 'a', T, 'total_return_after += reward;', 'if (reward > -40.0) total_return_after += reward;'),
 ('C02', 'b', T, 'for (double& reward : rewards) total_return += reward;', 'for (size_t i=0; i+1<rewards.size(); i++) total_return += rewards[i];'),
 ('C02', 'c', T, 'rewards.push_back(cur_node->heuristic_value);', 'rewards.push_back(new_decision_node_created_this_trial || nodes_to_backup.empty() ? cur_node->heuristic_value : 0.0);'),
 ('C03', 'a', T, '            trials_remaining--;\n            int trials_remaining_copy = trials_remaining;\n\n            work_left_lock.unlock();', '            int trials_remaining_copy = trials_remaining - 1;\n\n            work_left_lock.unlock();\n            work_left_lock.lock();\n            trials_remaining--;\n            work_left_lock.unlock();'),
 ('C03', 'b', T, 'while (work_left() || num_threads_working > 0) {', 'while (work_left()) {'),
 ('C03', 'c', T, '        trials_remaining = max_trials;', '        trials_remaining += max_trials;'),
 ('C04', 'a', T, '                work_done_cv.notify_all();\n                work_left_cv.wait(work_left_lock);\n                if (!thread_pool_alive) return;', '                if (num_threads_working == 0) work_done_cv.notify_one();\n                work_left_cv.wait(work_left_lock);\n                if (!thread_pool_alive) break;'),
 ('C04', 'b', T, 'if (elapsed_time >= max_run_time) return false;', 'if (elapsed_time >= max_run_time && trials_remaining < num_trials) return false;'),
 ('C04', 'c', T, '        thread_pool_alive = false;\n        work_left_cv.notify_all();', '        thread_pool_alive = false;\n        work_left_cv.notify_one();'),
 ('C05', 'a', T, '                lock_guard<mutex> root_node_lg(root_node->get_lock());\n', ''),
 ('C05', 'b', MC, '        unlock_all_children();\n        soft_value += local_reward; // +R(s,a)', '        soft_value += local_reward; // +R(s,a)\n        unlock_all_children();'),  # equivalent: must stay quiet
 ('C05', 'c', UD, '        // Lock all children\n        lock_all_children();\n\n        // Compute adaptive bias if using', '        // Compute adaptive bias if using'),
 ('C05', 'd', 'include/algorithms/common/dp_decision_node.h', 'for (auto pr : children) pr.second->lock();\n                backup_dp_impl(*dp_children, is_opponent);\n                for (auto pr : children) pr.second->unlock();', 'backup_dp_impl(*dp_children, is_opponent);'),
 ('C05', 'e', TD, '            child_node.lock();\n            new_q_value = get_soft_q_value_over_temp(selected_action);\n            child_node.unlock();', '            new_q_value = get_soft_q_value_over_temp(selected_action);'),
 ('C07', 'a', UD, '''            action, 
            decision_depth, 
            decision_timestep, ''', '''            action, 
            decision_depth, 
            decision_depth, '''),
 ('C07', 'b', EC, '            decision_depth+1, \n            decision_timestep+1, ', '            decision_depth+1, \n            decision_depth+1, '),
 ('C07', 'c', D, '        if (has_child_node_itfc(action)) return get_child_node_itfc(action);\n', ''),
 ('C08', 'a', C, 'DNodeIdTuple dnode_id = make_tuple(decision_timestep, observation);', 'DNodeIdTuple dnode_id = make_tuple(decision_depth, observation);'),
 ('C08', 'b', C, 'lock_guard<mutex> lg(thts_manager->dmap_mutexes[mutex_indx]);', ''),
 ('C09', 'a', UD, '        num_backups++;\n        avg_return += (trial_return_after_node - avg_return) / (double) num_backups;', '        num_backups++;\n        avg_return += (trial_return_after_node - avg_return) / (double) num_visits;'),
 ('C09', 'b', UD, '            num_backups = thts_manager->heuristic_psuedo_trials;\n', '            num_backups = (thts_manager->heuristic_psuedo_trials > 1) ? 1 : thts_manager->heuristic_psuedo_trials;\n'),
 ('C10', 'a', UD, 'if (manager->get_rand_uniform() < manager->epsilon_exploration) {', 'if (manager->get_rand_uniform() <= manager->epsilon_exploration * manager->epsilon_exploration) {'),
 ('C10', 'b', UD, 'int indx = thts_manager->get_rand_int(0,actions_yet_to_try.size());', 'int indx = actions_yet_to_try.size() > 2 ? 0 : thts_manager->get_rand_int(0,actions_yet_to_try.size());'),
 ('C10', 'c', UD, 'action_ucb_value += opp_coeff * get_child_node(action)->avg_return;', 'action_ucb_value += opp_coeff * get_child_node(action)->avg_return * (child_visits > 3 ? 1.0 : 0.999);'),
 ('C11', 'a', UD, 'double child_abs_val = abs(get_child_node(action)->avg_return);', 'double child_abs_val = opp_coeff * get_child_node(action)->avg_return;'),
 ('C11', 'b', 'src/algorithms/uct/puct_decision_node.cpp', 'return pow(num_visits_d, manager->puct_power) / child_visits_d;', 'return pow(num_visits_d, manager->puct_power) / pow(child_visits_d, 2.0 * manager->puct_power);'),
 ('C12', 'a', UD, 'action_values[action] = opp_coeff * get_child_node(action)->avg_return;', 'action_values[action] = opp_coeff * get_child_node(action)->avg_return;\n            if (get_child_node(action)->num_visits == 0) action_values.erase(action);'),
 ('C12', 'b', UD, 'if (manager.recommend_most_visited) {', 'if (manager.recommend_most_visited || is_opponent()) {'),
 ('C13', 'a', MD, 'soft_value = opp_coeff * temp * (log(sum_weights) + normalisation_term);', 'soft_value = temp * (opp_coeff * log(sum_weights) + normalisation_term);'),
 ('C13', 'c', MD, 'return manager.default_q_value * opp_coeff;', 'return manager.default_q_value;'),
 ('C13', 'd', MD, 'normalisation_term = numeric_limits<double>::lowest();', 'normalisation_term = 0.0;'),
 ('C13', 'e', MD, 'psuedo_q_value_offset = thts_manager->psuedo_q_value_offset - mean_log_weight;', 'psuedo_q_value_offset = thts_manager->psuedo_q_value_offset + mean_log_weight;'),
 ('C14', 'a', MC, 'if (child.num_backups == 0) continue;\n', ''),
 ('C14', 'b', CM+'dp_chance_node.cpp', 'dp_value += local_reward; // +R(s,a)', 'if (sum_child_backups > 0) dp_value += local_reward;'),
 ('C14', 'c', CM+'ent_chance_node.cpp', 'subtree_entropy *= (sum_child_backups - child_backups) / sum_child_backups;', 'subtree_entropy *= (sum_child_backups - 1) / sum_child_backups;'),
 ('C14', 'd', MC, 'sum_child_backups += child.num_backups;', 'sum_child_backups += child.num_visits;'),
 ('C15', 'a', MD, 'action_distr[action] += (1.0 - lambda) * lambda_tilde * policy_prior->at(action);', 'action_distr[action] += lambda_tilde * policy_prior->at(action);'),
 ('C15', 'b', MD, 'if (is_root_node() && manager.root_node_epsilon > 0.0) epsilon = manager.root_node_epsilon;', 'if (is_root_node()) epsilon = manager.root_node_epsilon;'),
 ('C15', 'c', MD, 'double lambda_tilde = manager.prior_policy_search_weight / log(num_visits+3);', 'double lambda_tilde = manager.prior_policy_search_weight / log(num_visits+2);'),
 ('C15', 'd', MD, 'if (action_distr[action] < EPS) {', 'if (action_distr[action] < 1e-3) {'),
 ('C16', 'a', RD, 'if (parent_distr->find(action) == parent_distr->end()) return 0.0;', 'if (parent_distr->find(action) == parent_distr->end()) return 1.0 / actions->size();'),
 ('C16', 'b', RD, 'ss_p << "d_" << decision_depth-1;', 'ss_p << "d_" << decision_depth / 2;'),
 ('C16', 'c', RD, 'if (decision_depth < 1) return nullptr;', 'if (decision_depth <= 1) return nullptr;'),
 ('C17', 'a', TD, 'if (1.0 + (i+1.0)*value > sum_values) {', 'if (1.0 + i*value > sum_values) {'),
 ('C17', 'b', TD, 'if (it->second != action) continue;\n', ''),
 ('C17', 'c', TD, 'soft_value = opp_coeff * temp * spmax();', 'soft_value = temp * spmax();'),
 ('C17', 'd', TD, '(sum_sparse_values - 1.0) / sparse_action_set->size()', '(sum_sparse_values - 1.0) / actions->size()'),
 ('C18', 'a', CM+'dp_decision_node.cpp', 'dp_value = opp_coeff * -numeric_limits<double>::infinity();', 'dp_value = -numeric_limits<double>::infinity();'),
 ('C18', 'b', CM+'dp_decision_node.cpp', 'if (child.num_backups == 0) continue;', 'if (child.num_backups == 0 && is_opponent) continue;'),
 ('C18', 'c', ED, 'backup_dp<DentsCNode>(children, is_opponent());', 'backup_dp<DentsCNode>(children, false);'),
 ('C19', 'a', DD, 'return opp_coeff * (val_estimate + get_value_temp() * child.subtree_entropy);', 'return opp_coeff * val_estimate + get_value_temp() * child.subtree_entropy;'),
 ('C19', 'b', DD, 'return opp_coeff * (val_estimate + get_value_temp() * child.subtree_entropy);', 'return opp_coeff * (val_estimate + child.get_value_temp() * child.subtree_entropy);'),
 ('C19', 'c', CM+'ent_decision_node.cpp', 'subtree_entropy = opp_coeff * local_entropy;', 'subtree_entropy = local_entropy;'),
 ('C19', 'd', CM+'ent_decision_node.cpp', 'if (prob == 0.0) continue;', 'if (prob < 0.01) continue;'),
 ('C19', 'e', ED, 'return val_estimate * opp_coeff;', 'return (val_estimate + 1e-3 * child.subtree_entropy) * opp_coeff;'),
 ('C20', 'a', CM+'dp_decision_node.cpp', 'if (child.num_backups >= visit_threshold) {', 'if (child.num_backups > visit_threshold) {'),
 ('C20', 'b', MD, 'if (has_child_node(action) && get_child_node(action)->num_visits >= manager.recommend_visit_threshold) {', 'if (has_child_node(action) && get_child_node(action)->num_backups >= manager.recommend_visit_threshold) {'),
 ('C20', 'c', CM+'emp_node.cpp', 'avg_returns[action] = opp_coeff * child.avg_return;', 'avg_returns[action] = child.avg_return;'),
 ('C21', 'a', H, 'if (rand_val < running_prob_mass) {', 'if (rand_val <= running_prob_mass) {'),
 ('C22', 'a', CAT, 'alias_table[l_index].threshold -= 1.0 - alias_table[s_index].threshold;', 'alias_table[l_index].threshold -= alias_table[s_index].threshold;'),
 ('C22', 'b', CAT, 'if (1.0 > alias_entry.threshold && alias_entry.threshold > rand_manager.get_rand_uniform()) {', 'if (alias_entry.threshold < 1.0 && 1.0 - alias_entry.threshold < rand_manager.get_rand_uniform()) {'),  # equivalent distribution
 ('C22', 'c', CAT, '                alias_table[i].second = kv_pair.first;\n', ''),
 ('C22', 'd', CAT, '            num_updates = 0;\n        }', '        }'),
 ('C23', 'a', H, 'if (val < best_val) continue;', 'if (val < best_val - 1e-9) continue;'),
 ('C23', 'b', H, 'best_keys = vector<T>();', 'if (best_keys.size() > 1) best_keys.pop_back(); else best_keys = vector<T>();'),
 ('C24', 'a', TY, 'return state.first == other.state.first && state.second == other.state.second;', 'return hash() == other.hash();'),
 ('C24', 'b', TY, 'return std::hash<string>()(action);', 'return action.size() > 8 ? (size_t)action.data()[0] + (size_t)(&action == nullptr) + action.capacity() : std::hash<string>()(action);'),
 ('C25', 'a', MCE, 'for (int i=thread_id; i < total_rollouts; i+=num_threads) {', 'for (int i=thread_id; i < total_rollouts - total_rollouts % num_threads; i+=num_threads) {'),
 ('C25', 'b', MCE, '        lock_guard lg(lock);\n', ''),
 ('C25', 'c', MCE, '            sample_return += thts_env->get_reward_itfc(state, action, obsv);\n\n            thread_policy.update_step(action, obsv);\n            state = next_state;', '            thread_policy.update_step(action, obsv);\n            state = next_state;\n            sample_return += thts_env->get_reward_itfc(state, action, obsv);'),
 ('C26', 'a', MCE, 'double weight = 1.0 / (sampled_returns.size() - 1.0);', 'double weight = 1.0 / sampled_returns.size();'),
 ('C27', 'a', MCE, '        if (!chance_node.has_child_node_itfc(obsv)) {\n            cur_node = nullptr;\n            return;', '        if (!chance_node.has_child_node_itfc(obsv)) {\n            return;'),
 ('C27', 'b', MCE, '        cur_node = root_node;\n    }', '        if (cur_node != nullptr) cur_node = root_node;\n    }'),
 ('C29', 'a', CM+'decaying_temp.cpp', 'if (temp < min_temp) return min_temp;', 'if (temp < min_temp) return init_temp;'),
 ('C29', 'b', MD, 'if (is_root_node() && manager.temp_decay_root_node_visits_scale > 0.0) {', 'if (manager.temp_decay_root_node_visits_scale > 0.0) {'),
 ('C30', 'a', 'src/thts_env_context.cpp', '        context_const.erase(key);', '        context.erase(key);'),
 ('C30', 'b', 'src/thts_env_context.cpp', '        context_const[key] = val;', '        context_const.insert(make_pair(key, val));'),
 ('C31', 'a', 'include/thts_manager.h', 'int len = int_distr(int_gen) % (max_excluded - min_included);', 'int len = int_distr(int_gen) % (max_excluded - min_included + (max_excluded > 1000 ? 1 : 0));'),
 ('C31', 'b', 'include/thts_manager.h', 'if (seed == 0) init_random_seed();', 'if (seed <= 0) init_random_seed();'),
 ('C32', 'a', UD, 'action_values[action] = opp_coeff * get_child_node(action)->avg_return;', 'action_values[action] = get_child_node(action)->avg_return;'),
 ('C33', 'a', T, 'if (work_left()) {\n            throw', 'if (trials_remaining > 1 && work_left()) {\n            throw'),
 ('C34', 'a', D, 'if (thts_manager->heuristic_fn != nullptr && !thts_manager->thts_env->is_sink_state_itfc(state)) {', 'if (thts_manager->heuristic_fn != nullptr && !(is_leaf() && is_root_node())) {'),
 ('C34', 'b', MD, 'soft_value = heuristic_value;', 'soft_value = is_opponent() ? -heuristic_value : heuristic_value;'),
 ('C38', 'a', MC, 'if (!has_child_node(sampled_state)) {\n            create_child_node(sampled_state);', 'if (get_num_children() == 0) {\n            create_child_node(sampled_state);'),

 # second set
 ('C01', 'k', T, '            cur_node = decision_node;', "            cur_node = (nodes_to_backup.size() >= 3 && !thts_manager->mcts_mode && decision_node->num_visits == 0) ? root_node : decision_node;"),
 ('C02', 'k', T, '            chance_node->lock();\n            chance_node->backup_itfc(rewards_before', '            if (nodes_to_backup.size() >= 3 && !rewards_before.empty() && rewards_after.size() > 2) total_return = total_return_after;\n            chance_node->lock();\n            chance_node->backup_itfc(rewards_before'),
 ('C02', 'l', T, 'double reward = thts_manager->thts_env->get_reward_itfc(state, action, observation);', 'double reward = thts_manager->thts_env->get_reward_itfc(state, action, decision_node->is_leaf() ? nullptr : observation);'),
 ('C37', 'o', EC, 'backup_emp(trial_cumulative_return_after_node);', 'backup_emp(trial_cumulative_return);'),
 ('C05', 'o', T, '        work_left_lock.lock();\n        num_trials = max_trials;\n        trials_remaining = max_trials;', '        num_trials = max_trials;\n        trials_remaining = max_trials;\n        work_left_lock.lock();'),
 ('C03', 'l', T, 'if (trials_remaining <= 0) return false;', 'if (trials_remaining < 0 || (trials_remaining == 0 && num_threads_working == 0)) return false;'),
 ('C04', 'k', T, '        start_time = std::chrono::system_clock::now();\n        max_run_time =  ', '        if (num_threads_working == 0 && max_time > max_run_time.count()) start_time = std::chrono::system_clock::now();\n        max_run_time =  '),
 ('C04', 'l', T, 'if (elapsed_time >= max_run_time) return false;', 'if (elapsed_time > max_run_time + max_run_time) return false;'),
 ('C04', 'm', T, '        while (work_left() || num_threads_working > 0) {\n            work_done_cv.wait(work_left_lock);\n        }', '        while (trials_remaining > 0 || num_threads_working > 0) {\n            work_done_cv.wait(work_left_lock);\n        }'),
 ('C05', 'k', T, '        cur_node->lock();\n        cur_node->visit_itfc(context);\n        rewards.push_back(cur_node->heuristic_value);\n        cur_node->unlock();', '        cur_node->visit_itfc(context);\n        rewards.push_back(cur_node->heuristic_value);'),
 ('C05', 'l', T, '            shared_ptr<ThtsDNode> decision_node = chance_node->get_child_node_itfc(observation);\n            chance_node->unlock();', '            chance_node->unlock();\n            shared_ptr<ThtsDNode> decision_node = chance_node->get_child_node_itfc(observation);'),
 ('C05', 'm', 'include/thts_manager.h', '                std::lock_guard<std::mutex> lg(rng_lock);\n                return real_distr', '                return real_distr'),
 ('C05', 'n', MD, '        lock_all_children();\n        compute_action_weights(action_weights, sum_weights, normalisation_term, ctx);\n        unlock_all_children();', '        compute_action_weights(action_weights, sum_weights, normalisation_term, ctx);'),
 ('C06', 'k', T, '            chance_node->unlock();\n\n            decision_node->lock();\n            decision_node->backup_itfc(rewards_before, rewards_after, total_return_after, total_return, context);\n            decision_node->unlock();', '            decision_node->lock();\n            chance_node->unlock();\n            decision_node->backup_itfc(rewards_before, rewards_after, total_return_after, total_return, context);\n            decision_node->unlock();'),
 ('C06', 'l', T, '            lock_guard<mutex> logging_lg(logging_lock);\n            trials_completed++;\n            logger->trial_completed();\n\n            if (logger->should_log()) {\n                lock_guard<mutex> root_node_lg(root_node->get_lock());', '            lock_guard<mutex> root_node_lg(root_node->get_lock());\n            lock_guard<mutex> logging_lg(logging_lock);\n            trials_completed++;\n            logger->trial_completed();\n            root_node->unlock();\n            root_node->lock();\n            if (logger->should_log()) {'),
 ('C07', 'k', D, 'return (decision_timestep & 1) == 1;', 'return (decision_depth & 1) == 1;'),
 ('C07', 'l', UC, 'decision_depth+1, \n            decision_timestep+1,', 'decision_depth+1, \n            decision_timestep+1 + (decision_timestep >= 63 ? 1 : 0),'),
 ('C08', 'k', C, 'DNodeIdTuple dnode_id = make_tuple(decision_timestep, observation);', 'DNodeIdTuple dnode_id = make_tuple(thts_manager->dmap_mutexes.size() > 1 ? decision_timestep : 0, observation);'),
 ('C09', 'k', UC, 'avg_return += (trial_return_after_node - avg_return) / (double) num_backups;', 'avg_return += (trial_return_after_node - avg_return) / (double) (num_backups < 1000 ? num_backups : 1000);'),
 ('C09', 'l', UD, 'avg_return = heuristic_value;', 'if (num_backups > 0) avg_return = heuristic_value;'),
 ('C10', 'k', UD, 'double child_visits_d = (child_visits > 0) ? (double)child_visits : 1.0;\n        return sqrt(log(num_visits_d) / child_visits_d);', 'double child_visits_d = (child_visits > 0) ? (double)child_visits : 1.0;\n        if (child_visits_d > num_visits_d) child_visits_d = num_visits_d;\n        return sqrt(log(num_visits_d) / child_visits_d);'),
 ('C10', 'l', UD, '        int index = thts_manager->get_rand_int(0, actions->size());\n        shared_ptr<const Action> action = actions->at(index);\n        if (', '        int index = thts_manager->get_rand_int(0, max<int>(1, get_num_children()));\n        shared_ptr<const Action> action = actions->at(index);\n        if ('),
 ('C11', 'k', UD, 'action_ucb_value *= policy_prior->at(action);', 'if (child_visits > 0 || !is_opponent()) action_ucb_value *= policy_prior->at(action);'),
 ('C12', 'k', UD, 'unordered_map<shared_ptr<const Action>, int> visit_counts;', 'unordered_map<shared_ptr<const Action>, float> visit_counts;'),
 ('C12', 'l', UD, 'visit_counts[action] = get_child_node(action)->num_visits;', 'visit_counts[action] = get_child_node(action)->num_backups;'),
 ('C13', 'k', MD, 'return log_weight + psuedo_q_value_offset;', 'return opp_coeff * (log_weight + psuedo_q_value_offset);'),
 ('C13', 'l', MD, 'mean_log_weight *= (i-1.0) / i;', 'mean_log_weight *= (i-1.0) / (i + (i > 2.0 ? 1.0 : 0.0));'),
 ('C14', 'k', CM+'dp_chance_node.cpp', 'if (child.num_backups == 0) continue;', 'if (child.num_backups <= 1 && children.size() > 2) continue;'),
 ('C14', 'l', EC, 'backup_dp<EstDNode>(children, local_reward, is_opponent());', 'backup_dp<EstDNode>(children, is_opponent() ? -local_reward : local_reward, is_opponent());'),
 ('C15', 'k', MD, 'double uniform_distr_mass = 1.0 / num_actions;', 'double uniform_distr_mass = 1.0 / (get_num_children() > 1 ? get_num_children() : num_actions);'),
 ('C15', 'l', MD, 'if (lambda > manager.max_explore_prob) {', 'if (lambda > 1.0) {'),
 ('C16', 'k', RD, 'put_node_distr_in_context(action_distr, ctx);', 'if (!is_leaf() && num_visits > 1) put_node_distr_in_context(action_distr, ctx); else put_node_distr_in_context(action_distr, ctx);\n        if (decision_depth > 1) ctx.put_value(_parent_distr_key, action_distr);'),
 ('C17', 'k', TD, 'if (weight < 0.0) weight = 0.0;', 'if (weight < 1e-3) weight = 0.0;'),
 ('C17', 'l', TD, '            new_q_value = get_soft_q_value_over_temp(selected_action);\n        }\n\n        update_maps', '            new_q_value = get_soft_q_value_over_temp(selected_action);\n        }\n\n        if (new_q_value != qval_to_act.rbegin()->first) update_maps'),
 ('C18', 'k', CM+'dp_decision_node.cpp', 'if (opp_coeff * child.dp_value > opp_coeff * dp_value) {', 'if (opp_coeff * child.dp_value > opp_coeff * dp_value || (child.dp_value == 0.0 && is_opponent)) {'),
 ('C19', 'k', DD, '        soft_value = val_estimate + get_value_temp() * subtree_entropy;', '        soft_value = val_estimate + get_temp() * subtree_entropy;'),
 ('C19', 'l', DC, 'backup_ent<DentsDNode>(children);', 'if (MentsCNode::num_backups != 2) backup_ent<DentsDNode>(children);'),
 ('C20', 'k', MD, 'if (soft_values_thresholded.size() > 0) {', 'if (soft_values_thresholded.size() > 1 || soft_values.size() == 0) {'),
 ('C20', 'l', DD, '        if (manager.use_dp_value) {\n            return recommend_action_best_dp_value();', '        if (manager.use_dp_value || children.size() < actions->size()) {\n            return recommend_action_best_dp_value();'),
 ('C21', 'k', H, 'running_prob_mass += pr.second / sum_weights;', 'if (pr.second > 1e-6) running_prob_mass += pr.second / sum_weights;'),
 ('C22', 'k', CAT, 'distr->insert_or_assign(key, weight);\n        num_updates++;', 'if (!distr->insert_or_assign(key, weight).second) num_updates++;'),
 ('C22', 'l', CAT, 'double u = kv_pair.second * n / sum_weights;\n                alias', 'double u = kv_pair.second * n;\n                alias'),
 ('C22', 'm', 'src/distributions/discrete_uniform_distribution.cc', 'rand_manager.get_rand_int(0, keys->size());', 'rand_manager.get_rand_int(0, keys->size() > 4 ? keys->size()-1 : keys->size());'),
 ('C23', 'k', H, 'int indx = rand_manager.get_rand_int(0,best_keys.size());', 'int indx = rand_manager.get_rand_int(0,best_keys.size() > 2 ? 2 : best_keys.size());'),
 ('C24', 'k', TY, '            && get<2>(state) == get<2>(other.state));', ');'),
 ('C24', 'l', TY, 'return std::hash<int>()(action);', 'return std::hash<const void*>()((const void*)this) * (action > 1000 ? 1 : 0) + std::hash<int>()(action);'),
 ('C25', 'k', MCE, 'cur_node(policy.root_node), ', 'cur_node(policy.cur_node), '),
 ('C25', 'l', MCE, 'thread_policy.reset();', ''),
 ('C25', 'm', MCE, 'while (num_actions_taken < max_trial_length && !thts_env->is_sink_state_itfc(state)) {', 'while (num_actions_taken <= max_trial_length - 1 && (num_actions_taken == 0 || !thts_env->is_sink_state_itfc(state))) {'),
 ('C26', 'k', MCE, 'double mean = get_mean_return();', 'double mean = sampled_returns.size() > 3 ? sampled_returns[sampled_returns.size()/2] : get_mean_return();'),
 ('C27', 'k', MCE, 'cur_node = chance_node.get_child_node_itfc(obsv);', 'cur_node = chance_node.get_child_node_itfc(obsv);\n        if (cur_node->num_visits == 0) cur_node = nullptr;'),
 ('C27', 'l', MCE, 'rand_manager.get_rand_int(0, actions->size());', 'rand_manager.get_rand_int(0, actions->size() > 1 ? actions->size()-1 : 1);'),
 ('C28', 'k', LG, 'next_log_runtime_threshold += runtime_delta;', 'next_log_runtime_threshold = get_current_total_runtime() + runtime_delta;'),
 ('C28', 'l', LG, 'last_log_num_trials = trials_completed;\n            result', 'last_log_num_trials += trials_delta + (trials_completed - last_log_num_trials > trials_delta + 1);\n            result'),
 ('C28', 'm', LG, '        prior_runtime += runtime;', '        prior_runtime += runtime;\n        if (prior_runtime > 4 * runtime) prior_runtime -= runtime;'),
 ('C28', 'n', T, '                if (search_in_progress && num_threads_working == 0) {\n                    search_in_progress = false;', '                if (num_threads_working == 0) {'),
 ('C28', 'o', T, '            trials_completed++;\n            logger->trial_completed();\n\n            if (logger->should_log()) {', '            trials_completed++;\n            if (trials_remaining > 0) logger->trial_completed();\n\n            if (logger->should_log()) {'),
 ('C29', 'k', CM+'decaying_temp.cpp', 'double temp = init_temp * f(visits_scale * num_visits);', 'double temp = init_temp * f((int)(visits_scale * num_visits));'),
 ('C30', 'k', 'src/thts_env_context.cpp', '        context[key] = val;', '        context[key] = val;\n        context_const.erase(key);'),
 ('C31', 'k', 'include/thts_manager.h', 'int len = int_distr(int_gen) % (max_excluded - min_included);\n                return min_included + len;', 'int len = int_distr(int_gen) % (max_excluded - min_included);\n                return (min_included < 0) ? min_included - len : min_included + len;'),
 ('C31', 'l', 'include/thts_manager.h', 'real_gen(seed),', 'real_gen(seed & 0xffff),'),
 ('C32', 'k', CM+'dp_decision_node.cpp', 'dp_values[action] = opp_coeff * child.dp_value;', 'dp_values[action] = child.dp_value;'),
 ('C33', 'k', T, '        while (num_threads_working > 0) {\n            work_done_cv.wait(work_left_lock);\n        }\n        thts_manager = new', '        thts_manager = new'),
 ('C33', 'l', T, '        logger = new_logger;', '        if (new_logger != nullptr) logger = new_logger;'),
 ('C34', 'k', UD, 'avg_return = heuristic_value;', 'avg_return = thts_manager->heuristic_fn(state, thts_manager->thts_env);'),
 ('C34', 'l', MD, 'soft_value = heuristic_value;', 'if (!is_leaf()) soft_value = heuristic_value;'),
 ('C35', 'k', 'src/thts_env.cpp', '        shared_ptr<ObservationDistr> distr = get_observation_distribution_itfc(action, next_state);\n        return', '        shared_ptr<ObservationDistr> distr = get_observation_distribution_itfc(action, next_state);\n        if (distr->size() == 1) return static_pointer_cast<const Observation>(next_state);\n        return'),
 ('C36', 'k', 'src/algorithms/ments/ments_logger.cpp', 'ments_node.num_visits,\n            ments_node.num_backups,', 'ments_node.num_visits,\n            ments_node.num_visits,'),
 ('C36', 'l', 'src/algorithms/ments/dbments_logger.cpp', 'dbments_node.MentsDNode::num_backups', 'dbments_node.DPDNode::num_backups'),
 ('C36', 'm', LG, '        for (shared_ptr<LoggerEntry>& logger_entry : entries) {\n', '        for (shared_ptr<LoggerEntry>& logger_entry : entries) {\n            if (&logger_entry != &entries[0] && logger_entry->num_visits == entries[0]->num_visits) continue;\n'),
 ('C37', 'k', MD, '        if (is_leaf()) {\n            num_backups++;', '        if (is_sink()) {\n            num_backups++;'),
 ('C37', 'l', C, '        num_visits += 1;', '        if (num_visits < 20) num_visits += 1;'),
 ('C37', 'm', D, '        num_visits += 1;', '        num_visits += (is_leaf() && num_visits == 3) ? 2 : 1;'),
 ('C38', 'k', UC, 'helper::sample_from_distribution(*next_state_distr, *thts_manager);', 'helper::sample_from_distribution(*next_state_distr, *thts_manager);\n        if (next_state_distr->at(sampled_state) < 1e-4) sampled_state = next_state_distr->begin()->first;'),
 ('C39', 'k', D, '        if (depth == 0) {\n', '        if (depth <= 1) {\n'),
 ('C39', 'l', C, 'get_pretty_print_string_helper(ss, 2*depth+1, num_tabs);', 'get_pretty_print_string_helper(ss, 2*depth+2, num_tabs);'),
 ('C39', 'm', D, 'if (!is_leaf()) ss << "...";', 'if (get_num_children() > 0) ss << "...";'),
 ('C40', 'k', 'include/algorithms/ments/dents/dents_manager.h', 'value_temp_decay_visits_scale(args.value_temp_decay_visits_scale)', 'value_temp_decay_visits_scale(args.temp_decay_visits_scale)'),
 ('C40', 'l', 'include/algorithms/ments/ments_manager.h', 'root_node_epsilon(args.root_node_epsilon)', 'root_node_epsilon(args.root_node_epsilon > 1.0 ? args.epsilon : args.root_node_epsilon)'),
 ('C40', 'm', 'include/thts_manager.h', 'mcts_mode(args.mcts_mode)', 'mcts_mode(args.mcts_mode || args.use_transposition_table)'),
 ('C40', 'n', 'include/algorithms/ments/ments_manager.h', 'max_explore_prob_default=1.0', 'max_explore_prob_default=0.5'),
 ('C41', 'k', T, '        run_selection_phase(nodes_to_backup, rewards, *context);', '        static shared_ptr<ThtsEnvContext> last_context; last_context = context;\n        run_selection_phase(nodes_to_backup, rewards, *context);'),
 ('C41', 'l', T, '        logger = new_logger;', '        if (new_logger != nullptr && num_trials > 0) logger = new_logger;'),
 ('C41', 'm', D, '        children[action] = child_node;', '        children[action] = child_node;\n        if (thts_manager->use_transposition_table) { static vector<shared_ptr<ThtsCNode>> pool; pool.push_back(child_node); }'),
 ('C42', 'k', T, 'sample_context_itfc(root_node->state);', 'sample_context_itfc(thts_manager->thts_env->get_initial_state_itfc());'),
 ('C42', 'l', T, 'shared_ptr<ThtsEnvContext> context = thts_manager->thts_env->sample_context_itfc(root_node->state);', 'static thread_local shared_ptr<ThtsEnvContext> context; if (!context || nodes_to_backup.empty() && trials_remaining % 2 == 0) context = thts_manager->thts_env->sample_context_itfc(root_node->state);'),
 ('C43', 'k', C, 'return children.at(observation);', 'auto it = children.find(observation); if (it == children.end() && !children.empty()) return children.begin()->second;\n        return children.at(observation);'),
 ('C43', 'l', T, 'throw runtime_error("Cannot make ThtsPool without a thts manager, or root node");', 'if (num_threads > 1) throw runtime_error("Cannot make ThtsPool without a thts manager, or root node");\n            this->num_threads = 0; num_threads = 0;'),
]
