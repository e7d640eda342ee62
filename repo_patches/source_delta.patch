From 88c2d033bd10d9cf3f5e1d93cf11cb600979a5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:51 +0000
Subject: [PATCH 01/18] fix: get_max_key_break_ties_randomly with only
 -infinity values drew from an empty range

---
 src/helper_templates.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/helper_templates.cc b/src/helper_templates.cc
index 7e7a759..05436d9 100644
--- a/src/helper_templates.cc
+++ b/src/helper_templates.cc
@@ -31,6 +31,7 @@ namespace thts::helper {
     template <typename T, typename NumericT>
     T get_max_key_break_ties_randomly(unordered_map<T,NumericT>& map, RandManager& rand_manager) {
         NumericT best_val = numeric_limits<NumericT>::lowest();
+        if (numeric_limits<NumericT>::has_infinity) best_val = -numeric_limits<NumericT>::infinity();
         vector<T> best_keys;
         for (pair<const T,NumericT>& pr : map) {
             NumericT val = pr.second;
-- 
2.43.0


From 9e488e1e8c8e77b9916aaee92698ca1e4de4144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:51 +0000
Subject: [PATCH 02/18] fix: sample_from_distribution rejected valid
 distributions (unnormalised, zero mass keys, rounding)

---
 src/helper_templates.cc | 50 +++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/helper_templates.cc b/src/helper_templates.cc
index 05436d9..959f189 100644
--- a/src/helper_templates.cc
+++ b/src/helper_templates.cc
@@ -54,43 +54,40 @@ namespace thts::helper {
      * 
      * Implementation includes useful (probabilistic) error checking on distributions (which should only occur when 
      * normalised=true):
-     * - Firstly, if probability masses reach a sum of 1.0 or greater too quickly then we throw an exception. Consider 
-     *      if a distribution {s1: 1.0, s2: 0.5, s3: 0.5} is passed in. This exception will often catch these cases, 
-     *      but can also be extremely unlikely to be thrown (when we would want it to be) in edge cases: consider the
-     *      distribution {s1: 0.99999, s2: 0.00001, s3: 0.5}. 
+     * - Firstly, if probability masses sum to more than 1.0 then we throw an exception. 
      * - Secondly, if we get to the end of the routine without returning a sampled object, then the probability masses 
-     *      must have summed to less than 1.0. This exception thrown with probability (1.0-sum_weights).
+     *      must have summed to less than 1.0. This exception thrown with probability (1.0-sum_weights). If the masses 
+     *      sum to 1.0 up to rounding error, then the last key with non-zero mass is returned instead.
      */
     template <typename T>
     T sample_from_distribution(unordered_map<T,double>& distribution, RandManager& rand_manager, bool normalised) {
+        double total_mass = 0.0;
+        for (auto pr : distribution) {
+            total_mass += pr.second;
+        }
         double sum_weights = 1.0;
         if (!normalised) {
-            sum_weights = 0.0;
-            for (auto pr : distribution) {
-                sum_weights += pr.second;
-            }
+            sum_weights = total_mass;
         }
         
-        int i = 0;
-        int distr_size = distribution.size();
         double rand_val = rand_manager.get_rand_uniform();
         double running_prob_mass = 0.0;
+        const T* last_key_with_mass = nullptr;
+
+        // error checking
+        bool too_much_mass = total_mass > sum_weights + EPS;
+        if (too_much_mass) {
+            stringstream error_msg_ss;
+            error_msg_ss 
+                << "Probability masses sum to greater than 1.0, have you forgotten to set normalised=false? "
+                << "Distribution was: "<< unordered_map_pretty_print_string(distribution);
+            throw runtime_error(error_msg_ss.str());
+        }
 
-        for (pair<T,double> pr : distribution) {
+        for (pair<const T,double>& pr : distribution) {
             // update mass considered
             running_prob_mass += pr.second / sum_weights;
-
-            // error checking
-            i++;
-            bool too_much_mass = running_prob_mass > sum_weights + EPS;
-            bool complete_mass_too_early = running_prob_mass >= sum_weights && i < distr_size;
-            if (too_much_mass || complete_mass_too_early) {
-                stringstream error_msg_ss;
-                error_msg_ss 
-                    << "Probability masses sum to greater than 1.0, have you forgotten to set normalised=false? "
-                    << "Distribution was: "<< unordered_map_pretty_print_string(distribution);
-                throw runtime_error(error_msg_ss.str());
-            }
+            if (pr.second > 0.0) last_key_with_mass = &pr.first;
             
             // return if its time
             if (rand_val < running_prob_mass) {
@@ -98,6 +95,11 @@ namespace thts::helper {
             }
         }
 
+        // masses sum to one, up to rounding error
+        if (last_key_with_mass != nullptr && running_prob_mass > 1.0 - EPS) {
+            return *last_key_with_mass;
+        }
+
         stringstream error_msg_ss;
         error_msg_ss << "Probability masses sum to less than 1.0, have you forgotten to set normalised=false? "
             << "Distribution was: "
-- 
2.43.0


From 561e8f37c262682187577117c762d8b401331918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:51 +0000
Subject: [PATCH 03/18] fix: CategoricalDistribution alias table was out of
 step with distributions that changed size

---
 src/distributions/categorical_distribution.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/distributions/categorical_distribution.cc b/src/distributions/categorical_distribution.cc
index bbe572b..4a196c5 100644
--- a/src/distributions/categorical_distribution.cc
+++ b/src/distributions/categorical_distribution.cc
@@ -37,7 +37,7 @@ namespace thts {
             return helper::sample_from_distribution(*distr, rand_manager, false);
         }
 
-        int rng = rand_manager.get_rand_int(0, distr->size());
+        int rng = rand_manager.get_rand_int(0, alias_table.size());
         AliasTableEntry& alias_entry = alias_table[rng];
         if (1.0 > alias_entry.threshold && alias_entry.threshold > rand_manager.get_rand_uniform()) {
             return alias_entry.first;
@@ -50,14 +50,19 @@ namespace thts {
         distr->insert_or_assign(key, weight);
         num_updates++;
         if (use_alias_method && num_updates == reconstruct_alias_table_freq) {
-            reconstruct_alias_table();
+            if (alias_table.size() == distr->size()) {
+                reconstruct_alias_table();
+            } else {
+                alias_table.clear();
+                construct_alias_table();
+            }
             num_updates = 0;
         }
     }
 
     /**
      * If using alias table, then should reconstruct it
-     * If size(distr) == size(new_distr), then call reconstruct_alias_table, which assumes size(distr) hasn't changed
+     * If size(alias_table) == size(new_distr), then call reconstruct_alias_table, which assumes size(distr) hasn't changed
      * If distirubtion has changes in size (num outcomes), then clear alias table and construct from scratch
     */
     template <typename T>
@@ -65,7 +70,7 @@ namespace thts {
         distr = new_distr;
         num_updates = 0;
         if (use_alias_method) {
-            if (new_distr->size() == distr->size()) {
+            if (alias_table.size() == distr->size()) {
                 reconstruct_alias_table(false);
             } else {
                 alias_table.clear();
-- 
2.43.0


From 2f9449734f18c93477a786e45f02fbc6bebbe0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:50 +0000
Subject: [PATCH 04/18] fix: a time limit reached while workers were waking up
 left join waiting for ever

---
 include/thts.h | 3 +++
 src/thts.cpp   | 6 ++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/thts.h b/include/thts.h
index faa88bb..4cebae1 100644
--- a/include/thts.h
+++ b/include/thts.h
@@ -29,6 +29,8 @@ namespace thts {
      *          A vector of threads (thread pool) that run the worker_fn routine.
      *      work_left_cv: 
      *          A condition variable used to coordinate when workers are working.
+     *      work_done_cv: 
+     *          A condition variable that workers signal whenever they find that there is no work left to do.
      *      work_left_lock: 
      *          A mutex for 'work_left_lock', protecting variables used to decide when there is work.
      *      logging_lock: 
@@ -59,6 +61,7 @@ namespace thts {
             // multithreading variables (also protected by can_work_lock)
             std::vector<std::thread> workers;
             std::condition_variable_any work_left_cv;
+            std::condition_variable_any work_done_cv;
             std::mutex work_left_lock;
             std::mutex logging_lock;
             bool thread_pool_alive;
diff --git a/src/thts.cpp b/src/thts.cpp
index e6cb9c9..3897d00 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -304,10 +304,8 @@ namespace thts {
         while (thread_pool_alive) {
             num_threads_working--;
 
-            if (!work_left()) {
-                work_left_cv.notify_all();
-            }
             while (!work_left()) {
+                work_done_cv.notify_all();
                 work_left_cv.wait(work_left_lock);
                 if (!thread_pool_alive) return;
             }
@@ -328,7 +326,7 @@ namespace thts {
     void ThtsPool::join() {
         lock_guard<mutex> lg(work_left_lock);
         while (work_left() || num_threads_working > 0) {
-            work_left_cv.wait(work_left_lock);
+            work_done_cv.wait(work_left_lock);
         }
     }
 
-- 
2.43.0


From 574b6f92e3af964a566efbd425c0d8aae9d97bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:56 +0000
Subject: [PATCH 05/18] fix: set_new_env changed the environment under a trial
 that was still running

---
 src/thts.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thts.cpp b/src/thts.cpp
index 3897d00..7f9b64c 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -78,9 +78,13 @@ namespace thts {
         shared_ptr<ThtsDNode> new_root_node,
         shared_ptr<ThtsLogger> new_logger) 
     {
+        lock_guard<mutex> lg(work_left_lock);
         if (work_left()) {
             throw runtime_error("Tried to change root node in thts pool while it was working.");
         }
+        while (num_threads_working > 0) {
+            work_done_cv.wait(work_left_lock);
+        }
         thts_manager = new_thts_manager;
         root_node = new_root_node;
         logger = new_logger;
-- 
2.43.0


From 9db03f0e320ea97e958750497ce1d2f3103e8bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:15 +0000
Subject: [PATCH 06/18] fix: chance nodes that share children locked them in
 different orders and could deadlock

---
 include/algorithms/common/dp_chance_node.h  |  2 +-
 include/algorithms/common/ent_chance_node.h |  2 +-
 include/thts_chance_node.h                  |  6 ++++++
 src/thts_chance_node.cpp                    | 15 ++++++++++++---
 4 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/algorithms/common/dp_chance_node.h b/include/algorithms/common/dp_chance_node.h
index 4d59ccb..2bf138b 100644
--- a/include/algorithms/common/dp_chance_node.h
+++ b/include/algorithms/common/dp_chance_node.h
@@ -97,7 +97,7 @@ namespace thts {
             template <typename T>
             void backup_dp(DNodeChildMap& children, double local_reward, bool is_opponent=false) {
                 std::shared_ptr<DPDNodeChildMap> dp_children = convert_child_map<T>(children);
-                for (auto pr : children) pr.second->lock();
+                ThtsCNode::lock_in_order(children);
                 backup_dp_impl(*dp_children, local_reward, is_opponent);
                 for (auto pr : children) pr.second->unlock();
             }
diff --git a/include/algorithms/common/ent_chance_node.h b/include/algorithms/common/ent_chance_node.h
index a92a5d5..991c6ac 100644
--- a/include/algorithms/common/ent_chance_node.h
+++ b/include/algorithms/common/ent_chance_node.h
@@ -94,7 +94,7 @@ namespace thts {
             template <typename T>
             void backup_ent(DNodeChildMap& children) {
                 std::shared_ptr<EntDNodeChildMap> ent_children = convert_child_map<T>(children);
-                for (auto pr : children) pr.second->lock();
+                ThtsCNode::lock_in_order(children);
                 backup_ent_impl(*ent_children);
                 for (auto pr : children) pr.second->unlock();
             }
diff --git a/include/thts_chance_node.h b/include/thts_chance_node.h
index 0cc1540..28e5c51 100644
--- a/include/thts_chance_node.h
+++ b/include/thts_chance_node.h
@@ -102,6 +102,12 @@ namespace thts {
              */
             void lock_all_children() const;
 
+            /**
+             * Helper function to lock a set of decision nodes in an order that is the same for all threads, so that 
+             * chance nodes which share children (when using a transposition table) can't deadlock.
+             */
+            static void lock_in_order(const DNodeChildMap& nodes);
+
             /**
              * Helper function to unlock all children nodes.
              */
diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index 2fc2c1b..dd84564 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -7,6 +7,7 @@
 #include <cstddef>
 #include <functional>
 #include <mutex>
+#include <set>
 #include <tuple>
 #include <utility>
 
@@ -61,9 +62,17 @@ namespace thts {
      * Helper function to lock all children nodes.
      */
     void ThtsCNode::lock_all_children() const {
-        for (auto action_child_pair : children) {
-            action_child_pair.second->lock();
-        }
+        lock_in_order(children);
+    }
+
+    /**
+     * Locks nodes in order of their addresses. With a transposition table two chance nodes can share children, and 
+     * their child maps can iterate over them in different orders.
+     */
+    void ThtsCNode::lock_in_order(const DNodeChildMap& nodes) {
+        set<ThtsDNode*, less<ThtsDNode*>> ordered_nodes;
+        for (auto& pr : nodes) ordered_nodes.insert(pr.second.get());
+        for (ThtsDNode* node : ordered_nodes) node->lock();
     }
 
     /**
-- 
2.43.0


From 0b57304b04a0930821ce872d3a334dc1ff867008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:48 +0000
Subject: [PATCH 07/18] fix: a transposition table entry whose node was
 destroyed made later searches throw

---
 src/thts_chance_node.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index dd84564..64780a3 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -127,9 +127,12 @@ namespace thts {
 
         auto iter = dmap.find(dnode_id);
         if (iter != dmap.end()) {
-            shared_ptr<ThtsDNode> child_node = shared_ptr<ThtsDNode>(dmap[dnode_id]);
-            children[observation] = child_node;
-            return child_node;
+            // the table only holds weak pointers, so the node may not exist any more
+            shared_ptr<ThtsDNode> child_node = iter->second.lock();
+            if (child_node != nullptr) {
+                children[observation] = child_node;
+                return child_node;
+            }
         }
 
         shared_ptr<ThtsDNode> child_node = create_child_node_helper_itfc(observation, next_state);
-- 
2.43.0


From a1253100d8f57fdce1876b82c9d8d9641e45f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:06 +0000
Subject: [PATCH 08/18] fix: a transposition table with several mutexes let
 threads modify the table at the same time

---
 include/thts_manager.h   |  7 ++++++-
 src/thts_chance_node.cpp | 24 +++++++++++++++---------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/thts_manager.h b/include/thts_manager.h
index f791a73..eee2d8b 100644
--- a/include/thts_manager.h
+++ b/include/thts_manager.h
@@ -171,6 +171,9 @@ namespace thts {
      *      dmap_mutexes:
      *          A vector of mutexes to use for protection around the dmap. Accessing 'dmap[dnode_id]', should be 
      *          protected by the 'dmap_mutexes[hash(dnode_id) % dmap_mutexes.size()]'.
+     *      dmap_structure_mutex:
+     *          A mutex to protect each single find/insert on dmap, as operations for different ids may hold different 
+     *          mutexes from dmap_mutexes.
      */
     class ThtsManager : public RandManager {
         public:
@@ -185,6 +188,7 @@ namespace thts {
 
             DNodeTable dmap;
             std::vector<std::mutex> dmap_mutexes;
+            std::mutex dmap_structure_mutex;
 
             /**
              * Constructor. Initialises values directly other than random number generation.
@@ -202,7 +206,8 @@ namespace thts {
                 use_transposition_table(args.use_transposition_table), 
                 is_two_player_game(args.is_two_player_game),
                 dmap(),
-                dmap_mutexes(args.num_transposition_table_mutexes)
+                dmap_mutexes(args.num_transposition_table_mutexes),
+                dmap_structure_mutex()
             {
             }
 
diff --git a/src/thts_chance_node.cpp b/src/thts_chance_node.cpp
index 64780a3..eb45ee7 100644
--- a/src/thts_chance_node.cpp
+++ b/src/thts_chance_node.cpp
@@ -125,19 +125,25 @@ namespace thts {
 
         lock_guard<mutex> lg(thts_manager->dmap_mutexes[mutex_indx]);
 
-        auto iter = dmap.find(dnode_id);
-        if (iter != dmap.end()) {
+        // 'lg' stops the node being made twice, but operations for other ids share the map itself
+        shared_ptr<ThtsDNode> child_node;
+        {
+            lock_guard<mutex> map_lg(thts_manager->dmap_structure_mutex);
+            auto iter = dmap.find(dnode_id);
             // the table only holds weak pointers, so the node may not exist any more
-            shared_ptr<ThtsDNode> child_node = iter->second.lock();
-            if (child_node != nullptr) {
-                children[observation] = child_node;
-                return child_node;
-            }
+            if (iter != dmap.end()) child_node = iter->second.lock();
+        }
+        if (child_node != nullptr) {
+            children[observation] = child_node;
+            return child_node;
         }
 
-        shared_ptr<ThtsDNode> child_node = create_child_node_helper_itfc(observation, next_state);
+        child_node = create_child_node_helper_itfc(observation, next_state);
         children[observation] = child_node;
-        dmap[dnode_id] = child_node;
+        {
+            lock_guard<mutex> map_lg(thts_manager->dmap_structure_mutex);
+            dmap[dnode_id] = child_node;
+        }
         return child_node;
     }
 
-- 
2.43.0


From 530fe866ca5a4006b5eb642df87bbe72358314ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:14 +0000
Subject: [PATCH 09/18] fix: the mean prior log weight used to shift pseudo q
 values only took the last action into account

---
 src/algorithms/ments/ments_decision_node.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algorithms/ments/ments_decision_node.cpp b/src/algorithms/ments/ments_decision_node.cpp
index dad6d88..8310ab2 100644
--- a/src/algorithms/ments/ments_decision_node.cpp
+++ b/src/algorithms/ments/ments_decision_node.cpp
@@ -55,6 +55,7 @@ namespace thts {
                     }
                     mean_log_weight *= (i-1.0) / i;
                     mean_log_weight += log_weight / i;
+                    i += 1.0;
                 }
                 psuedo_q_value_offset = thts_manager->psuedo_q_value_offset - mean_log_weight;
             }
-- 
2.43.0


From 965406a5657d9cba9d841eb559e054f8c18d6a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:03 +0000
Subject: [PATCH 10/18] fix: without exploration the action distribution of a
 node without visits was not a number

---
 src/algorithms/ments/ments_decision_node.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/ments/ments_decision_node.cpp b/src/algorithms/ments/ments_decision_node.cpp
index 8310ab2..1c72660 100644
--- a/src/algorithms/ments/ments_decision_node.cpp
+++ b/src/algorithms/ments/ments_decision_node.cpp
@@ -203,7 +203,8 @@ namespace thts {
         MentsManager& manager = (MentsManager&) *thts_manager;
         double epsilon = manager.epsilon;
         if (is_root_node() && manager.root_node_epsilon > 0.0) epsilon = manager.root_node_epsilon;
-        double lambda = epsilon / log(num_visits+1);
+        // 0/log(1) is not a number, so no exploration needs to be a special case for nodes without visits
+        double lambda = (epsilon > 0.0) ? epsilon / log(num_visits+1) : 0.0;
         if (lambda > manager.max_explore_prob) {
             lambda = manager.max_explore_prob;
         }
-- 
2.43.0


From 2a5ace49038bd33d0a39eb0cb4837fe3f215e2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:16 +0000
Subject: [PATCH 11/18] fix: DENTS leaves did not count their visits when
 weighting subtree entropies

---
 include/algorithms/ments/dents/dents_decision_node.h | 8 ++++++++
 src/algorithms/ments/dents/dents_decision_node.cpp   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/algorithms/ments/dents/dents_decision_node.h b/include/algorithms/ments/dents/dents_decision_node.h
index 83aca30..0645391 100644
--- a/include/algorithms/ments/dents/dents_decision_node.h
+++ b/include/algorithms/ments/dents/dents_decision_node.h
@@ -45,6 +45,14 @@ namespace thts {
                 std::shared_ptr<const DentsCNode> parent=nullptr); 
 
             virtual ~DentsDNode() = default;
+
+            /**
+             * Visit calls dbmentsdnode's and entdnode's visit functions
+             * 
+             * Args:
+             *      ctx: A context provided to all thts functions throughout a trial to pass intermediate/transient info
+             */
+            virtual void visit(ThtsEnvContext& ctx);
             
             /**
              * Helper to get the temperature that should be used for computing the soft value to use in ments functions.
diff --git a/src/algorithms/ments/dents/dents_decision_node.cpp b/src/algorithms/ments/dents/dents_decision_node.cpp
index 89db0f1..91cea72 100644
--- a/src/algorithms/ments/dents/dents_decision_node.cpp
+++ b/src/algorithms/ments/dents/dents_decision_node.cpp
@@ -27,6 +27,14 @@ namespace thts {
         backup_ent<DentsCNode>(children, action_distr, is_opponent());
     }
 
+    /**
+     * Calls both dbments and ent visit.
+     */
+    void DentsDNode::visit(ThtsEnvContext& ctx) {
+        DBMentsDNode::visit(ctx);
+        EntDNode::visit_ent(is_leaf());
+    }
+
     /**
      * Get decayed temp
      */
-- 
2.43.0


From 02bfd077963bfa758454549902fd550f1498f694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:06 +0000
Subject: [PATCH 12/18] fix: keep the sampled context alive for the whole Monte
 Carlo rollout

---
 src/mc_eval.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 0433d40..8fc29af 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -87,11 +87,11 @@ namespace thts {
         int num_actions_taken = 0;
         double sample_return = 0.0;
         shared_ptr<const State> state = thts_env->get_initial_state_itfc();
-        ThtsEnvContext& context = *thts_env->sample_context_itfc(state);
+        shared_ptr<ThtsEnvContext> context = thts_env->sample_context_itfc(state);
 
         // Run trial
         while (num_actions_taken < max_trial_length && !thts_env->is_sink_state_itfc(state)) {
-            shared_ptr<const Action> action = thread_policy.get_action(state, context);
+            shared_ptr<const Action> action = thread_policy.get_action(state, *context);
             shared_ptr<const State> next_state = thts_env->sample_transition_distribution_itfc(
                 state, action, rand_manager);
             shared_ptr<const Observation> obsv = thts_env->sample_observation_distribution_itfc(
-- 
2.43.0


From 224250cdc3fabe1a5ec1f6464f4e739a2dafec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:23 +0000
Subject: [PATCH 13/18] fix: count the actions of a Monte Carlo rollout, so
 that max_trial_length is respected

---
 src/mc_eval.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 8fc29af..7578b82 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -101,6 +101,7 @@ namespace thts {
 
             thread_policy.update_step(action, obsv);
             state = next_state;
+            num_actions_taken++;
         }
 
         // store
-- 
2.43.0


From 39f354bef75b63b5fc70dcd833710bad4fb019a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:41 +0000
Subject: [PATCH 14/18] fix: MCEvaluator::get_stddev_return returned the
 variance

---
 src/mc_eval.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mc_eval.cpp b/src/mc_eval.cpp
index 7578b82..abffdbb 100644
--- a/src/mc_eval.cpp
+++ b/src/mc_eval.cpp
@@ -165,10 +165,10 @@ namespace thts {
     double MCEvaluator::get_stddev_return() {
         double mean = get_mean_return();
         double weight = 1.0 / (sampled_returns.size() - 1.0);
-        double stddev = 0.0;
+        double variance = 0.0;
         for (double val : sampled_returns) {
-            stddev += weight * pow(val - mean, 2.0);
+            variance += weight * pow(val - mean, 2.0);
         }
-        return stddev;
+        return sqrt(variance);
     }
 }
\ No newline at end of file
-- 
2.43.0


From 93591c408afca6567f9de1dab2d39f52af7f87c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:46 +0000
Subject: [PATCH 15/18] fix: ThtsLogger did not initialise its trial counters

---
 src/thts_logger.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 5ec046f..660f9a6 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -27,7 +27,9 @@ namespace thts {
 
     ThtsLogger::ThtsLogger() : 
         prior_runtime(chrono::duration<double>::zero()), 
+        trials_completed(0),
         trials_delta(numeric_limits<int>::max()), 
+        last_log_num_trials(0),
         runtime_delta(numeric_limits<double>::max()) {}
 
     void ThtsLogger::set_trials_delta(int delta) {
-- 
2.43.0


From c9913f206e3d541e55d968d6941058d506573524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:46 +0000
Subject: [PATCH 16/18] fix: logging intervals started in the past in every
 search but the first

---
 src/thts_logger.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 660f9a6..255ea89 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -52,8 +52,8 @@ namespace thts {
     
     void ThtsLogger::reset_start_time() {
         start_time = chrono::system_clock::now();
-        last_log_num_trials = 0;
-        next_log_runtime_threshold = runtime_delta;
+        last_log_num_trials = trials_completed;
+        next_log_runtime_threshold = prior_runtime + runtime_delta;
     }
     
     chrono::duration<double> ThtsLogger::get_current_total_runtime() {
@@ -67,7 +67,7 @@ namespace thts {
     
     bool ThtsLogger::should_log() {
         bool result = false;
-        if (trials_completed >= last_log_num_trials + trials_delta) {
+        if (trials_completed - last_log_num_trials >= trials_delta) {
             last_log_num_trials = trials_completed;
             result = true;
         }
-- 
2.43.0


From 3ee854487124b02df76d055c3650a6c4c779def6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:04 +0000
Subject: [PATCH 17/18] fix: the runtime of a search was only added to the
 prior runtime of the logger in the first search, and not if it ran out of
 time

---
 include/thts.h |  3 +++
 src/thts.cpp   | 18 +++++++++++-------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/thts.h b/include/thts.h
index 4cebae1..1ebad11 100644
--- a/include/thts.h
+++ b/include/thts.h
@@ -49,6 +49,8 @@ namespace thts {
      *          The number of trials the workers pool needs to run to have completed 'num_trials' trials.
      *      num_threads_working: 
      *          The number of threads currently working
+     *      search_in_progress:
+     *          If trials of the current search have been started, and the logger wasn't told yet that they are completed
      *      trials_completed: 
      *          The number of trials completed for 
      *      thts_manager: 
@@ -77,6 +79,7 @@ namespace thts {
             // protected by can_work_lock - variables related to if should run more trials + updated by workers
             int trials_remaining;
             int num_threads_working;
+            bool search_in_progress;
 
             // protected by logging_lock - variables to do with logging
             int trials_completed;
diff --git a/src/thts.cpp b/src/thts.cpp
index 7f9b64c..d7a9ccd 100644
--- a/src/thts.cpp
+++ b/src/thts.cpp
@@ -38,6 +38,7 @@ namespace thts {
             max_run_time(0.0),
             trials_remaining(0),
             num_threads_working(num_threads),
+            search_in_progress(false),
             trials_completed(0),
             logger(logger),
             thts_manager(thts_manager),
@@ -263,9 +264,7 @@ namespace thts {
     
     /**
     * If logging, grabs logging lock, checks if it is time to log and calls 'log' if it is, making sure to grab the
-    * lock for the root node as 'log' doesn't do that but needs to access the root node. When all trials are completed
-    * (trials_completed == num_trials), then call 'update_prior_runtime' for logger as it should be called after all
-    * trials are finished.
+    * lock for the root node as 'log' doesn't do that but needs to access the root node.
     */
     void ThtsPool::try_log() {
         if (logger != nullptr) {
@@ -277,10 +276,6 @@ namespace thts {
                 lock_guard<mutex> root_node_lg(root_node->get_lock());
                 logger->log(root_node);
             }
-
-            if (trials_completed == num_trials) {
-                logger->update_prior_runtime();
-            }
         }
     }
 
@@ -291,6 +286,7 @@ namespace thts {
      * while this thts pool is 'alive' work threads perform the following (description of code from top to bottom):
      * - indicate that they have completed a trial/unit of work, by decrementing num_threads_working
      * - if can't work (run a trial): 
+     *      - if the last trial of a search was completed, call 'update_prior_runtime' for the logger
      *      - notify work_left_cv to try to signal any threads waiting on workers completing
      *      - wait on work_left_cv until notified
      * - if just woken up from waiting on work_left_cv: 
@@ -309,12 +305,20 @@ namespace thts {
             num_threads_working--;
 
             while (!work_left()) {
+                if (search_in_progress && num_threads_working == 0) {
+                    search_in_progress = false;
+                    if (logger != nullptr) {
+                        lock_guard<mutex> logging_lg(logging_lock);
+                        logger->update_prior_runtime();
+                    }
+                }
                 work_done_cv.notify_all();
                 work_left_cv.wait(work_left_lock);
                 if (!thread_pool_alive) return;
             }
 
             num_threads_working++;
+            search_in_progress = true;
             trials_remaining--;
             int trials_remaining_copy = trials_remaining;
 
-- 
2.43.0


From 31013522ab7af22b94be880460efc6bafc5a4abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:04 +0000
Subject: [PATCH 18/18] fix: loggers dropped the algorithm specific fields of
 their entries

---
 include/thts_logger.h                   |  4 ++--
 src/algorithms/ments/dbments_logger.cpp |  4 ++--
 src/algorithms/ments/ments_logger.cpp   |  4 ++--
 src/algorithms/uct/uct_logger.cpp       |  4 ++--
 src/thts_logger.cpp                     | 10 +++++-----
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/thts_logger.h b/include/thts_logger.h
index c9e714b..0dfda69 100644
--- a/include/thts_logger.h
+++ b/include/thts_logger.h
@@ -51,7 +51,7 @@ namespace thts {
      * 
      * Member variables:
      *      entries: 
-     *          A vector of LoggerEntry objects, each representing a datatype
+     *          A vector of (pointers to) LoggerEntry objects, each representing a datatype
      *      prior_runtime: 
      *          The amount of runtime logger from previous calls to ThtsPool run_trials
      *      start_time: 
@@ -70,7 +70,7 @@ namespace thts {
      */
     class ThtsLogger {
         protected:
-            std::vector<LoggerEntry> entries;
+            std::vector<std::shared_ptr<LoggerEntry>> entries;
             std::chrono::duration<double> prior_runtime;
             std::chrono::time_point<std::chrono::system_clock> start_time;
 
diff --git a/src/algorithms/ments/dbments_logger.cpp b/src/algorithms/ments/dbments_logger.cpp
index 0370a0a..c2d6b43 100644
--- a/src/algorithms/ments/dbments_logger.cpp
+++ b/src/algorithms/ments/dbments_logger.cpp
@@ -36,7 +36,7 @@ namespace thts {
         MentsLogger() {}
     
     void DBMentsLogger::add_origin_entry() {
-        entries.push_back(DBMentsLoggerEntry(
+        entries.push_back(make_shared<DBMentsLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -46,7 +46,7 @@ namespace thts {
     
     void DBMentsLogger::log(shared_ptr<ThtsDNode> node) {
         DBMentsDNode& dbments_node = (DBMentsDNode&) *node;
-        entries.push_back(DBMentsLoggerEntry(
+        entries.push_back(make_shared<DBMentsLoggerEntry>(
             get_current_total_runtime(), 
             dbments_node.num_visits,
             dbments_node.MentsDNode::num_backups,
diff --git a/src/algorithms/ments/ments_logger.cpp b/src/algorithms/ments/ments_logger.cpp
index 675489e..208c3f1 100644
--- a/src/algorithms/ments/ments_logger.cpp
+++ b/src/algorithms/ments/ments_logger.cpp
@@ -34,7 +34,7 @@ namespace thts {
         ThtsLogger() {}
     
     void MentsLogger::add_origin_entry() {
-        entries.push_back(MentsLoggerEntry(
+        entries.push_back(make_shared<MentsLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -43,7 +43,7 @@ namespace thts {
     
     void MentsLogger::log(shared_ptr<ThtsDNode> node) {
         MentsDNode& ments_node = (MentsDNode&) *node;
-        entries.push_back(MentsLoggerEntry(
+        entries.push_back(make_shared<MentsLoggerEntry>(
             get_current_total_runtime(), 
             ments_node.num_visits,
             ments_node.num_backups,
diff --git a/src/algorithms/uct/uct_logger.cpp b/src/algorithms/uct/uct_logger.cpp
index 5e9d747..b57ea7b 100644
--- a/src/algorithms/uct/uct_logger.cpp
+++ b/src/algorithms/uct/uct_logger.cpp
@@ -34,7 +34,7 @@ namespace thts {
         ThtsLogger() {}
     
     void UctLogger::add_origin_entry() {
-        entries.push_back(UctLoggerEntry(
+        entries.push_back(make_shared<UctLoggerEntry>(
             chrono::duration<double>::zero(), 
             0,
             0,
@@ -43,7 +43,7 @@ namespace thts {
     
     void UctLogger::log(shared_ptr<ThtsDNode> node) {
         UctDNode& uct_node = (UctDNode&) *node;
-        entries.push_back(UctLoggerEntry(
+        entries.push_back(make_shared<UctLoggerEntry>(
             get_current_total_runtime(), 
             uct_node.num_visits,
             uct_node.num_backups,
diff --git a/src/thts_logger.cpp b/src/thts_logger.cpp
index 255ea89..8e1e22f 100644
--- a/src/thts_logger.cpp
+++ b/src/thts_logger.cpp
@@ -45,7 +45,7 @@ namespace thts {
     }
     
     void ThtsLogger::add_origin_entry() {
-        entries.push_back(LoggerEntry(
+        entries.push_back(make_shared<LoggerEntry>(
             chrono::duration<double>::zero(), 
             0));
     }
@@ -79,7 +79,7 @@ namespace thts {
     }
     
     void ThtsLogger::log(shared_ptr<ThtsDNode> node) {
-        entries.push_back(LoggerEntry(
+        entries.push_back(make_shared<LoggerEntry>(
             get_current_total_runtime(), 
             node->num_visits));
     }
@@ -92,12 +92,12 @@ namespace thts {
     void ThtsLogger::write_to_ostream(ostream& os) {
         if (entries.size() == 0) return;
         
-        LoggerEntry& first_entry = entries[0];
+        LoggerEntry& first_entry = *entries[0];
         first_entry.write_header_to_ostream(os);
         os << "\n";
 
-        for (LoggerEntry& logger_entry : entries) {
-            logger_entry.write_to_ostream(os);
+        for (shared_ptr<LoggerEntry>& logger_entry : entries) {
+            logger_entry->write_to_ostream(os);
             os << "\n";
         }
 
-- 
2.43.0

