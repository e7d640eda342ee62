#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (and from checks.py: what is claimed)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])], observe_at=observe or [], hook_needed=None)))
I, S, H, C = 'inputs', 'schedules', 'histories', 'configurations'
p('C01', 'A trial follows one connected path from the root to its proper end',
  'Every trial starts at the root, visits each decision and chance node on its path exactly once in order, moves to the chance node of the action it selected and then to the decision node of the outcome it sampled, and selects nothing after its last node. It ends exactly at a terminal state, at the depth limit, or (in the mode that grows one node per trial) at the first decision node that the trial itself added to the tree. Every call on a node during the trial is made while holding that node\'s lock.',
  [I, S, C], 'all sequences of action choices and outcomes, tree shapes, depth limits, both tree growing modes, and interleavings of two workers',
  'the tests run a few seeded searches and look at aggregate counts; they never look at an individual trial, and sample a handful of depth limits and schedules',
  ['src/thts.cpp', 'include/thts.h'], [('run_thts_trial / should_continue_selection_phase', 'src/thts.cpp'), ('lock around visit/select/sample', 'src/thts.cpp')], observe=['calls received by the nodes'])
p('C02', 'Each trial backs up every node on its path once, with the right returns',
  'After the selection phase each decision/chance node pair from which the trial moved on is backed up exactly once, deepest first and chance node before its decision node, while holding its lock. Each node receives the rewards before it, the rewards from it onwards (deepest first, starting with the heuristic value of the last node), their sum as return-to-go, and the return of the whole trial; the reward of a step is the environment\'s reward for that state, action and observation. A terminal last node contributes no heuristic value.',
  [I, S, C], 'all reward and heuristic values, path lengths and outcomes, both tree growing modes, interleavings of two workers',
  'the tests check one algorithm\'s averages on a couple of fixed grids; wrong splits of rewards before/after a node or observation dependent rewards are invisible there',
  ['src/thts.cpp', 'include/thts.h'], [('run_selection_phase, run_backup_phase', 'src/thts.cpp')], observe=['arguments received by the nodes\' backup'])
p('C03', 'Exactly the requested number of trials is run, for every schedule',
  'A blocking request for n trials returns only when exactly n trials have been run to completion since it was made, whatever the number of worker threads and however they are scheduled; n may be zero, and requests may follow one another on the same pool. The same holds for a non-blocking request followed by waiting for the pool. No trials are run that nobody asked for.',
  [S, I, C], 'all interleavings of the workers and the caller within the preemption bound for trial counts 0..3, up to 40 trials without preemption, 1-3 threads, repeated requests',
  'a test run sees one schedule per execution; lost or duplicated trials need particular wake-up orders',
  ['src/thts.cpp', 'include/thts.h'], [('work queue counters under the pool lock; wake-ups of workers and of the waiting caller', 'src/thts.cpp')], [('trials_remaining / num_threads_working', 'outstanding work', 'include/thts.h')])
p('C04', 'The pool never hangs and respects its time limit',
  'A request for trials always returns and a pool can always be destroyed, whatever the schedule and wherever a time limit expires: no worker or caller waits for ever. Once a worker knows the time limit has passed it starts no further trial, no trial is started when no time is left, a trial that was started is finished, and as long as the time limit has not passed all requested trials are run.',
  [S, I], 'all interleavings within the preemption bound; the clock passes the limit at any reading made by any worker; pools destroyed with work outstanding',
  'lost wake-ups and deadline races occur on rare schedules; the tests use generous time limits and one schedule per run',
  ['src/thts.cpp', 'include/thts.h'], [('worker loop, join, destructor: condition variables', 'src/thts.cpp'), ('work_left / time limit test', 'src/thts.cpp')])
p('C05', 'Searching one tree with several threads has no data race and loses no update',
  'With any number of workers on one tree no two threads access the same memory at the same time without synchronisation if one of them writes, for every algorithm (UCT, PUCT, MENTS, DBMENTS, RENTS, TENTS, DENTS, EST), with and without a transposition table or logger. Consequently no visit or backup is lost.',
  [S, C], 'interleavings of two workers on a tree with shared nodes within the preemption bound, for all eight algorithms',
  'the tests never run more than incidental concurrency and use no race detector; a missing lock shows only as rare corruption',
  ['src/thts.cpp', 'src/algorithms', 'include/algorithms', 'src/thts_chance_node.cpp', 'src/thts_decision_node.cpp'], [('per node locks, child locks around reads of children', 'src/algorithms'), ('transposition table mutexes', 'src/thts_chance_node.cpp'), ('random number generator lock', 'include/thts_manager.h')])
p('C06', 'Concurrent trials on one tree never deadlock',
  'Two trials that work on the same tree at the same time, including trials whose chance nodes share decision nodes through the transposition table, always both finish: for no schedule do they wait for each other\'s locks, and every lock that is taken is released again.',
  [S, C], 'interleavings of a backup with another backup or selection on shared nodes, for every order in which the shared nodes were discovered, seven algorithms',
  'the deadlock needs two particular lock orders at once; tests that use a transposition table with threads do not exist',
  ['src/thts_chance_node.cpp', 'src/thts_decision_node.cpp', 'src/algorithms'], [('lock_all_children / unlock_all_children, lock order parent before child', 'src/thts_chance_node.cpp')])
p('C07', 'The search tree mirrors the problem: states, actions, depth, player, identity',
  'A child created for an action (or outcome) is found again under any equal action (or outcome), creating it again returns the same node and changes nothing, and it carries the right state, action, parent, depth, timestep and algorithm: chance nodes at their parent\'s depth, decision nodes one deeper and later. A decision node is a leaf exactly if its state is terminal or its depth has reached the limit, is the root exactly at depth zero, and in a two player game the opponent moves at odd timesteps (never in one player problems).',
  [I, H, C], 'all orders of creation over a small state/action space, all depths and limits up to 1000, all algorithms',
  'the tests build a few fixed nodes of some algorithms',
  ['src/thts_decision_node.cpp', 'src/thts_chance_node.cpp', 'src/algorithms'], [('create_child_node, is_leaf, is_opponent', 'src/thts_decision_node.cpp, src/thts_chance_node.cpp'), ('create_child_node_helper of every algorithm', 'src/algorithms')])
p('C08', 'The transposition table shares exactly equal states at equal timesteps',
  'With the transposition table on, chance nodes that reach equal observations at the same timestep get one and the same decision node, and otherwise different ones; with it off nothing is shared. This holds for any number of table locks, when several workers create the node at the same time, and after earlier trees have been dropped: an entry whose node no longer exists is replaced, never an error.',
  [I, H, S, C], 'all small histories of creations, drops and concurrent creations, 1-3 table mutexes',
  'no test uses the table with more than one tree, thread or mutex',
  ['src/thts_chance_node.cpp', 'include/thts_manager.h', 'src/thts_types.cpp'], [('create_child_node with dmap', 'src/thts_chance_node.cpp'), ('hash/equality of (timestep, observation)', 'src/thts_types.cpp')])
p('C09', 'UCT values are the running mean of the returns backed up',
  'After any sequence of backups, the value of every UCT and PUCT decision and chance node is the arithmetic mean of the returns-to-go backed up through it, where a decision node with a heuristic counts the heuristic value as the configured number of pseudo trials. The backup count grows by one per backup and depends on nothing else.',
  [I, H], 'all real valued return sequences up to the bound, pseudo trial counts 0..3, with and without heuristic',
  'the tests use one or two fixed return sequences',
  ['src/algorithms/uct'], [('backup of UCT nodes', 'src/algorithms/uct')])
p('C10', 'UCT selection: untried actions first, then the highest confidence bound',
  'Without priors UCT selects an untried action whenever there is one, each untried action being possible; otherwise it selects an action that maximises average return plus bias times sqrt(log parent visits / child visits), every maximiser being possible and no other action. In a two player game the opponent maximises the negated average return, and with the exploration probability an arbitrary action is selected uniformly.',
  [I, H, C], 'all real child values, visit counts, biases; 2-3 actions; both players; both outcomes of the exploration draw',
  'the tests check a few fixed value tables',
  ['src/algorithms/uct/uct_decision_node.cpp'], [('select_action_ucb / get_ucb_values', 'src/algorithms/uct/uct_decision_node.cpp')])
p('C11', 'PUCT, prior weighted and automatic bias selection follow their formulas',
  'With a prior policy every action is scored as prior times exploration term plus (for the opponent negated) average return, untried actions counting as tried once with value zero, and a maximiser is selected. PUCT replaces the exploration term by bias times parent visits to the configured power over child visits. With the automatic bias setting the bias is the largest absolute child value, at least the documented minimum.',
  [I, H, C], 'all real child values, priors, visit counts; 2 actions; both players',
  'the tests check fixed tables only and PUCT/auto bias hardly at all',
  ['src/algorithms/uct'], [('fill_ucb_values / compute_ucb_term, bias computation', 'src/algorithms/uct')])
p('C12', 'UCT recommends the most visited (or best average) action',
  'By default UCT recommends a child with the most visits; when configured so, the child with the best average return for the player to move. Every child that attains the maximum can be recommended, no other can, and a node without children recommends some valid action.',
  [I, C], 'all visit counts and values of up to 3 children, both players',
  'the tests check fixed tables', ['src/algorithms/uct/uct_decision_node.cpp'], [('recommend_action', 'src/algorithms/uct/uct_decision_node.cpp')])
p('C13', 'MENTS soft backup: value is temperature times log-sum-exp of action values',
  'After a backup the soft value of a MENTS decision node is temp*log(sum over all valid actions of exp(q/temp)), negated q and result for the opponent, where q of a tried action is its child\'s soft value and q of an untried action its prior log weight plus offset or the configured default; a leaf keeps its heuristic value. The result is finite also for large value to temperature ratios.',
  [I, C], 'all real child values, temperatures, default and prior values; 2-3 actions; both players',
  'the tests use a few constants', ['src/algorithms/ments/ments_decision_node.cpp'], [('compute_action_weights, backup_soft', 'src/algorithms/ments/ments_decision_node.cpp')])
p('C14', 'Chance node values are backup weighted averages of their outcomes plus reward',
  'After a backup the value of a MENTS family chance node (soft value, dynamic programming value and entropy alike) is the average of its outcomes\' values weighted by their number of backups, outcomes never backed up being ignored and each visit of an outcome that ends trials counting as a backup, plus the node\'s own immediate reward for value (nothing for entropy). The immediate reward is the environment\'s reward for that state and action.',
  [I, H, C], 'all real outcome values, backup counts from 0 to 1000 of up to 3 outcomes; all algorithms of the family',
  'the tests use fixed numbers and never an outcome with zero backups', ['src/algorithms/ments', 'src/algorithms/common'], [('backup_soft of MENTS chance nodes, backup_dp, backup_ent', 'src/algorithms/ments, src/algorithms/common')])
p('C15', 'MENTS samples from the documented softmax, prior and uniform mixture',
  'The action distribution of MENTS is a probability distribution over exactly the valid actions: (1-lambda) times the softmax of q/temp (itself mixed with the prior policy by its decaying weight when a prior exists) plus lambda times uniform, with lambda = min(epsilon/log(visits+1), maximum exploration probability), using the root\'s own epsilon and temperature scale at the root if set. The selected action is drawn from that distribution: every action with positive probability can be selected and no other.',
  [I, C], 'all real child values, epsilons, visit counts, temperatures, priors; 2-3 actions; both players; root and non root',
  'the tests sample fixed settings; degenerate settings (epsilon zero, zero visits) are not covered', ['src/algorithms/ments/ments_decision_node.cpp'], [('compute_action_distribution, select_action', 'src/algorithms/ments/ments_decision_node.cpp')])
p('C16', 'RENTS weights actions by the parent policy (relative entropy)',
  'RENTS selects and backs up as MENTS does, except that each action\'s weight is multiplied by the probability the trial\'s policy gave the same action at the previous decision node of the trial, uniform if there is none or the product vanishes. The policy seen by the next decision node is the one just used at this node.',
  [I, C], 'all real child values and parent policies; 2 actions; both players',
  'the tests check one or two fixed tables', ['src/algorithms/ments/rents'], [('parent distribution in the trial context', 'src/algorithms/ments/rents/rents_decision_node.cpp')])
p('C17', 'TENTS policies and values are the sparsemax of the action values',
  'The TENTS action policy is the Euclidean projection of the action values divided by temperature onto the probability simplex: probabilities max(0, q/temp - tau), summing to one (before mixing with uniform exploration), and the value backed up is temp times the corresponding sparsemax value, negated for the opponent. This holds for a fixed temperature and the action values as of their last backup through the node.',
  [I, C], 'all real child values and temperatures; 2-3 actions; both players',
  'the tests use a few constants; ties and boundary supports are not covered', ['src/algorithms/ments/tents'], [('get_sparse_action_set, spmax, backup_tsallis', 'src/algorithms/ments/tents/tents_decision_node.cpp')])
p('C18', 'Dynamic programming backups take the best backed up action for the mover',
  'The dynamic programming value of a decision node after a backup is the maximum over its children that have been backed up of their dynamic programming value, the minimum if the opponent moves; children never backed up are ignored. Its number of backups grows by one per backup; before any backup the value is the heuristic value.',
  [I, H, C], 'all real child values, backup counts of up to 3 children, both players',
  'the tests use a few constants', ['src/algorithms/common'], [('DPDNode / DPCNode / EmpNode backups', 'src/algorithms/common')])
p('C19', 'DENTS and EST policy values: value plus decaying entropy bonus',
  'DENTS weighs an action by exp of (value + value temperature times the action\'s subtree entropy, sign flipped for the opponent)/temperature, EST by value/temperature alone. A decision node\'s subtree entropy is the entropy of its current policy (opponent\'s counted negatively) plus the policy-weighted entropies below it, and all these numbers stay finite for every admissible setting, including no exploration.',
  [I, C], 'all real child values, entropies, temperatures; 2 actions; both players; epsilon zero and positive',
  'the tests cover a few constants', ['src/algorithms/ments/dents', 'src/algorithms/est', 'src/algorithms/common/ent_decision_node.cpp'], [('get_soft_q_value, backup_ent, compute_action_weights', 'src/algorithms/ments/dents, src/algorithms/est, src/algorithms/common')])
p('C20', 'MENTS family recommendation: best value among sufficiently visited actions',
  'The recommended action maximises the value used for recommendation (soft value, average or dynamic programming value, or visits as configured; values negated for the opponent) among the children that reach the configured threshold (of visits for the soft value, of backups for the average and dynamic programming value). When none reaches it, it is the best of all actions by soft value, or of all children by the other values. Tied actions are all possible, and a node without children recommends a valid action.',
  [I, C], 'all real child values, visit counts from 0 to 1000, thresholds; 2-3 actions; both players',
  'the tests use a few constants', ['src/algorithms/ments', 'src/algorithms/est'], [('recommend_action of the MENTS family', 'src/algorithms/ments')])
p('C21', 'Sampling from a weighted map returns each key with its probability',
  'Given a map of non-negative weights, sampling returns key k exactly for a set of uniform draws of measure weight(k)/total, never a key of weight zero, whether or not the weights are declared or happen to be normalised, up to rounding error. A distribution declared normalised whose weights are far from summing to one is rejected, and no distribution within rounding of one is.',
  [I], 'all weights and all uniform draws; 1-3 keys; real arithmetic and IEEE doubles',
  'statistical tests with fixed weights cannot see draws near the boundaries or rounding', ['include/helper_templates.h'], [('sample_from_distribution', 'include/helper_templates.h')])
p('C22', 'Distribution objects represent the weights they were given, also after updates',
  'A categorical, uniform or mixed distribution object reports for each key its normalised probability (zero for unknown keys) and samples each key exactly with that probability, whether or not it uses the alias method, and after any sequence of replacing weights, adding or removing keys or rebuilding the table. A key of probability zero is never sampled.',
  [I, H], 'all weights, draws and update sequences up to the bound (10 updates); 1-5 keys',
  'the tests construct few fixed distributions and sample them statistically', ['include/distributions'], [('CategoricalDistribution alias table', 'include/distributions/categorical_distribution.h'), ('MixedDistribution, DiscreteUniformDistribution', 'include/distributions')])
p('C23', 'Argmax with random tie breaking returns each maximiser and nothing else',
  'Choosing a maximal key of a map returns a key whose value is the maximum, and every such key is returned for some random draw, uniformly; this holds for all values including negative infinity and values close to one another.',
  [I], 'all values (real, IEEE, integer), 1-3 keys, all draws', 'the tests use fixed maps', ['include/helper_templates.h'], [('get_max_key_break_ties_randomly', 'include/helper_templates.h')])
p('C24', 'Equality and hashing of states, actions and observations are lawful',
  'Two states, actions, observations (integer, pair, string) or keys built from them are equal exactly if they have the same kind and content, equality is symmetric, equal objects hash equally whether reached directly, through a base reference or a shared pointer, and comparing with an object of a different kind is false rather than undefined. Maps keyed by shared pointers to states, actions or observations therefore find entries by content.',
  [I], 'all contents, all pairs of kinds', 'the tests compare a few objects of the same kind', ['src/thts_types.cpp', 'include/thts_types.h', 'include/helper.h'], [('equals_itfc/hash_itfc and the std::hash/std::equal_to specialisations', 'src/thts_types.cpp, include/thts_types.h')])
p('C25', 'Monte Carlo evaluation runs the requested rollouts and returns true returns',
  'Running n rollouts on k threads records exactly n returns and always finishes; each recorded return is the sum of the rewards of one episode from the initial state under the policy, which ends at a terminal state or after the maximum episode length, whichever is first. Each rollout uses its own copy of the policy state and context.',
  [S, I, C], 'all rewards, policies, lengths, schedules of two rollout threads within the bound; up to 13 rollouts on up to 5 threads', 'the tests look at averages of seeded runs', ['src/mc_eval.cpp', 'include/mc_eval.h'], [('run_rollout, run_rollouts, thread helper', 'src/mc_eval.cpp')])
p('C26', 'Monte Carlo evaluation reports the sample mean and standard deviation',
  'The reported mean is the arithmetic mean of the recorded returns and the reported standard deviation is the square root of their sample variance, for any recorded returns.',
  [I, H], 'all sequences of up to 12 returns', 'the tests check loose statistical ranges', ['src/mc_eval.cpp'], [('get_mean_return, get_stddev_return', 'src/mc_eval.cpp')])
p('C27', 'Evaluation policies follow the search tree while it lasts, then act randomly',
  'An evaluation policy recommends the action the tree node for the history so far recommends, moves to the child for the action taken and observation made, and once the history leaves the tree picks uniformly among the valid actions of the state it is given. Resetting it starts again from the root.',
  [I, H], 'all histories up to the bound over a small tree', 'the tests check one history', ['src/mc_eval.cpp'], [('EvalPolicy', 'src/mc_eval.cpp')])
p('C28', 'The logger logs at its configured cadence and keeps cumulative time and trials',
  'With a logging interval in trials an entry is due exactly when that many trials have completed since the last such entry; with an interval in time, when another interval of search time has passed; with neither, never. Each search starts its intervals anew. Run times that are logged are cumulative over the searches of a pool, do not count the time between searches (also if a search ran out of time) and never decrease.',
  [I, H, S], 'all sequences of completions, clock readings and searches up to the bound', 'no test uses a logger', ['src/thts_logger.cpp', 'src/thts.cpp'], [('ThtsLogger counters and thresholds; pool bookkeeping', 'src/thts_logger.cpp, src/thts.cpp')])
p('C29', 'Decaying temperatures stay positive, start at the initial value, only decrease',
  'For every decay function the temperature never increases with the number of visits, stays positive and never goes below the configured minimum, and follows the documented formula of the scaled visit count; with no decay it is the initial temperature. At the root a configured root scale is applied.',
  [I, C], 'all visit counts, initial/minimum temperatures, scales; all decay functions', 'the tests evaluate few points', ['src/algorithms/common/decaying_temp.cpp'], [('compute_decayed_temp and the decay functions', 'src/algorithms/common/decaying_temp.cpp')])
p('C30', 'The trial context behaves as a map from names to values',
  'Reading a name from a trial context returns the value last stored under it and not erased since; the constant and mutable values are independent; reading a name without a value is an error.',
  [H], 'all operation sequences up to the bound over two names', 'the tests do one put and get', ['src/thts_env_context.cpp', 'include/thts_env_context.h'], [('put/get/erase', 'src/thts_env_context.cpp')])
p('C31', 'Random integers and uniforms stay in range and seeds reproduce',
  'A random integer requested from [lo,hi) lies in it and every value is possible; a random uniform lies in [0,1) (or the requested range). Two generators with equal non-zero seeds give equal sequences, and the seed requested is the one used.',
  [I], 'all raw generator outputs, ranges and seeds', 'statistical tests with fixed seeds', ['include/thts_manager.h'], [('RandManager', 'include/thts_manager.h')])
p('C32', 'Two player search is symmetric under swapping players and negating rewards',
  'For every algorithm, a node where the opponent moves with child values v selects, recommends and backs up exactly as a node where the player moves with values -v, up to the sign of the backed up value. In one player problems no value is ever negated.',
  [I, C], 'all real child values, visit counts; 2 actions; all algorithms', 'the tests check two player mode for few fixed values', ['src/algorithms'], [('opponent coefficient', 'src/algorithms')])
p('C33', 'A pool changes its environment only between trials',
  'Giving a pool a new manager and root is refused with an error, without effect on the running search, while requested trials have yet to be started. Otherwise it takes effect once the trials still running have finished, so that no trial mixes environments, and later trials use only the new environment and root.',
  [S], 'all interleavings of the change with the workers within the bound', 'one schedule per test run', ['src/thts.cpp'], [('set_new_env', 'src/thts.cpp')])
p('C34', 'New nodes carry the heuristic value of their state; terminal nodes carry zero',
  'A new decision node of any algorithm has the configured heuristic\'s value of its state, zero if there is no heuristic or the state is terminal, and no visits or children. The default settings are those documented.',
  [I, C], 'all heuristic values, depths, limits and players, all algorithms', 'fixed values', ['src/thts_decision_node.cpp', 'include/thts_manager.h'], [('ThtsDNode constructor', 'src/thts_decision_node.cpp')])
p('C35', 'Default observation model: the next state, or the given distribution',
  'A fully observable environment observes the next state with certainty. A partially observable one samples only observations its observation distribution gives positive probability, and one that defines no observation model reports an error. Each trial gets its own fresh context.',
  [I], 'all next states and distributions', 'fixed values', ['src/thts_env.cpp', 'include/thts_env.h'], [('default observation and context functions', 'src/thts_env.cpp')])
p('C36', 'Log entries record the root as it was and are written out as documented',
  'A log entry holds the run time, the number of trials and the statistics of the root at the moment of logging (including the algorithm specific ones), entries are kept in order, and writing the log gives the documented header followed by one line per entry with exactly these fields.',
  [I, H], 'all statistics values; up to 2 entries; all loggers', 'the tests do not look at algorithm specific fields', ['src/thts_logger.cpp', 'src/algorithms/uct/uct_logger.cpp', 'src/algorithms/ments'], [('log / write_to_ostream', 'src/thts_logger.cpp')])
p('C37', 'Search statistics are conserved over whole searches',
  'After any search, every node\'s visit count equals the number of trials that went through it: the root was visited once per trial, a decision node\'s visits are the sum of its children\'s plus the trials that ended there, and a chance node\'s visits are the sum of its outcomes\' visits; the same holds for backups. Values are consistent throughout the tree: averages, soft and dynamic programming values of chance nodes are the reward plus the weighted values of their outcomes, and the UCT value of the root is the mean return of the trials. Every child in the tree corresponds to a valid action or a possible outcome.',
  [I, H, C], 'all action and outcome sequences of complete searches of up to 3 trials and of any 2 trials after a search of 25, all algorithms', 'few seeded searches', ['src/thts.cpp', 'src/algorithms'], [('visit/backup counters', 'src/algorithms')])
p('C38', 'Chance nodes sample outcomes with the probabilities of the environment',
  'For every algorithm, a chance node samples each outcome of its state and action with exactly the probability the environment gives it, never one of probability zero, and afterwards has a child for the sampled outcome, holding its state; no other children are created.',
  [I, C], 'all probabilities and draws; 2-3 outcomes; all algorithms', 'the tests use fixed distributions and seeds', ['src/algorithms', 'include/helper_templates.h'], [('sample_observation', 'src/algorithms/uct/uct_chance_node.cpp, src/algorithms/ments/ments_chance_node.cpp')])
p('C39', 'Printed trees show the nodes to the requested depth with their statistics',
  'Printing a tree to a given depth shows every action and outcome in the tree down to that depth exactly once, each with its value and visit count, and marks decision nodes cut off by the depth that are not leaves.',
  [I, C], 'all values and visit counts; small trees; depths 0 to 3', 'the tests print one tree', ['src/thts_decision_node.cpp', 'src/thts_chance_node.cpp'], [('get_pretty_print_string', 'src/thts_decision_node.cpp, src/thts_chance_node.cpp')])
p('C40', 'A search runs with exactly the settings the user gave, or documented defaults',
  'A manager made from a set of settings has the value given for every one of them (environment, depth limit, heuristic, prior, growing mode, players, table and its locks; bias, pseudo trials, exploration and recommendation of UCT and PUCT; temperatures, exploration, decay, offsets, thresholds and recommendation of the entropy algorithms; value temperatures of DENTS), starts with an empty table, and does not change with another setting. Settings that were not given have the documented defaults.',
  [I, C], 'all values of all settings, each manager', 'the tests set two or three settings and look at results, not at whether every value arrives', ['include/thts_manager.h', 'include/algorithms'], [('manager constructors', 'include/thts_manager.h, include/algorithms/uct/uct_manager.h, include/algorithms/uct/puct_manager.h, include/algorithms/ments/ments_manager.h, include/algorithms/ments/dents/dents_manager.h')])
p('C41', 'Dropping a searched tree releases all of it, and nothing that is still in use',
  'When the last reference to the root of a searched tree is dropped every node of the tree is released, with or without a transposition table, unless it is below a node the user kept; kept nodes stay intact, with their children and statistics. Contexts are released with their trial or rollout. Managers and environments live exactly as long as something uses them: a pool lets go of a tree, manager and logger that were replaced and of its tree when it is destroyed; a policy keeps the tree it follows and lets go of it afterwards.',
  [H, I, C], 'all draws of searches of 3 trials; all algorithms; with and without table; any kept child', 'the tests never look at lifetimes; a reference cycle or a dangling parent changes no result', ['src/thts_decision_node.cpp', 'src/thts_chance_node.cpp', 'include/thts_manager.h', 'src/thts.cpp', 'src/mc_eval.cpp'], [('parent (weak), children (shared), dmap (weak)', 'include/thts_decision_node.h, include/thts_chance_node.h, include/thts_manager.h'), ('set_new_env, destructor', 'src/thts.cpp')])
p('C42', 'Every trial and rollout has a context of its own, drawn for its start state',
  'For each trial the environment is asked once for a context, for the state of the root the search starts from (also when that is not the initial state), and this context and no other is passed to every call made for the trial. For each rollout it is asked once, for the initial state, and the policy is asked with it until the rollout ends.',
  [S, H, C], 'all schedules of two workers within the preemption bound; all root states, trial counts and modes within the bounds', 'the tests use environments with empty contexts, where sharing one or drawing it for another state is invisible', ['src/thts.cpp', 'src/mc_eval.cpp'], [('run_thts_trial', 'src/thts.cpp'), ('run_rollout', 'src/mc_eval.cpp')])
p('C43', 'Requests that cannot be served are refused and change nothing',
  'Asking a node for a child that does not exist throws and leaves the tree as it was; whether a child exists is reported correctly. A pool without manager or root is refused and runs nothing, whatever the number of threads. Comparing, hashing or printing objects of types that do not define it, and loading or saving trees, which is not implemented, throws.',
  [I, C], 'all requests over 3 actions and 4 outcomes; all algorithms; pools with and without manager and root', 'the tests only make valid requests', ['src/thts_decision_node.cpp', 'src/thts_chance_node.cpp', 'src/thts.cpp', 'src/thts_types.cpp'], [('get_child_node_itfc', 'src/thts_decision_node.cpp, src/thts_chance_node.cpp'), ('ThtsPool constructor', 'src/thts.cpp'), ('default hash, equals, print', 'src/thts_types.cpp')])
def main():
    with open(f'{V}/properties.jsonl', 'w') as f:
        for x in P: f.write(json.dumps(x) + '\n')
    NA = {}
    checks = []; na = []
    for x in P:
        i = x['id']
        if i in CHECKS and CHECKS[i]['entries']:
            checks.append(dict(property=i, quick_cmd=f'python3 run.py {i} quick', thorough_cmd=f'python3 run.py {i} thorough', evidence_file=f'evidence/{i}.json', technique='bounded symbolic execution of LLVM IR of the real code, decided by z3', level='model_checking',
                level_note=CHECKS[i].get('note', 'Every path of the compiled code within the stated bounds is decided by the solver; counterexamples are replayed on a native build.') + ' Trusts the engine (engine/), clang\'s IR and z3; floating point as stated in the evidence assumptions; nothing is claimed outside the bounds.'))
        else: na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
    m = dict(version=1, setup_cmd='bash engine/build.sh', checks=checks, not_applicable=na, notes='/repo carries no hooks: the harnesses are compiled against its unchanged sources. known_findings.txt lists repaired defects.')
    json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
if __name__ == '__main__': main()
