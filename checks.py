def E(h, e, bounds, reach=('end',), **k): return dict(h=h, e=e, bounds=bounds, reach=list(reach), **k)
P0, P1, P2, P3 = ['--preempt', '0'], ['--preempt', '1'], ['--preempt', '2'], ['--preempt', '3']
ALGS = ['uct', 'puct', 'ments', 'dbments', 'rents', 'tents', 'dents', 'est']
A7 = ['uct', 'ments', 'dbments', 'rents', 'tents', 'dents', 'est']
CHECKS = {
 'C01': dict(entries=[
    E('h_pool', 'h_trial_shape', '1 worker, 2 (thorough 3) layers of 2 actions x 2 outcomes, 3 (4) consecutive trials, any depth limit, both modes', ('trial', 'empty', 'end', 'stopped-at-new'), opts=P0),
    E('h_pool', 'h_trial_threads_shape', '2 workers, 2 trials on one tree, at most 1 (2) preemptions', ('trial', 'stopped-at-new', 'end'), opts_q=P1, opts_t=P2),
    E('h_pool', 'h_trial_chain_shape', 'chains of 12 (24) steps, 13 (25) consecutive trials, any depth limit, both modes', ('trial', 'end', 'stopped-at-new'), opts=P0),
    E('h_pool', 'h_trial_wide_shape', '3 actions x 3 outcomes, 2 (3) consecutive trials', ('trial', 'end', 'stopped-at-new'), opts=P0)]),
 'C02': dict(entries=[
    E('h_pool', 'h_trial_backup', '1 worker, 2 (3) layers, 2 (3) consecutive trials, all rewards and heuristic values in [-50,50]', ('backup', 'end'), opts=P0),
    E('h_pool', 'h_trial_backup_deep', 'one trial, 3 layers', ('backup', 'end'), opts=P0),
    E('h_pool', 'h_trial_threads_backup', '2 workers, 2 trials on one tree, at most 1 (2) preemptions', ('backup', 'end'), opts_q=P1, opts_t=P2),
    E('h_pool', 'h_trial_chain_backup', 'chains of 8 (12) steps, 9 (12) consecutive trials, all rewards and heuristic values', ('backup', 'end'), opts=P0),
    E('h_pool', 'h_trial_wide_backup', '3 actions x 3 outcomes, 1 (2) trials', ('backup', 'end'), opts=P0)]),
 'C03': dict(conc=3, entries=[
    E('h_pool', 'h_budget_1', '1 worker, two requests of 0..3 trials', opts_q=P1, opts_t=P3),
    E('h_pool', 'h_budget_2', '2 workers, one request of 0..3 trials, 2 (3) preemptions', opts_q=P2, opts_t=P3),
    E('h_pool', 'h_budget_2_step', '2 workers, 0..2 trials of one step, 1 (2) preemptions', opts_q=P1, opts_t=P2),
    E('h_pool', 'h_budget_2_runs', '2 workers, two requests of 0..2 trials, 1 (2) preemptions', opts_q=P1, opts_t=P2),
    E('h_pool', 'h_budget_nonblock', '2 workers, non-blocking request of 0..2 trials then join, 1 (2) preemptions', opts_q=P1, opts_t=P2),
    E('h_pool', 'h_budget_limit_1', '1 worker, a request with a time limit, then one of 0..2 trials', ('end', 'cut-off'), opts_q=P1, opts_t=P2), E('h_pool', 'h_budget_limit_2', '2 workers, a request with a time limit, then one of 0..2 trials', ('end', 'cut-off'), opts_q=P0, opts_t=P1),
    E('h_pool', 'h_budget_many_1', '1 worker, 0..40 trials', opts=P0), E('h_pool', 'h_budget_many_2', '2 workers, 0..8 trials, no preemption', opts=P0), E('h_pool', 'h_budget_many_3', '3 workers, 0..6 (8) trials, no preemption', opts=P0), E('h_pool', 'h_budget_many_4', '4 workers, 0..6 trials, no preemption', opts=P0, thorough_only=True),
    E('h_pool', 'h_budget_3', '3 workers, 0..3 trials, 1 preemption', opts=P1, thorough_only=True)]
    + [E('h_pool', e, b + ', 1 (2) preemptions, also right after a lock is released; every access to the pool checked by happens-before', opts=['--race', '--unlock'], opts_q=P1, opts_t=P2) for e, b in (('h_budget_1', '1 worker, two requests of 0..3 trials'), ('h_budget_2', '2 workers, 0..3 trials'), ('h_budget_2_step', '2 workers, 0..2 trials of one step'), ('h_budget_nonblock', '2 workers, non-blocking request then join'))]),
 'C04': dict(conc=3, entries=[
    E('h_pool', 'h_time_1', '1 worker, up to 2 trials, any clock', ('none', 'end', 'all', 'cut-off'), opts_q=P2, opts_t=P3),
    E('h_pool', 'h_time_2', '2 workers, up to 2 trials, any clock', ('none', 'end', 'all'), opts_q=P2, opts_t=P3),
    E('h_pool', 'h_time_runs', '1 worker, two requests with limits', ('none', 'end', 'all'), opts_q=P2, opts_t=P3),
    E('h_pool', 'h_deadline_1', '1 worker, 3 trials, the limit passes at any reading of the clock', ('in-time', 'end', 'cut-off'), opts_q=P2, opts_t=P3),
    E('h_pool', 'h_deadline_2', '2 workers, 2 trials, the limit passes at any reading of the clock', ('in-time', 'end', 'cut-off'), opts_q=P2, opts_t=P3),
    E('h_pool', 'h_destroy_busy', '2 workers, destroyed with 0..2 trials outstanding', ('end', 'stopped'), opts_q=P2, opts_t=P3)]
    + [E('h_pool', e, b + ', 1 (2) preemptions, also right after a lock is released; every access to the pool checked by happens-before', r, opts=['--race', '--unlock'], opts_q=P1, opts_t=P2) for e, b, r in (('h_time_2', '2 workers, up to 2 trials, any clock', ('none', 'end', 'all')), ('h_deadline_1', '1 worker, 3 trials', ('in-time', 'end', 'cut-off')), ('h_destroy_busy', '2 workers, destroyed with 0..2 trials outstanding', ('end',)))]),
 'C05': dict(entries=[E('h_conc', f'h_race_{a}', '2 workers, 2 trials on one tree with 2 actions x 2 outcomes, 1 (2) preemptions; every access to shared memory checked by happens-before', opts=['--race'], opts_q=P1, opts_t=P2) for a in ALGS + ['log', 'tt', 'tt2']]
    + [E('h_conc', f'h_racew_{a}', '2 workers, 2 trials with any action and outcome on a tree already searched by 5 trials, 1 preemption', opts=['--race'], opts_q=P1, opts_t=P1) for a in ALGS + ['tt']]
    + [E('h_pool', e, b + ' on the pool, 1 (2) preemptions', r, opts=['--race'], opts_q=P1, opts_t=P2) for e, b, r in (('h_budget_1', '1 worker, two requests of 0..3 trials', ('end',)), ('h_budget_nonblock', '2 workers, non-blocking request then join', ('end',)), ('h_time_2', '2 workers, time limit', ('end',)), ('h_destroy_busy', '2 workers, destroyed while busy', ('end',)))]),
 'C06': dict(entries=[E('h_conc', f'h_{k}_{a}', '2 threads on chance nodes sharing two decision nodes, either discovery order, 2 (3) preemptions', opts=['--race'], opts_q=P2, opts_t=P3) for k in ('lock', 'locksel') for a in A7]),
 'C07': dict(entries=[E('h_tree', f'h_struct_{a}', 'any 2 (3) actions created, any 2 outcomes each, any depth/timestep shift, one or two players', ('fresh', 'again', 'end')) for a in ALGS + ['tt']] + [E('h_tree', 'h_leaf', 'depth and limit 0..1000', ('end', 'limit'))]),
 'C08': dict(entries=[E('h_tree', f'h_tt_{a}', '3 (4) creations at any of 5 timesteps x 2 states', ('shared', 'end')) for a in ('uct', 'ments', 'dents', 'stripes')] + [E('h_tree', 'h_tt_off', '3 (4) creations')]
    + [E('h_tree', f'h_tt_{a}', '3 trees built and dropped, nodes kept alive or not', ('kept', 'end')) for a in ('expired', 'expired_stripes')]
    + [E('h_tree', f'h_tt_{a}', '2 workers creating, 2 (3) preemptions', opts=['--race'], opts_q=P2, opts_t=P3) for a in ('threads', 'threads_stripes', 'threads_stripes2')]),
 'C09': dict(entries=[E('h_uct', f'h_mean_{a}', 'all return sequences of 4 (6) backups') for a in ('uct_d', 'uct_c', 'puct_d', 'puct_c')] + [E('h_uct', f'h_meanstep_{a}', 'one more backup after any number of backups up to 1e6') for a in ('uct_d', 'uct_c', 'puct_d', 'puct_c')]),
 'C10': dict(entries=[E('h_uct', 'h_uct_untried', '2 actions, any tried, any draw', ('end', 'none-tried')), E('h_uct', 'h_uct_untried_all', '3 actions'), E('h_uct', 'h_uct_ucb', '2 actions, all values and biases', ('end', 'opponent')), E('h_uct', 'h_uct_ucb3', '3 actions, all values and biases', ('end', 'opponent')),
    E('h_uct', 'h_uct_ucb_real', '2 actions'), E('h_uct', 'h_uct_tie', 'tied actions, any draw'), E('h_uct', 'h_uct_eps', 'all exploration draws', ('greedy', 'explore', 'end')), E('h_uct', 'h_uct_eps_untried', 'all exploration draws')]),
 'C11': dict(entries=[E('h_uct', e, '2 actions, all values, priors and biases', ('end', 'untried', 'opponent')) for e in ('h_prior_uct', 'h_prior_uct_auto', 'h_puct_prior', 'h_puct_auto', 'h_puct_power')] + [E('h_uct', e, '2 actions, all values and biases', ('end', 'opponent')) for e in ('h_auto_uct', 'h_puct', 'h_puct_power2')] + [E('h_uct', 'h_auto_neg', '2 actions')]),
 'C12': dict(entries=[E('h_uct', e, 'up to 3 actions, all visit counts and values', ('no-children', 'end')) for e in ('h_rec_most', 'h_rec_best', 'h_rec_puct')] + [E('h_uct', 'h_rec_all', 'every tied action')]),
 'C13': dict(entries=[E('h_ments', e, b, r) for e, b, r in [('h_soft_ments', '2 actions, all values and temperatures', ('end', 'opponent')), ('h_soft_ments3', '3 actions', ('end', 'opponent')), ('h_soft_dbments', '2 actions', ('end', 'opponent')), ('h_soft_prior', '2 actions, all priors', ('end', 'opponent')), ('h_soft_shift', '2 actions, all priors', ('end', 'opponent')), ('h_soft_range', '2 actions, extreme ratios', ('end',)), ('h_soft_prior_zero', '2 actions, extreme priors', ('end',)), ('h_soft_leaf', 'all heuristic values', ('end',))]]),
 'C14': dict(entries=[E('h_ments', f'h_ch_{a}', '2-3 outcomes, 0, 1, 1000 (and 2, 40) backups each, all values and rewards', ('no-backups', 'end')) for a in ('ments', 'ments3', 'rents', 'tents', 'dbments', 'dbments_dp', 'dents_dp', 'dents_ent', 'est_dp')] + [E('h_ments', e, '4 backups, all returns') for e in ('h_emp_dents', 'h_emp_est')] + [E('h_ments', e, 'one more return after 1..1e6 returns') for e in ('h_empstep_dents', 'h_empstep_est')] + [E('h_ments', f'h_leaf_{a}', '1..3 visits') for a in ('ments', 'dbments', 'dents', 'est')]),
 'C15': dict(entries=[E('h_ments', f'h_dist_{a}', '2 actions, all values, temperatures, epsilons, priors; 5 visit counts up to 1e6') for a in ('ments', 'inner', 'prior', 'dbments', 'unvisited')] + [E('h_ments', f'h_sel_{a}', '2 actions, all pairs of draws') for a in ('ments', 'rents', 'tents', 'dents', 'est')]),
 'C16': dict(entries=[E('h_ments2', 'h_rents', '2 decision nodes of a trial, 2 actions, all values of the second node', ('end', 'opponent')), E('h_ments2', 'h_rents_par', '2 decision nodes, all values of the first', ('end', 'opponent')), E('h_ments2', 'h_rents_prev', '3 decision nodes, another trial in between'), E('h_ments2', 'h_rents_long', 'trials of up to 12 (24) decision nodes, all values of the last'), E('h_ments2', 'h_rents_missing', 'actions missing or vanishing', ('end', 'vanish'))]),
 'C17': dict(entries=[E('h_ments2', 'h_tents', '2 actions, 2 trials, all values, 3 temperatures', ('end', 'sparse', 'opponent')), E('h_ments2', 'h_tents_temp', '2 actions, 1 trial, all temperatures', ('end', 'sparse', 'opponent')), E('h_ments2', 'h_tents3', '3 actions, 2 (3) trials, all values', ('end', 'sparse')), E('h_ments2', 'h_tents_ties', '3 actions, 3 (4) trials, tied values'), E('h_ments2', 'h_tents_more', '2 actions, 3 trials', ('end', 'sparse', 'opponent'), thorough_only=True)]),
 'C18': dict(entries=[E('h_ments2', f'h_dp_{a}', '2-3 children, any backup counts and values', ('unbacked', 'end', 'opponent')) for a in ('dbments', 'dents', 'est')] + [E('h_ments2', f'h_dpinit_{a}', 'all heuristic values') for a in ('dbments', 'dents', 'est')]),
 'C19': dict(entries=[E('h_ments2', f'h_{a}', '2 actions, all values, entropies and temperatures', ('end', 'opponent')) for a in ('dents_fix', 'dents_decay', 'est_fix')] + [E('h_ments2', 'h_dents_chance', '2 outcomes, all values'), E('h_ments2', 'h_dents_fresh', '1-3 actions, all settings'), E('h_ments2', 'h_est_fresh', '1-3 actions, all settings')]),
 'C20': dict(entries=[E('h_ments2', f'h_rv_{a}', '2 actions, any children, counts 0, 1, 2, 1000, thresholds 0, 1, 2, 50, all values', ('no-children', 'end', 'threshold', 'opponent', 'below')) for a in ('ments', 'rents', 'tents', 'dbments', 'dents_dp', 'dents_avg', 'est_dp', 'est_avg')] + [E('h_ments2', 'h_rv_ments3', '3 actions', ('no-children', 'end', 'threshold', 'opponent', 'below'), thorough_only=True)] + [E('h_ments2', f'h_rm_{a}', '3 actions, all visit counts', ('no-children', 'end')) for a in ('ments', 'rents', 'tents', 'dbments', 'dents', 'est')] + [E('h_ments2', f'h_rt_{a}', 'ties') for a in ('ments', 'dbments', 'dents', 'est')]),
 'C21': dict(entries=[E('h_dist', e, b, r) for e, b, r in [('h_sample_norm', '2-3 keys, all weights summing to one, all draws', ['end']), ('h_sample_one', 'one key', ['end']), ('h_sample_unnorm', '2-3 keys, all weights', ['end']), ('h_sample_fp', '2 keys, IEEE weights and draws', ['end']), ('h_sample_bad', 'weights not summing to one', ['deficient', 'excess'])]]),
 'C22': dict(entries=[E('h_dist', e, '2-5 keys, all weights and draws, up to 10 updates', r) for e, r in [(f'h_cat_{k}', ['end']) for k in ('plain', 'plain_update', 'plain_replace', 'alias', 'alias_update', 'alias_replace')] + [('h_cat_alias_freq', ['end', 'zero-weight']), ('h_cat_alias_lag', ['end', 'zero-weight']), ('h_cat_alias_long', ['end']), ('h_cat_alias_renew', ['end']), ('h_cat_alias_many', ['end', 'zero-weight']), ('h_cat_plain_many', ['end']), ('h_uniform', ['end']), ('h_mixed', ['end'])]]),
 'C23': dict(entries=[E('h_dist', e, '3 keys, all values, all draws', r) for e, r in [('h_max_real', ['unique', 'all-tied', 'end']), ('h_max_fp', ['end']), ('h_max_many', ['end']), ('h_max_int', ['end']), ('h_max_neginf', ['end'])]]),
 'C24': dict(entries=[E('h_eq', f'h_eq_{a}', 'all contents', ('equal', 'different')) for a in ('int', 'pair', 'triple', 'act', 'key')] + [E('h_eq', 'h_eq_str', '9 x 9 strings', ('equal', 'different')), E('h_eq', 'h_eq_char', 'all strings of 2 of 3 letters', ('equal', 'different')), E('h_eq', 'h_eq_kind', 'every pair of kinds, all contents', ('different', 'end'))]
    + [E('h_eq', f'h_map_{a}', '3 (4) insertions or removals of any of 4 keys') for a in ('state', 'pair', 'obs', 'act')] + [E('h_eq', 'h_print', '4 values per component')]),
 'C25': dict(entries=[E('h_mc', 'h_mc_one', '1 episode, 2 layers, any length limit, all rewards', ('cut', 'terminal', 'end'), opts=P0), E('h_mc', 'h_mc_deep', '1 episode, 3 layers', ('cut', 'terminal', 'end'), opts=P0), E('h_mc', 'h_mc_two', '2 episodes, 2 layers', ('cut', 'terminal', 'end'), opts=P0),
    E('h_mc', 'h_mc_counts', '0..13 rollouts on 1..3 threads, then 2 more', opts=P0), E('h_mc', 'h_mc_counts_wide', '0..13 rollouts on 4..5 (8) threads', opts=P0), E('h_mc', 'h_mc_threads', '0..3 (4) rollouts on 2 threads, 2 (3) preemptions, races checked', opts=['--race'], opts_q=P2, opts_t=P3)]),
 'C26': dict(entries=[E('h_mc', 'h_mc_stats', '1, 2, 3, 4, 8, 12 (30) returns, all values', ('several', 'end'))]),
 'C27': dict(entries=[E('h_mc', 'h_policy', 'trees of depth 2 with any children missing, all histories of 3 steps, all draws', ('left', 'end'))]),
 'C28': dict(entries=[E('h_log', 'h_log_trials', '2 searches of 0..4 (5) trials, interval 1..3 trials', ('due', 'not-due', 'again', 'end')), E('h_log', 'h_log_time', '2 searches of 0..2 trials, all durations, intervals and pauses (quarters of a second)', ('due', 'not-due', 'again', 'end')), E('h_log', 'h_log_both', '1 search of 0..3 trials, both intervals', ('due', 'not-due', 'end')), E('h_log', 'h_log_long', '2 searches of 24..36 trials, intervals 1, 2, 5, 7, 10, 100'), E('h_log', 'h_log_never', '2 searches, no interval set', ('not-due', 'again', 'end')),
    E('h_log', 'h_log_pool', 'a pool of 1 worker, 2 searches of 0..2 (3) trials, interval 1..2, 1 (2) preemptions', opts_q=P1, opts_t=P2), E('h_log', 'h_log_pool3', '3 searches of 0..2 trials', opts=P0), E('h_log', 'h_log_limit', '2 searches, the first with a time limit, 1 (2) preemptions', ('end', 'cut-off'), opts_q=P1, opts_t=P2), E('h_log', 'h_log_threads', '2 workers, searches of 1..2 and 1 trials, 0 (1) preemptions', opts_q=P0, opts_t=P1)]),
 'C29': dict(entries=[E('h_ments2', f'h_decay_{a}', 'all arguments up to 100000, temperatures, scales') for a in ('sqrt', 'log', 'sigmoid', 'start')] + [E('h_ments2', f'h_temp_{a}', 'visits 0, 4, 8, 100000; all settings; root or not') for a in ('ments', 'tents', 'est', 'value')]),
 'C30': dict(entries=[E('h_tree', 'h_context', '4 (5) operations over 2 names')]),
 'C31': dict(entries=[E('h_rand', e, b, r) for e, b, r in [('h_rand_int', 'all ranges and raw outputs', []), ('h_rand_int_onto', 'range of 3', ['v5', 'v6', 'v7']), ('h_rand_uniform', 'all raw outputs', ['high', 'low']), ('h_rand_seed', 'all seeds', []), ('h_rand_same', 'all seeds', []), ('h_rand_mgr', 'all seeds', [])]]),
 'C32': dict(entries=[E('h_ments2', f'h_sym_{a}', '2 actions, all values, entropies, temperatures and draws') for a in ('dents', 'ments', 'dbments', 'rents', 'tents', 'est')] + [E('h_uct', f'h_sym_{a}', '2 actions, all values and biases') for a in ('uct', 'uct_prior', 'puct')]),
 'C33': dict(entries=[E('h_pool', e, b, r, opts=['--race'], opts_q=P1, opts_t=P2) for e, b, r in [('h_newenv_idle', '1 worker', ['end', 'changed']), ('h_newenv_fresh', '1 worker', ['end', 'changed']), ('h_newenv_busy_1', '1 worker, 1 trial outstanding', ['refused', 'changed', 'end']), ('h_newenv_busy_2', '2 workers, 1 trial outstanding', ['end'])]]),
 'C34': dict(entries=[E('h_tree', f'h_heur_{a}', 'all heuristic values, terminal or not') for a in A7 + ['default']]),
 'C35': dict(entries=[E('h_tree', 'h_obs_full', '3 states'), E('h_tree', 'h_obs_partial', 'all probabilities and draws')]),
 'C36': dict(entries=[E('h_log', f'h_ent_{a}', 'with or without origin, 1..2 entries, all statistics') for a in ('base', 'uct', 'ments', 'dbments')] + [E('h_log', 'h_log_threads', '2 workers, searches of 1..2 and 1 trials', opts=P0)]),
 'C37': dict(entries=[E('h_search', f'h_search_{a}', '1 search of 3 (4) trials, 2 layers, all draws, both modes, one or two players', opts=P0) for a in ALGS] + [E('h_search', f'h_search2_{a}', '2 searches of 1 (2) trials', opts=P0) for a in ALGS] + [E('h_search', f'h_searchlong_{a}', 'any 2 (3) trials after a search of 25 (60) trials with scripted draws', opts=P0) for a in ALGS]),
 'C38': dict(entries=[E('h_out', f'h_out{n}_{a}', f'{n} outcomes, all probabilities and draws, {3 - n + 1 if n == 2 else "1 (2)"} samples', ('first', 'other', 'end')) for n in (2, 3) for a in ALGS]),
 'C39': dict(entries=[E('h_out', f'h_show_{a}', 'trees of depth 2 in 5 shapes, all values and visits, depths 0..3', ('cut', 'end')) for a in ('uct', 'ments', 'dbments', 'tents', 'est', 'dents')]),
 'C40': dict(entries=[E('h_misc', f'h_args_{a}', 'all values of all settings') for a in ('base', 'uct', 'puct', 'ments', 'dents')] + [E('h_misc', 'h_args_default', 'the settings nobody chose')]),
 'C41': dict(entries=[E('h_misc', f'h_{k}_{a}', '3 (5) trials, 2 actions x 2 outcomes, any draws, with or without a kept subtree', ('kept', 'end'), opts=P0) for k in ('free', 'freett') for a in ALGS] + [E('h_misc', 'h_free_newenv', '0..1 trials before and after', opts=P0), E('h_misc', 'h_free_eval', '0..2 trials, 1 rollout', opts=P0)]),
 'C42': dict(entries=[E('h_pool', 'h_ctx_1', '1 worker, 0..3 (4) trials from any state, both modes', ('end', 'not-initial'), opts=P0), E('h_pool', 'h_ctx_2', '2 workers, 2 trials from either of 2 states, 1 (2) preemptions', ('end', 'not-initial'), opts_q=P1, opts_t=P2), E('h_mc', 'h_ctx_mc', '0..2 (3) rollouts from any of 3 states, any length limit', opts=P0)]),
 'C43': dict(entries=[E('h_misc', f'h_miss_{a}', 'any of 3 actions and 4 outcomes asked for', ('there', 'missing', 'end')) for a in ALGS] + [E('h_misc', 'h_miss_pool', 'manager and root given or not, 1..2 workers', ('refused', 'made', 'end'), opts=P0), E('h_misc', 'h_miss_types', '11 operations without an implementation')]),
}
