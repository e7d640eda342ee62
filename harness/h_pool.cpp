// the trial loop and the thread pool, with nodes that record every call made on them
#include "prelude.h"

struct Ev { int kind; ThtsDNode* d; ThtsCNode* c; int arg; bool isnew; vector<double> before, after; double ret_after, ret; bool held; };
enum { DV, DSEL, CV_, CS, DB, CB, REWARD };
struct TCtx : ThtsEnvContext { vector<Ev> ev; int id; int tid; int start; bool done = false; };
struct PEnv : VEnv {
    mutable vector<shared_ptr<TCtx>> trials; mutable mutex m; mutable vector<int> started; function<void(TCtx&)> onStart;
    PEnv(int n) : VEnv(n) {}
    shared_ptr<ThtsEnvContext> sample_context_itfc(St st) const override {
        vs_race_off(); auto c = make_shared<TCtx>(); c->id = trials.size(); c->tid = vs_tid(); c->start = sid(st); trials.push_back(c); if (onStart) onStart(*c); vs_race_on(); return c; }
};
struct RC; struct RD;
static bool lightweight = false;
struct RC : ThtsCNode {
    RC(shared_ptr<ThtsManager> m, St s, Ac a, int d, int t, shared_ptr<const ThtsDNode> p) : ThtsCNode(m, s, a, d, t, p) {}
    void rec(ThtsEnvContext& c, int k, int arg = 0, bool isnew = false) { vs_race_off(); Ev e{k, nullptr, this, arg, isnew}; e.held = vs_holds(node_lock.native_handle()); ((TCtx&)c).ev.push_back(e); vs_race_on(); }
    void visit_itfc(ThtsEnvContext& c) override { rec(c, CV_); num_visits++; }
    shared_ptr<const Observation> sample_observation_itfc(ThtsEnvContext& c) override {
        St n = thts_manager->thts_env->sample_transition_distribution_itfc(state, action, *thts_manager); Ob o = static_pointer_cast<const Observation>(n);
        bool isnew = !has_child_node_itfc(o); rec(c, CS, sid(n), isnew); create_child_node_itfc(o, n); return o; }
    void backup_itfc(const vector<double>& b, const vector<double>& a, const double ra, const double r, ThtsEnvContext& c) override { vs_race_off(); Ev e{CB, nullptr, this, 0, false, b, a, ra, r}; e.held = vs_holds(node_lock.native_handle()); ((TCtx&)c).ev.push_back(e); vs_race_on(); nb++; }
    shared_ptr<ThtsDNode> create_child_node_helper_itfc(Ob o, St n) const override;
    string get_pretty_print_val() const override { return "0"; }
    int nb = 0;
};
struct RD : ThtsDNode {
    RD(shared_ptr<ThtsManager> m, St s, int d, int t, shared_ptr<const ThtsCNode> p = nullptr) : ThtsDNode(m, s, d, t, p) {}
    void rec(ThtsEnvContext& c, int k, int arg = 0, bool isnew = false) { vs_race_off(); Ev e{k, this, nullptr, arg, isnew}; e.held = vs_holds(node_lock.native_handle()); ((TCtx&)c).ev.push_back(e); vs_race_on(); }
    void visit_itfc(ThtsEnvContext& c) override { rec(c, DV); num_visits++; }
    Ac select_action_itfc(ThtsEnvContext& c) override { auto v = thts_manager->thts_env->get_valid_actions_itfc(state); int k = v->size() == 1 ? 0 : vs_choose("sel", v->size()); Ac a = (*v)[k]; rec(c, DSEL, k); create_child_node_itfc(a); return a; }
    Ac recommend_action_itfc(ThtsEnvContext& c) const override { return A_(0); }
    void backup_itfc(const vector<double>& b, const vector<double>& a, const double ra, const double r, ThtsEnvContext& c) override { vs_race_off(); Ev e{DB, this, nullptr, 0, false, b, a, ra, r}; e.held = vs_holds(node_lock.native_handle()); ((TCtx&)c).ev.push_back(e); vs_race_on(); nb++; }
    shared_ptr<ThtsCNode> create_child_node_helper_itfc(Ac a) const override { return make_shared<RC>(thts_manager, state, a, decision_depth, decision_timestep, static_pointer_cast<const ThtsDNode>(shared_from_this())); }
    string get_pretty_print_val() const override { return "0"; }
    int nb = 0;
};
shared_ptr<ThtsDNode> RC::create_child_node_helper_itfc(Ob o, St n) const { St s = n ? n : static_pointer_cast<const State>(o); return make_shared<RD>(thts_manager, s, decision_depth + 1, decision_timestep + 1, static_pointer_cast<const ThtsCNode>(shared_from_this())); }

static vector<double> gH; static double heur(St s, shared_ptr<ThtsEnv> e) { return gH[sid(s)]; }

// one trial against the contract of the trial loop. what: 1 = shape of the trial, 2 = what is backed up
static void checkTrial(TCtx& c, PEnv& env, ThtsDNode* root, int maxDepth, bool mcts, int what) {
    size_t i = 0; auto& ev = c.ev; ThtsDNode* cur = root; vector<ThtsDNode*> ds; vector<ThtsCNode*> cs; vector<double> rew; bool created = false; int depth = 0;
    auto at = [&](int k) { return i < ev.size() && ev[i].kind == k; };
#define SH(c, m) do { if (what == 1) { ASSERT(c, m); } else if (!(c)) return; } while (0)
    while (true) {
        int s = sid(cur->state); bool leaf = env.s[s].sink || depth >= maxDepth; bool stop = leaf || (mcts && created);
        SH(at(DV) && ev[i].d == cur, "a decision node on the trial's path was not visited, or not exactly once, in order"); SH(ev[i].held, "a decision node was visited without holding its lock"); i++;
        if (stop) { SH(!at(DSEL), leaf ? "the trial went past a leaf" : "the trial went past the first new node although it should stop there"); break; }
        SH(at(DSEL) && ev[i].d == cur, "the trial stopped before reaching a leaf or a new node"); SH(ev[i].held, "an action was selected without holding the node's lock"); int a = ev[i].arg; i++;
        ThtsCNode* cn = cur->children.at(A_(a)).get();
        SH(at(CV_) && ev[i].c == cn, "the chance node visited is not the child of the selected action, or it was not visited exactly once"); SH(ev[i].held, "a chance node was visited without holding its lock"); i++;
        SH(at(CS) && ev[i].c == cn, "no outcome was sampled at the chance node of the selected action"); SH(ev[i].held, "an outcome was sampled without holding the chance node's lock"); int n = ev[i].arg; if (ev[i].isnew) created = true; i++;
        ds.push_back(cur); cs.push_back(cn); double r = env.s[s].acts[a].r; auto it = env.obsReward.find(n); if (it != env.obsReward.end()) r += it->second; rew.push_back(r);
        cur = cn->children.at(static_pointer_cast<const Observation>(S_(n))).get(); depth++;
    }
    for (size_t j = i; j < ev.size(); j++) SH(ev[j].kind == DB || ev[j].kind == CB, "nodes are visited or selected from after the trial's path has ended");
    if (what == 1) { vs_reach("trial"); if (ds.empty()) vs_reach("empty"); if (created && mcts) vs_reach("stopped-at-new"); return; }
    double total = gH[sid(cur->state)]; if (env.s[sid(cur->state)].sink) total = 0.0; double hv = total; for (double r : rew) total += r;
    ASSERT(ev.size() - i == 2 * ds.size(), "not every node the trial selected from is backed up exactly once");
    double after = hv; int n = ds.size(); vector<double> aft; aft.push_back(hv);
    for (int k = n - 1; k >= 0; k--) { after += rew[k]; aft.push_back(rew[k]);
        for (int w = 0; w < 2; w++) { Ev& e = ev[i++];
            if (w == 0) ASSERT(e.kind == CB && e.c == cs[k], "backups do not run from the end of the path, chance node before its decision node"); else ASSERT(e.kind == DB && e.d == ds[k], "backups do not run from the end of the path, chance node before its decision node");
            ASSERT(e.held, "a node was backed up without holding its lock");
            ASSERT((int)e.before.size() == k && (int)e.after.size() == n - k + 1, "a backup got the wrong number of rewards before or after the node");
            for (int q = 0; q < k; q++) ASSERT(vs_near(e.before[q], rew[q]), "a backup got wrong rewards from before the node");
            for (int q = 0; q < (int)e.after.size() && q < (int)aft.size(); q++) ASSERT(vs_near(e.after[q], aft[q]), "a backup got wrong rewards from after the node");
            ASSERT(vs_near(e.ret_after, after), "a backup got the wrong return from the node onwards"); ASSERT(vs_near(e.ret, total), "a backup got the wrong return of the whole trial");
        } }
    vs_reach("backup");
}
// environment: a chain of stochastic choices, 2 actions, 2 outcomes, sinks anywhere
static shared_ptr<PEnv> trialEnv(int depth, bool symr) {
    int n = 2 * depth + 1; auto e = make_shared<PEnv>(n);
    gH.clear(); for (int i = 0; i < n; i++) gH.push_back(symr ? vs_real("h", -50, 50) : i * 0.25);
    // states 0, (1,2), (3,4), ...; layer l = 2l-1, 2l
    for (int l = 0; l < depth; l++) for (int q = 0; q < (l == 0 ? 1 : 2); q++) { int s = l == 0 ? 0 : 2 * l - 1 + q; int t = 2 * l + 1;
        if (l > 0 && q == 1) { e->act(s, symr ? vs_real("r", -50, 50) : 1.0, {{t, 1.0}}); continue; }
        e->act(s, symr ? vs_real("r", -50, 50) : 1.0, {{t, 0.5}, {t + 1, 0.5}}); if (l == 0) e->act(s, symr ? vs_real("r", -50, 50) : 2.0, {{t, 1.0}}); }
    e->sink(n - 1); e->sink(n - 2); if (depth > 1 && vs_bool("mid_sink")) e->sink(2);
    if (symr) for (int i = 1; i < n; i++) e->obsReward[i] = vs_real("ro", -50, 50);
    return e;
}
static void trial(int depth, int ntrials, int what) {
    auto env = trialEnv(depth, what == 2); ThtsManagerArgs args(env); args.heuristic_fn = heur; bool mcts = vs_bool("mcts_mode"); int md = what == 2 ? depth - vs_choose("maxd", 2) : vs_choose("maxd", depth + 1); args.mcts_mode = mcts; args.max_depth = md; args.seed = 7;
    auto mgr = make_shared<ThtsManager>(args); auto root = make_shared<RD>(mgr, S_(0), 0, 0);
    { auto pool_ = make_unique<ThtsPool>(mgr, root, 1); auto& pool = *pool_; for (int k = 0; k < ntrials; k++) pool.run_trials(1); }
    if (what == 1) ASSERT((int)env->trials.size() == ntrials, "a different number of trials was run than asked for");
    for (auto& c : env->trials) checkTrial(*c, *env, root.get(), md, mcts, what);
    vs_reach("end");
}
ENTRY(h_trial_shape) { trial(VS_TIER ? 3 : 2, VS_TIER ? 4 : 3, 1); }
ENTRY(h_trial_backup) { trial(VS_TIER ? 3 : 2, VS_TIER ? 3 : 2, 2); }
ENTRY(h_trial_backup_deep) { trial(3, 1, 2); }

// long trials: a chain of steps, any depth limit, every step may end the problem
static void trialChain(int len, int ntrials, int what) {
    auto env = make_shared<PEnv>(len + 1); gH.clear(); for (int i = 0; i <= len; i++) gH.push_back(what == 2 ? vs_real("h", -50, 50) : i * 0.25); for (int i = 0; i < len; i++) { env->act(i, what == 2 ? vs_real("r", -50, 50) : 1.0, {{i + 1, 1.0}}); if (what == 2) env->obsReward[i + 1] = vs_real("ro", -50, 50); } env->sink(len);
    ThtsManagerArgs args(env); args.heuristic_fn = heur; bool mcts = vs_bool("mcts_mode"); int md = vs_choose("maxd", len + 2); args.mcts_mode = mcts; args.max_depth = md; args.seed = 7; auto mgr = make_shared<ThtsManager>(args); auto root = make_shared<RD>(mgr, S_(0), 0, 0); { auto pool_ = make_unique<ThtsPool>(mgr, root, 1); auto& pool = *pool_; for (int k = 0; k < ntrials; k++) pool.run_trials(1); }
    if (what == 1) ASSERT((int)env->trials.size() == ntrials, "a different number of trials was run than asked for"); for (auto& c : env->trials) checkTrial(*c, *env, root.get(), md, mcts, what); vs_reach("end");
}
ENTRY(h_trial_chain_shape) { trialChain(VS_TIER ? 24 : 12, VS_TIER ? 25 : 13, 1); }
ENTRY(h_trial_chain_backup) { trialChain(VS_TIER ? 12 : 8, VS_TIER ? 12 : 9, 2); }
// wide nodes: 3 actions, 3 outcomes each
static void trialWide(int what, int ntrials) {
    auto env = make_shared<PEnv>(4); gH.clear(); for (int i = 0; i < 4; i++) gH.push_back(what == 2 ? vs_real("h", -50, 50) : i * 0.25); for (int a = 0; a < 3; a++) env->act(0, what == 2 ? vs_real("r", -50, 50) : 1.0, {{1, 0.5}, {2, 0.25}, {3, 0.25}}); for (int i = 1; i < 4; i++) env->act(i, 1.0, {{0, 1.0}}); if (what == 2) env->obsReward[2] = vs_real("ro", -50, 50); env->sink(3);
    ThtsManagerArgs args(env); args.heuristic_fn = heur; bool mcts = vs_bool("mcts_mode"); int md = 1 + vs_choose("maxd", 3); args.mcts_mode = mcts; args.max_depth = md; args.seed = 7; auto mgr = make_shared<ThtsManager>(args); auto root = make_shared<RD>(mgr, S_(0), 0, 0); { auto pool_ = make_unique<ThtsPool>(mgr, root, 1); auto& pool = *pool_; for (int k = 0; k < ntrials; k++) pool.run_trials(1); } for (auto& c : env->trials) checkTrial(*c, *env, root.get(), md, mcts, what); vs_reach("end");
}
ENTRY(h_trial_wide_shape) { trialWide(1, VS_TIER ? 3 : 2); }
ENTRY(h_trial_wide_backup) { trialWide(2, VS_TIER ? 2 : 1); }
// the trial contract also when several threads share the tree: every trial on its own is well formed
static void trialThreads(int what) {
    auto env = trialEnv(1, false); ThtsManagerArgs args(env); args.heuristic_fn = heur; args.mcts_mode = true; args.max_depth = 1; args.seed = 7;
    auto mgr = make_shared<ThtsManager>(args); auto root = make_shared<RD>(mgr, S_(0), 0, 0);
    { auto pool_ = make_unique<ThtsPool>(mgr, root, 2); auto& pool = *pool_; pool.run_trials(2); }
    for (auto& c : env->trials) checkTrial(*c, *env, root.get(), 1, true, what);
    vs_reach("end");
}
ENTRY(h_trial_threads_shape) { trialThreads(1); }
ENTRY(h_trial_threads_backup) { trialThreads(2); }

// ---- exact number of trials for every schedule
static shared_ptr<PEnv> tinyEnv(bool leafRoot) { auto e = make_shared<PEnv>(2); gH = {0.5, 0.25}; if (leafRoot) e->sink(0); else e->act(0, 1.0, {{1, 1.0}}); e->sink(1); return e; }
static void budget(int threads, int maxn, int runs, bool leafRoot, bool blocking) {
    auto env = tinyEnv(leafRoot); ThtsManagerArgs args(env); args.heuristic_fn = heur; args.seed = 7; auto mgr = make_shared<ThtsManager>(args); auto root = make_shared<RD>(mgr, S_(0), 0, 0);
    int total = 0;
    { auto pool_ = make_unique<ThtsPool>(mgr, root, threads); auto& pool = *pool_;
      for (int k = 0; k < runs; k++) { int n = vs_choose("trials", maxn + 1); total += n;
        if (blocking) pool.run_trials(n); else { pool.run_trials(n, numeric_limits<double>::max(), false); pool.join(); }
        vs_race_off();
        ASSERT((int)env->trials.size() == total, "a different number of trials was run than asked for");
        ASSERT(root->num_visits == total, "the root was not visited once per trial");
        if (!leafRoot) ASSERT(root->nb == total, "run_trials returned before every trial was complete");
        for (auto& c : env->trials) if (!leafRoot) ASSERT(c->ev.size() == 7, "run_trials returned before every trial was complete");
        ASSERT(!pool.work_left(), "work is reported as left although all trials have been run");
        vs_race_on(); } }
    vs_race_off(); ASSERT((int)env->trials.size() == total, "trials were run that nobody asked for"); vs_reach("end");
}
// a request that ran out of time leaves nothing behind for the next one
static void budgetAfterLimit(int threads) {
    auto env = tinyEnv(true); ThtsManagerArgs args(env); args.heuristic_fn = heur; args.seed = 7; auto mgr = make_shared<ThtsManager>(args); auto root = make_shared<RD>(mgr, S_(0), 0, 0);
    { auto pool_ = make_unique<ThtsPool>(mgr, root, threads); auto& pool = *pool_; int n1 = 1 + vs_choose("cut_off", 2), n2 = vs_choose("trials", 3); pool.run_trials(n1, vs_choose("limit", 2) * 2.0); vs_race_off(); int b = env->trials.size(); vs_race_on(); pool.run_trials(n2); vs_race_off(); if (b == 0) vs_reach("cut-off");
      ASSERT((int)env->trials.size() - b == n2, "after a request that ran out of time a different number of trials was run than asked for"); ASSERT(root->num_visits == (int)env->trials.size(), "run_trials returned before every trial was complete"); vs_race_on(); }
    vs_reach("end");
}
ENTRY(h_budget_limit_1) { budgetAfterLimit(1); }
ENTRY(h_budget_limit_2) { budgetAfterLimit(2); }
ENTRY(h_budget_many_1) { budget(1, 40, 1, true, true); }
ENTRY(h_budget_many_2) { budget(2, 8, 1, true, true); }
ENTRY(h_budget_many_3) { budget(3, VS_TIER ? 8 : 6, 1, true, true); }
ENTRY(h_budget_many_4) { budget(4, VS_TIER ? 6 : 4, 1, true, true); }
ENTRY(h_budget_1) { budget(1, 3, 2, false, true); }
ENTRY(h_budget_2) { budget(2, 3, 1, true, true); }
ENTRY(h_budget_2_runs) { budget(2, 2, 2, true, true); }
ENTRY(h_budget_2_step) { budget(2, 2, 1, false, true); }
ENTRY(h_budget_3) { budget(3, 3, 1, true, true); }
ENTRY(h_budget_nonblock) { budget(2, 2, 1, true, false); }

// ---- time limits
static int gMainTid;
static void timeLimit(int threads, int maxn, int runs) {
    auto env = tinyEnv(true); ThtsManagerArgs args(env); args.heuristic_fn = heur; args.seed = 7; auto mgr = make_shared<ThtsManager>(args); auto root = make_shared<RD>(mgr, S_(0), 0, 0);
    int total = 0;
    { auto pool_ = make_unique<ThtsPool>(mgr, root, threads); auto& pool = *pool_;
      for (int k = 0; k < runs; k++) { int n = VS_TIER ? vs_choose("trials", maxn + 1) : maxn; double lim = vs_choose("limit", 2) * 2.0;
        int before = env->trials.size(); pool.run_trials(n, lim);
        vs_race_off(); int got = (int)env->trials.size() - before;
        ASSERT(got <= n, "more trials were run than asked for"); if (got == n) vs_reach("all"); if (got < n && got > 0) vs_reach("cut-off"); if (got == 0) vs_reach("none");
        ASSERT(root->num_visits == (int)env->trials.size(), "run_trials returned while a trial was running"); 
        if (lim == 0.0) ASSERT(got == 0, "a trial was started although no time is left"); vs_race_on(); } }
    vs_reach("end");
}
// the clock jumps past the limit at an arbitrary reading made by a worker; a worker that has read a time past the limit starts no trial
static bool gArmed, gJumped, gMainSaw; static map<int, bool> gSaw;
static long jumpClock() {
    int t = vs_tid(); bool mainT = t == gMainTid; if (gArmed && !gJumped && !mainT && vs_bool("time_passes")) gJumped = true;
    if (gJumped) { if (mainT) gMainSaw = true; gSaw[t] = true; } return gJumped ? 10000000000l : 1000l;
}
static void deadline(int threads, int n) {
    gArmed = gJumped = gMainSaw = false; gSaw.clear(); gMainTid = vs_tid(); vsClock = jumpClock;
    auto env = tinyEnv(true); ThtsManagerArgs args(env); args.heuristic_fn = heur; args.seed = 7; auto mgr = make_shared<ThtsManager>(args); auto root = make_shared<RD>(mgr, S_(0), 0, 0);
    env->onStart = [](TCtx& c) { if (gSaw[c.tid] && !gMainSaw) vs_fail("a worker that knew the time limit had passed started another trial"); if (!gJumped) vs_reach("in-time"); };
    { auto pool_ = make_unique<ThtsPool>(mgr, root, threads); auto& pool = *pool_; gArmed = true; pool.run_trials(n, 2.0); vs_race_off(); if (!gJumped) ASSERT((int)env->trials.size() == n, "trials were left out although the time limit had not passed"); if (gJumped && (int)env->trials.size() < n) vs_reach("cut-off"); vs_race_on(); }
    vs_reach("end");
}
ENTRY(h_deadline_1) { deadline(1, 3); }
ENTRY(h_deadline_2) { deadline(2, 2); }
ENTRY(h_time_1) { timeLimit(1, 2, 1); }
ENTRY(h_time_2) { timeLimit(2, 2, 1); }
ENTRY(h_time_runs) { timeLimit(1, 1, 2); }

// ---- a pool that ends while trials are outstanding
ENTRY(h_destroy_busy) {
    auto env = tinyEnv(true); ThtsManagerArgs args(env); args.heuristic_fn = heur; args.seed = 7; auto mgr = make_shared<ThtsManager>(args); auto root = make_shared<RD>(mgr, S_(0), 0, 0); int n = vs_choose("trials", 3);
    { auto pool_ = make_unique<ThtsPool>(mgr, root, 2); auto& pool = *pool_; pool.run_trials(n, numeric_limits<double>::max(), false); }
    vs_race_off(); ASSERT((int)env->trials.size() <= n, "more trials were run than asked for"); ASSERT(root->num_visits == (int)env->trials.size(), "a trial was abandoned half way"); vs_reach("end"); if (n == 2 && env->trials.size() == 1) vs_reach("stopped");
}
// ---- changing the problem a pool works on
static void newEnv(int threads, int n, int wait) {
    auto env = tinyEnv(true), env2 = tinyEnv(true); ThtsManagerArgs args(env); args.heuristic_fn = heur; args.seed = 7; auto mgr = make_shared<ThtsManager>(args); auto root = make_shared<RD>(mgr, S_(0), 0, 0);
    ThtsManagerArgs args2(env2); args2.heuristic_fn = heur; args2.seed = 7; auto mgr2 = make_shared<ThtsManager>(args2); auto root2 = make_shared<RD>(mgr2, S_(0), 0, 0);
    bool threw = false;
    { auto pool_ = make_unique<ThtsPool>(mgr, root, threads); auto& pool = *pool_; pool.run_trials(n, numeric_limits<double>::max(), false); if (wait) pool.join();
      try { pool.set_new_env(mgr2, root2); } catch (runtime_error& e) { threw = true; }
      vs_race_off(); int seen = env->trials.size(), v = root->num_visits; if (wait) ASSERT(!threw, "an idle pool refused a new environment"); if (n == 0) ASSERT(!threw, "an idle pool refused a new environment");
      if (!threw) { ASSERT(seen == n, "the environment was changed although trials were outstanding"); ASSERT(v == n, "the environment was changed while a trial was running"); } vs_race_on();
      if (!threw) { pool.run_trials(1); vs_race_off(); ASSERT((int)env2->trials.size() == 1 && root2->num_visits == 1, "a trial after the change did not run on the new environment and root"); ASSERT((int)env->trials.size() == n && root->num_visits == n, "a trial after the change touched the old environment or root"); vs_race_on(); vs_reach("changed"); }
      else { pool.join(); vs_race_off(); ASSERT((int)env->trials.size() == n && root->num_visits == n, "a refused change of environment disturbed the running trials"); ASSERT(env2->trials.empty(), "a refused change of environment took effect"); vs_race_on(); vs_reach("refused"); } }
    vs_reach("end");
}
ENTRY(h_newenv_idle) { newEnv(1, vs_choose("trials", 2), 1); }
ENTRY(h_newenv_fresh) { newEnv(1, 0, 0); }
ENTRY(h_newenv_busy_1) { newEnv(1, 1, 0); }
ENTRY(h_newenv_busy_2) { newEnv(2, 1, 0); }

// ---- C42: a context per trial, drawn for the state the search starts from
static void contexts(int workers, int maxTrials) { bool full = workers == 1;
    auto env = full ? trialEnv(2, false) : make_shared<PEnv>(3); if (!full) { gH = {0.0, 0.25, 0.5}; env->act(0, 1.0, {{1, 1.0}}); env->act(1, 2.0, {{2, 1.0}}); env->sink(2); } env->init = vs_choose("initial", 2) ? 2 : 0; int at = vs_choose("root", full ? 3 : 2), n = full ? vs_choose("trials", maxTrials + 1) : maxTrials, depth0 = full ? vs_choose("depth", 2) : 0; ThtsManagerArgs args(env); args.heuristic_fn = heur; args.mcts_mode = full ? vs_choose("mcts_mode", 2) : true; args.seed = 7; auto mgr = make_shared<ThtsManager>(args); auto root = make_shared<RD>(mgr, S_(at), depth0, depth0);
    { auto pool_ = make_unique<ThtsPool>(mgr, root, workers); auto& pool = *pool_; pool.run_trials(n); } ASSERT((int)env->trials.size() == n, "the trials of a search do not have a context each"); if (at != env->init && n) vs_reach("not-initial");
    int visits = 0; for (auto& c : env->trials) { ASSERT(c->start == at, "a trial's context was drawn for another state than the one the search starts from"); int roots = 0, backs = 0; for (auto& e : c->ev) { if (e.kind == DV && e.d == root.get()) roots++; if (e.kind == DB && e.d == root.get()) backs++; } ASSERT(roots == 1, "a context was used by several trials, or not at the start of its own"); ASSERT(backs == (env->s[at].sink ? 0 : 1), "a backup was made with the context of another trial"); visits += roots; } ASSERT(visits == root->num_visits, "a trial ran without a context of its own"); vs_reach("end");
}
ENTRY(h_ctx_1) { contexts(1, VS_TIER ? 4 : 3); }
ENTRY(h_ctx_2) { contexts(2, 2); }
