// settings of managers, release of trees, misuse
#include "prelude.h"
#include "algs.h"
static double hA(St, shared_ptr<ThtsEnv>) { return 1.0; } static double hB(St, shared_ptr<ThtsEnv>) { return 2.0; }
static shared_ptr<ActionPrior> pA(St, shared_ptr<ThtsEnv>) { return nullptr; }
static shared_ptr<VEnv> tiny() { auto e = make_shared<VEnv>(1); e->act(0, 1.0, {{0, 1.0}}); return e; }
// ---- C40
#define SAME(f) ASSERT(m.f == want.f, "a manager does not have the value given for " #f)
// fills the settings with arbitrary values
static void fill(ThtsManagerArgs& a) { a.max_depth = vs_int("max_depth", 0, 1000000); a.heuristic_fn = vs_choose("heuristic", 2) ? hA : hB; a.prior_fn = vs_choose("prior", 2) ? pA : nullptr; a.mcts_mode = vs_choose("mcts_mode", 2); a.is_two_player_game = vs_choose("two_player", 2); a.use_transposition_table = vs_choose("table", 2); a.num_transposition_table_mutexes = 1 + vs_choose("mutexes", 3); a.seed = 7; }
static void fill(UctManagerArgs& a) { a.bias = vs_real("bias", -1, 100); a.heuristic_psuedo_trials = vs_int("pseudo", 0, 1000000); a.recommend_most_visited = vs_choose("most_visited", 2); a.epsilon_exploration = vs_real("epsilon", 0, 1); }
static void fill(PuctManagerArgs& a) { fill((UctManagerArgs&)a); a.puct_power = vs_real("power", 0, 1); }
static void fill(MentsManagerArgs& a) { a.temp = vs_real("temp", 0.001, 100); a.prior_policy_search_weight = vs_real("prior_weight", 0, 1); a.epsilon = vs_real("epsilon", 0, 10); a.root_node_epsilon = vs_real("root_epsilon", -1, 10); a.max_explore_prob = vs_real("max_explore", 0, 1); a.temp_decay_fn = vs_choose("decay", 2) ? decayed_temp_inv_log : nullptr; a.temp_decay_min_temp = vs_real("min_temp", 0, 1); a.temp_decay_visits_scale = vs_real("scale", 0, 10); a.temp_decay_root_node_visits_scale = vs_real("root_scale", -1, 10);
    a.default_q_value = vs_real("default_q", -100, 100); a.shift_pseudo_q_values = vs_choose("shift", 2); a.psuedo_q_value_offset = vs_real("offset", -100, 100); a.recommend_visit_threshold = vs_int("threshold", 0, 1000000); a.recommend_most_visited = vs_choose("most_visited", 2); }
static void fill(DentsManagerArgs& a) { fill((MentsManagerArgs&)a); a.value_temp_decay_fn = vs_choose("value_decay", 2) ? decayed_temp_sigmoid : nullptr; a.value_temp_init = vs_real("value_temp", 0, 100); a.value_temp_decay_min_temp = vs_real("value_min", 0, 1); a.value_temp_decay_visits_scale = vs_real("value_scale", 0, 10); a.value_temp_decay_root_node_visits_scale = vs_real("value_root_scale", -1, 10); a.use_dp_value = vs_choose("use_dp_value", 2); }
static void same(ThtsManager& m, const ThtsManagerArgs& want) { SAME(thts_env); SAME(max_depth); SAME(heuristic_fn); SAME(prior_fn); SAME(mcts_mode); SAME(is_two_player_game); SAME(use_transposition_table); ASSERT(!want.use_transposition_table || (int)m.dmap_mutexes.size() == want.num_transposition_table_mutexes, "a manager does not have the number of table locks asked for"); ASSERT(m.dmap.empty(), "a new table is not empty"); }
static void same(UctManager& m, const UctManagerArgs& want) { SAME(bias); SAME(heuristic_psuedo_trials); SAME(recommend_most_visited); SAME(epsilon_exploration); }
static void same(PuctManager& m, const PuctManagerArgs& want) { same((UctManager&)m, (const UctManagerArgs&)want); SAME(puct_power); }
static void same(MentsManager& m, const MentsManagerArgs& want) { SAME(temp); SAME(prior_policy_search_weight); SAME(epsilon); SAME(root_node_epsilon); SAME(max_explore_prob); SAME(temp_decay_fn); SAME(temp_decay_min_temp); SAME(temp_decay_visits_scale); SAME(temp_decay_root_node_visits_scale); SAME(default_q_value); SAME(shift_pseudo_q_values); SAME(psuedo_q_value_offset); SAME(recommend_visit_threshold); SAME(recommend_most_visited); }
static void same(DentsManager& m, const DentsManagerArgs& want) { same((MentsManager&)m, (const MentsManagerArgs&)want); SAME(value_temp_decay_fn); SAME(value_temp_init); SAME(value_temp_decay_min_temp); SAME(value_temp_decay_visits_scale); SAME(value_temp_decay_root_node_visits_scale); SAME(use_dp_value); }
template <class M, class A> static void settings(bool base) { auto env = tiny(); A a(env); a.seed = 7; if (base) fill((ThtsManagerArgs&)a); else if constexpr (!is_same<A, ThtsManagerArgs>::value) fill(a); A want = a; auto m = make_shared<M>(a); same((ThtsManager&)*m, (ThtsManagerArgs&)want); if constexpr (!is_same<A, ThtsManagerArgs>::value) same(*m, want); vs_reach("end"); }
ENTRY(h_args_base) { settings<ThtsManager, ThtsManagerArgs>(true); }
ENTRY(h_args_uct) { settings<UctManager, UctManagerArgs>(false); }
ENTRY(h_args_puct) { settings<PuctManager, PuctManagerArgs>(vs_choose("which", 2)); }
ENTRY(h_args_ments) { settings<MentsManager, MentsManagerArgs>(vs_choose("which", 2)); }
ENTRY(h_args_dents) { settings<DentsManager, DentsManagerArgs>(false); }
// settings nobody chose have the documented values
ENTRY(h_args_default) {
    auto env = tiny(); DentsManagerArgs d(env); PuctManagerArgs u(env); ASSERT(d.seed == 0 && u.seed == 0, "the seed is fixed although nobody gave one"); d.seed = u.seed = 7; DentsManager md(d); PuctManager mu(u); ThtsManager* bs[] = {&md, &mu};
    for (auto* b : bs) { ASSERT(b->max_depth == numeric_limits<int>::max(), "the depth is limited although nobody asked for it"); ASSERT(b->heuristic_fn != nullptr && b->heuristic_fn(S_(0), env) == 0.0, "the default heuristic is not zero"); ASSERT(b->prior_fn == nullptr, "there is a prior although nobody gave one"); ASSERT(b->mcts_mode, "a search does not grow one node per trial by default"); ASSERT(!b->is_two_player_game && !b->use_transposition_table, "a problem is not a one player problem without table by default"); }
    ASSERT(mu.bias == UctManager::USE_AUTO_BIAS && mu.heuristic_psuedo_trials == 0 && mu.recommend_most_visited && mu.epsilon_exploration == 0.0 && mu.puct_power == 0.5, "a default of UCT or PUCT is not the documented one");
    ASSERT(md.temp == 1.0 && md.prior_policy_search_weight == 0.0 && md.root_node_epsilon < 0.0 && md.max_explore_prob == 1.0 && md.temp_decay_fn == nullptr && md.temp_decay_root_node_visits_scale < 0.0 && md.default_q_value == 0.0 && !md.shift_pseudo_q_values && md.psuedo_q_value_offset == 0.0 && md.recommend_visit_threshold == 0 && !md.recommend_most_visited, "a default of MENTS is not the documented one");
    ASSERT(md.value_temp_decay_root_node_visits_scale < 0.0 && md.use_dp_value && md.value_temp_decay_fn != nullptr, "a default of DENTS is not the documented one"); vs_reach("end");
}
// ---- C41
struct FEnv : VEnv { using VEnv::VEnv; mutable vector<weak_ptr<ThtsEnvContext>> ctx; shared_ptr<ThtsEnvContext> sample_context_itfc(St st) const override { auto c = VEnv::sample_context_itfc(st); vs_race_off(); ctx.push_back(c); vs_race_on(); return c; } };
static shared_ptr<FEnv> world() { auto e = make_shared<FEnv>(4); e->act(0, 1.0, {{1, 0.5}, {2, 0.5}}); e->act(0, -1.0, {{1, 1.0}}); e->act(1, 0.5, {{3, 1.0}}); e->act(2, 2.0, {{3, 1.0}}); e->sink(3); return e; }
template <class Al> static void release(bool tt, int trials) {
    auto env = world(); typename Al::Args a(env); a.seed = 7; a.mcts_mode = false; a.use_transposition_table = tt; auto mgr = make_shared<Sym<typename Al::Mgr>>(a); auto root = make_shared<typename Al::D>(mgr, S_(0), 0, 0);
    { auto pool_ = make_unique<ThtsPool>(mgr, root, 1); auto& pool = *pool_; pool.run_trials(trials); }
    ASSERT((int)env->ctx.size() == trials, "the trials do not have a context each"); for (auto& c : env->ctx) ASSERT(c.expired(), "the context of a trial outlives the search");
    vector<weak_ptr<ThtsDNode>> ds; vector<weak_ptr<ThtsCNode>> cs; set<ThtsDNode*> keepD; set<ThtsCNode*> keepC; shared_ptr<ThtsDNode> keep; int kind = vs_choose("keep", 2), visits = 0;
    function<void(const shared_ptr<ThtsDNode>&, bool)> dn; auto cn = [&](const shared_ptr<ThtsCNode>& c, bool k) { cs.push_back(c); if (k) keepC.insert(c.get()); for (auto& p : c->children) dn(p.second, k); };
    dn = [&](const shared_ptr<ThtsDNode>& d, bool k) { ds.push_back(d); if (k) keepD.insert(d.get()); if (!keep && kind == 1 && d->decision_depth == 1) { keep = d; visits = d->num_visits; keepD.insert(d.get()); k = true; } for (auto& p : d->children) cn(p.second, k); };
    dn(root, false); weak_ptr<ThtsManager> wm = mgr; weak_ptr<ThtsEnv> we = env; root.reset();
    for (auto& w : ds) { auto d = w.lock(); ASSERT(!d || keepD.count(d.get()), "a decision node outlives its tree"); } for (auto& w : cs) { auto c = w.lock(); ASSERT(!c || keepC.count(c.get()), "a chance node outlives its tree"); }
    int live = 0; set<ThtsDNode*> seen; for (auto& w : ds) { auto d = w.lock(); if (d && seen.insert(d.get()).second) live++; } ASSERT(live == (int)keepD.size(), "a node below one that is still in use was released");
    if (keep) { vs_reach("kept"); ASSERT(keep->num_visits == visits && keep->parent.expired(), "a kept node changed when the rest of its tree was released"); ASSERT(!keep->is_root_node() && keep->get_num_children() > 0, "a kept node lost its children"); ThtsEnvContext ctx; int rec = aid(keep->recommend_action_itfc(ctx)); ASSERT(rec == 0, "a kept node recommends an invalid action"); keep.reset(); for (auto& w : ds) ASSERT(w.expired(), "a decision node outlives its tree"); for (auto& w : cs) ASSERT(w.expired(), "a chance node outlives its tree"); }
    mgr.reset(); ASSERT(wm.expired(), "a manager outlives its trees"); a.thts_env = nullptr; env.reset(); ASSERT(we.expired(), "an environment outlives the trees searched in it"); vs_reach("end");
}
#define FR(al, T) ENTRY(h_free_##al) { release<T>(false, VS_TIER ? 5 : 3); } ENTRY(h_freett_##al) { release<T>(true, VS_TIER ? 5 : 3); }
FR(uct, Uct) FR(puct, Puct) FR(ments, Ments) FR(dbments, DBMents) FR(rents, Rents) FR(tents, Tents) FR(dents, Dents) FR(est, Est)
ENTRY(h_free_newenv) { // a pool lets go of a tree that was replaced
    auto mk = [](shared_ptr<FEnv> e) { UctManagerArgs a(e); a.seed = 7; return make_shared<UctManager>(a); }; auto e1 = world(), e2 = world(); auto m1 = mk(e1), m2 = mk(e2); auto r1 = make_shared<UctDNode>(m1, S_(0), 0, 0), r2 = make_shared<UctDNode>(m2, S_(0), 0, 0); auto l1 = make_shared<ThtsLogger>(), l2 = make_shared<ThtsLogger>(); int n1 = vs_choose("before", 2), n2 = vs_choose("after", 2);
    { auto pool_ = make_unique<ThtsPool>(m1, r1, 1, l1); auto& pool = *pool_; pool.run_trials(n1); pool.set_new_env(m2, r2, l2); weak_ptr<ThtsDNode> w = r1; weak_ptr<ThtsManager> wm = m1; weak_ptr<ThtsLogger> wl = l1; weak_ptr<ThtsEnv> we = e1; r1.reset(); m1.reset(); l1.reset(); e1.reset(); ASSERT(w.expired() && wm.expired() && we.expired(), "a pool keeps a tree that was replaced"); ASSERT(wl.expired(), "a pool keeps a logger that was replaced"); pool.run_trials(n2); ASSERT(r2->num_visits == n2, "the new tree was not searched"); }
    weak_ptr<ThtsDNode> w = r2; r2.reset(); ASSERT(w.expired(), "a pool keeps its tree after it was destroyed"); vs_reach("end");
}
ENTRY(h_free_eval) { // policies and evaluators let go of the tree
    auto e = world(); UctManagerArgs a(e); a.seed = 7; auto m = make_shared<Sym<UctManager>>(a); auto r = make_shared<UctDNode>(m, S_(0), 0, 0); { auto pool_ = make_unique<ThtsPool>(m, r, 1); auto& pool = *pool_; pool.run_trials(vs_choose("trials", 3)); } weak_ptr<ThtsDNode> w = r; size_t before = e->ctx.size();
    { Sym<RandManager> rm(7); EvalPolicy p(r, e, rm); r.reset(); ASSERT(!w.expired(), "a policy does not keep the tree it follows"); MCEvaluator ev(e, p, 3, rm); ev.run_rollouts(1, 1); } ASSERT(w.expired(), "a tree outlives the policies that follow it"); for (size_t i = before; i < e->ctx.size(); i++) ASSERT(e->ctx[i].expired(), "the context of a rollout outlives it"); vs_reach("end");
}
// ---- C43
template <class F> static bool refused(F f) { try { f(); } catch (const exception&) { return true; } return false; }
template <class Al> static void missing() { // children that do not exist
    auto env = world(); typename Al::Args a(env); a.seed = 7; auto mgr = make_shared<Sym<typename Al::Mgr>>(a); auto root = make_shared<typename Al::D>(mgr, S_(0), 0, 0); int act = vs_choose("action", 2), ask = vs_choose("ask", 3); auto c = root->create_child_node(A_(act)); bool has = ask == act; ASSERT(root->has_child_node_itfc(A_(ask)) == has, "a child is reported wrongly"); ASSERT(refused([&] { root->get_child_node_itfc(A_(ask)); }) == !has, "a missing chance node is not refused, or an existing one is"); ASSERT(root->get_num_children() == 1, "asking for a missing child changed the tree");
    int o = 1 + vs_choose("outcome", 2), ask2 = vs_choose("ask2", 4); c->create_child_node(S_(o)); Ob ob = static_pointer_cast<const Observation>(S_(ask2)); ASSERT(c->has_child_node_itfc(ob) == (o == ask2), "a child is reported wrongly"); ASSERT(refused([&] { c->get_child_node_itfc(ob); }) == (o != ask2), "a missing decision node is not refused, or an existing one is"); ASSERT(c->get_num_children() == 1, "asking for a missing child changed the tree"); vs_reach(has ? "there" : "missing"); vs_reach("end");
}
ENTRY(h_miss_uct) { missing<Uct>(); } ENTRY(h_miss_puct) { missing<Puct>(); } ENTRY(h_miss_ments) { missing<Ments>(); } ENTRY(h_miss_dbments) { missing<DBMents>(); } ENTRY(h_miss_rents) { missing<Rents>(); } ENTRY(h_miss_tents) { missing<Tents>(); } ENTRY(h_miss_dents) { missing<Dents>(); } ENTRY(h_miss_est) { missing<Est>(); }
ENTRY(h_miss_pool) { // a pool needs a manager and a root
    auto env = world(); UctManagerArgs a(env); a.seed = 7; shared_ptr<UctManager> m = make_shared<UctManager>(a); shared_ptr<ThtsDNode> r = make_shared<UctDNode>(m, S_(0), 0, 0); bool hm = vs_choose("manager", 2), hr = vs_choose("root", 2); int threads = 1 + vs_choose("threads", 2), n = vs_choose("trials", 2); shared_ptr<ThtsManager> pm; if (hm) pm = m; shared_ptr<ThtsDNode> pr; if (hr) pr = r;
    bool no = refused([&] { auto pool_ = make_unique<ThtsPool>(pm, pr, threads); auto& pool = *pool_; pool.run_trials(n); }); ASSERT(no == !(hm && hr), "a pool without manager or root was not refused, or a proper one was"); ASSERT(r->num_visits == (no ? 0 : n), "a pool that was refused ran trials"); vs_reach(no ? "refused" : "made"); vs_reach("end");
}
struct BObs : Observation {}; struct BState : State {}; struct BAct : Action {};
ENTRY(h_miss_types) { // types that do not say how they are compared, and things not implemented
    BObs o; BState s; BAct a; IntState i(3); IntAction ia(1); string out; int k = vs_choose("what", 11); auto env = world(); UctManagerArgs ua(env); ua.seed = 7; auto um = make_shared<UctManager>(ua); auto ur = make_shared<UctDNode>(um, S_(0), 0, 0); string fn = "/nonexistent/tree";
    bool no = k == 0 ? refused([&] { o.hash(); }) : k == 1 ? refused([&] { (void)o.equals_itfc(i); }) : k == 2 ? refused([&] { o.get_pretty_print_string(); }) : k == 3 ? refused([&] { s.hash(); }) : k == 4 ? refused([&] { (void)s.equals_itfc(i); }) : k == 5 ? refused([&] { s.get_pretty_print_string(); }) : k == 6 ? refused([&] { a.hash(); }) : k == 7 ? refused([&] { (void)a.equals_itfc(ia); }) : k == 8 ? refused([&] { a.get_pretty_print_string(); }) : k == 9 ? refused([&] { ur->load(fn); }) : refused([&] { ur->save(fn); });
    ASSERT(no, k < 9 ? "a type without comparison, hash or text was compared, hashed or printed" : "a tree was silently not loaded or saved"); vs_reach("end");
}
