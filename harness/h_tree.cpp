// structure of the search tree, transposition table, heuristic values, environment defaults, context
#include "prelude.h"
#include "algs.h"
template <class M> struct SymM : Sym<M> { using Sym<M>::Sym; };
static inline Ob O_(int i) { return static_pointer_cast<const Observation>(S_(i)); }
static vector<double> gH; static int gHcalls; static double heur(St s, shared_ptr<ThtsEnv> e) { gHcalls++; return gH[sid(s)]; }

// ---- structure: every pair of nodes the algorithms link is linked correctly, whatever is created in whatever order
template <class Al> static void structure(bool tt) {
    auto env = make_shared<VEnv>(4); for (int s = 0; s < 3; s++) { env->act(s, 1.0, {{1, 0.5}, {2, 0.5}}); env->act(s, 2.0, {{2, 0.5}, {3, 0.5}}); } env->sink(3);
    typename Al::Args a(env); a.seed = 7; a.use_transposition_table = tt; a.max_depth = 5; a.mcts_mode = false; a.is_two_player_game = vs_bool("two_player"); auto mgr = make_shared<SymM<typename Al::Mgr>>(a);
    int d0 = vs_choose("depth", 2), t0 = d0 + vs_choose("shift", 2); auto root = make_shared<typename Al::D>(mgr, S_(0), d0, t0);
    ASSERT(root->is_root_node() == (d0 == 0), "a node at depth 0 is not the root or another one is"); ASSERT(root->get_num_children() == 0, "a new node has children");
    for (int k = 0; k < (VS_TIER ? 3 : 2); k++) { int ai = vs_choose("a", 2); Ac ac = A_(ai); bool had = root->has_child_node_itfc(ac); int nc = root->get_num_children(); auto old = had ? root->get_child_node_itfc(ac) : nullptr;
        auto c = root->create_child_node_itfc(ac); ASSERT(root->has_child_node_itfc(A_(ai)) && root->get_child_node_itfc(A_(ai)) == c, "a created chance node is not the child for its action");
        ASSERT(root->get_num_children() == nc + (had ? 0 : 1), "creating an existing child again changed the number of children, or a new one was not counted"); if (had) ASSERT(c == old, "creating an existing child replaced it");
        ASSERT(dynamic_cast<typename Al::C*>(c.get()) && typeid(*c) == typeid(typename Al::C), "a chance node of another algorithm was created");
        ASSERT(c->state->equals_itfc(*root->state) && c->action->equals_itfc(*ac), "a chance node has another state or action than the one it was created for"); ASSERT(c->decision_depth == d0 && c->decision_timestep == t0, "a chance node is not at its parent's depth and timestep"); ASSERT(c->parent.lock().get() == root.get(), "a chance node does not know its parent");
        for (int j = 0; j < 2; j++) { int oi = ai + 1 + vs_choose("o", 2); bool h2 = c->has_child_node_itfc(O_(oi)); int nd = c->get_num_children(); auto od = h2 ? c->get_child_node_itfc(O_(oi)) : nullptr;
            auto d = c->create_child_node_itfc(O_(oi)); ASSERT(c->has_child_node_itfc(O_(oi)) && c->get_child_node_itfc(O_(oi)) == d, "a created decision node is not the child for its observation");
            ASSERT(c->get_num_children() == nd + (h2 ? 0 : 1), "creating an existing child again changed the number of children, or a new one was not counted"); if (h2) ASSERT(d == od, "creating an existing child replaced it");
            ASSERT(typeid(*d) == typeid(typename Al::D), "a decision node of another algorithm was created"); ASSERT(sid(d->state) == oi, "a decision node has another state than the one it was created for");
            ASSERT(d->decision_depth == d0 + 1 && d->decision_timestep == t0 + 1, "a decision node is not one step deeper and later than its parent"); if (!tt) ASSERT(d->parent.lock().get() == c.get(), "a decision node does not know its parent");
            ASSERT(d->is_opponent() == (mgr->is_two_player_game && ((t0 + 1) & 1)), "the player to move is not decided by the timestep"); ASSERT(c->is_opponent() == (mgr->is_two_player_game && (t0 & 1)), "the player to move is not decided by the timestep");
            ASSERT(d->is_leaf() == (oi == 3 || d0 + 1 >= 5), "a node is a leaf although it is neither terminal nor at the depth limit, or the other way round"); ASSERT(!d->is_root_node(), "a child is the root");
            if (h2) vs_reach("again"); else vs_reach("fresh"); } }
    vs_reach("end");
}
ENTRY(h_struct_uct) { structure<Uct>(false); }
ENTRY(h_struct_puct) { structure<Puct>(false); }
ENTRY(h_struct_ments) { structure<Ments>(false); }
ENTRY(h_struct_dbments) { structure<DBMents>(false); }
ENTRY(h_struct_rents) { structure<Rents>(false); }
ENTRY(h_struct_tents) { structure<Tents>(false); }
ENTRY(h_struct_dents) { structure<Dents>(false); }
ENTRY(h_struct_est) { structure<Est>(false); }
ENTRY(h_struct_tt) { structure<Uct>(true); }
ENTRY(h_leaf) { // leaf = terminal or at the depth limit, for every depth and limit
    auto env = make_shared<VEnv>(2); env->act(0, 1.0, {{1, 1.0}}); env->sink(1); UctManagerArgs a(env); a.seed = 7; a.max_depth = vs_int("max_depth", 0, 1000); auto mgr = make_shared<UctManager>(a); int d = vs_int("depth", 0, 1000), s = vs_choose("s", 2);
    UctDNode n(mgr, S_(s), d, d); bool l = n.is_leaf(); ASSERT(l == (s == 1 || d >= a.max_depth), "a node is a leaf although it is neither terminal nor at the depth limit, or the other way round"); ASSERT(n.is_sink() == (s == 1), "terminal states are not recognised"); vs_reach("end"); if (l && s == 0) vs_reach("limit");
}

// ---- transposition table
template <class Al> static void transposition(bool tt, int mutexes) {
    auto env = make_shared<VEnv>(3); for (int s = 0; s < 3; s++) { env->act(s, 1.0, {{1, 0.5}, {2, 0.5}}); env->act(s, 2.0, {{1, 0.5}, {2, 0.5}}); }
    typename Al::Args a(env); a.seed = 7; a.use_transposition_table = tt; a.num_transposition_table_mutexes = mutexes; auto mgr = make_shared<SymM<typename Al::Mgr>>(a);
    // chance nodes at arbitrary timesteps; nodes are shared exactly if timestep and state agree
    const int K = VS_TIER ? 4 : 3; vector<shared_ptr<ThtsDNode>> ps, ds; vector<shared_ptr<ThtsCNode>> cs; vector<int> t, o;
    for (int k = 0; k < K; k++) { static const int TS[] = {0, 1, 2, 5, 300}; int tk = TS[vs_choose("t", k == 0 ? 3 : 5)], sk = k % 3; static const int DS[] = {0, 1, 7}; int dk = DS[vs_choose("d", k == 0 ? 1 : 2 + (VS_TIER > 0))]; auto p = make_shared<typename Al::D>(mgr, S_(sk), dk, tk); auto c = p->create_child_node_itfc(A_(k % 2)); int ok = 1 + vs_choose("o", 2); auto d = c->create_child_node_itfc(O_(ok)); ps.push_back(p); cs.push_back(c); ds.push_back(d); t.push_back(tk); o.push_back(ok);
        ASSERT(sid(d->state) == ok && d->decision_timestep == tk + 1, "a decision node taken from the table has another state or timestep"); ASSERT(c->get_child_node_itfc(O_(ok)) == d && c->get_num_children() == 1, "a decision node taken from the table is not linked to the chance node"); }
    for (int i = 0; i < K; i++) for (int j = 0; j < i; j++) if (tt) { bool same = t[i] == t[j] && o[i] == o[j]; ASSERT((ds[i] == ds[j]) == same, same ? "equal states reached at the same timestep are not shared" : "different states or timesteps share one node"); if (same) vs_reach("shared"); }
        else ASSERT(ds[i] != ds[j], "nodes are shared although no transposition table is in use");
    vs_reach("end");
}
ENTRY(h_tt_uct) { transposition<Uct>(true, 1); }
ENTRY(h_tt_ments) { transposition<Ments>(true, 1); }
ENTRY(h_tt_dents) { transposition<Dents>(true, 1); }
ENTRY(h_tt_stripes) { transposition<Uct>(true, 3); }
ENTRY(h_tt_off) { transposition<Uct>(false, 1); }
// a tree that was dropped leaves nothing behind that a later tree could trip over
static void expired(int mutexes) {
    auto env = make_shared<VEnv>(2); env->act(0, 1.0, {{1, 1.0}}); env->act(1, 1.0, {{1, 1.0}}); UctManagerArgs a(env); a.seed = 7; a.use_transposition_table = true; a.num_transposition_table_mutexes = mutexes; auto mgr = make_shared<UctManager>(a);
    int runs = 3; shared_ptr<ThtsDNode> keep;
    for (int k = 0; k < runs; k++) { auto root = make_shared<UctDNode>(mgr, S_(0), 0, 0); auto c = root->create_child_node_itfc(A_(0)); shared_ptr<ThtsDNode> d; bool threw = false; try { d = c->create_child_node_itfc(O_(1)); } catch (exception& e) { threw = true; }
        ASSERT(!threw, "building a tree fails after an earlier tree was dropped"); if (threw) return; ASSERT(d && sid(d->state) == 1 && c->get_child_node_itfc(O_(1)) == d, "building a tree gives a wrong node after an earlier tree was dropped"); if (keep) ASSERT(d == keep, "a node that is still in use is not shared"); else ASSERT(d->get_num_visits() == 0, "a dropped node came back"); if (vs_bool("keep")) { keep = d; vs_reach("kept"); } }
    vs_reach("end");
}
ENTRY(h_tt_expired) { expired(1); }
ENTRY(h_tt_expired_stripes) { expired(2); }
// concurrent creation: one node per state and timestep whoever comes first
static void ttThreads(int mutexes, bool same) {
    auto env = make_shared<VEnv>(3); for (int s = 0; s < 3; s++) { env->act(s, 1.0, {{1, 0.5}, {2, 0.5}}); env->act(s, 2.0, {{1, 0.5}, {2, 0.5}}); }
    UctManagerArgs a(env); a.seed = 7; a.use_transposition_table = true; a.num_transposition_table_mutexes = mutexes; auto mgr = make_shared<UctManager>(a); auto root = make_shared<UctDNode>(mgr, S_(0), 0, 0); auto c0 = root->create_child_node_itfc(A_(0)), c1 = root->create_child_node_itfc(A_(1));
    shared_ptr<ThtsDNode> d0, d1, e0; { thread t0([&] { c0->lock(); d0 = c0->create_child_node_itfc(O_(1)); e0 = c0->create_child_node_itfc(O_(2)); c0->unlock(); }), t1([&] { c1->lock(); d1 = c1->create_child_node_itfc(O_(same ? 1 : 2)); c1->unlock(); }); t0.join(); t1.join(); }
    vs_race_off(); ASSERT(same ? d0 == d1 : e0 == d1, "two workers made two nodes for one state and timestep"); ASSERT(d0 != e0, "different states share one node"); vs_reach("end");
}
ENTRY(h_tt_threads) { ttThreads(1, true); }
ENTRY(h_tt_threads_stripes) { ttThreads(2, true); }
ENTRY(h_tt_threads_stripes2) { ttThreads(2, false); }

// ---- heuristic values
template <class Al> static void heuristic() {
    auto env = make_shared<VEnv>(2); env->act(0, 1.0, {{1, 1.0}}); env->sink(1); gH = {vs_real("h0", -100, 100), vs_real("h1", -100, 100)}; gHcalls = 0;
    typename Al::Args a(env); a.seed = 7; bool has = vs_bool("has_heuristic"); a.heuristic_fn = has ? heur : nullptr; a.is_two_player_game = vs_bool("two_player"); int dep = vs_choose("depth", 3), ts = dep + vs_choose("shift", 2); a.max_depth = vs_bool("at_limit") ? dep : 10; auto mgr = make_shared<SymM<typename Al::Mgr>>(a); int s = vs_choose("s", 2); auto n = make_shared<typename Al::D>(mgr, S_(s), dep, ts);
    double want = has && s == 0 ? gH[0] : 0.0; ASSERT(vs_near(n->heuristic_value, want), s ? "a terminal node has a heuristic value" : "a node does not have the heuristic value of its state"); ASSERT(n->get_num_visits() == 0 && n->get_num_children() == 0, "a new node has visits or children"); if (has) { if constexpr (is_same<Al, Uct>::value) ASSERT(vs_near(n->avg_return, want), "the value of a new node is not the heuristic value"); else ASSERT(vs_near(n->soft_value, want), "the value of a new node is not the heuristic value"); if constexpr (is_same<Al, DBMents>::value || is_same<Al, Dents>::value || is_same<Al, Est>::value) ASSERT(vs_near(n->dp_value, want), "the value of a new node is not the heuristic value"); }
    vs_reach("end");
}
ENTRY(h_heur_uct) { heuristic<Uct>(); }
ENTRY(h_heur_ments) { heuristic<Ments>(); }
ENTRY(h_heur_dbments) { heuristic<DBMents>(); }
ENTRY(h_heur_rents) { heuristic<Rents>(); }
ENTRY(h_heur_tents) { heuristic<Tents>(); }
ENTRY(h_heur_dents) { heuristic<Dents>(); }
ENTRY(h_heur_est) { heuristic<Est>(); }
ENTRY(h_heur_default) { auto env = make_shared<VEnv>(1); env->act(0, 1.0, {{0, 1.0}}); UctManagerArgs a(env); a.seed = 7; auto mgr = make_shared<UctManager>(a); UctDNode n(mgr, S_(0), 0, 0); ASSERT(n.heuristic_value == 0.0, "the default heuristic is not zero"); ASSERT(a.max_depth == numeric_limits<int>::max() && a.mcts_mode && !a.is_two_player_game && !a.use_transposition_table, "the documented default settings changed"); vs_reach("end"); }

// ---- defaults of the environment interface
struct PoEnv : VEnv { double p; PoEnv() : VEnv(2, false) {} shared_ptr<ObservationDistr> get_observation_distribution_itfc(Ac a, St n) const override { auto d = make_shared<ObservationDistr>(); d->insert_or_assign(O_(10 + sid(n)), p); d->insert_or_assign(O_(20 + sid(n)), 1.0 - p); return d; } };
struct PlainPo : VEnv { PlainPo() : VEnv(2, false) {} };
ENTRY(h_obs_full) {
    VEnv e(3); int s = vs_choose("s", 3); RandManager r(3); ASSERT(e.is_fully_observable(), "observability is not reported"); auto d = e.get_observation_distribution_itfc(A_(0), S_(s)); ASSERT(d->size() == 1 && d->count(O_(s)) && vs_near(d->at(O_(s)), 1.0, 1e-9), "the observation of a fully observable environment is not the next state with certainty");
    Ob o = e.sample_observation_distribution_itfc(A_(0), S_(s), r); ASSERT(sid(o) == s, "the observation of a fully observable environment is not the next state"); auto c1 = e.sample_context_itfc(S_(0)), c2 = e.sample_context_itfc(S_(0)); ASSERT(c1 && c2 && c1 != c2, "two trials share one context"); vs_reach("end");
}
ENTRY(h_obs_partial) {
    PoEnv e; e.p = vs_real("p", 0, 1); int s = vs_choose("s", 2); Sym<RandManager> r(3); ASSERT(!e.is_fully_observable(), "observability is not reported"); Ob o = e.sample_observation_distribution_itfc(A_(0), S_(s), r); int k = sid(o);
    ASSERT(k == 10 + s || k == 20 + s, "an observation was sampled that the next state cannot produce"); if (k == 10 + s) ASSERT(e.p > 0, "an impossible observation was sampled"); else ASSERT(e.p < 1, "an impossible observation was sampled");
    PlainPo q; bool threw = false; try { q.get_observation_distribution_itfc(A_(0), S_(0)); } catch (runtime_error& x) { threw = true; } ASSERT(threw, "a partially observable environment without an observation model did not report it"); vs_reach("end");
}
// ---- the per-trial context is a map from names to values
ENTRY(h_context) {
    ThtsEnvContext c; const int K = 2; string keys[K] = {"a", "b"}; int model[K] = {-1, -1}, cmodel[K] = {-1, -1}; int steps = VS_TIER ? 5 : 4;
    for (int i = 0; i < steps; i++) { int op = vs_choose("op", 4), k = vs_choose("k", K);
        if (op == 0) { c.put_value<int>(keys[k], make_shared<int>(100 + i)); model[k] = 100 + i; } else if (op == 1) { c.put_value_const<int>(keys[k], make_shared<const int>(200 + i)); cmodel[k] = 200 + i; } else if (op == 2) { c.erase(keys[k]); model[k] = -1; } else { c.erase_const(keys[k]); cmodel[k] = -1; }
        for (int q = 0; q < K; q++) { bool t1 = false, t2 = false; int v1 = -1, v2 = -1; try { v1 = c.get_value<int>(keys[q]); ASSERT(*c.get_value_ptr<int>(keys[q]) == v1, "two ways of reading a context value disagree"); } catch (out_of_range& e) { t1 = true; } try { v2 = c.get_value_const<int>(keys[q]); ASSERT(*c.get_value_ptr_const<int>(keys[q]) == v2, "two ways of reading a context value disagree"); } catch (out_of_range& e) { t2 = true; }
            ASSERT(t1 == (model[q] < 0) && v1 == model[q], "the context does not return the value last stored under a name"); ASSERT(t2 == (cmodel[q] < 0) && v2 == cmodel[q], "the context does not return the constant value last stored under a name"); } }
    vs_reach("end");
}
