// several workers on one tree, every algorithm: data races (engine option --race), lock discipline, deadlocks
#include "prelude.h"
#include "algs.h"
#include "algorithms/uct/uct_logger.h"
#include "algorithms/ments/ments_logger.h"
#include "algorithms/ments/dbments_logger.h"
template <class Al> static shared_ptr<typename Al::Mgr> mk(shared_ptr<ThtsEnv> e, bool tt, bool real, int mutexes = 1) {
    typename Al::Args a(e); a.seed = 7; a.use_transposition_table = tt; a.num_transposition_table_mutexes = mutexes; a.max_depth = 8;
    if (real) return make_shared<typename Al::Mgr>(a); return make_shared<Sym<typename Al::Mgr>>(a);
}
struct CMgrBase {}; 
// few, fixed random numbers: the schedule is the quantifier here
template <class M> struct Fix : M { using M::M; int get_rand_int(int lo, int hi) override { return lo + (hi - lo > 1 ? vs_choose("rand_int", 2) : 0); } double get_rand_uniform() override { return vs_choose("rand_uniform", 2) ? 0.75 : 0.2; } };
template <class Al> static shared_ptr<typename Al::Mgr> mkF(shared_ptr<ThtsEnv> e, bool tt, int mutexes = 1) { typename Al::Args a(e); a.seed = 7; a.use_transposition_table = tt; a.num_transposition_table_mutexes = mutexes; a.max_depth = 8; return make_shared<Fix<typename Al::Mgr>>(a); }

// the same with a script for the draws made before the workers start, and one choice per trial afterwards
static int gWarm; static map<int, int> gDrawn;
template <class M> struct Script : M { using M::M;
    int pick() { vs_race_off(); int k = gDrawn[vs_tid()]++; vs_race_on(); return k < 1 ? vs_choose("draw", 2) : 0; }
    int get_rand_int(int lo, int hi) override { lock_guard<mutex> lg(this->rng_lock); return lo + (gWarm ? gWarm++ : pick()) % (hi - lo); } double get_rand_uniform() override { lock_guard<mutex> lg(this->rng_lock); return gWarm ? (gWarm++ * 37 % 100) / 100.0 : pick() ? 0.75 : 0.2; } };
// one trial, as the pool runs it
static void oneTrial(shared_ptr<ThtsDNode> root, shared_ptr<ThtsEnv> env) {
    auto ctx = env->sample_context_itfc(root->state); vector<pair<shared_ptr<ThtsDNode>, shared_ptr<ThtsCNode>>> path; auto d = root;
    while (true) { d->lock(); d->visit_itfc(*ctx); if (d->is_leaf()) { d->unlock(); break; } Ac a = d->select_action_itfc(*ctx); auto c = d->get_child_node_itfc(a); d->unlock(); c->lock(); c->visit_itfc(*ctx); Ob o = c->sample_observation_itfc(*ctx); path.push_back({d, c}); d = c->get_child_node_itfc(o); c->unlock(); }
    vector<double> bf(path.size(), 1.0), af{0.0}; double g = 0; while (path.size()) { bf.pop_back(); af.push_back(1.0); g += 1.0; auto [x, c] = path.back(); path.pop_back(); c->lock(); c->backup_itfc(bf, af, g, g + bf.size(), *ctx); c->unlock(); x->lock(); x->backup_itfc(bf, af, g, g + bf.size(), *ctx); x->unlock(); }
}
// race freedom: 2 workers, shared root with 2 actions and 2 outcomes; the tree is empty or has been searched before
template <class Al> static void race(int trials, bool tt, int mutexes, bool log, int warm = 0, bool autob = false) {
    auto env = make_shared<VEnv>(4); env->act(0, 1.0, {{1, 0.5}, {2, 0.5}}); env->act(0, 0.5, {{1, 0.5}, {2, 0.5}}); env->act(1, 0.25, {{3, 1.0}}); env->sink(2); env->sink(3);
    gDrawn.clear(); shared_ptr<typename Al::Mgr> mgr; if (warm) { typename Al::Args a(env); a.seed = 7; a.use_transposition_table = tt; a.num_transposition_table_mutexes = mutexes; a.max_depth = 8; a.mcts_mode = false; mgr = make_shared<Script<typename Al::Mgr>>(a); } else mgr = mk<Al>(env, tt, true, mutexes);
    auto root = make_shared<typename Al::D>(mgr, S_(0), 0, 0);
    gWarm = 1; for (int i = 0; i < warm; i++) oneTrial(root, env); gWarm = 0; if (warm) vs_assume(root->get_num_children() == 2);
    shared_ptr<ThtsLogger> lg; if (log) { lg = make_shared<ThtsLogger>(); lg->set_trials_delta(1); }
    { auto pool_ = make_unique<ThtsPool>(mgr, root, 2, lg); auto& pool = *pool_; pool.run_trials(trials); }
    vs_race_off(); ASSERT(root->num_visits == trials + warm, "visits were lost"); int cv = 0; for (int i = 0; i < 2; i++) if (root->has_child_node_itfc(A_(i))) cv += root->get_child_node_itfc(A_(i))->num_visits; ASSERT(cv == trials + warm, "visits of children were lost"); vs_reach("end");
}
#define W(a, T) ENTRY(h_racew_##a) { race<T>(2, false, 1, false, 5); }
W(uct, Uct) W(puct, Puct) W(ments, Ments) W(dbments, DBMents) W(rents, Rents) W(tents, Tents) W(dents, Dents) W(est, Est)
ENTRY(h_racew_tt) { race<Ments>(2, true, 2, false, 5); }
#ifndef RT
#define RT 2
#endif
ENTRY(h_race_uct) { race<Uct>(RT, false, 1, false); }
ENTRY(h_race_puct) { race<Puct>(RT, false, 1, false); }
ENTRY(h_race_ments) { race<Ments>(RT, false, 1, false); }
ENTRY(h_race_dbments) { race<DBMents>(RT, false, 1, false); }
ENTRY(h_race_rents) { race<Rents>(RT, false, 1, false); }
ENTRY(h_race_tents) { race<Tents>(RT, false, 1, false); }
ENTRY(h_race_dents) { race<Dents>(RT, false, 1, false); }
ENTRY(h_race_est) { race<Est>(RT, false, 1, false); }
ENTRY(h_race_log) { race<Uct>(RT, false, 1, true); }
ENTRY(h_race_tt) { race<Uct>(RT, true, 1, false); }
ENTRY(h_race_tt2) { race<Uct>(RT, true, 2, false); }


// deadlock freedom with shared decision nodes: two chance nodes know the same two outcomes, learned in either order,
// and two trials that went through them work on the tree at the same time, taking the locks the trial loop takes
template <class Al> struct Tree2 {
    shared_ptr<VEnv> env; shared_ptr<typename Al::Mgr> mgr; shared_ptr<typename Al::D> root; shared_ptr<ThtsCNode> c[2]; ThtsEnvContext ctx[2]; vector<double> none, aft{0.0, 1.0};
    Tree2(bool dp = true) {
        env = make_shared<VEnv>(3); env->act(0, 1.0, {{1, 0.5}, {2, 0.5}}); env->act(0, 0.5, {{1, 0.5}, {2, 0.5}}); env->sink(1); env->sink(2);
        mgr = mkF<Al>(env, true); root = make_shared<typename Al::D>(mgr, S_(0), 0, 0);
        for (int k = 0; k < 2; k++) { root->lock(); root->visit_itfc(ctx[k]); Ac a = root->select_action_itfc(ctx[k]); vs_assume(aid(a) == k); c[k] = root->get_child_node_itfc(a); root->unlock(); }
        auto o1 = static_pointer_cast<const Observation>(S_(1)), o2 = static_pointer_cast<const Observation>(S_(2));
        for (int k = 0; k < 2; k++) { bool f = vs_bool("order"); c[k]->visit_itfc(ctx[k]); c[k]->create_child_node_itfc(f ? o2 : o1); c[k]->create_child_node_itfc(f ? o1 : o2); c[k]->get_child_node_itfc(o1)->visit_itfc(ctx[k]); }
        ASSERT(c[0]->get_child_node_itfc(o1) == c[1]->get_child_node_itfc(o1) && c[0]->get_child_node_itfc(o2) == c[1]->get_child_node_itfc(o2), "the transposition table does not share decision nodes");
    }
    void backup(int k) { c[k]->lock(); c[k]->backup_itfc(none, aft, 1.0, 1.0, ctx[k]); c[k]->unlock(); root->lock(); root->backup_itfc(none, aft, 1.0, 1.0, ctx[k]); root->unlock(); }
    void select() { ThtsEnvContext x; root->lock(); root->visit_itfc(x); Ac a = root->select_action_itfc(x); auto n = root->get_child_node_itfc(a); root->unlock(); n->lock(); n->visit_itfc(x); Ob o = n->sample_observation_itfc(x); auto d = n->get_child_node_itfc(o); n->unlock(); d->lock(); d->visit_itfc(x); d->unlock(); }
};
template <class Al> static void locks(bool sel) {
    Tree2<Al> t; { thread a([&] { t.backup(0); }), b([&] { if (sel) t.select(); else t.backup(1); }); a.join(); b.join(); }
    vs_race_off(); vs_reach("end");
}
ENTRY(h_lock_uct) { locks<Uct>(false); }
ENTRY(h_lock_ments) { locks<Ments>(false); }
ENTRY(h_lock_dbments) { locks<DBMents>(false); }
ENTRY(h_lock_rents) { locks<Rents>(false); }
ENTRY(h_lock_tents) { locks<Tents>(false); }
ENTRY(h_lock_dents) { locks<Dents>(false); }
ENTRY(h_lock_est) { locks<Est>(false); }
ENTRY(h_locksel_uct) { locks<Uct>(true); }
ENTRY(h_locksel_ments) { locks<Ments>(true); }
ENTRY(h_locksel_dbments) { locks<DBMents>(true); }
ENTRY(h_locksel_rents) { locks<Rents>(true); }
ENTRY(h_locksel_tents) { locks<Tents>(true); }
ENTRY(h_locksel_dents) { locks<Dents>(true); }
ENTRY(h_locksel_est) { locks<Est>(true); }
