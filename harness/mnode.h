// a MENTS family decision node with given children
#pragma once
#include "prelude.h"
#include "algs.h"
static int gDraw; static double gU;
template <class M> struct Det : M { using M::M;
    int get_rand_int(int lo, int hi) override { if (hi <= lo) vs_fail("a random integer was requested from an empty range"); int d = gDraw % 6; gDraw /= 6; return lo + d % (hi - lo); }
    double get_rand_uniform() override { return gU; } };
static inline Ob O_(int i) { return static_pointer_cast<const Observation>(S_(i)); }
static double gHv; static double heur(St s, shared_ptr<ThtsEnv> e) { return gHv; }
static vector<double> gPrior; static shared_ptr<ActionPrior> prior(St s, shared_ptr<ThtsEnv> e) { auto p = make_shared<ActionPrior>(); for (size_t i = 0; i < gPrior.size(); i++) p->insert_or_assign(A_(i), gPrior[i]); return p; }
static shared_ptr<VEnv> env1(int acts, double r = 0.0) { auto e = make_shared<VEnv>(4); for (int i = 0; i < acts; i++) e->act(0, r, {{1, 0.25}, {2, 0.25}, {3, 0.5}}); for (int s = 1; s < 4; s++) e->sink(s); return e; }
static const vector<double> NONE; static const double T5 = 1e-5;
template <class C> struct isDents { static const bool v = false; }; template <> struct isDents<Dents> { static const bool v = true; }; template <> struct isDents<Est> { static const bool v = true; };

// a decision node with given children; value = what selection uses
template <class Al> struct Node {
    shared_ptr<VEnv> env; shared_ptr<Det<typename Al::Mgr>> mgr; shared_ptr<typename Al::D> d; ThtsEnvContext ctx; int n; vector<double> v, ent; vector<int> cv; vector<char> tried; double opp = 1.0; int depth = 0;
    Node(int acts, function<void(typename Al::Args&)> cfg, bool anyPlayer = true, int dep = 0) : n(acts), v(acts, 0.0), ent(acts, 0.0), cv(acts, 0), tried(acts, 0), depth(dep) {
        env = env1(acts); typename Al::Args a(env); a.seed = 7; a.heuristic_fn = nullptr; int ts = dep; if (anyPlayer) { a.is_two_player_game = vs_bool("two_player"); ts = dep + vs_choose("timestep", 2); } cfg(a); mgr = make_shared<Det<typename Al::Mgr>>(a); d = make_shared<typename Al::D>(mgr, S_(0), dep, ts); opp = a.is_two_player_game && (ts & 1) ? -1.0 : 1.0; gDraw = 0; gU = 0.5; }
    void child(int i, double val, int visits = 1, double e = 0.0) { auto c = static_pointer_cast<typename Al::C>(d->create_child_node_itfc(A_(i))); put(c, val, e); c->num_visits = visits; ((MentsCNode&)*c).num_backups = visits; v[i] = val; cv[i] = visits; tried[i] = 1; ent[i] = e; }
    void put(shared_ptr<typename Al::C> c, double val, double e) { if constexpr (isDents<Al>::v) { if (((DentsManager&)*mgr).use_dp_value) c->dp_value = val; else c->avg_return = val; c->subtree_entropy = e; c->DPCNode::num_backups = 1; c->EmpNode::num_backups = 1; } else c->soft_value = val; }
    void backup() { d->backup_itfc(NONE, NONE, 0.0, 0.0, ctx); }
    map<int, double> distr() { ActionDistr ad; ((MentsDNode&)*d).compute_action_distribution(ad, ctx); map<int, double> m; for (int i = 0; i < n; i++) m[i] = 0.0; for (auto& p : ad) { int i = aid(p.first); ASSERT(i >= 0 && i < n, "the action distribution contains an invalid action"); m[i] = p.second; } return m; }
    int recommend(int draw) { gDraw = draw; int i = aid(d->recommend_action_itfc(ctx)); ASSERT(i >= 0 && i < n, "an invalid action was recommended"); return i; }
    int select() { Ac a = d->select_action_itfc(ctx); int i = aid(a); ASSERT(i >= 0 && i < n, "an invalid action was selected"); ASSERT(d->has_child_node_itfc(a), "the selected action has no child node"); return i; }
};
static double rmax(const vector<double>& x) { double m = x[0]; for (double y : x) if (y > m) m = y; return m; }
static vector<double> softmax(const vector<double>& q, double temp) { vector<double> z; for (double x : q) z.push_back(x / temp); double m = rmax(z), s = 0; vector<double> w; for (double x : z) { w.push_back(exp(x - m)); s += w.back(); } for (double& x : w) x = x / s; return w; }
static double lse(const vector<double>& q, double temp) { vector<double> z; for (double x : q) z.push_back(x / temp); double m = rmax(z), s = 0; for (double x : z) s += exp(x - m); return temp * (log(s) + m); }

