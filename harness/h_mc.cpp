// Monte Carlo evaluation of policies
#include "prelude.h"
#include "algs.h"
// an environment that records episodes (per thread of the harness: one episode at a time unless told otherwise)
struct Ctx : ThtsEnvContext { int id; int magic = 0x5eed; Ctx(int i) : id(i) {} ~Ctx() { magic = 0; } };
struct REnv : VEnv { using VEnv::VEnv; mutable mutex mu; mutable int contexts = 0, starts = 0; mutable vector<int> ctxStates; mutable vector<tuple<int, int, int>> steps; mutable vector<double> total; mutable bool rec = true;
    St get_initial_state_itfc() const override { if (rec) { starts++; total.push_back(0.0); cur = init; } return VEnv::get_initial_state_itfc(); } mutable int cur = 0;
    shared_ptr<ThtsEnvContext> sample_context_itfc(St s) const override { if (rec) ctxStates.push_back(sid(s)); return make_shared<Ctx>(rec ? contexts++ : 0); }
    St sample_transition_distribution_itfc(St st, Ac a, RandManager& rm) const override { ASSERT(!s[sid(st)].sink, "an episode went on after a terminal state"); ASSERT(aid(a) >= 0 && aid(a) < (int)s[sid(st)].acts.size(), "an invalid action was taken"); if (rec) ASSERT(sid(st) == cur, "an episode jumped"); St n = VEnv::sample_transition_distribution_itfc(st, a, rm); if (rec) { cur = sid(n); steps.push_back({sid(st), aid(a), sid(n)}); total.back() += VEnv::get_reward_itfc(st, a, static_pointer_cast<const Observation>(n)); } return n; } };
static shared_ptr<REnv> layers(int depth, bool sym) { auto e = make_shared<REnv>(2 * depth + 1); for (int i = 0; i < depth; i++) for (int k = 0; k < 2; k++) { int st = 2 * i + k - (i ? 1 : 0); if (i == 0 && k) continue; for (int a = 0; a < (VS_TIER ? 2 : 2 - i % 2); a++) { double r = sym ? vs_real("r", -50, 50) : st + 0.5 * a; if (i + 1 == depth) e->act(st, r, {{2 * depth, 1.0}}); else e->act(st, r, {{2 * i + 1, 0.5}, {2 * i + 2, 0.5}}); } } for (int i = 0; i < 2 * depth + 1; i++) if (e->s[i].acts.empty()) e->sink(i); return e; }
// a root whose recommendation is checked to be made with a live context of its own
struct PNode : UctDNode { using UctDNode::UctDNode; mutable vector<int> seen; shared_ptr<const Action> recommend_action_itfc(ThtsEnvContext& c) const override { Ctx& x = (Ctx&)c; ASSERT(x.magic == 0x5eed, "the policy was given a context that no longer exists"); seen.push_back(x.id); return A_(0); } };
static shared_ptr<PNode> root(shared_ptr<VEnv> e, shared_ptr<UctManager>& m) { UctManagerArgs a(e); a.seed = 7; m = make_shared<UctManager>(a); return make_shared<PNode>(m, S_(e->init), 0, 0); }
struct Rm : Sym<RandManager> { using Sym<RandManager>::Sym; };
// ---- C25
static void rollout(int depth, int n, int k) {
    auto env = layers(depth, true); shared_ptr<UctManager> m; auto r = root(env, m); env->obsReward[2 * depth] = vs_real("obs_reward", -10, 10); int len = vs_choose("max_len", depth + 2); Rm rm(7); EvalPolicy p(r, env, rm); MCEvaluator ev(env, p, len, rm); ev.run_rollouts(n, k);
    ASSERT((int)ev.sampled_returns.size() == n, "the number of returns recorded is not the number of rollouts requested"); ASSERT((int)env->total.size() == n && env->starts == n, "the number of episodes is not the number of rollouts requested"); int want = len < depth ? len : depth; ASSERT((int)env->steps.size() == n * want, "an episode does not end at a terminal state or the maximum length"); if (len < depth) vs_reach("cut"); else vs_reach("terminal");
    for (int i = 0; i < n; i++) ASSERT(vs_near(ev.sampled_returns[i], env->total[i], 1e-5), "a recorded return is not the sum of the rewards of its episode"); ASSERT(env->contexts == n, "the episodes do not have a context each"); if (len > 0) { ASSERT((int)r->seen.size() == n, "the policy does not start at the root in every episode"); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) ASSERT(r->seen[i] != r->seen[j], "two episodes shared a context"); } vs_reach("end");
}
ENTRY(h_mc_one) { rollout(2, 1, 1); }
ENTRY(h_mc_deep) { rollout(3, 1, 1); }
ENTRY(h_mc_two) { rollout(2, 2, 1); }
ENTRY(h_mc_threads) { // every schedule: n returns, no race
    int n = vs_choose("rollouts", VS_TIER ? 5 : 4), k = 2; auto env = layers(1, false); env->rec = false; shared_ptr<UctManager> m; auto r = root(env, m); for (auto& x : env->s) for (auto& a : x.acts) a.r = 1.5; RandManager rm(7); EvalPolicy p(nullptr, env, rm); (void)r; MCEvaluator ev(env, p, 5, rm); vs_race_off(); vs_race_on(); ev.run_rollouts(n, k); ASSERT((int)ev.sampled_returns.size() == n, "the number of returns recorded is not the number of rollouts requested"); for (double x : ev.sampled_returns) ASSERT(x == 1.5, "a recorded return is not the return of an episode"); vs_reach("end");
}
ENTRY(h_mc_counts) { static const int NR[] = {0, 1, 2, 3, 4, 7, 8, 13}; int n = NR[vs_choose("rollouts", 8)], k = 1 + vs_choose("threads", 3); auto env = layers(1, false); env->rec = false; for (auto& x : env->s) for (auto& a : x.acts) a.r = 1.5; RandManager rm(7); EvalPolicy p(nullptr, env, rm); MCEvaluator ev(env, p, 5, rm); ev.run_rollouts(n, k); ASSERT((int)ev.sampled_returns.size() == n, "the number of returns recorded is not the number of rollouts requested"); ev.run_rollouts(2, k); ASSERT((int)ev.sampled_returns.size() == n + 2, "returns of a second request are not added"); vs_reach("end"); }
ENTRY(h_mc_counts_wide) { static const int NR[] = {0, 1, 3, 7, 8, 13}; int n = NR[vs_choose("rollouts", 6)], k = 4 + vs_choose("threads", VS_TIER ? 5 : 2); auto env = layers(1, false); env->rec = false; for (auto& x : env->s) for (auto& a : x.acts) a.r = 1.5; RandManager rm(7); EvalPolicy p(nullptr, env, rm); MCEvaluator ev(env, p, 5, rm); ev.run_rollouts(n, k); ASSERT((int)ev.sampled_returns.size() == n, "the number of returns recorded is not the number of rollouts requested"); for (double x : ev.sampled_returns) ASSERT(x == 1.5, "a recorded return is not the return of an episode"); vs_reach("end"); }
// ---- C26
ENTRY(h_mc_stats) {
    auto env = layers(1, false); RandManager rm(7); EvalPolicy p(nullptr, env, rm); MCEvaluator ev(env, p, 5, rm); static const int NS[] = {1, 2, 3, 4, 8, 12, 30}; int n = NS[vs_choose("n", VS_TIER ? 7 : 6)]; double s = 0; vector<double> x; for (int i = 0; i < n; i++) { x.push_back(n > 4 && i != 1 && i != n - 1 ? (i * 7 % 5) - 2.5 : vs_real("x", -50, 50)); s += x.back(); ev.sampled_returns.push_back(x.back()); } double m = s / n; ASSERT(vs_near(ev.get_mean_return(), m, 1e-5), "the mean reported is not the mean of the returns");
    if (n > 1) { double q = 0; for (double y : x) q += (y - m) * (y - m); double sd = ev.get_stddev_return(); ASSERT(sd >= 0.0, "a standard deviation is negative"); ASSERT(vs_near(sd * sd * (n - 1), q, 1e-3), "the standard deviation reported is not the root of the sample variance"); vs_reach("several"); } ASSERT((int)ev.sampled_returns.size() == n, "reporting changed the returns"); vs_reach("end");
}
// ---- C27
struct QNode : UctDNode { int code; QNode(shared_ptr<UctManager> m, St s, int d, int c) : UctDNode(m, s, d, d), code(c) {} shared_ptr<const Action> recommend_action_itfc(ThtsEnvContext& c) const override { return A_(100 + code); } };
template <class M> struct DrawRm : M { using M::M; int draw = 0, hi = -1, calls = 0; int get_rand_int(int l, int h) override { ASSERT(l == 0, "a random action is not drawn from all valid actions"); hi = h; calls++; return draw; } };
ENTRY(h_policy) { // all histories over a small tree, some of whose children are missing
    auto env = make_shared<VEnv>(3); for (int s = 0; s < 3; s++) for (int a = 0; a < 2 + s; a++) env->act(s, 0, {{0, 0.5}, {1, 0.5}}); UctManagerArgs ar(env); ar.seed = 7; auto m = make_shared<UctManager>(ar); map<string, int> ref; int codes = 0; auto r = make_shared<QNode>(m, S_(0), 0, codes++); ref[""] = 0;
    struct L { shared_ptr<QNode> n; string key; }; vector<L> lv{{r, ""}}; for (int d = 0; d < 2; d++) { vector<L> nx; for (auto& l : lv) for (int a = 0; a < 2; a++) { if (d == 1 && a == 1) continue; if (!vs_bool("child")) continue; auto c = l.n->create_child_node(A_(a)); for (int o = 0; o < 2; o++) { if (d == 1 && o == 1) continue; if (d == 0 && a == 1 && o == 0) continue; auto k = make_shared<QNode>(m, S_(o), d + 1, codes); c->children[static_pointer_cast<const Observation>(S_(o))] = k; string key = l.key + to_string(a) + to_string(o); ref[key] = codes++; nx.push_back({k, key}); } } lv = nx; }
    DrawRm<RandManager> rm(7); EvalPolicy p(r, env, rm); ThtsEnvContext ctx; int rounds = 2; for (int k = 0; k < rounds; k++) { string h; bool in = true; for (int t = 0; t < 3; t++) { int st = in ? 0 : vs_choose("state", 3); rm.draw = in ? 0 : vs_choose("draw", 2 + st); int c0 = rm.calls; int a = aid(p.get_action(S_(st), ctx)); if (in) ASSERT(a == 100 + ref[h], "the action is not the recommendation of the node for the history"); else { ASSERT(a == rm.draw && rm.calls == c0 + 1 && rm.hi == 2 + st, "outside the tree the action is not drawn uniformly from the valid actions of the state"); vs_reach("left"); }
            if (t == 2 || k == 1) break; int x = vs_choose("act", 2), o = vs_choose("obs", 2); p.update_step(A_(x), static_pointer_cast<const Observation>(S_(o))); h += to_string(x) + to_string(o); in = in && ref.count(h); } EvalPolicy q(p); ASSERT(aid(q.get_action(S_(0), ctx)) == 100, "a copy of a policy does not start at the root"); p.reset(); } vs_reach("end");
}

// ---- C42: a context per rollout, drawn for the state it starts from; the policy is asked with the context of the rollout, also off the tree
ENTRY(h_ctx_mc) {
    int depth = 2; auto env = layers(depth, false); env->init = vs_choose("initial", 3); shared_ptr<UctManager> m; auto r = root(env, m); int len = vs_choose("max_len", depth + 2), n = vs_choose("rollouts", VS_TIER ? 4 : 3); Rm rm(7); EvalPolicy p(r, env, rm); MCEvaluator ev(env, p, len, rm); ev.run_rollouts(n, 1);
    ASSERT(env->contexts == n, "the rollouts do not have a context each"); for (int s : env->ctxStates) ASSERT(s == env->init, "a rollout's context was drawn for another state than the one it starts from"); for (int i = 0; i < (int)r->seen.size(); i++) for (int j = 0; j < i; j++) ASSERT(r->seen[i] != r->seen[j], "two rollouts shared a context"); vs_reach("end");
}
