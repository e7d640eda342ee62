// whole searches: statistics are conserved, and values are consistent throughout the tree
#include "prelude.h"
#include "algs.h"
static double hv(St s, shared_ptr<ThtsEnv> e) { static const double H[] = {0.5, -1.0, 2.0, 4.0, 1.5}; return H[sid(s)]; }
static const double HV[] = {0.5, -1.0, 2.0, 0.0, 1.5};
struct TEnv : VEnv { using VEnv::VEnv; mutable vector<double> ret; mutable vector<int> last; shared_ptr<ThtsEnvContext> sample_context_itfc(St st) const override { ret.push_back(0.0); last.push_back(sid(st)); return VEnv::sample_context_itfc(st); } double get_reward_itfc(St st, Ac a, Ob o = nullptr) const override { double r = VEnv::get_reward_itfc(st, a, o); if (o) { ret.back() += r; last.back() = sid(o); } return r; } };
static shared_ptr<TEnv> world() { auto e = make_shared<TEnv>(5); e->act(0, 1.0, {{1, 0.5}, {2, 0.5}}); e->act(0, -2.0, {{2, 1.0}}); e->act(1, 3.0, {{3, 1.0}}); e->act(1, 0.25, {{4, 1.0}}); e->act(2, 5.0, {{4, 0.25}, {3, 0.75}}); e->sink(3); e->act(4, 1.0, {{3, 1.0}}); return e; }
template <class Al> struct Acc;
template <class Al> struct AccU { static int nb(typename Al::D& d) { return d.num_backups; } static int nb(typename Al::C& c) { return c.num_backups; } };
template <class Al> struct AccM { static int nb(typename Al::D& d) { return ((MentsDNode&)d).num_backups; } static int nb(typename Al::C& c) { return ((MentsCNode&)c).num_backups; } };
template <> struct Acc<Uct> : AccU<Uct> {}; template <> struct Acc<Puct> : AccU<Puct> {}; template <> struct Acc<Ments> : AccM<Ments> {}; template <> struct Acc<DBMents> : AccM<DBMents> {}; template <> struct Acc<Rents> : AccM<Rents> {}; template <> struct Acc<Tents> : AccM<Tents> {}; template <> struct Acc<Dents> : AccM<Dents> {}; template <> struct Acc<Est> : AccM<Est> {};
template <class Al> struct K { static const bool uct = is_same<Al, Uct>::value || is_same<Al, Puct>::value, emp = is_same<Al, Dents>::value || is_same<Al, Est>::value, soft = !uct && !emp, dp = emp || is_same<Al, DBMents>::value; };
template <class Al> struct Check {
    shared_ptr<TEnv> env; bool mcts; int maxDepth; bool useDp; typedef typename Al::D D; typedef typename Al::C C; typedef Acc<Al> A; int nodes = 0;
    void dnode(D& d, bool root) { nodes++; int s = sid(d.state), kids = 0, back = 0; bool leaf = s == 3 || d.decision_depth >= maxDepth; double sum = 0; ASSERT(!leaf || d.children.empty(), "a leaf has children"); int best = 0; double dp = 0;
        for (auto& p : d.children) { int a = aid(p.first); ASSERT(a >= 0 && a < (int)env->s[s].acts.size(), "a child is not for a valid action"); C& c = (C&)*p.second; kids += c.num_visits; back += A::nb(c); if constexpr (K<Al>::uct || K<Al>::emp) sum += A::nb(c) * c.avg_return; if constexpr (K<Al>::dp) { double v = c.dp_value * (d.is_opponent() ? -1.0 : 1.0); if (((DPCNode&)c).num_backups > 0 && (!best || v > dp)) { best = 1; dp = v; } } cnode(c, s, a); }
        int ended = d.num_visits - kids; if (leaf) ASSERT(A::nb(d) == (K<Al>::uct ? 0 : K<Al>::soft || K<Al>::emp ? d.num_visits : 0), "the backups of a leaf are not its visits"); else { ASSERT(ended == (mcts && !root ? 1 : 0), "the visits of a decision node are not those of its children and the trials that ended there"); ASSERT(A::nb(d) == back, "the backups of a decision node are not those of its children"); }
        if constexpr (K<Al>::uct) if (!leaf && back) ASSERT(vs_near(d.avg_return * back, sum, 1e-4), "the average of a decision node is not that of the returns of its children"); if constexpr (K<Al>::emp) if (!leaf && !useDp) ASSERT(vs_near(d.avg_return * (back + 1), sum + HV[s], 1e-4), "the average of a decision node is not that of its heuristic value and the returns of its children"); if constexpr (K<Al>::dp) if (useDp) { if (best) ASSERT(vs_near(d.dp_value, dp * (d.is_opponent() ? -1.0 : 1.0), 1e-4), "the value of a decision node is not that of its best child"); else ASSERT(d.dp_value == HV[s], "a node without backed up children does not have its heuristic value"); } }
    void cnode(C& c, int s, int a) { nodes++; int kids = 0, n = 0; auto& sa = env->s[s].acts[a]; double sum = 0, soft = 0, dp = 0; ASSERT(!c.children.empty(), "an outcome is missing");
        for (auto& p : c.children) { int o = sid(p.first); bool ok = false; for (auto& t : sa.tr) if (t.to == o && t.p > 0) ok = true; ASSERT(ok, "a child is not a possible outcome"); D& d = (D&)*p.second; ASSERT(sid(d.state) == o, "a child has another state than its outcome"); kids += d.num_visits; if constexpr (K<Al>::uct) sum += d.avg_return * A::nb(d) + (d.num_visits - A::nb(d)) * HV[o]; if constexpr (K<Al>::soft) { n += A::nb(d); soft += A::nb(d) * d.soft_value; } dnode(d, false); if constexpr (K<Al>::dp) { int k = ((DPDNode&)d).num_backups; dp += k * d.dp_value; if constexpr (!K<Al>::soft) n += k; } }
        ASSERT(c.num_visits == kids, "the visits of a chance node are not those of its outcomes"); ASSERT(A::nb(c) == c.num_visits, "a chance node was not backed up once per visit"); if constexpr (K<Al>::uct) ASSERT(vs_near(c.avg_return * c.num_visits, sum + c.num_visits * sa.r, 1e-4), "the average of a chance node is not the reward plus that of its outcomes"); if constexpr (K<Al>::soft) if (n) ASSERT(vs_near(c.soft_value * n, soft + n * sa.r, 1e-4), "the value of a chance node is not the reward plus the average of its outcomes"); if constexpr (K<Al>::emp) if (n && useDp) ASSERT(vs_near(c.dp_value * n, dp + n * sa.r, 1e-4), "the value of a chance node is not the reward plus the average of its outcomes"); }
};
static unsigned gLcg; static bool gFree = true; static unsigned lcg() { gLcg = gLcg * 1103515245u + 12345u; return (gLcg >> 16) & 0x3fff; } // a scripted prefix, then symbolic draws
template <class M> struct Late : Sym<M> { using Sym<M>::Sym; int get_rand_int(int lo, int hi) override { if (gFree) return Sym<M>::get_rand_int(lo, hi); if (hi <= lo) vs_fail("a random integer was requested from an empty range"); return lo + lcg() % (hi - lo); } double get_rand_uniform() override { return gFree ? Sym<M>::get_rand_uniform() : lcg() / 16384.0; } };
template <class Al> static void search(int trials, int searches, int warm = 0) {
    auto env = world(); typename Al::Args a(env); a.seed = 7; a.heuristic_fn = hv; a.mcts_mode = vs_choose("mcts_mode", 2); a.max_depth = warm ? 2 + vs_choose("max_depth", 2) : 2; a.is_two_player_game = vs_choose("two_player", 2); bool dp = true; if constexpr (K<Al>::emp) dp = a.use_dp_value = vs_choose("use_dp_value", 2); auto m = make_shared<Late<typename Al::Mgr>>(a); gLcg = 17 + 100 * (warm ? vs_choose("script", VS_TIER ? 4 : 2) : 0); auto root = make_shared<typename Al::D>(m, S_(0), 0, 0); { auto p_ = make_unique<ThtsPool>(m, root, 1); auto& p = *p_; gFree = false; if (warm) p.run_trials(warm); gFree = true; for (int k = 0; k < searches; k++) p.run_trials(trials); }
    int n = warm + trials * searches; ASSERT((int)env->ret.size() == n && root->num_visits == n, "the root was not visited once per trial"); Check<Al> c{env, a.mcts_mode, a.max_depth, dp}; c.dnode(*root, true); if (K<Al>::uct || !dp) if constexpr (K<Al>::uct || K<Al>::emp) { double s = K<Al>::emp ? HV[0] : 0; for (int i = 0; i < n; i++) s += env->ret[i] + HV[env->last[i]]; ASSERT(vs_near(root->avg_return * (n + K<Al>::emp), s, 1e-4), "the value of the root is not the mean of the returns of the trials"); } vs_reach("end");
}
#define SE(al, T) ENTRY(h_search_##al) { search<T>(VS_TIER ? 4 : 3, 1); } ENTRY(h_search2_##al) { search<T>(VS_TIER ? 2 : 1, 2); } ENTRY(h_searchlong_##al) { search<T>(VS_TIER ? 3 : 2, 1, VS_TIER ? 60 : 25); }
SE(uct, Uct) SE(puct, Puct) SE(ments, Ments) SE(dbments, DBMents) SE(rents, Rents) SE(tents, Tents) SE(dents, Dents) SE(est, Est)
