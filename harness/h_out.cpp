// outcomes of chance nodes follow the environment; printed trees show what is there
#include "prelude.h"
#include "algs.h"
static inline Ob O_(int i) { return static_pointer_cast<const Observation>(S_(i)); }
static vector<double> gUs; static size_t gAt;
template <class M> struct UM : M { using M::M; double get_rand_uniform() override { return gAt < gUs.size() ? gUs[gAt++] : 0.5; } int get_rand_int(int lo, int hi) override { vs_fail("the outcome was chosen by a random integer"); return lo; } };
struct PEnv : VEnv { using VEnv::VEnv; St sample_transition_distribution_itfc(St st, Ac a, RandManager& rm) const override { auto& tr = s[sid(st)].acts[aid(a)].tr; double u = rm.get_rand_uniform(), c = 0; for (auto& t : tr) { c += t.p; if (u < c) return S_(t.to); } return S_(tr.back().to); } };
// the outcome for draw u must be one whose probability mass, in some order of the outcomes, contains u
static bool fits(const vector<double>& p, int o, double u) { int n = p.size(); bool ok = false; double e = vs_symbolic() ? 0 : 1e-9; for (int m = 0; m < (1 << n); m++) { if (m >> o & 1) continue; double c = 0; for (int i = 0; i < n; i++) if (m >> i & 1) c += p[i]; ok = ok | ((u >= c - e) & (u < c + p[o] + e)); } return ok; }
template <class Al> static void outcomes(int n, int draws) {
    auto env = make_shared<PEnv>(n + 1); vector<double> p; double left = 1.0; for (int i = 0; i < n; i++) { double x = i + 1 == n ? left : vs_real("p", 0.0, 1.0); if (i + 1 < n) { vs_assume(x <= left); left = left - x; } p.push_back(x); } vector<Tr> tr; for (int i = 0; i < n; i++) tr.push_back({i + 1, p[i]}); env->act(0, 1.0, tr); for (int i = 1; i <= n; i++) env->sink(i);
    typename Al::Args a(env); a.seed = 7; auto m = make_shared<UM<typename Al::Mgr>>(a); auto d = make_shared<typename Al::D>(m, S_(0), 0, 0); auto c = d->create_child_node_itfc(A_(0)); ThtsEnvContext ctx; set<int> seen; gUs.clear(); gAt = 0;
    for (int k = 0; k < draws; k++) { double u = vs_real("u", 0.0, 1.0); vs_assume(u < 1.0); gUs.push_back(u); c->visit_itfc(ctx); Ob ob = c->sample_observation_itfc(ctx); int o = sid(ob) - 1; ASSERT(o >= 0 && o < n, "an impossible outcome was sampled"); ASSERT(gAt == (size_t)k + 1, "an outcome was not sampled with one draw"); ASSERT(fits(p, o, u), "an outcome is not sampled with the probability the environment gives it"); if (vs_symbolic()) ASSERT(p[o] > 0.0, "an outcome of probability zero was sampled"); seen.insert(o); ASSERT(c->has_child_node_itfc(ob), "the sampled outcome has no child node"); auto k2 = c->get_child_node_itfc(ob); ASSERT(sid(k2->state) == o + 1 && k2->decision_depth == 1, "the child of the sampled outcome has another state"); ASSERT(c->get_num_children() == (int)seen.size(), "sampling created other children than the one sampled"); vs_reach(o == 0 ? "first" : "other"); } vs_reach("end");
}
#define OU(al, T) ENTRY(h_out2_##al) { outcomes<T>(2, 2); } ENTRY(h_out3_##al) { outcomes<T>(3, VS_TIER ? 2 : 1); }
OU(uct, Uct) OU(puct, Puct) OU(ments, Ments) OU(dbments, DBMents) OU(rents, Rents) OU(tents, Tents) OU(dents, Dents) OU(est, Est)
// ---- printed trees
struct PN { char kind; double val; double visits; bool dots = false; map<string, PN> kids; };
struct Parse { string s; size_t i = 0; void need(const string& t) { if (s.compare(i, t.size(), t) != 0) vs_fail("a printed tree is not laid out as documented"); i += t.size(); } bool at(const string& t) { return s.compare(i, t.size(), t) == 0; }
    void blanks() { while (i < s.size() && (s[i] == '\n' || s[i] == '|' || s[i] == '\t')) i++; }
    PN node() { PN n; n.kind = s[i]; if (n.kind != 'D' && n.kind != 'C') vs_fail("a printed tree is not laid out as documented"); i++; need("(vl="); size_t e = s.find(",#v=", i); if (e == string::npos) vs_fail("a printed tree is not laid out as documented"); n.val = vs_tok(s.substr(i, e - i).c_str()); i = e + 4; e = s.find(")", i); n.visits = vs_tok(s.substr(i, e - i).c_str()); i = e; need(")["); if (at("...")) { n.dots = true; i += 3; } blanks();
        while (i < s.size() && !at("],")) { size_t e = s.find("->", i); if (e == string::npos) vs_fail("a printed tree is not laid out as documented"); string l = s.substr(i, e - i); i = e + 2; ASSERT(!n.kids.count(l), "a printed tree shows a child twice"); n.kids[l] = node(); blanks(); } need("],"); return n; } };
template <class Al> static double valD(typename Al::D& d) { if constexpr (is_same<Al, Uct>::value || is_same<Al, Puct>::value) return d.avg_return; else if constexpr (is_same<Al, Ments>::value || is_same<Al, Rents>::value || is_same<Al, Tents>::value) return d.soft_value; else return d.dp_value; }
template <class Al> static double valC(typename Al::C& c) { if constexpr (is_same<Al, Uct>::value || is_same<Al, Puct>::value) return c.avg_return; else if constexpr (is_same<Al, Ments>::value || is_same<Al, Rents>::value || is_same<Al, Tents>::value) return c.soft_value; else return c.dp_value; }
template <class Al, class N> static void setV(N& n) { double v = vs_real("value", -50, 50); if constexpr (is_same<Al, Dents>::value) { static int k = 3; n.num_visits = k++; } else n.num_visits = vs_int("visits", 0, 99999); if constexpr (is_same<Al, Uct>::value || is_same<Al, Puct>::value) n.avg_return = v; else if constexpr (is_same<Al, Ments>::value || is_same<Al, Rents>::value || is_same<Al, Tents>::value) n.soft_value = v; else n.dp_value = v; }
template <class Al> static void cmpD(const PN& p, typename Al::D& d, int depth); 
template <class Al> static void cmpC(const PN& p, typename Al::C& c, int depth) { ASSERT(p.kind == 'C' && !p.dots, "a printed tree shows a chance node as something else"); ASSERT(vs_near(p.val, valC<Al>(c), 0.01) && p.visits == c.num_visits, "a printed tree shows another value or visit count than the node has"); ASSERT(p.kids.size() == c.children.size(), "a printed tree does not show the outcomes of a chance node"); for (auto& k : c.children) { auto it = p.kids.find("{(" + to_string(sid(k.first)) + ")}"); ASSERT(it != p.kids.end(), "a printed tree does not show an outcome"); cmpD<Al>(it->second, (typename Al::D&)*k.second, depth - 1); } }
template <class Al> static void cmpD(const PN& p, typename Al::D& d, int depth) { ASSERT(p.kind == 'D', "a printed tree shows a decision node as something else"); ASSERT(vs_near(p.val, valD<Al>(d), 0.01) && p.visits == d.num_visits, "a printed tree shows another value or visit count than the node has"); if (depth == 0) { ASSERT(p.kids.empty() && p.dots == !d.is_leaf(), "a printed tree does not end at the depth requested"); vs_reach("cut"); return; } ASSERT(!p.dots && p.kids.size() == d.children.size(), "a printed tree does not show the actions of a decision node"); for (auto& k : d.children) { auto it = p.kids.find("\"" + to_string(aid(k.first)) + "\""); ASSERT(it != p.kids.end(), "a printed tree does not show an action"); cmpC<Al>(it->second, (typename Al::C&)*k.second, depth); } }
template <class Al> static void printing() {
    auto env = make_shared<VEnv>(4); for (int s = 0; s < 3; s++) for (int a = 0; a < 2; a++) env->act(s, 1.0, {{1 + a, 0.5}, {2 + a, 0.5}}); env->sink(3); typename Al::Args a(env); a.seed = 7; a.max_depth = 2; auto m = make_shared<typename Al::Mgr>(a); auto root = make_shared<typename Al::D>(m, S_(0), 0, 0); root->num_visits = vs_int("visits", 0, 9);
    int shape = vs_choose("shape", 4); vector<shared_ptr<ThtsDNode>> lv{root}; for (int dep = 0; dep < 2; dep++) { vector<shared_ptr<ThtsDNode>> nx; for (auto& d : lv) if (!d->is_leaf()) for (int ai = 0; ai < (shape & 1 ? 2 : 1); ai++) { auto c = d->create_child_node_itfc(A_(ai)); setV<Al>((typename Al::C&)*c); for (int o = 0; o < (shape & 2 && dep == 0 ? 2 : 1); o++) { auto k = c->create_child_node_itfc(O_(1 + ai + o)); setV<Al>((typename Al::D&)*k); nx.push_back(k); } } lv = nx; if (shape == 0 && vs_choose("stop", 2)) break; }
    int depth = vs_choose("depth", 4); Parse p; p.s = root->get_pretty_print_string(depth); PN t = p.node(); ASSERT(p.i == p.s.size(), "a printed tree has something after the root"); cmpD<Al>(t, *root, depth); vs_reach("end");
}
#define PR(al, T) ENTRY(h_show_##al) { printing<T>(); }
PR(uct, Uct) PR(ments, Ments) PR(dbments, DBMents) PR(tents, Tents) PR(est, Est) PR(dents, Dents)
