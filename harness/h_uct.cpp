// UCT and PUCT: backups, selection, recommendation
#include "prelude.h"
#include "algs.h"
// random numbers chosen by the harness: digits of gDraw for integers, gU for uniforms
static int gDraw; static double gU;
template <class M> struct Det : M { using M::M;
    int get_rand_int(int lo, int hi) override { if (hi <= lo) vs_fail("a random integer was requested from an empty range"); int d = gDraw % 6; gDraw /= 6; return lo + d % (hi - lo); }
    double get_rand_uniform() override { return gU; } };
static double gHv; static double heur(St s, shared_ptr<ThtsEnv> e) { return gHv; }
static vector<double> gPrior; static shared_ptr<ActionPrior> prior(St s, shared_ptr<ThtsEnv> e) { auto p = make_shared<ActionPrior>(); for (size_t i = 0; i < gPrior.size(); i++) p->insert_or_assign(A_(i), gPrior[i]); return p; }
static shared_ptr<VEnv> env1(int acts) { auto e = make_shared<VEnv>(2); for (int i = 0; i < acts; i++) e->act(0, 0.5 * i, {{1, 1.0}}); e->sink(1); return e; }
static const double T9 = 1e-6;

// ---- C09: running means
template <class Al> static void mean(bool chance) {
    auto env = env1(2); typename Al::Args a(env); a.seed = 7; gHv = vs_real("h", -100, 100); int pt = vs_choose("pseudo", 4); bool hf = vs_bool("has_heuristic"); a.heuristic_fn = hf ? heur : nullptr; a.heuristic_psuedo_trials = pt; a.is_two_player_game = vs_bool("two_player");
    auto mgr = make_shared<Det<typename Al::Mgr>>(a); int ts = vs_choose("timestep", 2); auto d = make_shared<typename Al::D>(mgr, S_(0), ts, ts); ThtsEnvContext ctx; auto c = static_pointer_cast<typename Al::C>(d->create_child_node_itfc(A_(0)));
    double sum = chance || !hf ? 0.0 : gHv * pt; int n = chance || !hf ? 0 : pt; int base = n; ASSERT((chance ? c->num_backups : d->num_backups) == n, "a new node starts with the wrong number of backups"); if (n > 0) ASSERT(vs_near(d->avg_return, gHv, T9), "a new node with a heuristic does not have its value");
    int B = VS_TIER ? 6 : 4; for (int i = 0; i < B; i++) { double r = vs_real("ret", -100, 100), tot = vs_real("total", -100, 100), b1 = vs_real("before", -100, 100), a1 = vs_real("after", -100, 100); vector<double> bf{b1}, af{a1, r}; sum += r; n++;
        if (chance) c->backup_itfc(bf, af, r, tot, ctx); else d->backup_itfc(bf, af, r, tot, ctx);
        double avg = chance ? c->avg_return : d->avg_return; int nb = chance ? c->num_backups : d->num_backups;
        ASSERT(nb == n, "a backup did not count as one"); ASSERT(vs_near(avg * n, sum, 1e-5), "the value of a node is not the mean of the returns backed up"); ASSERT((chance ? d->num_backups : c->num_backups) == (chance ? (hf ? pt : 0) : 0), "a backup of one node changed another"); }
    ASSERT(d->num_visits == (hf ? pt : 0) && c->num_visits == 0, "a backup changed the number of visits"); int dv = d->num_visits; d->visit_itfc(ctx); c->visit_itfc(ctx); c->visit_itfc(ctx); ASSERT(d->num_visits == dv + 1 && c->num_visits == 2, "a visit did not count as one"); vs_reach("end");
}
ENTRY(h_mean_uct_d) { mean<Uct>(false); }
ENTRY(h_mean_uct_c) { mean<Uct>(true); }
ENTRY(h_mean_puct_d) { mean<Puct>(false); }
ENTRY(h_mean_puct_c) { mean<Puct>(true); }

// one more backup after any history: the mean of n returns becomes the mean of n + 1
template <class Al> static void meanStep(bool chance) {
    auto env = env1(2); typename Al::Args a(env); a.seed = 7; a.heuristic_fn = nullptr; a.is_two_player_game = vs_bool("two_player"); auto mgr = make_shared<Det<typename Al::Mgr>>(a); int ts = vs_choose("timestep", 2); auto d = make_shared<typename Al::D>(mgr, S_(0), ts, ts); ThtsEnvContext ctx; auto c = static_pointer_cast<typename Al::C>(d->create_child_node_itfc(A_(0)));
    int n = vs_int("n", 0, 1000000); double avg = vs_real("avg", -100, 100), r = vs_real("ret", -100, 100), tot = vs_real("total", -100, 100); vector<double> e; auto& x = chance ? c->avg_return : d->avg_return; auto& k = chance ? c->num_backups : d->num_backups; x = avg; k = n; if (n == 0) x = 0.0; int nv = vs_int("nv", 0, 1000000); (chance ? c->num_visits : d->num_visits) = nv; if (chance) c->backup_itfc(e, e, r, tot, ctx); else d->backup_itfc(e, e, r, tot, ctx);
    ASSERT(k == n + 1, "a backup did not count as one"); ASSERT(vs_near((x - (n > 0 ? avg : 0.0)) * (double)(n + 1), r - (n > 0 ? avg : 0.0), 1e-5), "the value of a node is not the mean of the returns backed up"); vs_reach("end");
}
ENTRY(h_meanstep_uct_d) { meanStep<Uct>(false); }
ENTRY(h_meanstep_uct_c) { meanStep<Uct>(true); }
ENTRY(h_meanstep_puct_d) { meanStep<Puct>(false); }
ENTRY(h_meanstep_puct_c) { meanStep<Puct>(true); }
// ---- a node with given statistics
template <class Al> struct Node {
    shared_ptr<VEnv> env; shared_ptr<Det<typename Al::Mgr>> mgr; shared_ptr<typename Al::D> d; ThtsEnvContext ctx; int n; vector<double> v; vector<int> cv; vector<bool> tried; double opp = 1.0;
    Node(int acts, function<void(typename Al::Args&)> cfg, bool anyPlayer = true) : n(acts), v(acts, 0.0), cv(acts, 0), tried(acts, false) {
        env = env1(acts); typename Al::Args a(env); a.seed = 7; a.heuristic_fn = nullptr; int ts = 0; if (anyPlayer) { a.is_two_player_game = vs_bool("two_player"); ts = vs_choose("timestep", 2); } cfg(a); mgr = make_shared<Det<typename Al::Mgr>>(a); d = make_shared<typename Al::D>(mgr, S_(0), ts, ts); opp = a.is_two_player_game && ts == 1 ? -1.0 : 1.0; gDraw = 0; gU = 0.9999; }
    void child(int i, double val, int visits) { vector<double> e; auto c = d->create_child_node_itfc(A_(i)); c->backup_itfc(e, e, val, val, ctx); c->num_visits = visits; v[i] = val; cv[i] = visits; tried[i] = true; }
    int select(int draw = 0) { gDraw = draw; Ac a = d->select_action_itfc(ctx); int i = aid(a); ASSERT(i >= 0 && i < n, "an invalid action was selected"); ASSERT(d->has_child_node_itfc(a), "the selected action has no child node"); return i; }
    int recommend(int draw = 0) { gDraw = draw; Ac a = d->recommend_action_itfc(ctx); int i = aid(a); ASSERT(i >= 0 && i < n, "an invalid action was recommended"); return i; }
    void stats(int maxv) { for (int i = 0; i < n; i++) child(i, vs_real("v", -100, 100), vs_int("cv", 1, maxv)); int nv = vs_int("nv", 1, maxv); d->num_visits = nv; }
};
static double uctTerm(int nv, int cv) { return sqrt(log((double)(nv > 0 ? nv : 1)) / (double)(cv > 0 ? cv : 1)); }
// ---- C10
ENTRY(h_uct_untried) {
    int n = 3; Node<Uct> N(n, [](UctManagerArgs& a) { a.bias = vs_real("bias", 0.001, 10); }); int k = 0; for (int i = 0; i < n; i++) if (vs_bool("tried")) { N.child(i, vs_real("v", -100, 100), vs_int("cv", 1, 100)); k++; } if (k == n) return; N.d->num_visits = vs_int("nv", 0, 100);
    int dr = vs_choose("draw", 6); int s = N.select(dr); ASSERT(!N.tried[s], "a tried action was selected although another has not been tried"); ASSERT(N.d->get_num_children() == k + 1, "selecting created a wrong number of children"); if (k == 0) vs_reach("none-tried"); vs_reach("end");
}
ENTRY(h_uct_untried_all) { // every untried action is possible
    int tried = vs_choose("tried", 4); set<int> got; for (int dr = 0; dr < 6; dr++) { Node<Uct> N(3, [](UctManagerArgs& a) { a.bias = 1.0; }, false); if (tried < 3) N.child(tried, 1.0, 2); N.d->num_visits = 2; got.insert(N.select(dr)); }
    for (int i = 0; i < 3; i++) ASSERT(got.count(i) == (i != tried), "an untried action cannot be selected, or a tried one is"); vs_reach("end");
}
static void ucb(int n) {
    double bias = vs_real("bias", 0.0, 10); Node<Uct> N(n, [&](UctManagerArgs& a) { a.bias = bias; }); N.stats(1000000); int s = N.select(vs_choose("draw", n)); double me = N.opp * N.v[s] + bias * uctTerm(N.d->num_visits, N.cv[s]);
    for (int i = 0; i < n; i++) if (i != s) ASSERT(vs_ge(me, N.opp * N.v[i] + bias * uctTerm(N.d->num_visits, N.cv[i]), T9), "the selected action does not have the highest confidence bound"); ASSERT(N.d->get_num_children() == n, "selecting changed the children"); vs_reach("end"); if (N.opp < 0) vs_reach("opponent");
}
ENTRY(h_uct_ucb) { ucb(2); }
ENTRY(h_uct_ucb3) { ucb(3); }
ENTRY(h_uct_ucb_real) { // the true logarithm and square root on small counts
    double bias = vs_real("bias", 0.0, 10); Node<Uct> N(2, [&](UctManagerArgs& a) { a.bias = bias; }); static const int CV[] = {1, 2, 7, 100000}, NV[] = {1, 3, 50, 1000000}; for (int i = 0; i < 2; i++) N.child(i, vs_real("v", -100, 100), CV[vs_choose("cv", 4)]); N.d->num_visits = NV[vs_choose("nv", 4)]; int s = N.select(0), o = 1 - s;
    auto sc = [&](int i) { return N.opp * N.v[i] + bias * sqrt(log((double)N.d->num_visits) / N.cv[i]); }; ASSERT(vs_ge(sc(s), sc(o), T9), "the selected action does not have the highest confidence bound"); vs_reach("end");
}
ENTRY(h_uct_tie) { // actions that cannot be told apart are all possible
    int n = 3; int out = vs_choose("worse", 4); double v = vs_real("v", -100, 100), w = vs_real("w", 0.01, 100); set<int> got; double bias = vs_real("bias", 0.001, 10); int cvv = vs_int("cv", 1, 100), nvv = vs_int("nv", 1, 100); bool tp = vs_bool("two"); 
    for (int dr = 0; dr < 6; dr++) { Node<Uct> N(n, [&](UctManagerArgs& a) { a.bias = bias; a.is_two_player_game = false; }, false); for (int i = 0; i < n; i++) N.child(i, i == out ? v - w : v, cvv); N.d->num_visits = nvv; got.insert(N.select(dr)); }
    for (int i = 0; i < n; i++) ASSERT(got.count(i) == (i != out), i == out ? "an action that does not have the highest confidence bound was selected" : "an action with the highest confidence bound cannot be selected"); vs_reach("end");
}
ENTRY(h_uct_eps) { // exploration draws
    double eps = vs_real("eps", 0, 1), u = vs_real("u", 0, 1); vs_assume(u < 1.0); double v0 = vs_real("v0", -100, 100), v1 = vs_real("v1", -100, 100); set<int> got; vs_assume(v0 > v1 + 0.01);
    for (int dr = 0; dr < 2; dr++) { Node<Uct> N(2, [&](UctManagerArgs& a) { a.bias = 1.0; a.epsilon_exploration = eps; a.is_two_player_game = false; }, false); N.child(0, v0, 5); N.child(1, v1, 5); N.d->num_visits = 10; gU = u; got.insert(N.select(dr)); }
    if (u < eps) { ASSERT(got.size() == 2, "an exploring selection does not choose among all actions"); vs_reach("explore"); } else { ASSERT(got.size() == 1 && got.count(0), "a selection that does not explore does not take the highest confidence bound"); vs_reach("greedy"); } vs_reach("end");
}
ENTRY(h_uct_eps_untried) { // an exploring selection may also take an untried action, and then creates it
    Node<Uct> N(2, [&](UctManagerArgs& a) { a.bias = 1.0; a.epsilon_exploration = 1.0; a.is_two_player_game = false; }, false); N.child(0, 1.0, 5); N.d->num_visits = 5; gU = 0.5; int s = N.select(vs_choose("draw", 2)); ASSERT(N.d->get_num_children() == (s == 0 ? 1 : 2), "selecting created a wrong number of children"); vs_reach("end");
}
// ---- C11
template <class Al> static double term(Node<Al>& N, int i, double power) { return uctTerm(N.d->num_visits, N.cv[i]); }
template <> double term<Puct>(Node<Puct>& N, int i, double power) { int nv = N.d->num_visits, cv = N.cv[i]; double x = nv > 0 ? nv : 1, y = cv > 0 ? cv : 1; return (power == 0.5 ? sqrt(x) : pow(x, power)) / y; }
template <class Al> static void setPower(typename Al::Args& a, double p) {} template <> void setPower<Puct>(PuctManagerArgs& a, double p) { a.puct_power = p; }
template <class Al> static void prioSel(bool hasPrior, bool autoBias, double power, bool allTried) {
    double bias = autoBias ? -1.0 : vs_real("bias", 0.0, 10); int n = 2; gPrior.clear(); for (int i = 0; i < n; i++) gPrior.push_back(hasPrior ? vs_real("prior", 0, 1) : 1.0);
    Node<Al> N(n, [&](typename Al::Args& a) { a.bias = bias; a.prior_fn = hasPrior ? prior : nullptr; setPower<Al>(a, power); });
    for (int i = 0; i < n; i++) if (allTried || vs_bool("tried")) N.child(i, vs_real("v", -100, 100), vs_int("cv", 1, 1000000)); N.d->num_visits = vs_int("nv", 0, 1000000); 
    if (autoBias) { bias = 0.001; for (int i = 0; i < n; i++) if (N.tried[i]) { double x = N.v[i] < 0 ? -N.v[i] : N.v[i]; if (x > bias) bias = x; } }
    auto tr = N.tried; double sc[4]; for (int i = 0; i < n; i++) sc[i] = term<Al>(N, i, power) * bias * gPrior[i] + (N.tried[i] ? N.opp * N.v[i] : 0.0);
    int s = N.select(vs_choose("draw", n)); for (int i = 0; i < n; i++) if (i != s) ASSERT(vs_ge(sc[s], sc[i], T9), "the selected action does not have the highest score"); vs_reach("end"); if (!tr[s]) vs_reach("untried"); if (N.opp < 0) vs_reach("opponent");
}
ENTRY(h_prior_uct) { prioSel<Uct>(true, false, 0.5, false); }
ENTRY(h_prior_uct_auto) { prioSel<Uct>(true, true, 0.5, false); }
ENTRY(h_auto_uct) { prioSel<Uct>(false, true, 0.5, true); }
ENTRY(h_puct) { prioSel<Puct>(false, false, 0.5, true); }
ENTRY(h_puct_prior) { prioSel<Puct>(true, false, 0.5, false); }
ENTRY(h_puct_auto) { prioSel<Puct>(true, true, 0.5, false); }
ENTRY(h_puct_power) { prioSel<Puct>(true, false, 1.0, false); }
ENTRY(h_puct_power2) { prioSel<Puct>(true, false, vs_real("power", 0.1, 2.0), true); }
ENTRY(h_auto_neg) { // the automatic bias takes the magnitude, whatever the sign, also for untried siblings
    Node<Uct> N(2, [&](UctManagerArgs& a) { a.is_two_player_game = false; }, false); ASSERT(N.mgr->bias == -1.0, "the automatic bias is not the default"); double v = vs_real("v", -100, -0.1); N.child(0, v, 1); N.child(1, v - 0.05 * vs_choose("gap", 2), 2); N.d->num_visits = 3; int s = N.select(vs_choose("draw", 2));
    double b = -v > 0.001 ? -v : 0.001; double m1 = -N.v[1]; if (m1 > b) b = m1; double s0 = v + b * uctTerm(3, 1), s1 = N.v[1] + b * uctTerm(3, 2); ASSERT(s == 0 ? vs_ge(s0, s1, T9) : vs_ge(s1, s0, T9), "the selected action does not have the highest score"); vs_reach("end");
}
// ---- C12
template <class Al> static void recommend(bool most, int n) {
    Node<Al> N(n, [&](typename Al::Args& a) { if (most) { ASSERT(a.recommend_most_visited, "recommending the most visited action is not the default"); } else a.recommend_most_visited = false; }); for (int i = 0; i < n; i++) if (vs_bool("tried")) N.child(i, vs_real("v", -100, 100), vs_int("cv", 0, 1000)); int any = N.d->get_num_children(); N.d->num_visits = vs_int("nv", 0, 2000);
    int s = N.recommend(vs_choose("draw", n)); if (any) { ASSERT(N.tried[s], "an action that was never tried was recommended"); for (int i = 0; i < n; i++) if (i != s && N.tried[i]) { if (most) ASSERT(N.cv[s] >= N.cv[i], "the recommended action is not the most visited one"); else ASSERT(vs_ge(N.opp * N.v[s], N.opp * N.v[i], 1e-9), "the recommended action does not have the best average for the player to move"); } } else vs_reach("no-children");
    ASSERT(N.d->get_num_children() == any, "a recommendation changed the tree"); vs_reach("end");
}
ENTRY(h_rec_most) { recommend<Uct>(true, 3); }
ENTRY(h_rec_best) { recommend<Uct>(false, 3); }
ENTRY(h_rec_puct) { recommend<Puct>(true, 2); }
ENTRY(h_rec_all) { // every maximiser is possible; without children every action is
    bool most = vs_bool("most"); int shape = vs_choose("shape", 5); set<int> got; double v = vs_real("v", -100, 100), w = vs_real("w", 0.01, 100); int cv = vs_int("cv", 2, 1000000); bool ch = shape < 4;
    for (int dr = 0; dr < 6; dr++) { Node<Uct> N(3, [&](UctManagerArgs& a) { a.recommend_most_visited = most; a.is_two_player_game = false; }, false); if (ch) for (int i = 0; i < 3; i++) N.child(i, i == shape && !most ? v - w : v, i == shape && most ? cv - 1 : cv); got.insert(N.recommend(dr)); }
    for (int i = 0; i < 3; i++) ASSERT(got.count(i) == (i != shape), "an action with the maximum cannot be recommended, or another one is"); vs_reach("end");
}
// ---- C32: two player symmetry
template <class Al> static void symmetry(bool pr) {
    double v[2] = {vs_real("v", -50, 50), vs_real("v", -50, 50)}; static const int CV[] = {1, 3, 10}; int cv[2] = {CV[vs_choose("cv0", 3)], CV[vs_choose("cv1", 3)]}; int nv = cv[0] + cv[1]; double bias = vs_bool("auto") ? UctManagerArgs::USE_AUTO_BIAS : vs_real("bias", 0.1, 10); bool t1 = vs_bool("tried1"), most = vs_bool("most_visited"); int draw = vs_choose("draw", 2); double eps = vs_bool("eps") ? 0.5 : 0.0, u = vs_bool("u") ? 0.2 : 0.8; gPrior.clear(); if (pr) { double p = vs_real("prior", 0.1, 0.9); gPrior = {p, 1.0 - p}; }
    auto go = [&](int ts, bool two, double sg, int* out, double& val) { auto env = env1(2); typename Al::Args a(env); a.seed = 7; a.is_two_player_game = two; a.bias = bias; a.epsilon_exploration = eps; a.recommend_most_visited = most; a.prior_fn = pr ? prior : nullptr; auto m = make_shared<Det<typename Al::Mgr>>(a); auto d = make_shared<typename Al::D>(m, S_(0), ts, ts); ThtsEnvContext ctx; vector<double> e; gU = u;
        for (int i = 0; i < 2; i++) if (i == 0 || t1) { auto c = d->create_child_node_itfc(A_(i)); c->backup_itfc(e, e, sg * v[i], sg * v[i], ctx); c->num_visits = cv[i]; } d->num_visits = nv; gDraw = draw; out[0] = aid(d->recommend_action_itfc(ctx)); gDraw = draw; out[1] = aid(d->select_action_itfc(ctx)); d->backup_itfc(e, e, sg * v[0], sg * v[0], ctx); val = d->avg_return; };
    int a[2], b[2], c[2]; double x, y, z; go(0, true, 1.0, a, x); go(1, true, -1.0, b, y); go(1, false, 1.0, c, z); ASSERT(a[0] == b[0], "the opponent's recommendation is not the mirrored one"); ASSERT(a[1] == b[1], "the opponent's selection is not the mirrored one"); ASSERT(a[0] == c[0] && a[1] == c[1], "values are negated in a one player problem"); ASSERT(vs_near(x, -y, 1e-5) && vs_near(x, z, 1e-5), "the opponent's value is not the mirrored one"); vs_reach("end");
}
ENTRY(h_sym_uct) { symmetry<Uct>(false); }
ENTRY(h_sym_uct_prior) { symmetry<Uct>(true); }
ENTRY(h_sym_puct) { symmetry<Puct>(false); }
