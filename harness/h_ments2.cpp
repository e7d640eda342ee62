// RENTS, TENTS, dynamic programming, DENTS, EST, recommendation, temperatures, two player symmetry
#include "mnode.h"
// ---- C16
static shared_ptr<VEnv> chain(vector<int> acts) { auto e = make_shared<VEnv>(acts.size() + 1); for (size_t s = 0; s < acts.size(); s++) for (int i = 0; i < acts[s]; i++) e->act(s, 0.0, {{(int)s + 1, 1.0}}); e->sink(acts.size()); return e; }
struct RentsChain { shared_ptr<VEnv> env; shared_ptr<Det<MentsManager>> mgr; vector<shared_ptr<RentsDNode>> d; vector<double> opp; vector<vector<double>> v; double temp; vector<int> acts;
    RentsChain(vector<int> a_, double t, double eps, bool two) : temp(t), acts(a_) { env = chain(a_); MentsManagerArgs a(env); a.seed = 7; a.temp = t; a.epsilon = eps; a.max_explore_prob = 1.0; a.is_two_player_game = two; mgr = make_shared<Det<MentsManager>>(a); gDraw = 0; gU = 0.5; d.push_back(make_shared<RentsDNode>(mgr, S_(0), 0, 0));
        for (size_t s = 1; s < acts.size(); s++) { auto c = d.back()->create_child_node_itfc(A_(0)); d.push_back(static_pointer_cast<RentsDNode>(static_pointer_cast<RentsCNode>(c)->create_child_node_itfc(O_(s)))); } for (size_t s = 0; s < acts.size(); s++) { opp.push_back(two && (s & 1) ? -1.0 : 1.0); v.push_back(vector<double>(acts[s], 0.0)); d[s]->num_visits = 20; } }
    void val(int s, int i, double x) { auto c = static_pointer_cast<RentsCNode>(d[s]->create_child_node_itfc(A_(i))); c->soft_value = x; v[s][i] = x; }
    map<int, double> distr(int s, ThtsEnvContext& c) { ActionDistr ad; d[s]->compute_action_distribution(ad, c); map<int, double> m; for (int i = 0; i < acts[s]; i++) m[i] = 0.0; for (auto& p : ad) m[aid(p.first)] = p.second; return m; }
    vector<double> w(int s, map<int, double> par, double& tot, double& mx) { vector<double> z, r; for (int i = 0; i < acts[s]; i++) z.push_back(opp[s] * v[s][i] / temp); mx = rmax(z); tot = 0; for (int i = 0; i < acts[s]; i++) { double x = exp(z[i] - mx) * (par.size() ? par[i] : 1.0); r.push_back(x); tot += x; } return r; } };
static void rents(bool first) { // each decision node of a trial sees the policy used one step before
    static const double TT[] = {1.0, 2.0}; double temp = TT[first ? 0 : vs_choose("temp", 2)], eps = !first && vs_bool("explore") ? 0.4 : 0.0; bool two = vs_bool("two_player"); RentsChain R({2, 2}, temp, eps, two); static const double V[] = {-1.0, 0.0, 1.5}; R.val(0, 0, first ? vs_real("v", -2, 2) : V[vs_choose("pv", 3)]); R.val(0, 1, 0.0); R.val(1, 0, first ? V[vs_choose("cv", 3)] : vs_real("w0", -3, 3)); R.val(1, 1, first ? 0.0 : vs_real("w1", -3, 3));
    ThtsEnvContext ctx; gU = first ? 0.0 : vs_bool("draw") ? 0.001 : 0.999; R.d[0]->select_action_itfc(ctx); double lam = eps > 0 ? eps / log(21.0) : 0.0; auto p0 = R.distr(0, ctx); double t, m; auto w0 = R.w(0, {}, t, m); for (int i = 0; i < 2; i++) ASSERT(vs_near(p0[i], (1 - lam) * w0[i] / t + lam / 2, T5), "the first policy of a trial is not the softmax of the values");
    auto p1 = R.distr(1, ctx); auto w1 = R.w(1, p0, t, m); for (int i = 0; i < 2; i++) ASSERT(vs_near(p1[i], (1 - lam) * w1[i] / t + lam / 2, T5), "the policy is not the softmax of the values weighted by the previous policy of the trial");
    R.d[1]->backup_itfc(NONE, NONE, 0, 0, ctx); ASSERT(vs_near(R.d[1]->soft_value, R.opp[1] * temp * (log(t) + m), T5), "the value backed up is not the relative entropy soft value"); vs_reach("end"); if (two) vs_reach("opponent");
}
ENTRY(h_rents) { rents(false); }
ENTRY(h_rents_par) { rents(true); }
ENTRY(h_rents_prev) { // the policy used is the one of the step before, not an older one, and not the one of another trial
    static const double V[] = {-1.0, 1.5}; RentsChain R({2, 2, 2}, 1.0, 0.0, false); for (int s = 0; s < 3; s++) { R.val(s, 0, s == 2 ? vs_real("v", -2, 2) : V[vs_choose("pv", 2)]); R.val(s, 1, 0.0); } ThtsEnvContext ctx, other; R.d[0]->select_action_itfc(ctx); auto p0 = R.distr(0, ctx); R.d[1]->select_action_itfc(ctx); auto p1 = R.distr(1, ctx);
    { double keep = R.v[0][0]; R.val(0, 0, 1.0); R.val(0, 1, -1.0); R.d[0]->select_action_itfc(other); R.val(0, 0, keep); R.val(0, 1, 0.0); } // another trial passes with another policy
    double t, m; auto p2 = R.distr(2, ctx); auto w2 = R.w(2, p1, t, m); for (int i = 0; i < 2; i++) ASSERT(vs_near(p2[i], w2[i] / t, T5), "the policy is not weighted by the policy of the previous step of this trial");
    auto q1 = R.distr(1, ctx); auto w1 = R.w(1, p0, t, m); for (int i = 0; i < 2; i++) ASSERT(vs_near(q1[i], w1[i] / t, T5), "another trial changed the policy this trial is weighted by"); vs_reach("end");
}
ENTRY(h_rents_long) { // the same at every step of a long trial
    static const double V[] = {-1.0, 0.75, 0.5, -0.5}; int K = VS_TIER ? 24 : 12; RentsChain R(vector<int>(K, 2), 1.0, 0.0, true); for (int s = 0; s < K; s++) { R.val(s, 0, R.opp[s] * V[s % 4]); R.val(s, 1, 0.0); } int at = VS_TIER ? 1 + vs_choose("at", K - 1) : vs_bool("late") ? 10 : 4; R.val(at, 0, vs_real("v", -2, 2)); ThtsEnvContext ctx; map<int, double> prev;
    for (int s = 0; s <= at; s++) { double t, m; auto p = R.distr(s, ctx); auto w = R.w(s, prev, t, m); for (int i = 0; i < 2; i++) ASSERT(vs_near(p[i], w[i] / t, T5), "the policy is not weighted by the policy of the previous step of this trial"); if (s < at) R.d[s]->select_action_itfc(ctx); prev = p; } vs_reach("end");
}
ENTRY(h_rents_missing) { // actions the previous policy did not have get nothing; if all vanish the policy is uniform
    bool far = vs_bool("far"); RentsChain R({1, 2}, 1.0, 0.0, vs_bool("two_player")); double x = far ? -2000.0 * R.opp[1] : vs_real("v", -5, 5); R.val(1, 0, x); R.val(1, 1, 0.0); ThtsEnvContext ctx; R.d[0]->select_action_itfc(ctx); auto p = R.distr(1, ctx);
    if (far) { ASSERT(vs_near(p[0], 0.5, T5) && vs_near(p[1], 0.5, T5), "a policy that vanishes is not replaced by the uniform one"); vs_reach("vanish"); } else { ASSERT(vs_near(p[0], 1.0, T5) && vs_near(p[1], 0.0, T5), "an action the previous policy did not have is not left out"); R.d[1]->backup_itfc(NONE, NONE, 0, 0, ctx); ASSERT(vs_near(R.d[1]->soft_value, x, T5), "the value is not that of the remaining action"); } vs_reach("end");
}
// ---- C17
// the projection onto the simplex: the support is a prefix of the actions in descending order
static double sparse(const vector<double>& q, vector<double>& p) { int n = q.size(); vector<int> o; for (int i = 0; i < n; i++) { int k = o.size(); while (k > 0 && q[o[k - 1]] < q[i]) k--; o.insert(o.begin() + k, i); } int z = 1; double sum = q[o[0]], sq = q[o[0]] * q[o[0]]; for (int k = 1; k < n; k++) { if (1.0 + k * q[o[k]] > sum) { z++; sum += q[o[k]]; sq += q[o[k]] * q[o[k]]; } else break; } double tau = (sum - 1.0) / z; p.assign(n, 0.0); for (int k = 0; k < z; k++) p[o[k]] = q[o[k]] - tau; return 0.5 + 0.5 * (sq - z * tau * tau); }
static void tents(int n, int cycles, double vmax, int tsel) {
    static const double TT[] = {1.0, 2.0, 0.25}; double temp = tsel < 0 ? vs_real("temp", 0.5, 5) : TT[tsel == 9 ? vs_choose("temp", 3) : tsel], dq = vs_bool("default0") ? 0.0 : -1.5; bool any = n < 3; Node<Tents> N(n, [&](MentsManagerArgs& a) { a.temp = temp; a.default_q_value = dq; a.epsilon = 0.5; a.max_explore_prob = 1.0; }, any); for (int i = 0; i < n; i++) N.v[i] = dq; N.d->num_visits = 2;
    for (int k = 0; k < cycles; k++) { static const double U[] = {0.02, 0.5, 0.98}; gU = n == 2 ? U[2 * vs_choose("draw", 2)] : U[vs_choose("draw", 3)]; int a = N.select(); auto c = static_pointer_cast<TentsCNode>(N.d->get_child_node_itfc(A_(a))); N.v[a] = vs_real("v", -vmax, vmax); c->soft_value = N.v[a]; N.backup(); }
    N.mgr->max_explore_prob = 0.0; auto p = N.distr(); vector<double> q, w; for (int i = 0; i < n; i++) q.push_back(N.opp * N.v[i] / temp); double val = sparse(q, w);
    for (int i = 0; i < n; i++) ASSERT(vs_near(p[i], w[i], T5), "the policy is not the projection of the values onto the simplex"); ASSERT(vs_near(N.d->soft_value, N.opp * temp * val, 1e-4), "the value backed up is not the sparsemax value"); vs_reach("end"); if (N.opp < 0) vs_reach("opponent"); for (int i = 0; i < n; i++) if (w[i] <= 0.0) vs_reach("sparse");
}
ENTRY(h_tents) { tents(2, 2, 10, 9); }
ENTRY(h_tents_temp) { tents(2, 1, 10, -1); }
ENTRY(h_tents_more) { tents(2, 3, 10, 1); }
ENTRY(h_tents3) { tents(3, VS_TIER ? 3 : 2, 10, 0); }
ENTRY(h_tents_ties) { // equal values, and returning to an earlier value
    static const double V[] = {-1.0, 0.0, 2.0}; Node<Tents> N(3, [&](MentsManagerArgs& a) { a.temp = 1.0; a.epsilon = 0.5; a.max_explore_prob = 1.0; }, false); N.d->num_visits = 2; int K = VS_TIER ? 4 : 3; static const double U[] = {0.02, 0.5, 0.98};
    for (int k = 0; k < K; k++) { gU = U[vs_choose("draw", 3)]; int a = N.select(); auto c = static_pointer_cast<TentsCNode>(N.d->get_child_node_itfc(A_(a))); N.v[a] = V[vs_choose("v", 3)]; c->soft_value = N.v[a]; N.backup(); double m = rmax(N.v); vector<double> p(3, 0.0); int c0 = 0; // oracle for these integers: support found by trying all sizes
        double s[3] = {N.v[0], N.v[1], N.v[2]}; sort(s, s + 3); double tau = 0; for (int z = 1; z <= 3; z++) { double sum = 0; for (int i = 0; i < z; i++) sum += s[2 - i]; double t = (sum - 1) / z; if (s[3 - z] - t > 1e-9 && (z == 3 || s[2 - z] - t <= 1e-9)) { tau = t; c0 = z; break; } } (void)m; (void)c0; double val = 0.5; for (int i = 0; i < 3; i++) if (N.v[i] > tau) val += 0.5 * (N.v[i] * N.v[i] - tau * tau);
        double got = N.d->soft_value; ASSERT(got > val - 1e-9 && got < val + 1e-9, "the value backed up is not the sparsemax value (ties)"); } vs_reach("end");
}
// ---- C18
template <class Al> static void dpBackup(int n) {
    double h = 0; Node<Al> N(n, [&](typename Al::Args& a) { if constexpr (isDents<Al>::v) a.use_dp_value = true; }); int k0 = N.d->DPDNode::num_backups; (void)h; int live = 0; double best = 0;
    for (int i = 0; i < n; i++) if (vs_bool("exists")) { auto c = static_pointer_cast<typename Al::C>(N.d->create_child_node_itfc(A_(i))); int nb = is_same<Al, Dents>::value ? 2 * vs_choose("nb", 2) : vs_choose("nb", 3); double v = vs_real("v", -50, 50); c->num_visits = nb + 1; c->DPCNode::num_backups = nb; c->dp_value = v; if (nb > 0) { double x = N.opp * v; if (!live || x > best) best = x; live++; } else vs_reach("unbacked"); }
    vs_assume(live > 0); N.d->num_visits = 3; N.backup(); ASSERT(vs_near(N.d->dp_value, N.opp * best, T5), "the value of a decision node is not that of the best backed up action for the player to move"); ASSERT(N.d->DPDNode::num_backups == k0 + 1, "a backup did not count as one"); N.backup(); ASSERT(vs_near(N.d->dp_value, N.opp * best, T5), "backing up again changed the value"); vs_reach("end"); if (N.opp < 0) vs_reach("opponent");
}
ENTRY(h_dp_dbments) { dpBackup<DBMents>(3); }
ENTRY(h_dp_dents) { dpBackup<Dents>(2); }
ENTRY(h_dp_est) { dpBackup<Est>(2); }
template <class Al> static void dpInit() { // before any backup the value is the heuristic value
    gHv = vs_real("h", -50, 50); bool h = vs_bool("has_h"); auto env = env1(2); typename Al::Args a(env); a.seed = 7; a.heuristic_fn = h ? heur : nullptr; auto m = make_shared<Det<typename Al::Mgr>>(a); auto d = make_shared<typename Al::D>(m, S_(0), 0, 0); ASSERT(vs_near(d->dp_value, h ? gHv : 0.0, T5), "a new node is not worth its heuristic value");
    if constexpr (isDents<Al>::v) ASSERT(vs_near(d->avg_return, h ? gHv : 0.0, T5), "a new node does not average its heuristic value"); auto c = static_pointer_cast<typename Al::C>(d->create_child_node_itfc(A_(0))); auto k = static_pointer_cast<typename Al::D>(c->create_child_node_itfc(O_(1))); ThtsEnvContext ctx; c->backup_itfc(NONE, NONE, 0, 0, ctx); if constexpr (isDents<Al>::v) { if (((DentsManager&)*m).use_dp_value) ASSERT(vs_near(c->dp_value, 0.0, T5), "an outcome that ends the trial is not worth zero"); } else ASSERT(vs_near(c->dp_value, 0.0, T5), "an outcome that ends the trial is not worth zero"); vs_reach("end");
}
ENTRY(h_dpinit_dbments) { dpInit<DBMents>(); }
ENTRY(h_dpinit_dents) { dpInit<Dents>(); }
ENTRY(h_dpinit_est) { dpInit<Est>(); }
// ---- C19
template <class Al> static void dents(int decay) {
    double temp = decay ? 2.0 : vs_real("temp", 0.5, 5), vt0 = decay ? (vs_bool("vt") ? 2.5 : 0.1) : vs_real("value_temp", 0.1, 5), eps = decay || vs_bool("eps0") ? 0.0 : 0.4, dq = decay ? 0.5 : vs_real("default_q", -5, 5); bool dp = decay ? true : vs_bool("dp"); static const int NV[] = {1, 8}; int nv = NV[vs_choose("nv", 2)];
    Node<Al> N(2, [&](DentsManagerArgs& a) { a.temp = temp; a.epsilon = eps; a.max_explore_prob = 1.0; a.value_temp_init = vt0; a.default_q_value = dq; a.use_dp_value = dp; if (!decay) a.value_temp_decay_fn = nullptr; else { a.value_temp_decay_visits_scale = 3.0; a.value_temp_decay_min_temp = 0.05; } }); bool est = is_same<Al, Est>::value;
    N.child(0, vs_real("v", -5, 5), 3, vs_real("ent", -2, 2)); if (vs_bool("tried1")) N.child(1, vs_real("v", -5, 5), 3, vs_real("ent", -2, 2)); N.d->num_visits = nv; double vt = vt0; if (decay) { vt = vt0 / sqrt(1.0 + 3.0 * nv); if (vt < 0.05) vt = 0.05; }
    vector<double> q; for (int i = 0; i < 2; i++) q.push_back(N.opp * (!N.tried[i] ? dq : est ? N.v[i] : N.v[i] + vt * N.ent[i])); auto s = softmax(q, temp); double lam = eps > 0 ? eps / log((double)(nv + 1)) : 0.0; auto p = N.distr(); for (int i = 0; i < 2; i++) ASSERT(vs_near(p[i], (1 - lam) * s[i] + lam / 2, T5), "the policy is not the softmax of value and entropy bonus over temperature");
    if (!est) { double H = 0, below = 0; for (int i = 0; i < 2; i++) { if (p[i] > 0) H += -p[i] * log(p[i]); below += p[i] * N.ent[i]; } double ret = vs_real("return", -5, 5); double a0 = N.d->avg_return; int b0 = N.d->EmpNode::num_backups; N.d->backup_itfc(NONE, NONE, ret, 9.0, N.ctx); double ent = N.d->subtree_entropy; ASSERT(vs_near(ent, N.opp * H + below, T5), "the subtree entropy is not the entropy of the policy plus the weighted entropies below"); double val = dp ? N.d->dp_value : N.d->avg_return; if (!dp) ASSERT(vs_near(val * (b0 + 1), a0 * b0 + ret, 1e-4), "the average return is wrong"); ASSERT(vs_near(N.d->soft_value, val + vt * ent, T5), "the soft value is not the value plus value temperature times entropy"); }
    vs_reach("end"); if (N.opp < 0) vs_reach("opponent");
}
ENTRY(h_dents_fix) { dents<Dents>(0); }
ENTRY(h_dents_decay) { dents<Dents>(1); }
ENTRY(h_est_fix) { dents<Est>(0); }
ENTRY(h_dents_chance) { // a chance node's soft value
    double r = vs_real("r", -5, 5), vt0 = vs_real("value_temp", 0.1, 5), ret = vs_real("return", -5, 5); bool dp = vs_bool("dp"), decay = vs_bool("decay"); auto env = env1(1, r); DentsManagerArgs a(env); a.seed = 7; a.use_dp_value = dp; a.value_temp_init = vt0; if (!decay) a.value_temp_decay_fn = nullptr; auto m = make_shared<Det<DentsManager>>(a); auto d = make_shared<DentsDNode>(m, S_(0), 0, 0); auto c = static_pointer_cast<DentsCNode>(d->create_child_node_itfc(A_(0))); double sv = 0, se = 0; int n = 0;
    for (int i = 0; i < 2; i++) { auto k = static_pointer_cast<DentsDNode>(c->create_child_node_itfc(O_(1 + i))); int nb = 1 + i; k->DPDNode::num_backups = nb; k->EntDNode::num_backups = nb; k->dp_value = vs_real("v", -5, 5); k->subtree_entropy = vs_real("ent", -2, 2); sv += nb * k->dp_value; se += nb * k->subtree_entropy; n += nb; } c->num_visits = 8; ThtsEnvContext ctx; c->backup_itfc(NONE, NONE, ret, 9.0, ctx);
    double vt = decay ? vt0 / 3.0 : vt0; if (decay && vt < 1e-6) vt = 1e-6; ASSERT(vs_near(c->subtree_entropy, se / n, T5), "the entropy of a chance node is not the average of its outcomes"); ASSERT(vs_near(c->soft_value, (dp ? sv / n + r : ret) + vt * (se / n), T5), "the soft value of a chance node is not the value plus value temperature times entropy"); vs_reach("end");
}
template <class Al> static void dentsFresh() { // a new node: finite, entropy of the uniform policy
    int n = 1 + vs_choose("actions", 3); double eps = vs_bool("eps0") ? 0.0 : vs_real("eps", 0.01, 2); bool two = vs_bool("two_player"); int ts = vs_choose("timestep", 2); auto env = env1(n); DentsManagerArgs a(env); a.seed = 7; a.epsilon = eps; a.temp = vs_real("temp", 0.1, 10); a.is_two_player_game = two; auto m = make_shared<Det<DentsManager>>(a); auto d = make_shared<typename Al::D>(m, S_(0), 0, ts); double H = n == 1 ? 0.0 : log((double)n); if (two && ts) H = -H;
    ASSERT(vs_near(d->subtree_entropy, H, T5), "the entropy of a new node is not that of the uniform policy"); vs_reach("end");
}
ENTRY(h_dents_fresh) { dentsFresh<Dents>(); }
ENTRY(h_est_fresh) { dentsFresh<Est>(); }
// ---- C20
template <class Al> static double recValue(shared_ptr<typename Al::C> c, double v, int cnt, bool dp) { if constexpr (isDents<Al>::v) { c->dp_value = dp ? v : 99.0; c->avg_return = dp ? 99.0 : v; c->soft_value = 77.0; c->DPCNode::num_backups = dp ? cnt : 100; c->EmpNode::num_backups = dp ? 100 : cnt; } else if constexpr (is_same<Al, DBMents>::value) { c->dp_value = v; c->soft_value = 77.0; c->DPCNode::num_backups = cnt; } else c->soft_value = v; return v; }
template <class Al> static void recommendV(int n, int dpmode) {
    static const int TH[] = {0, 1, 2, 50}, CT[] = {0, 1, 2, 1000}; int th = TH[vs_choose("threshold", 4)]; double dq = vs_real("default_q", -50, 50); const bool soft = !isDents<Al>::v && !is_same<Al, DBMents>::value; Node<Al> N(n, [&](typename Al::Args& a) { a.recommend_visit_threshold = th; a.recommend_most_visited = false; a.default_q_value = dq; if constexpr (isDents<Al>::v) a.use_dp_value = dpmode; }); vector<int> cnt(n, -1); vector<double> v(n, dq); bool any = false, reached = false;
    for (int i = 0; i < n; i++) if (vs_bool("child")) { auto c = static_pointer_cast<typename Al::C>(N.d->create_child_node_itfc(A_(i))); cnt[i] = CT[vs_choose("count", 4)]; v[i] = recValue<Al>(c, vs_real("v", -50, 50), cnt[i], dpmode); c->num_visits = soft ? cnt[i] : 100; any = true; if (cnt[i] >= th) reached = true; }
    N.d->num_visits = 9; int draw = vs_choose("draw", 6); int r = N.recommend(draw); if (!any) { vs_reach("no-children"); if (!soft) return; }
    ASSERT(soft && !reached ? true : cnt[r] >= 0, "an action that was never tried was recommended"); if (reached) ASSERT(cnt[r] >= th, "an action below the visit threshold was recommended although others reach it");
    for (int i = 0; i < n; i++) if (reached ? cnt[i] >= th : (soft || cnt[i] >= 0)) ASSERT(N.opp * v[r] >= N.opp * v[i] - vs_tol(1e-6), "the recommended action is not the best for the player to move"); vs_reach("end"); if (reached) vs_reach("threshold"); else vs_reach("below"); if (N.opp < 0) vs_reach("opponent");
}
ENTRY(h_rv_ments) { recommendV<Ments>(2, 0); }
ENTRY(h_rv_rents) { recommendV<Rents>(2, 0); }
ENTRY(h_rv_tents) { recommendV<Tents>(2, 0); }
ENTRY(h_rv_ments3) { recommendV<Ments>(3, 0); }
ENTRY(h_rv_dbments) { recommendV<DBMents>(2, 1); }
ENTRY(h_rv_dents_dp) { recommendV<Dents>(2, 1); }
ENTRY(h_rv_dents_avg) { recommendV<Dents>(2, 0); }
ENTRY(h_rv_est_dp) { recommendV<Est>(2, 1); }
ENTRY(h_rv_est_avg) { recommendV<Est>(2, 0); }
template <class Al> static void recommendM() { // most visited
    Node<Al> N(3, [&](typename Al::Args& a) { a.recommend_most_visited = true; a.recommend_visit_threshold = vs_choose("threshold", 2) * 4; }); int m = -1; vector<int> cnt(3, -1); for (int i = 0; i < 3; i++) if (vs_bool("child")) { cnt[i] = vs_int("visits", 0, 1000000); N.child(i, vs_real("v", -50, 50), 1); auto c = N.d->get_child_node_itfc(A_(i)); ((ThtsCNode&)*c).num_visits = cnt[i]; if (cnt[i] > m) m = cnt[i]; }
    int r = N.recommend(vs_choose("draw", 6)); if (m >= 0) ASSERT(cnt[r] == m, "the recommended action is not the most visited one"); else vs_reach("no-children"); vs_reach("end");
}
ENTRY(h_rm_ments) { recommendM<Ments>(); }
ENTRY(h_rm_rents) { recommendM<Rents>(); }
ENTRY(h_rm_tents) { recommendM<Tents>(); }
ENTRY(h_rm_dbments) { recommendM<DBMents>(); }
ENTRY(h_rm_dents) { recommendM<Dents>(); }
ENTRY(h_rm_est) { recommendM<Est>(); }
template <class Al> static void recommendTies() { set<int> got; for (int draw = 0; draw < 6; draw++) { Node<Al> N(3, [&](typename Al::Args& a) { a.recommend_most_visited = false; if constexpr (isDents<Al>::v) a.use_dp_value = true; }, false); for (int i = 0; i < 3; i++) { auto c = static_pointer_cast<typename Al::C>(N.d->create_child_node_itfc(A_(i))); recValue<Al>(c, 1.5, 2, true); c->num_visits = 2; } got.insert(N.recommend(draw)); } ASSERT(got.size() == 3u, "an action tied for best can never be recommended"); vs_reach("end"); }
ENTRY(h_rt_ments) { recommendTies<Ments>(); }
ENTRY(h_rt_dbments) { recommendTies<DBMents>(); }
ENTRY(h_rt_dents) { recommendTies<Dents>(); }
ENTRY(h_rt_est) { recommendTies<Est>(); }
// ---- C29
static TempDecayFnPtr FN[] = {decayed_temp_inv_sqrt, decayed_temp_inv_log, decayed_temp_sigmoid};
static const int NVT[] = {0, 4, 8, 100000};
static double fref(int k, double x) { return k == 0 ? 1.0 / sqrt(1.0 + x) : k == 1 ? 1.0 / log(2.718281828459045235 + x) : (1.0 + exp(-5.0)) / (1.0 + exp(x - 5.0)); }
static void decayFn(int k) {
    double init = vs_real("init", 0.01, 10), mn = vs_real("min", 0.0001, 1), sc = vs_real("scale", 0.001, 10), x = vs_real("x", 0, 100000), y = vs_real("y", 0, 100000); vs_assume(x <= y); double fx = FN[k](x), fy = FN[k](y); ASSERT(vs_near(fx, fref(k, x), 1e-6), "a decay function does not follow its documented formula"); ASSERT(fy <= fx + vs_tol(1e-9) && fx <= 1.0 + vs_tol(1e-9) && fy >= 0.0, "a decay function is not between zero and one or increases");
    int a = vs_int("visits", 0, 100000), b = vs_int("more", 0, 100000); vs_assume(a <= b); double ta = compute_decayed_temp(FN[k], init, mn, a, sc), tb = compute_decayed_temp(FN[k], init, mn, b, sc); ASSERT(ta >= mn && tb >= mn, "a temperature is below its minimum"); ASSERT(tb <= ta + vs_tol(1e-9), "a temperature increases with the number of visits"); double w = init * fref(k, sc * a); ASSERT(vs_near(ta, w < mn ? mn : w, 1e-5), "a temperature does not follow its documented formula"); vs_reach("end");
}
ENTRY(h_decay_sqrt) { decayFn(0); }
ENTRY(h_decay_log) { decayFn(1); }
ENTRY(h_decay_sigmoid) { decayFn(2); }
ENTRY(h_decay_start) { double init = vs_real("init", 0.01, 10), sc = vs_real("scale", 0.001, 10); for (int k = 0; k < 3; k++) ASSERT(vs_near(compute_decayed_temp(FN[k], init, 1e-6, 0, sc), init, 1e-6), "a temperature does not start at its initial value"); vs_reach("end"); }
template <class Al> static void nodeTemp() { // which settings a node uses
    int k = vs_choose("fn", 4); double init = vs_real("init", 0.5, 10), sc = vs_real("scale", 0.1, 10), rs = vs_bool("root_scale") ? vs_real("rscale", 0.1, 10) : -1.0, mn = vs_real("min", 0.001, 0.1); int depth = vs_choose("depth", 2), nv = NVT[vs_choose("nv", 4)]; auto cfg = [&](typename Al::Args& a) { a.temp = init; a.temp_decay_fn = k < 3 ? FN[k] : nullptr; a.temp_decay_visits_scale = sc; a.temp_decay_root_node_visits_scale = rs; a.temp_decay_min_temp = mn; }; Node<Al> N(1, cfg, true, depth); N.d->num_visits = nv;
    double s = depth == 0 && rs > 0 ? rs : sc, want = init; if (k < 3) { want = init * fref(k, s * nv); if (want < mn) want = mn; } ASSERT(vs_near(N.d->get_temp(), want, 1e-5), "a node does not use the configured temperature"); vs_reach("end");
}
ENTRY(h_temp_ments) { nodeTemp<Ments>(); }
ENTRY(h_temp_tents) { nodeTemp<Tents>(); }
ENTRY(h_temp_est) { nodeTemp<Est>(); }
ENTRY(h_temp_value) { // the entropy coefficient of DENTS
    int k = vs_choose("fn", 4); double init = vs_real("init", 0.5, 10), sc = vs_real("scale", 0.1, 10), rs = vs_bool("root_scale") ? vs_real("rscale", 0.1, 10) : -1.0, mn = vs_real("min", 0.001, 0.1); int depth = vs_choose("depth", 2), nv = NVT[vs_choose("nv", 4)]; Node<Dents> N(1, [&](DentsManagerArgs& a) { a.value_temp_init = init; a.value_temp_decay_fn = k < 3 ? FN[k] : nullptr; a.value_temp_decay_visits_scale = sc; a.value_temp_decay_root_node_visits_scale = rs; a.value_temp_decay_min_temp = mn; }, true, depth); N.d->num_visits = nv;
    double s = depth == 0 && rs > 0 ? rs : sc, want = init; if (k < 3) { want = init * fref(k, s * nv); if (want < mn) want = mn; } ASSERT(vs_near(N.d->get_value_temp(), want, 1e-5), "a node does not use the configured value temperature"); auto c = static_pointer_cast<DentsCNode>(N.d->create_child_node_itfc(A_(0))); c->num_visits = nv; double wc = init; if (k < 3) { wc = init * fref(k, sc * nv); if (wc < mn) wc = mn; } ASSERT(vs_near(c->get_value_temp(), wc, 1e-5), "a chance node does not use the configured value temperature"); vs_reach("end");
}
// ---- C32
template <class Al> static void symmetry() {
    double temp = vs_real("temp", 0.5, 5), dq = vs_real("default_q", -5, 5), eps = vs_bool("eps0") ? 0.0 : 0.4, u = vs_real("u", 0, 1); vs_assume(u < 1); const bool cut = is_same<Al, Dents>::value && !VS_TIER; bool t1 = vs_bool("tried1"), dp = cut ? true : vs_bool("dp"), mv = cut ? false : vs_bool("most_visited"); double v[2], en[2]; for (int i = 0; i < 2; i++) { v[i] = vs_real("v", -5, 5); en[i] = vs_real("ent", -2, 2); } int draw = vs_choose("draw", 2), th = cut ? 0 : vs_choose("threshold", 2) * 3;
    struct R { double p[2]; double sv, dpv, se; int rec, sel; }; auto go = [&](int ts, bool two, double sg) { typename Al::Args* keep = nullptr; (void)keep; auto env = env1(2); typename Al::Args a(env); a.seed = 7; a.temp = temp; a.default_q_value = sg * dq; a.epsilon = eps; a.max_explore_prob = 1.0; a.is_two_player_game = two; a.recommend_most_visited = mv; a.recommend_visit_threshold = th; if constexpr (isDents<Al>::v) a.use_dp_value = dp; auto m = make_shared<Det<typename Al::Mgr>>(a); auto d = make_shared<typename Al::D>(m, S_(0), 0, ts); ThtsEnvContext ctx; d->num_visits = 9; gDraw = 0;
        for (int i = 0; i < 2; i++) if (i == 0 || t1) { auto c = static_pointer_cast<typename Al::C>(d->create_child_node_itfc(A_(i))); c->num_visits = 2 + i; ((MentsCNode&)*c).num_backups = 2 + i; c->soft_value = sg * v[i]; if constexpr (isDents<Al>::v || is_same<Al, DBMents>::value) { c->dp_value = sg * v[i]; c->DPCNode::num_backups = 2 + i; } if constexpr (isDents<Al>::v) { c->avg_return = sg * v[i]; c->EmpNode::num_backups = 2 + i; c->subtree_entropy = sg * en[i]; } }
        R r; r.dpv = r.se = 0; r.p[0] = r.p[1] = 0; ActionDistr ad; ((MentsDNode&)*d).compute_action_distribution(ad, ctx); for (auto& x : ad) r.p[aid(x.first)] = x.second; gDraw = draw; r.rec = aid(d->recommend_action_itfc(ctx)); gU = u; r.sel = aid(d->select_action_itfc(ctx)); auto c = static_pointer_cast<typename Al::C>(d->get_child_node_itfc(A_(r.sel))); if (!t1 && r.sel == 1) { c->soft_value = sg * v[1]; if constexpr (isDents<Al>::v || is_same<Al, DBMents>::value) { c->dp_value = sg * v[1]; c->DPCNode::num_backups = 1; } if constexpr (isDents<Al>::v) { c->avg_return = sg * v[1]; } }
        d->backup_itfc(NONE, NONE, sg * v[0], 0.0, ctx); r.sv = d->soft_value; if constexpr (isDents<Al>::v || is_same<Al, DBMents>::value) r.dpv = d->dp_value; if constexpr (isDents<Al>::v) { r.se = d->subtree_entropy; if (!dp) r.dpv = d->avg_return; } return r; };
    R a = go(0, true, 1.0), b = go(1, true, -1.0), c = go(1, false, 1.0); for (int i = 0; i < 2; i++) { ASSERT(vs_near(a.p[i], b.p[i], T5), "the opponent's policy is not the mirrored one"); ASSERT(vs_near(a.p[i], c.p[i], T5), "values are negated in a one player problem"); }
    ASSERT(vs_near(a.sv, -b.sv, T5) && vs_near(a.dpv, -b.dpv, T5) && vs_near(a.se, -b.se, T5), "the opponent's value is not the mirrored one"); ASSERT(vs_near(a.sv, c.sv, T5) && vs_near(a.dpv, c.dpv, T5) && vs_near(a.se, c.se, T5), "values are negated in a one player problem"); ASSERT(a.rec == b.rec && a.rec == c.rec, "the opponent's recommendation is not the mirrored one"); ASSERT(a.sel == b.sel && a.sel == c.sel, "the opponent's selection is not the mirrored one"); vs_reach("end");
}
ENTRY(h_sym_ments) { symmetry<Ments>(); }
ENTRY(h_sym_dbments) { symmetry<DBMents>(); }
ENTRY(h_sym_rents) { symmetry<Rents>(); }
ENTRY(h_sym_tents) { symmetry<Tents>(); }
ENTRY(h_sym_dents) { symmetry<Dents>(); }
ENTRY(h_sym_est) { symmetry<Est>(); }
