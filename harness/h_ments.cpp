// the MENTS family: soft backups, chance node averages, action distributions
#include "mnode.h"
// ---- C13
template <class Al> static void soft(int n, int mode) { // mode 0 default values, 1 prior, 2 prior with shifted mean
    double temp = mode ? 2.0 : vs_real("temp", 0.1, 10), dq = vs_real("default_q", -50, 50), off = vs_real("offset", -50, 50); gPrior.clear(); for (int i = 0; i < n; i++) gPrior.push_back(mode ? vs_real("prior", 0.001, 1) : 0.0);
    Node<Al> N(n, [&](typename Al::Args& a) { a.temp = temp; a.default_q_value = dq; a.prior_fn = mode ? prior : nullptr; a.shift_pseudo_q_values = mode == 2; a.psuedo_q_value_offset = off; });
    for (int i = 0; i < n; i++) if (vs_bool("tried")) N.child(i, vs_real("v", -50, 50)); N.d->num_visits = 1; double mean = 0; if (mode == 2) { for (double p : gPrior) mean += log(p); mean = mean / n; }
    vector<double> q; for (int i = 0; i < n; i++) q.push_back(N.tried[i] ? N.opp * N.v[i] : mode == 0 ? N.opp * dq : mode == 1 ? log(gPrior[i]) : log(gPrior[i]) - mean + off);
    int nb = ((MentsDNode&)*N.d).num_backups; N.backup(); ASSERT(((MentsDNode&)*N.d).num_backups == nb + 1, "a backup did not count as one"); ASSERT(vs_near(N.d->soft_value, N.opp * lse(q, temp), T5), mode == 2 ? "the soft value is not the temperature weighted log-sum-exp of the action values (shifted prior)" : "the soft value is not the temperature weighted log-sum-exp of the action values"); vs_reach("end"); if (N.opp < 0) vs_reach("opponent");
}
ENTRY(h_soft_ments) { soft<Ments>(2, 0); }
ENTRY(h_soft_ments3) { soft<Ments>(3, 0); }
ENTRY(h_soft_dbments) { soft<DBMents>(2, 0); }
ENTRY(h_soft_prior) { soft<Ments>(2, 1); }
ENTRY(h_soft_shift) { soft<Ments>(2, 2); }
ENTRY(h_soft_shift3) { soft<Ments>(3, 2); }
ENTRY(h_soft_range) { // machine arithmetic at extreme ratios of value and temperature
    static const double V[] = {-1e9, -1e3, 0.0, 5.0, 1e3, 1e9}, TT[] = {1e-6, 1.0, 1e4}; double temp = TT[vs_choose("temp", 3)], v0 = V[vs_choose("v0", 6)], v1 = V[vs_choose("v1", 6)];
    Node<Ments> N(2, [&](MentsManagerArgs& a) { a.temp = temp; }); N.child(0, v0); N.child(1, v1); N.d->num_visits = 1; N.backup(); double x = N.opp * N.d->soft_value, m = N.opp * v0 > N.opp * v1 ? N.opp * v0 : N.opp * v1; ASSERT(x >= m - 1e-6 * (1 + fabs(m)) && x <= m + 0.7 * temp + 1e-6 * (1 + fabs(m)), "the soft value is not between the maximum and the maximum plus temperature times log of the number of actions");
    auto p = N.distr(); ASSERT(p[0] + p[1] > 0.999999 && p[0] + p[1] < 1.000001 && p[0] >= 0 && p[1] >= 0, "the action distribution does not sum to one at extreme values"); vs_reach("end");
}
ENTRY(h_soft_prior_zero) { // a prior that gives an action no weight, or a huge one, keeps values finite
    static const double W[] = {0.0, 1e-40, 0.5, 1e40}; gPrior = {W[vs_choose("w0", 4)], W[vs_choose("w1", 4)]}; Node<Ments> N(2, [&](MentsManagerArgs& a) { a.prior_fn = prior; }, false); N.d->num_visits = 1; N.backup(); double x = N.d->soft_value; auto lw = [](double w) { return w >= 1e32 ? 32.0 : w > 1e-32 ? log(w) : -32.0; }; double a = lw(gPrior[0]), b = lw(gPrior[1]), m = a > b ? a : b;
    ASSERT(x >= m - 1e-6 && x <= m + 0.7, "the value of actions with extreme prior weights is not the bounded log weight"); vs_reach("end");
}
ENTRY(h_soft_leaf) { // a leaf keeps its heuristic value and counts its visits as backups
    gHv = vs_real("h", -50, 50); auto env = env1(1); MentsManagerArgs a(env); a.seed = 7; bool h = vs_bool("has_h"); a.heuristic_fn = h ? heur : nullptr; a.max_depth = 1; auto m = make_shared<MentsManager>(a); MentsDNode n(m, S_(0), 1, 1), k(m, S_(0), 0, 0); ThtsEnvContext c; int t = 1 + vs_choose("times", 3); for (int i = 0; i < t; i++) { n.visit_itfc(c); k.visit_itfc(c); }
    ASSERT(vs_near(n.soft_value, h ? gHv : 0.0, T5), "a leaf does not keep its heuristic value"); ASSERT(n.num_backups == t, "visits of a leaf do not count as backups"); ASSERT(k.num_backups == 0, "visits of an inner node count as backups"); vs_reach("end");
}
// ---- C14
template <class Al> static void chance(int n, int what) { // 0 soft, 1 dp, 2 entropy, 3 empirical
    double r = vs_real("reward", -50, 50); auto env = env1(1, r); typename Al::Args a(env); a.seed = 7; a.is_two_player_game = vs_bool("two_player"); if constexpr (isDents<Al>::v) a.use_dp_value = what != 3; auto mgr = make_shared<Det<typename Al::Mgr>>(a); auto d = make_shared<typename Al::D>(mgr, S_(0), 0, 0); ThtsEnvContext ctx;
    auto c = static_pointer_cast<typename Al::C>(d->create_child_node_itfc(A_(0))); double sum = 0; int tot = 0; int MX = VS_TIER ? 5 : 4; static const int NB[] = {0, 1, 1000, 2, 40};
    for (int i = 0; i < n; i++) { int nb = NB[vs_choose("nb", MX)]; double v = vs_real("v", -50, 50); auto k = static_pointer_cast<typename Al::D>(c->create_child_node_itfc(O_(1 + i))); k->num_visits = 5 + i;
        if (what == 0) { ((MentsDNode&)*k).num_backups = nb; k->soft_value = v; } if constexpr (!is_same<Al, Ments>::value && !is_same<Al, Rents>::value && !is_same<Al, Tents>::value) if (what == 1) { k->DPDNode::num_backups = nb; k->dp_value = v; } if constexpr (isDents<Al>::v) if (what == 2) { k->EntDNode::num_backups = nb; k->subtree_entropy = v; }
        sum += nb * v; tot += nb; }
    for (int rep = 0; rep < 2; rep++) { c->backup_itfc(NONE, NONE, 7.0, 9.0, ctx); double got = 0, add = r; if (what == 0) got = c->soft_value; if constexpr (!is_same<Al, Ments>::value && !is_same<Al, Rents>::value && !is_same<Al, Tents>::value) if (what == 1) got = c->dp_value; if constexpr (isDents<Al>::v) if (what == 2) { got = c->subtree_entropy; add = 0; }
        if (tot > 0) ASSERT(vs_near((got - add) * tot, sum, 1e-4), "the value of a chance node is not the backup weighted average of its outcomes plus its reward"); else ASSERT(vs_near(got, add, T5), "a chance node without backed up outcomes is not worth its reward"); ASSERT(((MentsCNode&)*c).num_backups == rep + 1, "a backup did not count as one"); }
    if (tot == 0) vs_reach("no-backups"); vs_reach("end");
}
ENTRY(h_ch_ments) { chance<Ments>(2, 0); }
ENTRY(h_ch_ments3) { chance<Ments>(3, 0); }
ENTRY(h_ch_rents) { chance<Rents>(2, 0); }
ENTRY(h_ch_tents) { chance<Tents>(2, 0); }
ENTRY(h_ch_dbments) { chance<DBMents>(2, 0); }
ENTRY(h_ch_dbments_dp) { chance<DBMents>(3, 1); }
ENTRY(h_ch_dents_dp) { chance<Dents>(2, 1); }
ENTRY(h_ch_dents_ent) { chance<Dents>(3, 2); }
ENTRY(h_ch_est_dp) { chance<Est>(2, 1); }
template <class Al> static void chEmp() { // average return mode
    auto env = env1(1, 3.0); DentsManagerArgs a(env); a.seed = 7; a.use_dp_value = false; auto mgr = make_shared<Det<DentsManager>>(a); auto d = make_shared<typename Al::D>(mgr, S_(0), 0, 0); ThtsEnvContext ctx; auto c = static_pointer_cast<typename Al::C>(d->create_child_node_itfc(A_(0))); c->create_child_node_itfc(O_(1)); double s = 0; d->num_visits = 1; double h = d->avg_return;
    for (int i = 1; i <= 4; i++) { double r = vs_real("ret", -50, 50); s += r; c->num_visits++; d->num_visits++; c->backup_itfc(NONE, NONE, r, 9.0, ctx); d->backup_itfc(NONE, NONE, r, 9.0, ctx); ASSERT(vs_near(c->avg_return * i, s, 1e-4), "the average return of a chance node is not the mean of the returns backed up"); ASSERT(vs_near(d->avg_return * (i + 1), h + s, 1e-4), "the average return of a decision node is not the mean of its heuristic value and the returns backed up"); } vs_reach("end");
}
ENTRY(h_emp_dents) { chEmp<Dents>(); }
ENTRY(h_emp_est) { chEmp<Est>(); }
// one more return after any number of returns
template <class Al> static void empStep() {
    auto env = env1(1, 3.0); DentsManagerArgs a(env); a.seed = 7; a.use_dp_value = false; auto mgr = make_shared<Det<DentsManager>>(a); auto d = make_shared<typename Al::D>(mgr, S_(0), 0, 0); ThtsEnvContext ctx; auto c = static_pointer_cast<typename Al::C>(d->create_child_node_itfc(A_(0))); c->create_child_node_itfc(O_(1)); static const int K[] = {1, 2, 9, 100, 5000, 1000000}; int n = K[vs_choose("n", 6)]; double m = vs_real("mean", -50, 50), r = vs_real("ret", -50, 50);
    c->num_visits = n + 1; d->num_visits = n + 2; c->avg_return = m; ((EmpNode&)*c).num_backups = n; d->avg_return = m; ((EmpNode&)*d).num_backups = n; c->backup_itfc(NONE, NONE, r, 9.0, ctx); d->backup_itfc(NONE, NONE, r, 9.0, ctx);
    for (double x : {(double)c->avg_return, (double)d->avg_return}) ASSERT(vs_near((x - m) * (n + 1.0), r - m, 1e-3), "an average return does not move by the share of the new return"); ASSERT(((EmpNode&)*c).num_backups == n + 1 && ((EmpNode&)*d).num_backups == n + 1, "a return did not count once"); vs_reach("end");
}
ENTRY(h_empstep_dents) { empStep<Dents>(); }
ENTRY(h_empstep_est) { empStep<Est>(); }
template <class Al> static void leafCount() { // outcomes that end trials count every visit
    auto env = env1(1); typename Al::Args a(env); a.seed = 7; auto mgr = make_shared<Det<typename Al::Mgr>>(a); auto d = make_shared<typename Al::D>(mgr, S_(0), 0, 0); ThtsEnvContext ctx; auto c = static_pointer_cast<typename Al::C>(d->create_child_node_itfc(A_(0))); auto k = static_pointer_cast<typename Al::D>(c->create_child_node_itfc(O_(1))); int b0 = ((MentsDNode&)*k).num_backups, t = 1 + vs_choose("times", 3); int p0 = -1, e0 = -1, q0 = -1;
    if constexpr (!is_same<Al, Ments>::value) p0 = k->DPDNode::num_backups; if constexpr (isDents<Al>::v) e0 = k->EntDNode::num_backups; for (int i = 0; i < t; i++) k->visit_itfc(ctx); ASSERT(((MentsDNode&)*k).num_backups == b0 + t, "visits of a leaf do not count as backups of its soft value");
    if constexpr (!is_same<Al, Ments>::value) ASSERT(k->DPDNode::num_backups == p0 + t, "visits of a leaf do not count as backups of its value"); if constexpr (isDents<Al>::v) ASSERT(k->EntDNode::num_backups == e0 + t, "visits of a leaf do not count as backups of its entropy"); vs_reach("end");
}
ENTRY(h_leaf_ments) { leafCount<Ments>(); }
ENTRY(h_leaf_dbments) { leafCount<DBMents>(); }
ENTRY(h_leaf_dents) { leafCount<Dents>(); }
ENTRY(h_leaf_est) { leafCount<Est>(); }
// ---- C15
static double lambdaOf(double eps, double maxe, int nv) { if (eps == 0.0) return 0.0; if (nv == 0) return maxe; double l = eps / log((double)(nv + 1)); return l > maxe ? maxe : l; }
template <class Al> static void distribution(int n, int mode, bool root) { // mode 0 plain, 1 prior mixture
    double temp = vs_real("temp", 0.1, 10), eps = vs_bool("eps0") ? 0.0 : vs_real("eps", 0.01, 2), maxe = vs_real("max_explore", 0, 1), reps = vs_bool("root_eps") ? vs_real("root_epsilon", 0.01, 2) : -1.0, w = mode ? vs_real("prior_weight", 0.01, 0.5) : 0.0; gPrior.clear(); if (mode) { double p = vs_real("prior", 0, 1); gPrior = {p, 1.0 - p}; }
    static const int NV[] = {1, 2, 20, 1000, 1000000}; int nv = NV[vs_choose("nv", 5)];
    Node<Al> N(n, [&](typename Al::Args& a) { a.temp = temp; a.epsilon = eps; a.max_explore_prob = maxe; a.root_node_epsilon = reps; a.prior_policy_search_weight = w; a.prior_fn = mode ? prior : nullptr; }, true, root ? 0 : 1); for (int i = 0; i < n; i++) N.child(i, vs_real("v", -50, 50)); N.d->num_visits = nv;
    auto p = N.distr(); double lam = lambdaOf(root && reps > 0 ? reps : eps, maxe, nv); vector<double> q; for (int i = 0; i < n; i++) q.push_back(N.opp * N.v[i]); auto s = softmax(q, temp); double tot = 0; double lt = mode ? w / log((double)(nv + 3)) : 0.0;
    for (int i = 0; i < n; i++) { tot += p[i]; double want = (1 - lam) * (mode ? (1 - lt) * s[i] + lt * gPrior[i] : s[i]) + lam / n; ASSERT(vs_near(p[i], want, T5), "an action's probability is not the documented mixture of softmax, prior and uniform"); ASSERT(p[i] >= 0.0, "an action has a negative probability"); } ASSERT(vs_near(tot, 1.0, T5), "the action probabilities do not sum to one"); vs_reach("end");
}
ENTRY(h_dist_ments) { distribution<Ments>(2, 0, true); }
ENTRY(h_dist_inner) { distribution<Ments>(2, 0, false); }
ENTRY(h_dist_ments3) { distribution<Ments>(3, 0, true); }
ENTRY(h_dist_prior) { distribution<Ments>(2, 1, true); }
ENTRY(h_dist_dbments) { distribution<DBMents>(2, 0, true); }
ENTRY(h_dist_unvisited) { double eps = vs_bool("eps0") ? 0.0 : vs_real("eps", 0.01, 2), maxe = vs_real("max_explore", 0, 1); Node<Ments> N(2, [&](MentsManagerArgs& a) { a.epsilon = eps; a.max_explore_prob = maxe; }); N.d->num_visits = 0; auto p = N.distr(); ASSERT(vs_near(p[0], 0.5, T5) && vs_near(p[1], 0.5, T5), "the action probabilities of a node without visits are not those of its values"); vs_reach("end"); }
template <class Al> static void sampling() { // the selected action is drawn from the distribution
    double temp = vs_real("temp", 0.5, 5); auto mk = [&] { return Node<Al>(2, [&](typename Al::Args& a) { a.temp = temp; a.epsilon = 0.3; a.max_explore_prob = 1.0; }, false); }; double v0 = vs_real("v0", -5, 5), v1 = vs_real("v1", -5, 5), u1 = vs_real("u1", 0, 1), u2 = vs_real("u2", 0, 1); vs_assume(u1 < 1 && u2 < 1); bool t1 = vs_bool("tried1");
    auto go = [&](double u, map<int, double>& p) { auto N = mk(); N.child(0, v0); if (t1) N.child(1, v1); N.d->num_visits = 20; p = N.distr(); gU = u; return N.select(); }; map<int, double> p; int s1 = go(u1, p), s2 = go(u2, p); const double e = vs_tol(1e-6);
    auto pre = [&](double u, int s) { return s == 0 ? u <= p[0] + e : u >= p[0] - e; }; auto suf = [&](double u, int s) { return s == 1 ? u <= p[1] + e : u >= p[1] - e; }; ASSERT((pre(u1, s1) && pre(u2, s2)) || (suf(u1, s1) && suf(u2, s2)), "an action is not selected with its probability"); vs_reach("end");
}
ENTRY(h_sel_ments) { sampling<Ments>(); }
ENTRY(h_sel_rents) { sampling<Rents>(); }
ENTRY(h_sel_tents) { sampling<Tents>(); }
ENTRY(h_sel_dents) { sampling<Dents>(); }
ENTRY(h_sel_est) { sampling<Est>(); }
