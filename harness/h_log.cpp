// loggers: when entries are made, what they hold, and how they are written
#include "prelude.h"
#include "algs.h"
#include "algorithms/uct/uct_logger.h"
#include "algorithms/ments/ments_logger.h"
#include "algorithms/ments/dbments_logger.h"
static const long Q = 250000000; // times are multiples of a quarter of a second, so that the doubles of the replay are exact
static long nowQ; static long clk() { return nowQ * Q; } static void setClock(long t) { nowQ = t; vsClock = clk; }
struct Log { string header; vector<vector<double>> rows; };
static vector<string> split(const string& s, char c) { vector<string> v; string cur; for (char x : s) { if (x == c) { v.push_back(cur); cur = ""; } else cur += x; } if (!cur.empty()) v.push_back(cur); return v; }
static Log text(ThtsLogger& l) { stringstream ss; l.write_to_ostream(ss); Log g; vector<string> ls = split(ss.str(), '\n'); for (size_t i = 0; i < ls.size(); i++) { if (i == 0) { g.header = ls[i]; continue; } vector<double> r; for (auto& f : split(ls[i], ',')) r.push_back(vs_tok(f.c_str())); g.rows.push_back(r); } return g; }
// ---- C28: the cadence of a logger on its own
static void cadence(int searches, int trials, bool byTrials, bool byTime) {
    int delta = 1 + vs_choose("trials_delta", 3); int dq = vs_int("runtime_delta_quarters", 1, 12); setClock(vs_int("t0", 0, 1000)); ThtsLogger l; if (byTrials) l.set_trials_delta(delta); if (byTime) l.set_runtime_delta(dq * 0.25); long prior = 0; double last = 0; auto u = make_shared<VEnv>(1); 
    for (int k = 0; k < searches; k++) { l.reset_start_time(); long start = nowQ, thr = prior + dq; int since = 0; int n = vs_choose("trials", trials + 1); for (int i = 0; i < n; i++) { nowQ += vs_int("trial_quarters", 0, 9); l.trial_completed(); since++; bool want = false; if (byTrials && since == delta) { want = true; since = 0; } long tot = prior + nowQ - start; if (byTime && tot >= thr) { want = true; thr += dq; } bool got = l.should_log(); ASSERT(!got || want, "an entry is due although no interval has passed"); ASSERT(got || !want, "no entry is due although an interval has passed"); if (want) vs_reach("due"); else vs_reach("not-due");
            double rt = l.get_current_total_runtime().count(); ASSERT(vs_near(rt, tot * 0.25, 1e-6), "the run time is not the time spent in searches"); ASSERT(rt >= last, "the run time decreased"); last = rt; }
        nowQ += vs_int("tail_quarters", 0, 2); l.update_prior_runtime(); prior += nowQ - start; nowQ += vs_int("idle_quarters", 0, 100); if (k && n) vs_reach("again"); } vs_reach("end");
}
ENTRY(h_log_trials) { cadence(2, VS_TIER ? 5 : 4, true, false); }
ENTRY(h_log_time) { cadence(2, 2, false, true); }
ENTRY(h_log_both) { cadence(1, 3, true, true); }
ENTRY(h_log_never) { cadence(2, 2, false, false); }
// long searches
ENTRY(h_log_long) { static const int D[] = {1, 2, 5, 7, 10, 100}; int delta = D[vs_choose("trials_delta", 6)]; setClock(vs_int("t0", 0, 1000)); ThtsLogger l; l.set_trials_delta(delta); long prior = 0; for (int k = 0; k < 2; k++) { l.reset_start_time(); long start = nowQ; int since = 0, n = k ? 24 : 26 + vs_choose("trials", 3) * 5; for (int i = 0; i < n; i++) { nowQ += i == 3 ? vs_int("trial_quarters", 0, 9) : i % 3; l.trial_completed(); bool want = ++since == delta; if (want) since = 0; ASSERT(l.should_log() == want, "entries are not due exactly every interval of trials"); } ASSERT(vs_near(l.get_current_total_runtime().count(), (prior + nowQ - start) * 0.25, 1e-6), "the run time is not the time spent in searches"); l.update_prior_runtime(); prior += nowQ - start; nowQ += 40; } vs_reach("end"); }
// ---- a pool with a logger; the clock advances with every trial
struct LEnv : VEnv { using VEnv::VEnv; mutable vector<long> dur; mutable size_t at = 0; shared_ptr<ThtsEnvContext> sample_context_itfc(St st) const override { vs_race_off(); if (at < dur.size()) nowQ += dur[at++]; vs_race_on(); return VEnv::sample_context_itfc(st); } };
static shared_ptr<LEnv> lenv() { auto e = make_shared<LEnv>(2); e->act(0, 1.0, {{1, 1.0}}); e->sink(1); return e; }
static void pool(int searches, int trials, bool limit) { // one worker: entries at the trials at which they are due, with the time spent searching
    setClock(0); auto env = lenv(); UctManagerArgs a(env); a.seed = 7; a.max_depth = 1; auto m = make_shared<UctManager>(a); auto root = make_shared<UctDNode>(m, S_(0), 0, 0); auto lg = make_shared<ThtsLogger>(); int delta = limit ? 1 : 1 + vs_choose("trials_delta", 2); lg->set_trials_delta(delta); vector<pair<long, int>> want{{0, 0}}; long prior = 0; int visits = 0;
    { auto p_ = make_unique<ThtsPool>(m, root, 1, lg); auto& p = *p_; for (int k = 0; k < searches; k++) { int n = vs_choose("trials", trials + 1); long start = nowQ; env->dur.clear(); env->at = 0; for (int i = 0; i < n; i++) env->dur.push_back(vs_choose("trial_quarters", limit ? 3 : 2)); double lim = limit && k == 0 ? 0.375 : 1e9; p.run_trials(n, lim, true); int done = 0; long el = 0; while (done < n && el * 0.25 < lim) { el += env->dur[done]; done++; if (done % delta == 0) want.push_back({prior + el, visits + done}); } visits += done; ASSERT(nowQ == start + el, "the search did not run the trials it should have"); prior += el; if (done < n) vs_reach("cut-off"); nowQ += 7; } }
    Log g = text(*lg); ASSERT(g.rows.size() == want.size() && lg->size() == (int)want.size(), "the number of log entries is wrong"); for (size_t i = 0; i < want.size(); i++) { ASSERT(vs_near(g.rows[i][0], want[i].first * 0.25, 1e-4), "a log entry does not have the cumulative run time of the searches"); ASSERT(g.rows[i][1] == want[i].second, "a log entry does not have the number of trials"); } vs_reach("end");
}
ENTRY(h_log_pool) { pool(2, VS_TIER ? 3 : 2, false); }
ENTRY(h_log_pool3) { pool(3, 2, false); }
ENTRY(h_log_limit) { pool(2, 2, true); }
ENTRY(h_log_threads) { // two workers: still one entry per interval, in order
    setClock(0); auto env = lenv(); UctManagerArgs a(env); a.seed = 7; a.max_depth = 1; auto m = make_shared<UctManager>(a); auto root = make_shared<UctDNode>(m, S_(0), 0, 0); auto lg = make_shared<UctLogger>(); int delta = 1 + vs_choose("trials_delta", 2), tot = 0; lg->set_trials_delta(delta); { auto p_ = make_unique<ThtsPool>(m, root, 2, lg); auto& p = *p_; for (int k = 0; k < 2; k++) { int n = k ? 1 : 1 + vs_choose("trials", 2); env->dur.clear(); env->at = 0; for (int i = 0; i < n; i++) env->dur.push_back(i + 1); p.run_trials(n, 1e9, true); tot += n / delta; nowQ += 9; } }
    Log g = text(*lg); ASSERT((int)g.rows.size() == 1 + tot, "the number of log entries is wrong"); for (size_t i = 1; i < g.rows.size(); i++) { ASSERT(g.rows[i][0] >= g.rows[i - 1][0] && g.rows[i][1] >= g.rows[i - 1][1], "log entries are out of order"); ASSERT(g.rows[i][0] <= 1.0, "time between searches was counted as run time"); ASSERT(g.rows[i].size() == 4 && g.rows[i][1] >= g.rows[i][2] && g.rows[i][2] >= (double)i, "a log entry does not hold the statistics of the root"); } vs_reach("end");
}
// ---- C36: what entries hold
template <class Al, class L> static void entries(const char* header, int fields, function<void(typename Al::D&)> set, function<vector<double>(typename Al::D&)> get) {
    setClock(0); auto env = lenv(); typename Al::Args a(env); a.seed = 7; auto m = make_shared<typename Al::Mgr>(a); auto root = make_shared<typename Al::D>(m, S_(0), 0, 0); L l; { stringstream ss; l.write_to_ostream(ss); ASSERT(ss.str().empty() && l.size() == 0, "an empty log is not written as nothing"); } vector<vector<double>> want; l.reset_start_time(); bool origin = vs_choose("origin", 2); if (origin) { l.add_origin_entry(); want.push_back(vector<double>(fields, 0.0)); }
    int n = 1 + vs_choose("entries", 2); for (int i = 0; i < n; i++) { nowQ += vs_int("quarters", 0, 40); root->num_visits = vs_int("visits", 0, 100000); set(*root); vector<double> w{nowQ * 0.25, (double)root->num_visits}; for (double x : get(*root)) w.push_back(x); want.push_back(w); l.log(root); } nowQ += 13; root->num_visits = 77; set(*root);
    for (int k = 0; k < 2; k++) { Log g = text(l); ASSERT(g.header == header, "the header of the log is not as documented"); ASSERT(l.size() == (int)want.size() && g.rows.size() == want.size(), "the number of lines is not the number of entries"); for (size_t i = 0; i < want.size(); i++) { ASSERT((int)g.rows[i].size() == fields, "a line of the log does not have the fields of the header"); for (int j = 0; j < fields; j++) ASSERT(vs_near(g.rows[i][j], want[i][j], 0.05), "a field of the log is not the statistic of the root at the time of logging"); } } vs_reach("end");
}
ENTRY(h_ent_base) { entries<Uct, ThtsLogger>("runtime,num_visits", 2, [](UctDNode& n) {}, [](UctDNode& n) { return vector<double>{}; }); }
ENTRY(h_ent_uct) { entries<Uct, UctLogger>("runtime,num_visits,num_backups,avg_return", 4, [](UctDNode& n) { n.num_backups = vs_int("backups", 0, 100000); n.avg_return = vs_real("avg", -50, 50); }, [](UctDNode& n) { return vector<double>{(double)n.num_backups, n.avg_return}; }); }
ENTRY(h_ent_ments) { entries<Ments, MentsLogger>("runtime,num_visits,num_backups,soft_value", 4, [](MentsDNode& n) { n.num_backups = vs_int("backups", 0, 100000); n.soft_value = vs_real("soft", -50, 50); }, [](MentsDNode& n) { return vector<double>{(double)n.num_backups, n.soft_value}; }); }
ENTRY(h_ent_dbments) { entries<DBMents, DBMentsLogger>("runtime,num_visits,num_backups,soft_value,dp_value", 5, [](DBMentsDNode& n) { n.MentsDNode::num_backups = vs_int("backups", 0, 100000); n.soft_value = vs_real("soft", -50, 50); n.dp_value = vs_real("dp", -50, 50); }, [](DBMentsDNode& n) { return vector<double>{(double)n.MentsDNode::num_backups, n.soft_value, n.dp_value}; }); }
