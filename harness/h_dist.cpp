// sampling, distributions, tie breaking, random source
#include "prelude.h"
#include "distributions/categorical_distribution.h"
#include "distributions/discrete_uniform_distribution.h"
#include "distributions/mixed_distribution.h"
#ifndef N
#define N (VS_TIER ? 4 : 3)
#endif
typedef unordered_map<int, double> DM;
struct Rnd : Sym<RandManager> { Rnd() : Sym<RandManager>(1) {} };

// random source that walks through every sequence of integer draws; weight() is the probability of the current sequence
struct Script : RandManager {
    vector<int> pick, range; size_t at = 0; bool uni = false;
    Script() : RandManager(1) {}
    int get_rand_int(int lo, int hi) override {
        if (hi <= lo) vs_fail("a random integer was requested from an empty range");
        if (at == pick.size()) { pick.push_back(0); range.push_back(hi - lo); }
        return lo + pick[at++]; }
    double get_rand_uniform() override { uni = true; return 0.5; }
    double weight() { double w = 1; for (size_t i = 0; i < at; i++) w /= range[i]; return w; }
    bool next() { pick.resize(at); range.resize(at); at = 0; while (!pick.empty()) { if (++pick.back() < range.back()) return true; pick.pop_back(); range.pop_back(); } return false; }
};

// ---- C23
template <class T> static void maxKey(vector<T> v) {
    unordered_map<int, T> m; for (size_t i = 0; i < v.size(); i++) m[(int)i] = v[i];
    vector<bool> top(v.size(), true); int nt = 0;
    for (size_t i = 0; i < v.size(); i++) { for (size_t j = 0; j < v.size(); j++) if (v[j] > v[i]) top[i] = false; if (top[i]) nt++; }
    vector<double> p(v.size(), 0.0); Script r; int runs = 0;
    do { int k = helper::get_max_key_break_ties_randomly(m, r); runs++;
        ASSERT(k >= 0 && k < (int)v.size() && top[k], "the returned key does not have the maximal value"); p[k] += r.weight(); } while (r.next() && runs < 1000);
    if (!r.uni) for (size_t i = 0; i < v.size(); i++) if (top[i]) ASSERT(p[i] > 1.0 / nt - 1e-9 && p[i] < 1.0 / nt + 1e-9, "ties are not broken uniformly over the maximal keys");
    if (nt == 1) vs_reach("unique"); if (nt == (int)v.size()) vs_reach("all-tied"); vs_reach("end");
}
ENTRY(h_max_real) { vector<double> v; for (int i = 0; i < N; i++) v.push_back(vs_real("val", -1e6, 1e6)); maxKey(v); }
ENTRY(h_max_many) { int n = VS_TIER ? 7 : 6; vector<double> v; for (int i = 0; i < n; i++) v.push_back(i == 2 ? vs_real("val", -3, 3) : (double)vs_choose("level", 2)); maxKey(v); }
ENTRY(h_max_fp) { vector<double> v; for (int i = 0; i < N; i++) { double x = vs_fp("val"); vs_assume(x == x); v.push_back(x); } maxKey(v); }
ENTRY(h_max_int) { vector<int> v; for (int i = 0; i < N; i++) v.push_back((int)vs_bv32("val")); maxKey(v); }
ENTRY(h_max_neginf) { double inf = numeric_limits<double>::infinity(); vector<double> v; for (int i = 0; i < N; i++) { int c = vs_choose("kind", 3); v.push_back(c == 0 ? -inf : c == 1 ? numeric_limits<double>::lowest() : vs_real("val", -10, 10)); } maxKey(v); }

// ---- C21
static int sampleOr(DM& d, RandManager& r, bool norm, bool& threw) { threw = false; try { return helper::sample_from_distribution(d, r, norm); } catch (runtime_error& e) { threw = true; return -1; } }
static void intervals(DM& d, double total, double u, int k, const char* msg) {
    double lo = 0; bool ok = false; double e = vs_tol(1e-6);
    for (auto& pr : d) { double hi = lo + pr.second; if (pr.first == k) ok = (u * total >= lo - e && u * total <= hi + e); lo = hi; }
    ASSERT(ok, msg);
}
struct OneU : RandManager { double u; OneU(double u) : RandManager(1), u(u) {} int get_rand_int(int lo, int hi) override { vs_fail("unexpected integer draw"); return lo; } double get_rand_uniform() override { return u; } };
static void sampleNorm(int n) {
    DM d; double tot = 0; for (int i = 0; i < n; i++) { double w; if (i + 1 < n) { w = vs_real("w", 0, 1); } else w = 1.0 - tot; vs_assume(w >= 0); tot += w; d[i] = w; }
    double u = vs_real("u", 0, 1); vs_assume(u < 1); OneU r(u); bool t; int k = sampleOr(d, r, true, t);
    ASSERT(!t, "sampling a valid distribution raised an error"); if (t) return;
    ASSERT(d.count(k) && d[k] > 0, "a key of zero mass was returned"); intervals(d, 1.0, u, k, "a key is not sampled with its probability"); vs_reach("end");
}
ENTRY(h_sample_norm) { sampleNorm(N); }
ENTRY(h_sample_one) { sampleNorm(1); }
static void sampleUn(int n) {
    DM d; double tot = 0; for (int i = 0; i < n; i++) { double w = vs_real("w", 0, 8); tot += w; d[i] = w; } vs_assume(tot >= 0.125);
    double u = vs_real("u", 0, 1); vs_assume(u < 1); OneU r(u); bool t; int k = sampleOr(d, r, false, t);
    ASSERT(!t, "sampling a valid unnormalised distribution raised an error"); if (t) return;
    ASSERT(d.count(k) && d[k] > 0, "a key of zero mass was returned"); intervals(d, tot, u, k, "a key is not sampled in proportion to its weight"); vs_reach("end");
}
ENTRY(h_sample_unnorm) { sampleUn(N); }
// IEEE doubles: masses that add up to one in floating point, up to rounding
ENTRY(h_sample_fp) {
    DM d; double tot = 0; for (int i = 0; i < N; i++) { double w = vs_fp("w"); vs_assume(w >= 0 && w <= 1); d[i] = w; }
    for (auto& pr : d) tot += pr.second; vs_assume(tot >= 1 - 4e-16 && tot <= 1 + 4e-16); double u = vs_fp("u"); vs_assume(u >= 0 && u < 1); OneU r(u); bool t; int k = sampleOr(d, r, true, t);
    ASSERT(!t, "sampling a distribution whose masses add up to one up to rounding raised an error"); if (!t) ASSERT(d[k] > 0, "a key of zero mass was returned"); vs_reach("end");
}
// masses that do not add up to one are reported when the draw falls outside the mass
ENTRY(h_sample_bad) {
    DM d; double tot = 0; for (int i = 0; i < N; i++) { double w = vs_real("w", 0, 2); tot += w; d[i] = w; } double u = vs_real("u", 0, 1); vs_assume(u < 1); OneU r(u); bool t; sampleOr(d, r, true, t);
    if (tot < 0.999 && u >= tot + 0.0001) { ASSERT(t, "a draw outside a deficient mass did not raise an error"); vs_reach("deficient"); } if (tot > 1.001) { ASSERT(t, "masses that add up to more than one did not raise an error"); vs_reach("excess"); } }

// ---- C22
static shared_ptr<DM> symD(const char* nm, int n, vector<double>& w) { auto d = make_shared<DM>(); w.clear(); double tot = 0; for (int i = 0; i < n; i++) { double x = vs_real(nm, 0, 4); w.push_back(x); tot += x; d->insert_or_assign(i, x); } vs_assume(tot >= 0.5); return d; }
static void checkCat(CategoricalDistribution<int>& c, vector<double> w) {
    double tot = 0; for (double x : w) tot += x; int n = w.size();
    double u = vs_real("u", 0, 1); vs_assume(u < 1); OneU r(u); int k = -1; bool t = false; try { k = c.sample(r); } catch (runtime_error&) { t = true; } ASSERT(!t, "sampling raised an error"); if (t) return; ASSERT(k >= 0 && k < n && w[k] > 0, "a key outside the support was returned");
        intervals(*c.distr, tot, u, k, "a key is not sampled in proportion to its weight");
}
ENTRY(h_cat_plain) { vector<double> w; auto d = symD("w", N, w); CategoricalDistribution<int> c(d); checkCat(c, w); vs_reach("end"); }
ENTRY(h_cat_plain_update) { vector<double> w; auto d = symD("w", 2, w); CategoricalDistribution<int> c(d); double x = vs_real("x", 0.5, 4); int k = vs_choose("key", 3); c.update(k, x); if (k == 2) w.push_back(x); else w[k] = x; checkCat(c, w); vs_reach("end"); }
ENTRY(h_cat_plain_replace) { vector<double> w, w2; auto d = symD("w", 2, w); CategoricalDistribution<int> c(d); auto d2 = symD("v", 3, w2); c.update(d2); checkCat(c, w2); vs_reach("end"); }
// exact mass of every key under the alias method, from the sampling code: for each row and each key the set of uniform draws that returns the key is an interval
// starting at 0 (first) or ending at 1 (second), so its length is decided by comparing with the draw
static void aliasMass(CategoricalDistribution<int>& c, vector<double> w) {
    double tot = 0; for (double x : w) tot += x; int n = w.size(); vector<double> m(n, 0.0);
    struct R3 : RandManager { int idx; int n = 0; double u = 0; R3() : RandManager(1), idx(0) {} int get_rand_int(int lo, int hi) override { n = hi - lo; if (hi <= lo) vs_fail("a random integer was requested from an empty range"); return lo + idx; } double get_rand_uniform() override { return u; } } r;
    for (int i = 0; i < n; i++) { r.idx = i;
        // the row's outcome at the two ends of the uniform range
        r.u = 0.0; int a = c.sample(r); ASSERT(r.n == n, "the row is not drawn from all rows of the table"); r.u = 1.0 - 1e-9; int b = c.sample(r);
        ASSERT(a >= 0 && a < n && b >= 0 && b < n, "a key outside the distribution was returned");
        if (a == b) m[a] += 1.0; else { double cut = vs_real("cut", 0, 1), dl = 1e-6; // any point where the outcome switches
            r.u = cut > dl ? cut - dl : 0.0; vs_assume(c.sample(r) == a); r.u = cut < 1 - dl - 1e-9 ? cut + dl : 1 - 1e-9; vs_assume(c.sample(r) == b);
            double u = vs_real("u", 0, 1); vs_assume(u < 1); r.u = u; int k = c.sample(r); if (u < cut - 2 * dl) ASSERT(k == a, "the outcome of a row switches more than once"); if (u > cut + 2 * dl) ASSERT(k == b, "the outcome of a row switches more than once");
            m[a] += cut; m[b] += 1.0 - cut; } }
    for (int k = 0; k < n; k++) { double dlt = m[k] * tot - n * w[k]; double e = vs_tol(1e-3); ASSERT(dlt <= e && -dlt <= e, "the alias method does not sample a key in proportion to its weight"); if (w[k] == 0) vs_reach("zero-weight"); }
}
ENTRY(h_cat_alias) { vector<double> w; auto d = symD("w", N, w); CategoricalDistribution<int> c(d, true); aliasMass(c, w); vs_reach("end"); }
ENTRY(h_cat_alias_update) { vector<double> w; auto d = symD("w", 2, w); CategoricalDistribution<int> c(d, true); double x = vs_real("x", 0.5, 4); int k = vs_choose("key", 3); c.update(k, x); if (k == 2) w.push_back(x); else w[k] = x; aliasMass(c, w); vs_reach("end"); }
ENTRY(h_cat_alias_replace) { vector<double> w, w2; int n1 = 1 + vs_choose("n1", 3), n2 = 1 + vs_choose("n2", VS_TIER ? 3 : 2); auto d = symD("w", n1, w); CategoricalDistribution<int> c(d, true); auto d2 = symD("v", n2, w2); c.update(d2); aliasMass(c, w2); vs_reach("end"); }
// with a lazy rebuild frequency the table follows the weights again after every freq-th update
ENTRY(h_cat_alias_freq) { vector<double> w; auto d = symD("w", 2, w); int f = 1 + vs_choose("freq", 3); CategoricalDistribution<int> c(d, true, f); for (int i = 0; i < f; i++) { double x = vs_real("x", 0.5, 4); int k = vs_choose("key", 2); c.update(k, x); w[k] = x; } aliasMass(c, w); vs_reach("end"); }
// between rebuilds the table keeps the weights of the last rebuild
ENTRY(h_cat_alias_lag) { vector<double> w; auto d = symD("w", 2, w); int f = 2 + vs_choose("freq", 2), n = vs_choose("updates", 4); CategoricalDistribution<int> c(d, true, f); vector<double> cur = w; for (int i = 0; i < n; i++) { double x = vs_real("x", 0.5, 4); int k = vs_choose("key", 2); c.update(k, x); cur[k] = x; if ((i + 1) % f == 0) w = cur; } aliasMass(c, w); vs_reach("end"); }
// the same over long sequences of updates; the last weight is symbolic
ENTRY(h_cat_alias_long) { static const double X[] = {1.0, 3.0, 0.5, 2.0, 4.0, 0.25}; static const int F[] = {2, 3, 5}; int f = F[vs_choose("freq", 3)], n = vs_choose("updates", VS_TIER ? 16 : 11), off = VS_TIER ? vs_choose("keys", 2) : 1; auto d = make_shared<DM>(); vector<double> w; for (int i = 0; i < 3; i++) { w.push_back(X[(i + 3) % 6]); d->insert_or_assign(i, w[i]); } CategoricalDistribution<int> c(d, true, f); vector<double> cur = w; for (int i = 0; i < n; i++) { double x = i + 1 == n ? vs_real("x", 0.5, 4) : X[i % 6]; int k = (i * (1 + off) + off) % 3; c.update(k, x); cur[k] = x; if ((i + 1) % f == 0) w = cur; } aliasMass(c, w); vs_reach("end"); }
// a complete replacement counts at once, whatever the frequency and the updates before it
ENTRY(h_cat_alias_renew) { static const double X[] = {1.0, 3.0, 0.5, 2.0}; int f = 1 + vs_choose("freq", 4), n = vs_choose("updates", 5); auto d = make_shared<DM>(); for (int i = 0; i < 2; i++) d->insert_or_assign(i, X[i]); CategoricalDistribution<int> c(d, true, f); for (int i = 0; i < n; i++) c.update(i % 2, X[(i + 2) % 4]); vector<double> w2; auto d2 = symD("v", 2, w2); c.update(d2); aliasMass(c, w2); vs_reach("end"); }
// more keys, some of equal and some of zero weight
ENTRY(h_cat_alias_many) { static const double X[] = {1.0, 0.0, 3.0, 1.0, 0.5, 2.0}; int n = 4 + vs_choose("n", VS_TIER ? 4 : 2); auto d = make_shared<DM>(); vector<double> w; for (int i = 0; i < n; i++) { w.push_back(i == n - 1 ? vs_real("w", 0, 4) : X[i % 6]); d->insert_or_assign(i, w[i]); } CategoricalDistribution<int> c(d, true); aliasMass(c, w); vs_reach("end"); }
ENTRY(h_cat_plain_many) { static const double X[] = {1.0, 0.0, 3.0, 1.0, 0.5, 2.0}; int n = 4 + vs_choose("n", VS_TIER ? 4 : 2), m = vs_choose("updates", 4); auto d = make_shared<DM>(); vector<double> w; for (int i = 0; i < n; i++) { w.push_back(X[i % 6]); d->insert_or_assign(i, w[i]); } CategoricalDistribution<int> c(d); for (int j = 0; j < m; j++) { int k = (3 * j) % n; double x = vs_real("x", j ? 0 : 0.25, 4); c.update(k, x); w[k] = x; } checkCat(c, w); vs_reach("end"); }
ENTRY(h_uniform) { int n = 1 + vs_choose("n", 4); auto ks = make_shared<vector<int>>(); for (int i = 0; i < n; i++) ks->push_back(100 + i); DiscreteUniformDistribution<int> u(ks); vector<double> p(n, 0.0); Script r; int runs = 0;
    do { int k = u.sample(r); runs++; ASSERT(k >= 100 && k < 100 + n, "a key outside the set was returned"); p[k - 100] += r.weight(); } while (r.next() && runs < 30);
    if (!r.uni) for (int i = 0; i < n; i++) ASSERT(p[i] > 1.0 / n - 1e-9 && p[i] < 1.0 / n + 1e-9, "the discrete uniform distribution is not uniform"); vs_reach("end"); }
ENTRY(h_mixed) { // a component is drawn with its weight, then sampled
    struct K : Distribution<int> { int k; K(int k) : k(k) {} int sample(RandManager&) override { return k; } };
    auto md = make_shared<MixedDistributionDistr<int>>(); double p = vs_real("p", 0, 1); auto a = make_shared<K>(1), b = make_shared<K>(2); md->insert_or_assign(a, p); md->insert_or_assign(b, 1.0 - p);
    MixedDistribution<int> m(md); double u = vs_real("u", 0, 1); vs_assume(u < 1); OneU r(u); bool t = false; int k = -1; try { k = m.sample(r); } catch (runtime_error&) { t = true; }
    ASSERT(!t, "sampling a valid mixture raised an error"); if (t) return; double lo = 0; bool ok = false; double e = vs_tol(1e-6); for (auto& pr : *md) { double hi = lo + pr.second; if (static_pointer_cast<K>(pr.first)->k == k) ok = pr.second > 0 && u >= lo - e && u <= hi + e; lo = hi; } ASSERT(ok, "a component is not drawn with its weight"); vs_reach("end"); }

