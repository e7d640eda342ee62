// shared by all harnesses: input API, symbolic environment, symbolic random source, environment stubs
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "vs.h"
#include "thts.h"
#include "mc_eval.h"
#include "helper_templates.h"

#define ENTRY(name) extern "C" void name()
#define ASSERT(c, m) vs_assert((c), m)
using namespace std;
using namespace thts;

// ---- environment stubs, the same in the encoding and in the replay
static long (*vsClock)() = nullptr; // a harness may supply the clock; by default it is an arbitrary non-decreasing one
#ifndef VS_REAL_CLOCK
namespace std::chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { vs_race_off(); long t = vsClock ? vsClock() : vs_now(); vs_race_on(); return system_clock::time_point(system_clock::duration(t)); }
steady_clock::time_point steady_clock::now() noexcept { vs_race_off(); long t = vsClock ? vsClock() : vs_now(); vs_race_on(); return steady_clock::time_point(steady_clock::duration(t)); }
}}
#endif
extern "C" int rand() noexcept { vs_race_off(); int r = vs_int("rand", 0, 2147483647); vs_race_on(); return r; }
#ifdef VS_GUEST
namespace std { void random_device::_M_init(const std::string&) {} void random_device::_M_fini() {} unsigned random_device::_M_getval() { return vs_bv32("random_device"); } }
#endif

typedef shared_ptr<const State> St; typedef shared_ptr<const Action> Ac; typedef shared_ptr<const Observation> Ob;
static inline St S_(int i) { return make_shared<const IntState>(i); }
static inline Ac A_(int i) { return make_shared<const IntAction>(i); }
static inline int sid(const St& s) { return ((const IntState&)*s).state; }
static inline int sid(const Ob& s) { return ((const IntState&)*s).state; }
static inline int aid(const Ac& a) { return ((const IntAction&)*a).action; }

// random numbers are inputs: any value the contract of the random source allows
template <class M> struct Sym : M {
    using M::M;
    int nint = 0, nuni = 0, lastHi = 0;
    int get_rand_int(int lo, int hi) override { nint++; lastHi = hi; if (hi <= lo) vs_fail("a random integer was requested from an empty range"); return lo + vs_choose("rand_int", hi - lo); }
    double get_rand_uniform() override { nuni++; double u = vs_real("rand_uniform", 0.0, 1.0); vs_assume(u < 1.0); return u; }
};

// a finite environment given by tables; entries may be symbolic
struct Tr { int to; double p; };
struct VEnv : ThtsEnv {
    struct SA { vector<Tr> tr; double r = 0.0; };
    struct Sd { bool sink = false; vector<SA> acts; };
    vector<Sd> s; map<int, double> obsReward; int init = 0;
    mutable int nSample = 0, nReward = 0, nCtx = 0;
    VEnv(int n, bool fo = true) : ThtsEnv(fo), s(n) {}
    SA& act(int st, double r, vector<Tr> tr) { SA a; a.tr = tr; a.r = r; s[st].acts.push_back(a); return s[st].acts.back(); }
    void sink(int st) { s[st].sink = true; }
    St get_initial_state_itfc() const override { return S_(init); }
    bool is_sink_state_itfc(St st) const override { return s[sid(st)].sink; }
    shared_ptr<ActionVector> get_valid_actions_itfc(St st) const override { auto v = make_shared<ActionVector>(); for (size_t i = 0; i < s[sid(st)].acts.size(); i++) v->push_back(A_(i)); return v; }
    shared_ptr<StateDistr> get_transition_distribution_itfc(St st, Ac a) const override { auto d = make_shared<StateDistr>(); for (auto& t : s[sid(st)].acts[aid(a)].tr) d->insert_or_assign(S_(t.to), t.p); return d; }
    St sample_transition_distribution_itfc(St st, Ac a, RandManager& rm) const override {
        vs_race_off(); nSample++; vs_race_on(); auto& tr = s[sid(st)].acts[aid(a)].tr; int k = tr.size() == 1 ? 0 : vs_choose("env_next", tr.size()); return S_(tr[k].to); }
    double get_reward_itfc(St st, Ac a, Ob o = nullptr) const override { vs_race_off(); nReward++; vs_race_on(); double r = s[sid(st)].acts[aid(a)].r; if (o) { auto it = obsReward.find(sid(o)); if (it != obsReward.end()) r += it->second; } return r; }
};
static inline void vs_race_quiet(const function<void()>& f) { vs_race_off(); f(); vs_race_on(); }
