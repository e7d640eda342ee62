#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <vector>
#include <string>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <sstream>
#include <iostream>
#include <functional>
#include "thts.h"
#include "mc_eval.h"
#include "helper_templates.h"
#include "distributions/categorical_distribution.h"
#include "distributions/discrete_uniform_distribution.h"
#include "distributions/mixed_distribution.h"
#include "algorithms/uct/uct_manager.h"
#include "algorithms/uct/uct_decision_node.h"
#include "algorithms/uct/uct_chance_node.h"
#include "algorithms/uct/uct_logger.h"
#include "algorithms/uct/puct_manager.h"
#include "algorithms/uct/puct_decision_node.h"
#include "algorithms/uct/puct_chance_node.h"
#include "algorithms/ments/ments_manager.h"
#include "algorithms/ments/ments_decision_node.h"
#include "algorithms/ments/ments_chance_node.h"
#include "algorithms/ments/ments_logger.h"
#include "algorithms/ments/dbments_logger.h"
#include "algorithms/ments/dbments_decision_node.h"
#include "algorithms/ments/dbments_chance_node.h"
#include "algorithms/ments/rents/rents_decision_node.h"
#include "algorithms/ments/rents/rents_chance_node.h"
#include "algorithms/ments/tents/tents_decision_node.h"
#include "algorithms/ments/tents/tents_chance_node.h"
#include "algorithms/ments/dents/dents_manager.h"
#include "algorithms/ments/dents/dents_decision_node.h"
#include "algorithms/ments/dents/dents_chance_node.h"
#include "algorithms/est/est_decision_node.h"
#include "algorithms/est/est_chance_node.h"
#include "algorithms/common/decaying_temp.h"
using namespace std; using namespace thts;
typedef shared_ptr<const State> St; typedef shared_ptr<const Action> Ac; typedef shared_ptr<const Observation> Ob;
static St S_(int i) { return make_shared<const IntState>(i); }
static Ac A_(int i) { return make_shared<const IntAction>(i); }
static Ob O_(int i) { return static_pointer_cast<const Observation>(S_(i)); }
static int sid(const St& s) { return ((const IntState&)*s).state; }
static int sid(const Ob& s) { return ((const IntState&)*s).state; }
static int aid(const Ac& a) { return ((const IntAction&)*a).action; }
#define CHECK(c, m) do { if (!(c)) { printf("WRONG: %s\n", m); exit(1); } } while (0)
static bool near(double a, double b, double t = 1e-6) { return fabs(a - b) <= t * (1 + fabs(b)); }
struct Tr { int to; double p; };
struct TEnv : ThtsEnv {
    struct SA { vector<Tr> tr; double r; }; struct Sd { bool sink = false; vector<SA> acts; };
    vector<Sd> s; map<int, double> obsReward;
    TEnv(int n) : ThtsEnv(true), s(n) {}
    void act(int st, double r, vector<Tr> tr) { s[st].acts.push_back({tr, r}); }
    void sink(int st) { s[st].sink = true; }
    St get_initial_state_itfc() const override { return S_(0); }
    bool is_sink_state_itfc(St st) const override { return s[sid(st)].sink; }
    shared_ptr<ActionVector> get_valid_actions_itfc(St st) const override { auto v = make_shared<ActionVector>(); for (size_t i = 0; i < s[sid(st)].acts.size(); i++) v->push_back(A_(i)); return v; }
    shared_ptr<StateDistr> get_transition_distribution_itfc(St st, Ac a) const override { auto d = make_shared<StateDistr>(); for (auto& t : s[sid(st)].acts[aid(a)].tr) d->insert_or_assign(S_(t.to), t.p); return d; }
    St sample_transition_distribution_itfc(St st, Ac a, RandManager& rm) const override { auto& tr = s[sid(st)].acts[aid(a)].tr; double u = rm.get_rand_uniform(); for (auto& t : tr) { u -= t.p; if (u < 0) return S_(t.to); } return S_(tr.back().to); }
    double get_reward_itfc(St st, Ac a, Ob o = nullptr) const override { double r = s[sid(st)].acts[aid(a)].r; if (o) { auto it = obsReward.find(sid(o)); if (it != obsReward.end()) r += it->second; } return r; }
};
