// Small hookable environment for the demonstration.
#pragma once
#include "thts.h"
#include "thts_env.h"
#include "thts_logger.h"
#include "thts_manager.h"
#include "mc_eval.h"
#include "helper_templates.h"
#include "algorithms/uct/uct_decision_node.h"
#include "algorithms/uct/uct_logger.h"
#include "algorithms/ments/ments_decision_node.h"
#include "algorithms/ments/ments_logger.h"
#include "algorithms/ments/dbments_decision_node.h"
#include "algorithms/ments/rents/rents_decision_node.h"
#include "algorithms/ments/tents/tents_decision_node.h"
#include "algorithms/ments/dents/dents_decision_node.h"
#include "algorithms/est/est_decision_node.h"
#include <atomic>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <mutex>
#include <sstream>
#include <thread>
#include <vector>
using namespace std;
using namespace thts;

struct Toy : public ThtsEnv {
    function<int(int)> nact = [](int) { return 1; };
    function<vector<pair<int,double>>(int,int)> trans = [](int s, int) { return vector<pair<int,double>>{{s + 1, 1.0}}; };
    function<double(int,int,int)> rew = [](int, int, int) { return 1.0; };
    function<bool(int)> sink = [](int s) { return s >= 3; };
    function<void(int,int)> on_reward = [](int, int) {};      // called outside of any node lock
    function<void(int,int)> on_trans = [](int, int) {};       // called with the chance node locked
    function<void()> on_context = []() {};
    Toy() : ThtsEnv(true) {}
    static int sid(const Observation& s) { return static_cast<const IntState&>(s).state; }
    static int aid(const Action& a) { return static_cast<const IntAction&>(a).action; }
    static shared_ptr<const State> st(int s) { return make_shared<const IntState>(s); }
    static shared_ptr<const Action> ac(int a) { return make_shared<const IntAction>(a); }
    shared_ptr<const State> get_initial_state_itfc() const override { return st(0); }
    bool is_sink_state_itfc(shared_ptr<const State> s) const override { return sink(sid(*s)); }
    shared_ptr<ActionVector> get_valid_actions_itfc(shared_ptr<const State> s) const override {
        auto v = make_shared<ActionVector>(); if (!sink(sid(*s))) for (int a = 0; a < nact(sid(*s)); a++) v->push_back(ac(a)); return v; }
    shared_ptr<StateDistr> get_transition_distribution_itfc(shared_ptr<const State> s, shared_ptr<const Action> a) const override {
        auto d = make_shared<StateDistr>(); for (auto& p : trans(sid(*s), aid(*a))) d->insert_or_assign(st(p.first), p.second); return d; }
    shared_ptr<const State> sample_transition_distribution_itfc(shared_ptr<const State> s, shared_ptr<const Action> a, RandManager& rm) const override {
        on_trans(sid(*s), aid(*a));
        double u = rm.get_rand_uniform(), acc = 0; auto t = trans(sid(*s), aid(*a));
        for (auto& p : t) { acc += p.second; if (u < acc) return st(p.first); } return st(t.back().first); }
    double get_reward_itfc(shared_ptr<const State> s, shared_ptr<const Action> a, shared_ptr<const Observation> o = nullptr) const override {
        if (o) on_reward(sid(*s), aid(*a)); return rew(sid(*s), aid(*a), o ? sid(*o) : -1); }
    shared_ptr<ThtsEnvContext> sample_context_itfc(shared_ptr<const State>) const override { on_context(); return make_shared<ThtsEnvContext>(); }
};
inline void sleep_ms(int ms) { this_thread::sleep_for(chrono::milliseconds(ms)); }
// lets n threads meet (gives up after two seconds)
struct Meet { mutex m; condition_variable cv; atomic<int> n{0}; void operator()(int k) { unique_lock<mutex> l(m); n++; cv.notify_all(); cv.wait_for(l, chrono::seconds(2), [&] { return n >= k; }); } };
#define CHECK(c, ...) do { if (!(c)) { printf("FAIL: "); printf(__VA_ARGS__); printf("\n"); fflush(stdout); _Exit(1); } } while (0)
