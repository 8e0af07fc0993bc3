#pragma once
#include "rt.h"
#include "hist.h"
#include "thts.h"
#include "thts_env.h"
#include "thts_env_context.h"
#include "thts_logger.h"
#include "thts_manager.h"
#include "thts_types.h"
#include "thts_decision_node.h"
#include "thts_chance_node.h"
#include "mc_eval.h"
#include "algorithms/uct/uct_decision_node.h"
#include "algorithms/uct/uct_manager.h"
#include "algorithms/uct/uct_logger.h"
#include "algorithms/uct/puct_decision_node.h"
#include "algorithms/uct/puct_manager.h"
#include "algorithms/ments/ments_decision_node.h"
#include "algorithms/ments/ments_manager.h"
#include "algorithms/ments/ments_logger.h"
#include "algorithms/ments/dbments_decision_node.h"
#include "algorithms/ments/dbments_logger.h"
#include "algorithms/ments/dents/dents_decision_node.h"
#include "algorithms/ments/dents/dents_manager.h"
#include "algorithms/ments/rents/rents_decision_node.h"
#include "algorithms/ments/tents/tents_decision_node.h"
#include "algorithms/est/est_decision_node.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <functional>

extern int g_safety_only;   // C04: what the other properties' oracles say ends the run but is not this property's business
#define VIOL(cls, ...) (g_safety_only ? rt_end_run() : rt_violation(cls, __VA_ARGS__))

struct HRng {   // scenario randomness (not schedule randomness)
    uint64_t s;
    explicit HRng(uint64_t seed) : s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
    int range(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi-lo+1)); }   // inclusive
    double unit() { return (next()>>11) * (1.0/9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + next()%l.size()); }
};

// ------------------------------------------------------------------ environment
struct EnvSpec {
    int id = 0;
    int nS = 0, init = 0;
    std::vector<int> nA;                                              // actions per state
    std::vector<std::vector<std::vector<std::pair<int,double>>>> tr;  // [s][a] -> (next, prob)
    std::vector<std::vector<double>> rew;
    std::vector<char> sink;
    std::vector<double> h;
    std::vector<std::vector<double>> prior;
    bool obs_reward = false, fresh = true;
    bool sink_actions = false, zero_prior = false;
    int srep = 0, arep = 0;   // which state and action types the environment hands out
    std::vector<int> slow; int slow_at = -1; uint64_t slow_ns = 0;   // these trials stall in the environment, before step slow_at's reward (-1: when they begin)
    uint64_t cost_ns = 0;     // simulated duration of an environment step (upper bound)
    double reward(int s, int a, int o) const { return rew[s][a] + (obs_reward && o >= 0 ? 0.5 * (o % 7) : 0.0); }
};
struct EnvOpts { int layers_lo=1, layers_hi=4, width_hi=3, act_hi=3, out_hi=3; bool cyclic=false; bool obs_reward=false; double early_sink=0.15; uint64_t cost_ns=0; bool one_sink=false; };
EnvSpec gen_env(HRng& r, int id, const EnvOpts& o);

class HCtx : public thts::ThtsEnvContext {
public:
    int trial; uint32_t magic;
    HCtx(int trial) : trial(trial), magic(0xC0FFEE) {}
    virtual ~HCtx() { magic = 0xDEADC0DE; h_end(trial); }
};

class SimEnv : public thts::ThtsEnv {
public:
    EnvSpec spec;
    std::vector<std::shared_ptr<const thts::State>> cs;
    std::vector<std::shared_ptr<const thts::Action>> ca;
    SimEnv(const EnvSpec& sp, bool fully_observable=true);
    std::shared_ptr<const thts::State> st(int s) const;
    std::shared_ptr<const thts::Action> ac(int a) const;
    static int sid(const thts::Observation& s);
    static int aid(const thts::Action& a);
    std::shared_ptr<const thts::State> mkst(int s) const; std::shared_ptr<const thts::Action> mkac(int a) const;
    std::shared_ptr<const thts::State> get_initial_state_itfc() const override;
    bool is_sink_state_itfc(std::shared_ptr<const thts::State> state) const override;
    std::shared_ptr<thts::ActionVector> get_valid_actions_itfc(std::shared_ptr<const thts::State> state) const override;
    std::shared_ptr<thts::StateDistr> get_transition_distribution_itfc(std::shared_ptr<const thts::State> state, std::shared_ptr<const thts::Action> action) const override;
    std::shared_ptr<const thts::State> sample_transition_distribution_itfc(std::shared_ptr<const thts::State> state, std::shared_ptr<const thts::Action> action, thts::RandManager& rm) const override;
    double get_reward_itfc(std::shared_ptr<const thts::State> state, std::shared_ptr<const thts::Action> action, std::shared_ptr<const thts::Observation> observation=nullptr) const override;
    void stall(int at) const;
    std::shared_ptr<thts::ThtsEnvContext> sample_context_itfc(std::shared_ptr<const thts::State> state) const override;
};

// ------------------------------------------------------------------ algorithms
enum Algo { A_UCT=0, A_PUCT, A_MENTS, A_RENTS, A_TENTS, A_DBMENTS, A_DENTS, A_EST, A_N };
extern const char* ALGO_NAMES[];
struct AlgoCfg {
    int algo = A_UCT;
    int max_depth = 1<<30; bool mcts = true, two_player = false, trans = false; int nmutex = 1; int seed = 1;
    bool use_h = false, null_h = false, use_prior = false; int root_ts = 0;
    double adv = 0.0;      // probability of an extreme (but legal) random draw
    // uct
    double bias = -1.0; int pseudo = 0; bool rec_mv = false; double eps_expl = 0.0; double puct_power = 0.5;
    // ments
    double temp = 1.0, prior_w = 0.0, eps = 0.5, root_eps = -1.0, max_explore = 1.0; int decay = 0; double min_temp = 1e-6, scale = 1.0, root_scale = -1.0;
    double default_q = 0.0; bool shift = false; double q_off = 0.0; int rec_thresh = 0;
    // dents
    int vdecay = 1; double vtemp = 1.0, vmin = 1e-6, vscale = 1.0, vroot_scale = -1.0; bool use_dp = true;
    bool is_uct() const { return algo==A_UCT || algo==A_PUCT; }
    std::string str() const;
};
enum { G_TRANS=1, G_NOTRANS=2, G_NOADV=4, G_NODECAY=8, G_NOEPS=16, G_UCTONLY=32, G_MENTSONLY=64, G_NOPRIOR=128, G_TWO=256 };
AlgoCfg gen_algo(HRng& r, int flags);
struct Built { std::shared_ptr<SimEnv> env; std::shared_ptr<thts::ThtsManager> mgr; std::shared_ptr<thts::ThtsDNode> root; };
Built build(const AlgoCfg& c, const EnvSpec& e);
std::shared_ptr<thts::ThtsDNode> build_root(const AlgoCfg& c, std::shared_ptr<SimEnv> env, std::shared_ptr<thts::ThtsManager> mgr);
std::shared_ptr<thts::ThtsManager> build_mgr(const AlgoCfg& c, std::shared_ptr<SimEnv> env);

// ------------------------------------------------------------------ tree snapshot
struct Val { double v = 0; std::map<std::string,double> f; double get(const char* k) const { auto it=f.find(k); return it==f.end()? 0.0/0.0 : it->second; } };
struct CSnap { int a = -1; int visits = 0; Val val; std::map<int,std::string> kids; int nkids = 0; };
struct DSnap { int depth = 0, state = 0; int visits = 0; Val val; bool leaf = false; std::map<int,CSnap> kids; thts::ThtsDNode* ptr = nullptr; int in_edges = 0; int nkids = 0; };
struct Tree { std::map<std::string,DSnap> d; bool hiprec = false; double tol() const { return hiprec ? 1e-8 : 3e-4; } };
Tree snapshot(const AlgoCfg& c, const EnvSpec& e, std::shared_ptr<thts::ThtsDNode> root);
// several trees that share one transposition table: nodes below the roots are keyed by (timestep, state), the roots by name; needs an unlimited depth
struct RootSpec { std::string key; int state = 0, ts = 0; std::shared_ptr<thts::ThtsDNode> node; int dropped = 1<<30; };   // dropped: released when that many trials had been run
Tree snapshot(const AlgoCfg& c, const EnvSpec& e, const std::vector<RootSpec>& roots);
bool parse_val(const std::string& s, char kind, Val& v, int& visits, bool& hiprec);

// ------------------------------------------------------------------ model of what the trials imply
struct CModel { int passes = 0; double sum = 0; std::map<int,int> obs; std::map<int,int> obs_ends; std::map<int,std::string> kid; };
struct DModel { int depth = 0, state = 0; int passes = 0, ends = 0; double sum = 0; std::map<int,CModel> acts; int in_edges = 0; bool leaf = false, was_shared = false; };
struct Model { std::map<std::string,DModel> d; int trials = 0; };
std::string root_key(const AlgoCfg& c, const EnvSpec& e);
double end_value(const AlgoCfg& c, const EnvSpec& e, int s);
bool env_leaf(const AlgoCfg& c, const EnvSpec& e, int depth, int s);
// checks that each trial is a legal trajectory too
Model build_model(const AlgoCfg& c, const EnvSpec& e, int env_id);
Model build_model(const AlgoCfg& c, const EnvSpec& e, int env_id, const std::function<int(int)>& which);   // which: -1 leaves a trial out
Model build_model(const AlgoCfg& c, const EnvSpec& e, int env_id, const std::vector<RootSpec>& roots, const std::function<int(int)>& which);   // which: trial -> root

// ------------------------------------------------------------------ oracles (call rt_violation on failure)
void check_structure(const AlgoCfg& c, const EnvSpec& e, const Model& m, const Tree& t);       // C06
void check_leaf_rule(const AlgoCfg& c, const EnvSpec& e, const Model& m);                      // C06 ends
void check_returns(const AlgoCfg& c, const EnvSpec& e, const Model& m, const Tree& t);         // C08
void check_try_all(const AlgoCfg& c, const EnvSpec& e, const Model& m);                        // C08
void check_ucb_single(const AlgoCfg& c, const EnvSpec& e, int env_id);                         // C08 (one worker)
void check_finite(const Tree& t);
void check_values(const AlgoCfg& c, const EnvSpec& e, const Model& m, const Tree& t);          // C09
std::set<int> allowed_actions(const AlgoCfg& c, const EnvSpec& e, const Model& m, const Tree& t, const std::string& key); // recommendable actions; empty = any
void check_recommend(const AlgoCfg& c, const EnvSpec& e, const Model& m, const Tree& t, std::shared_ptr<thts::ThtsDNode> root); // C10
// model of the search policy: q values of a node (d: its snapshot, null for a fresh node), the distribution it selects from, RENTS' soft value
std::vector<double> node_q(const AlgoCfg& c, const EnvSpec& e, const DSnap* d, int state, int depth, int visits);
std::vector<double> node_policy(const AlgoCfg& c, const EnvSpec& e, const std::vector<double>& q, int state, int depth, int visits, const std::vector<double>* parent);
double rents_soft(const AlgoCfg& c, const std::vector<double>& q, int depth, int visits, const std::vector<double>* parent);
// scripted draws: on=1 every uniform draw returns u, on=2 real draws are counted, 0 off
struct Script { int on = 0; double u = 0; int nu = 0, ni = 0; };
extern Script g_scr;
bool closeto(double a, double b, double tol);
double decayed(int kind, double init, double mn, double visits, double scale);
void install_locale();
extern "C" { double h_adv_uniform(double base, double p); int h_adv_int(int base, int lo, int hi, double p); void h_adv_seed(uint64_t s); }
