#include "h_common.h"
#include <typeinfo>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <locale>
#include <limits>
#include <set>
#include <algorithm>
#include <sstream>
using namespace std;
using namespace thts;
int g_safety_only = 0;

const char* ALGO_NAMES[] = {"uct","puct","ments","rents","tents","dbments","dents","est"};

// ------------------------------------------------------------------ environment
EnvSpec gen_env(HRng& r, int id, const EnvOpts& o) {
    EnvSpec e; e.id = id;
    int L = r.range(min(o.layers_lo,o.layers_hi), o.layers_hi), W = r.range(1, o.width_hi);
    int style = r.chance(0.09) ? (r.chance(0.65)?4:5) : r.range(0,3);
    e.obs_reward = o.obs_reward && r.chance(0.5); e.fresh = r.chance(0.7); e.cost_ns = o.cost_ns; e.zero_prior = r.chance(0.2); e.srep = r.pick({0,0,0,1,2,3}); e.arep = r.pick({0,0,0,1,2});
    vector<vector<int>> layer; int n = 0;
    for (int l=0;l<=L;l++) { int w = l==0 ? 1 : W; layer.push_back({}); for (int k=0;k<w;k++) layer.back().push_back(n++); }
    e.nS = n; e.nA.assign(n,0); e.tr.resize(n); e.rew.resize(n); e.sink.assign(n,0); e.h.assign(n,0); e.prior.resize(n);
    for (int l=0;l<=L;l++) for (int s : layer[l]) {
        bool sink = !o.cyclic ? (l==L || (l>0 && r.chance(o.early_sink))) : (l==L && r.chance(0.6));
        e.sink[s] = sink;
        e.h[s] = r.range(-6,6) + (r.chance(0.5)?0.25:0.0);
        if (sink) continue;
        int A = r.range(1,o.act_hi); if (A==1 && r.chance(0.6)) A = r.range(1,o.act_hi);
        e.nA[s] = A; e.tr[s].resize(A); e.rew[s].resize(A);
        for (int a=0;a<A;a++) {
            e.rew[s][a] = style==0 ? (double)r.range(-3,3) : style==1 ? r.range(-20,20)*0.5 : style==2 ? r.unit()*4-2 : style==4 ? r.range(-8,8)*64.0 : style==5 ? r.range(-8,-1)*65536.0 : (double)(r.chance(0.3)?r.range(1,5):0);
            vector<int> cand; if (o.cyclic) for (int x=0;x<n;x++) cand.push_back(x); else cand = layer[l+1];
            int B = r.range(1, min<int>(o.out_hi,(int)cand.size()));
            for (int i=(int)cand.size()-1;i>0;i--) swap(cand[i],cand[r.range(0,i)]);
            vector<int> w; int sum=0; for (int b=0;b<B;b++) { w.push_back(1); sum++; }
            int D=r.chance(0.7)?8:r.range(max(B,3),23); while (sum<D) { w[r.range(0,B-1)]++; sum++; }
            for (int b=0;b<B;b++) e.tr[s][a].push_back({cand[b], w[b]/(double)D});
        }
        double ps=0; for (int a=0;a<A;a++) { e.prior[s].push_back(0.1+r.unit()); ps+=e.prior[s].back(); }
        for (double& p : e.prior[s]) p/=ps;
        if (e.zero_prior && A>1) { int z=r.range(0,A-1); double tiny=r.chance(0.7)?0.0:1e-40, keep=1-e.prior[s][z]; for (int a=0;a<A;a++) e.prior[s][a] = a==z ? tiny : e.prior[s][a]/keep; }
    }
    return e;
}
// states and actions come in the library's own types and in ones whose hashes collide
struct ClashState : public IntState { using IntState::IntState; size_t hash() const override { return (size_t)(state & 1); } };
struct ClashAction : public IntAction { using IntAction::IntAction; size_t hash() const override { return 7; } };
shared_ptr<const State> SimEnv::mkst(int s) const {
    switch (spec.srep) { case 1: return make_shared<const ClashState>(s); case 2: return make_shared<const IntPairState>(s%3-1,s/3); case 3: return make_shared<const Int3TupleState>(s%2,(s/2)%2,s/4-1); default: return make_shared<const IntState>(s); } }
shared_ptr<const Action> SimEnv::mkac(int a) const {
    switch (spec.arep) { case 1: return make_shared<const ClashAction>(a); case 2: return make_shared<const StringAction>(string(a%3+1,'x')+char('a'+a)); default: return make_shared<const IntAction>(a); } }
int SimEnv::sid(const Observation& s) { const type_info& t=typeid(s);
    if (t==typeid(IntPairState)) { auto& p=static_cast<const IntPairState&>(s).state; return p.second*3+p.first+1; }
    if (t==typeid(Int3TupleState)) { auto& p=static_cast<const Int3TupleState&>(s).state; return (get<2>(p)+1)*4+get<1>(p)*2+get<0>(p); }
    return static_cast<const IntState&>(s).state; }
int SimEnv::aid(const Action& a) { if (typeid(a)==typeid(StringAction)) return static_cast<const StringAction&>(a).action.back()-'a'; return static_cast<const IntAction&>(a).action; }
SimEnv::SimEnv(const EnvSpec& sp, bool fully_observable) : ThtsEnv(fully_observable), spec(sp) {
    for (int s=0;s<spec.nS;s++) cs.push_back(mkst(s));
    int m=0; for (int a : spec.nA) m=max(m,a);
    for (int a=0;a<m;a++) ca.push_back(mkac(a));
}
shared_ptr<const State> SimEnv::st(int s) const { if (spec.fresh) return mkst(s); return cs[s]; }
shared_ptr<const Action> SimEnv::ac(int a) const { if (spec.fresh) return mkac(a); return ca[a]; }
shared_ptr<const State> SimEnv::get_initial_state_itfc() const { return st(spec.init); }
bool SimEnv::is_sink_state_itfc(shared_ptr<const State> s) const { return spec.sink[sid(*s)]; }
shared_ptr<ActionVector> SimEnv::get_valid_actions_itfc(shared_ptr<const State> s) const {
    auto v = make_shared<ActionVector>(); int n = spec.nA[sid(*s)]; for (int a=0;a<n;a++) v->push_back(ac(a)); return v;
}
shared_ptr<StateDistr> SimEnv::get_transition_distribution_itfc(shared_ptr<const State> s, shared_ptr<const Action> a) const {
    auto d = make_shared<StateDistr>(); for (auto& p : spec.tr[sid(*s)][aid(*a)]) d->insert_or_assign(st(p.first), p.second); return d;
}
shared_ptr<const State> SimEnv::sample_transition_distribution_itfc(shared_ptr<const State> s, shared_ptr<const Action> a, RandManager& rm) const {
    double u = rm.get_rand_uniform(), acc = 0; auto& t = spec.tr[sid(*s)][aid(*a)];
    for (auto& p : t) { acc += p.second; if (u < acc) return st(p.first); }
    return st(t.back().first);
}
double SimEnv::get_reward_itfc(shared_ptr<const State> s, shared_ptr<const Action> a, shared_ptr<const Observation> o) const {
    int si=sid(*s), ai=aid(*a), oi = o ? sid(*o) : -1;
    double r = spec.reward(si,ai,oi);
    if (o) { h_step(spec.id, si, ai, oi, r); stall(0); if (spec.cost_ns) { uint64_t k = ((uint64_t)si*7919 + ai*104729 + oi*1299709 + h_seq()*15485863) * 0x9e3779b97f4a7c15ull; rt_sleep((k>>20) % spec.cost_ns); } else rt_point(); }
    return r;
}
void SimEnv::stall(int at) const { if (spec.slow.empty()) return; int t=h_cur_trial(); for (int x : spec.slow) if (x==t && (at<0 ? spec.slow_at<0 : h_get(t)->nsteps==spec.slow_at+1)) rt_sleep(spec.slow_ns); }
shared_ptr<ThtsEnvContext> SimEnv::sample_context_itfc(shared_ptr<const State> s) const { auto c=make_shared<HCtx>(h_begin(spec.id, sid(*s))); stall(-1); return c; }

static double sim_heuristic(shared_ptr<const State> s, shared_ptr<ThtsEnv> env) { return static_cast<SimEnv&>(*env).spec.h[SimEnv::sid(*s)]; }
static shared_ptr<ActionPrior> sim_prior(shared_ptr<const State> s, shared_ptr<ThtsEnv> env) {
    SimEnv& e = static_cast<SimEnv&>(*env); auto p = make_shared<ActionPrior>(); int si = SimEnv::sid(*s);
    for (int a=0;a<e.spec.nA[si];a++) p->insert_or_assign(e.ac(a), e.spec.prior[si][a]); return p;
}

// ------------------------------------------------------------------ algorithms
string AlgoCfg::str() const {
    char b[512]; snprintf(b,sizeof b,"%s depth=%d mcts=%d two=%d trans=%d/%d seed=%d h=%d nullh=%d prior=%d ts0=%d adv=%.2f", ALGO_NAMES[algo], max_depth==1<<30?-1:max_depth, mcts,two_player,trans,nmutex,seed,use_h,null_h,use_prior,root_ts,adv);
    string s=b;
    if (is_uct()) snprintf(b,sizeof b," bias=%g pseudo=%d recmv=%d eps=%g pow=%g",bias,pseudo,rec_mv,eps_expl,puct_power);
    else snprintf(b,sizeof b," temp=%g pw=%g eps=%g reps=%g mex=%g decay=%d min=%g sc=%g rsc=%g dq=%g shift=%d off=%g th=%d recmv=%d vdecay=%d vt=%g vmin=%g vs=%g vrs=%g dp=%d",temp,prior_w,eps,root_eps,max_explore,decay,min_temp,scale,root_scale,default_q,shift,q_off,rec_thresh,rec_mv,vdecay,vtemp,vmin,vscale,vroot_scale,use_dp);
    return s+b;
}
AlgoCfg gen_algo(HRng& r, int f) {
    AlgoCfg c;
    if (f & G_UCTONLY) c.algo = r.range(0,1); else if (f & G_MENTSONLY) c.algo = r.range(2,A_N-1); else c.algo = r.range(0,A_N-1);
    if (r.chance(0.4)) c.max_depth = r.range(1,4); if (r.chance(0.02)) c.max_depth = 0; if (r.chance(0.03)) c.max_depth = r.range(5,40);
    c.mcts = r.chance(0.7); c.two_player = r.chance(0.3); 
    c.trans = (f & G_NOTRANS) ? false : (f & G_TRANS) ? true : r.chance(0.3);
    c.nmutex = r.chance(0.6) ? 1 : r.chance(0.15) ? r.pick({7,16,64}) : r.range(2,5); c.seed = r.range(1,1000000); if (r.chance(0.15)) c.seed = -c.seed;
    c.use_h = r.chance(0.4); c.null_h = !c.use_h && r.chance(0.2); c.root_ts = r.chance(0.8)?0:r.chance(0.6)?1:r.pick({2,3,10,999});
    c.adv = (f & G_NOADV) || r.chance(0.5) ? 0.0 : r.pick({0.05,0.3,0.8});
    c.use_prior = !(f & G_NOPRIOR) && r.chance(c.algo==A_PUCT ? 0.6 : 0.25);
    c.rec_mv = r.chance(0.4);
    if (c.is_uct()) {
        c.bias = r.chance(0.4) ? -1.0 : r.pick({0.1,1.0,5.0,0.0,300.0}); c.pseudo = r.chance(0.3) ? r.range(1,4) : 0;
        c.eps_expl = !(f & G_NOEPS) && r.chance(0.25) ? r.pick({0.1,0.5,1.0}) : 0.0; c.puct_power = r.pick({0.5,0.5,0.25,0.8});
    } else {
        c.temp = r.chance(0.04) ? r.pick({0.01,30.0}) : r.pick({0.1,0.5,1.0,1.0,3.0}); c.eps = r.pick({0.0,0.1,0.5,0.5,1.0}); c.root_eps = r.chance(0.3)? r.pick({0.0,0.2,2.0}) : -1.0;
        c.max_explore = r.pick({1.0,1.0,1.0,0.5,0.5,0.0}); c.decay = (f & G_NODECAY) || r.chance(0.6) ? 0 : r.range(1,3);
        c.min_temp = r.pick({1e-6,0.05,0.3}); c.scale = r.pick({1.0,0.1,2.0}); c.root_scale = r.chance(0.3)?r.pick({0.05,3.0,0.0}):-1.0;
        c.default_q = r.pick({0.0,0.0,-2.0,1.5}); c.rec_thresh = r.chance(0.3)? r.range(1,4):0;
        if (c.use_prior) { c.shift = r.chance(0.4); c.q_off = r.pick({0.0,1.0,-0.5}); c.prior_w = r.chance(0.5) ? r.pick({0.2,1.0,2.5}) : 0.0; }
        c.vdecay = r.range(0,3); c.vtemp = r.pick({1.0,0.3,2.0}); c.vmin=r.pick({1e-6,0.1}); c.vscale=r.pick({1.0,0.2}); c.vroot_scale=r.chance(0.3)?r.pick({0.05,2.0,0.0}):-1.0; c.use_dp = r.chance(0.5);
    }
    return c;
}
Script g_scr;
template <class M> struct Adv : public M {
    double p;
    template <class A> Adv(const A& a, double p) : M(a), p(p) {}
    int get_rand_int(int lo, int hi) override { if (g_scr.on) g_scr.ni++; int v = M::get_rand_int(lo,hi); return h_adv_int(v,lo,hi,g_scr.on?0.0:p); }
    double get_rand_uniform() override { if (g_scr.on) { g_scr.nu++; if (g_scr.on==1) return g_scr.u; } double v = M::get_rand_uniform(); return h_adv_uniform(v,g_scr.on?0.0:p); }
};
static TempDecayFnPtr decay_fn(int k) { return k==1 ? decayed_temp_inv_sqrt : k==2 ? decayed_temp_inv_log : k==3 ? decayed_temp_sigmoid : (TempDecayFnPtr)nullptr; }
static void fill_base(ThtsManagerArgs& a, const AlgoCfg& c) {
    if (c.max_depth != 1<<30) a.max_depth = c.max_depth;
    a.mcts_mode = c.mcts; a.is_two_player_game = c.two_player; a.use_transposition_table = c.trans; a.num_transposition_table_mutexes = c.nmutex; a.seed = c.seed;
    if (c.use_h) a.heuristic_fn = sim_heuristic; if (c.null_h) a.heuristic_fn = nullptr;
    if (c.use_prior) a.prior_fn = sim_prior;
}
static void fill_uct(UctManagerArgs& a, const AlgoCfg& c) { fill_base(a,c); a.bias=c.bias; a.heuristic_psuedo_trials=c.pseudo; a.recommend_most_visited=c.rec_mv; a.epsilon_exploration=c.eps_expl; }
static void fill_ments(MentsManagerArgs& a, const AlgoCfg& c) { fill_base(a,c);
    a.temp=c.temp; a.prior_policy_search_weight=c.prior_w; a.epsilon=c.eps; a.root_node_epsilon=c.root_eps; a.max_explore_prob=c.max_explore; a.temp_decay_fn=decay_fn(c.decay); a.temp_decay_min_temp=c.min_temp; a.temp_decay_visits_scale=c.scale; a.temp_decay_root_node_visits_scale=c.root_scale;
    a.default_q_value=c.default_q; a.shift_pseudo_q_values=c.shift; a.psuedo_q_value_offset=c.q_off; a.recommend_visit_threshold=c.rec_thresh; a.recommend_most_visited=c.rec_mv; }
shared_ptr<ThtsManager> build_mgr(const AlgoCfg& c, shared_ptr<SimEnv> env) {
    switch (c.algo) {
    case A_UCT: { UctManagerArgs a(env); fill_uct(a,c); return make_shared<Adv<UctManager>>(a,c.adv); }
    case A_PUCT: { PuctManagerArgs a(env); fill_uct(a,c); a.puct_power=c.puct_power; return make_shared<Adv<PuctManager>>(a,c.adv); }
    case A_DENTS: case A_EST: { DentsManagerArgs a(env); fill_ments(a,c); a.value_temp_decay_fn=decay_fn(c.vdecay); a.value_temp_init=c.vtemp; a.value_temp_decay_min_temp=c.vmin; a.value_temp_decay_visits_scale=c.vscale; a.value_temp_decay_root_node_visits_scale=c.vroot_scale; a.use_dp_value=c.use_dp; return make_shared<Adv<DentsManager>>(a,c.adv); }
    default: { MentsManagerArgs a(env); fill_ments(a,c); return make_shared<Adv<MentsManager>>(a,c.adv); }
    }
}
shared_ptr<ThtsDNode> build_root(const AlgoCfg& c, shared_ptr<SimEnv> env, shared_ptr<ThtsManager> mgr) {
    auto s = env->get_initial_state_itfc();
    switch (c.algo) {
    case A_UCT: return make_shared<UctDNode>(static_pointer_cast<UctManager>(mgr), s, 0, c.root_ts);
    case A_PUCT: return make_shared<PuctDNode>(static_pointer_cast<PuctManager>(mgr), s, 0, c.root_ts);
    case A_MENTS: return make_shared<MentsDNode>(static_pointer_cast<MentsManager>(mgr), s, 0, c.root_ts);
    case A_RENTS: return make_shared<RentsDNode>(static_pointer_cast<MentsManager>(mgr), s, 0, c.root_ts);
    case A_TENTS: return make_shared<TentsDNode>(static_pointer_cast<MentsManager>(mgr), s, 0, c.root_ts);
    case A_DBMENTS: return make_shared<DBMentsDNode>(static_pointer_cast<MentsManager>(mgr), s, 0, c.root_ts);
    case A_DENTS: return make_shared<DentsDNode>(static_pointer_cast<DentsManager>(mgr), s, 0, c.root_ts);
    default: return make_shared<EstDNode>(static_pointer_cast<DentsManager>(mgr), s, 0, c.root_ts);
    }
}
Built build(const AlgoCfg& c, const EnvSpec& e) { Built b; b.env = make_shared<SimEnv>(e); b.mgr = build_mgr(c,b.env); b.root = build_root(c,b.env,b.mgr); return b; }

// ------------------------------------------------------------------ snapshot
struct P17 : public num_put<char> {
    iter_type do_put(iter_type o, ios_base& io, char f, double v) const override { auto p = io.precision(17); iter_type r = num_put<char>::do_put(o,io,f,v); io.precision(p); return r; }
};
void install_locale() { locale::global(locale(locale::classic(), new P17)); }
static double num(const char*& p, bool& hi) {
    const char* q = p; int dig = 0; bool any=false;
    char* e; double v = strtod(p,&e);
    for (; q<e; q++) { if (*q=='e'||*q=='E') break; if (*q>='0'&&*q<='9') { if (*q!='0'||any) { any=true; dig++; } } }
    if (dig > 8) hi = true;
    p = e; return v;
}
bool parse_val(const string& s, char kind, Val& v, int& visits, bool& hi) {
    string pre = string(1,kind) + "(vl=";
    if (s.compare(0,pre.size(),pre)) return false;
    size_t e = s.find(",#v="); if (e==string::npos) return false;
    string body = s.substr(pre.size(), e-pre.size());
    visits = atoi(s.c_str()+e+4);
    const char* p = body.c_str(); v.v = num(p,hi);
    while (*p) {
        while (*p=='(' || *p==',' || *p==' ') p++;
        if (*p==')' || !*p) break;
        const char* k = p; while (*p && *p!=':') p++; if (!*p) break;
        string key(k,p-k); p++; v.f[key] = num(p,hi);
    }
    return true;
}
string root_key(const AlgoCfg& c, const EnvSpec& e) { return c.trans ? "0:" + to_string(e.init) : to_string(e.init); }
static string kid_key(const AlgoCfg& c, const string& k, int depth, int a, int o) { return c.trans ? to_string(depth+1) + ":" + to_string(o) : k + "/" + to_string(a) + ">" + to_string(o); }
static void snap(const AlgoCfg& c, const EnvSpec& e, Tree& t, const string& key, shared_ptr<ThtsDNode> n, int depth, int s, SimEnv& env) {
    auto it = t.d.find(key);
    if (it != t.d.end()) { it->second.in_edges++; if (it->second.ptr != n.get()) VIOL("transposition", "two distinct decision nodes stand for state %d at depth %d", s, depth); return; }
    DSnap& d = t.d[key]; d.depth = depth; d.state = s; d.ptr = n.get(); d.leaf = n->is_leaf(); d.in_edges = depth ? 1 : 0;
    if (!parse_val(n->get_pretty_print_string(0), 'D', d.val, d.visits, t.hiprec)) VIOL("internal-format", "cannot parse decision node print");
    if (n->get_num_visits() != d.visits) VIOL("visits", "reported visit count %d differs from printed %d", n->get_num_visits(), d.visits);
    d.nkids = n->get_num_children();
    for (int a=0;a<e.nA[s];a++) {
        auto act = env.ac(a); if (!n->has_child_node_itfc(act)) continue;
        auto cn = n->get_child_node_itfc(act);
        CSnap& cs = t.d[key].kids[a]; cs.a = a;
        if (!parse_val(cn->get_pretty_print_string(0), 'C', cs.val, cs.visits, t.hiprec)) VIOL("internal-format", "cannot parse chance node print");
        cs.nkids = cn->get_num_children();
        for (auto& p : e.tr[s][a]) {
            shared_ptr<const Observation> ob = env.st(p.first); if (!cn->has_child_node_itfc(ob)) continue;
            string kk = kid_key(c,key,depth,a,p.first); t.d[key].kids[a].kids[p.first] = kk;
            snap(c,e,t,kk,cn->get_child_node_itfc(ob),depth+1,p.first,env);
        }
    }
}
Tree snapshot(const AlgoCfg& c, const EnvSpec& e, const vector<RootSpec>& roots) { Tree t; SimEnv env(e); for (auto& q : roots) if (q.node) { snap(c,e,t,q.key,q.node,q.ts,q.state,env); t.d[q.key].in_edges=0; } return t; }
Tree snapshot(const AlgoCfg& c, const EnvSpec& e, shared_ptr<ThtsDNode> root) { Tree t; SimEnv env(e); snap(c,e,t,root_key(c,e),root,0,e.init,env); return t; }

// ------------------------------------------------------------------ model
bool env_leaf(const AlgoCfg& c, const EnvSpec& e, int depth, int s) { return e.sink[s] || depth >= c.max_depth; }
double end_value(const AlgoCfg& c, const EnvSpec& e, int s) { return c.use_h && !e.sink[s] ? e.h[s] : 0.0; }
Model build_model(const AlgoCfg& c, const EnvSpec& e, int env_id) { return build_model(c,e,env_id,[](int){ return 0; }); }
Model build_model(const AlgoCfg& c, const EnvSpec& e, int env_id, const function<int(int)>& which) { vector<RootSpec> rs(1); rs[0].key=root_key(c,e); rs[0].state=e.init; return build_model(c,e,env_id,rs,which); }
static void release(Model& m, const vector<RootSpec>& roots, int upto) {   // trees dropped before trial 'upto': their nodes live on only where a live tree reaches them
    set<string> live; vector<string> todo; for (auto& q : roots) if (q.dropped>upto) todo.push_back(q.key);
    for (size_t i=0;i<todo.size();i++) { if (!live.insert(todo[i]).second) continue; string k=todo[i]; for (auto& a : m.d[k].acts) for (auto& o : a.second.kid) todo.push_back(o.second); }
    for (auto it=m.d.begin();it!=m.d.end();) { if (live.count(it->first)) { it->second.was_shared|=it->second.in_edges>1; it->second.in_edges=0; ++it; } else it=m.d.erase(it); }
    for (auto& kv : m.d) for (auto& a : kv.second.acts) for (auto& o : a.second.kid) m.d.at(o.second).in_edges++;
}
Model build_model(const AlgoCfg& c, const EnvSpec& e, int env_id, const vector<RootSpec>& roots, const function<int(int)>& which) {
    Model m; set<int> cuts; for (auto& q : roots) if (q.dropped<=h_n()) cuts.insert(q.dropped);
    for (auto& q : roots) { DModel& rd = m.d[q.key]; rd.depth=q.ts; rd.state=q.state; rd.leaf=env_leaf(c,e,q.ts,q.state); }
    for (int i=0;i<h_n();i++) { if (cuts.count(i)) release(m,roots,i); HTrial* t = h_get(i); if (t->env != env_id) continue;
        int w=which(i); if (w<0) continue; m.trials++; const RootSpec& root=roots[w]; const string& rk=root.key; const int init=root.state, ts=root.ts;
        if (t->s0 != init) VIOL("trial-start","trial %d started in state %d instead of %d",i,t->s0,init);
        if (t->late_steps) VIOL("context-lifetime","trial %d used its context after it was destroyed",i);
        double ret = 0; int last = t->nsteps ? t->steps[t->nsteps-1].o : init;
        vector<double> after(t->nsteps+1); after[t->nsteps] = end_value(c,e,last);
        for (int k=t->nsteps-1;k>=0;k--) after[k] = after[k+1] + t->steps[k].r;
        string key = rk; int s = init; (void)ret;
        for (int k=0;k<t->nsteps;k++) { HStep& st = t->steps[k];
            if (st.s != s) VIOL("trajectory","trial %d step %d left state %d but was in %d",i,k,st.s,s);
            if (st.a<0 || st.a>=e.nA[s]) VIOL("trajectory","trial %d took an invalid action",i);
            if (env_leaf(c,e,ts+k,s)) VIOL("leaf-rule","trial %d continued past a leaf (depth %d)",i,k);
            bool ok=false; for (auto& p : e.tr[s][st.a]) if (p.first==st.o && p.second>0) ok=true;
            if (!ok) VIOL("trajectory","trial %d observed an impossible outcome",i);
            DModel& d = m.d[key]; d.passes++; d.sum += after[k];
            CModel& cm = d.acts[st.a]; cm.passes++; cm.sum += after[k]; 
            string kk = kid_key(c,key,ts+k,st.a,st.o);
            if (cm.obs[st.o]++ == 0) { cm.kid[st.o] = kk; DModel& nd = m.d[kk]; nd.depth=ts+k+1; nd.state=st.o; nd.in_edges++; nd.leaf=env_leaf(c,e,ts+k+1,st.o); }
            if (k==t->nsteps-1) m.d[key].acts[st.a].obs_ends[st.o]++;
            key = kk; s = st.o;
        }
        m.d[key].ends++;
    }
    if (cuts.count(h_n())) release(m,roots,h_n());
    return m;
}
bool closeto(double a, double b, double tol) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return fabs(a-b) <= tol * max(1.0, max(fabs(a),fabs(b)));
}
double decayed(int kind, double init, double mn, double visits, double scale) {
    if (kind==0) return init; double x = visits*scale, f = 1;
    if (kind==1) f = 1.0/sqrt(1.0+x); else if (kind==2) f = 1.0/log(exp(1.0)+x); else f = (1.0+exp(-5.0))/(1.0+exp(x-5.0));
    return max(init*f, mn);
}
static int pseudo_visits(const AlgoCfg& c) { return c.is_uct() && !c.null_h ? c.pseudo : 0; }

void check_leaf_rule(const AlgoCfg& c, const EnvSpec& e, const Model& m) {
    for (auto& kv : m.d) { const DModel& d = kv.second;
        if (d.leaf) { if (d.passes) VIOL("leaf-rule","a trial continued past leaf %s",kv.first.c_str()); }
        else if (!c.mcts && d.ends) VIOL("leaf-rule","a trial stopped early at non-leaf %s although expansion is not limited",kv.first.c_str());
        else if (d.depth==0 && d.ends) VIOL("leaf-rule","a trial stopped at the root");
        if (!c.mcts) continue;
        for (auto& ak : d.acts) for (auto& ok : ak.second.obs) { 
            auto it = m.d.find(ak.second.kid.at(ok.first)); const DModel& kid = it->second; if (kid.leaf) continue;
            int ends = 0; auto e2 = ak.second.obs_ends.find(ok.first); if (e2 != ak.second.obs_ends.end()) ends = e2->second;
            if (ends != 1) VIOL("expansion","%d trials (expected exactly one) stopped at the new decision node %s reached through action %d outcome %d",ends,it->first.c_str(),ak.first,ok.first);
        }
    }
}
void check_structure(const AlgoCfg& c, const EnvSpec& e, const Model& m, const Tree& t) {
    int pv = pseudo_visits(c);
    for (auto& kv : m.d) if (!t.d.count(kv.first)) VIOL("structure","trial history visits decision node %s which is not in the tree",kv.first.c_str());
    for (auto& kv : t.d) { const DSnap& d = kv.second; auto it = m.d.find(kv.first);
        if (it==m.d.end()) VIOL("structure","tree holds decision node %s that no trial visited",kv.first.c_str());
        const DModel& dm = it->second;
        if (d.leaf != dm.leaf) VIOL("structure","node %s leaf flag is %d, expected %d",kv.first.c_str(),d.leaf,dm.leaf);
        if (d.visits != dm.passes + dm.ends + pv) VIOL("visits","decision node %s counts %d visits, the trial history has %d",kv.first.c_str(),d.visits,dm.passes+dm.ends+pv);
        if (d.nkids != (int)dm.acts.size() || d.kids.size() != dm.acts.size()) VIOL("structure","decision node %s has %d children, history has %zu actions",kv.first.c_str(),d.nkids,dm.acts.size());
        int sumc = 0;
        for (auto& ak : dm.acts) { auto ci = d.kids.find(ak.first); if (ci==d.kids.end()) VIOL("structure","action %d of %s missing",ak.first,kv.first.c_str());
            const CSnap& cs = ci->second; sumc += cs.visits;
            if (cs.visits != ak.second.passes) VIOL("visits","chance node %s/%d counts %d visits, history has %d",kv.first.c_str(),ak.first,cs.visits,ak.second.passes);
            if (cs.nkids != (int)ak.second.obs.size() || cs.kids.size() != ak.second.obs.size()) VIOL("structure","chance node %s/%d has %d children, history has %zu outcomes",kv.first.c_str(),ak.first,cs.nkids,ak.second.obs.size());
        }
        (void)sumc;
        if (c.trans && dm.in_edges != d.in_edges) VIOL("transposition","node %s reached by %d edges in the tree, %d in the history",kv.first.c_str(),d.in_edges,dm.in_edges);
    }
}
void check_returns(const AlgoCfg& c, const EnvSpec& e, const Model& m, const Tree& t) {
    bool emp = (c.algo==A_DENTS || c.algo==A_EST) && !c.use_dp;
    if (!c.is_uct() && !emp) return;
    check_finite(t);
    for (auto& kv : m.d) { const DModel& dm = kv.second; const DSnap& d = t.d.at(kv.first);
        double hv = end_value(c,e,dm.state); int pt = emp ? 1 : pseudo_visits(c);
        double ex; if (pt + dm.passes == 0) ex = hv; else ex = (pt*hv + dm.sum) / (pt + dm.passes);
        if (!closeto(d.val.v, ex, t.tol())) VIOL("average","decision node %s holds value %.12g but the mean of its %d trial returns (plus %d prior trials) is %.12g",kv.first.c_str(),d.val.v,dm.passes,pt,ex);
        for (auto& ak : dm.acts) { const CSnap& cs = d.kids.at(ak.first); ex = ak.second.sum / ak.second.passes;
            if (!closeto(cs.val.v, ex, t.tol())) VIOL("average","chance node %s/%d holds value %.12g but the mean of its %d trial returns is %.12g",kv.first.c_str(),ak.first,cs.val.v,ak.second.passes,ex); }
    }
}
void check_try_all(const AlgoCfg& c, const EnvSpec& e, const Model& m) {
    if (!c.is_uct() || c.use_prior || c.eps_expl > 0) return;
    for (auto& kv : m.d) { const DModel& d = kv.second; if (d.leaf) continue;
        int want = min(d.passes, e.nA[d.state]);
        if ((int)d.acts.size() != want) VIOL("try-all","node %s: %d selections cover %zu of %d actions; an action was repeated before every action was tried",kv.first.c_str(),d.passes,d.acts.size(),e.nA[d.state]); }
}
void check_ucb_single(const AlgoCfg& c, const EnvSpec& e, int env_id) {
    if (!c.is_uct() || c.eps_expl > 0) return;
    struct CM { int n=0, nb=0; double avg=0; }; struct DM { int n=0; map<int,CM> a; };
    map<string,DM> d; int pv = pseudo_visits(c);
    for (int i=0;i<h_n();i++) { HTrial* t=h_get(i); if (t->env!=env_id) continue;
        string key=root_key(c,e); vector<pair<string,int>> path;
        auto dn = [&](const string& k)->DM& { auto it=d.find(k); if (it==d.end()) { it=d.emplace(k,DM()).first; it->second.n=pv; } return it->second; };
        for (int k=0;k<t->nsteps;k++) { HStep& st=t->steps[k]; DM& n=dn(key); n.n++;
            int A=e.nA[st.s]; bool untried=false; for (int a=0;a<A;a++) if (!n.a.count(a)) untried=true;
            if (!c.use_prior && untried) { if (n.a.count(st.a)) VIOL("try-all","trial %d repeated action %d at %s before trying all",i,st.a,key.c_str()); }
            else {
                double opp = c.two_player && ((k+c.root_ts)&1) ? -1 : 1; double bias=c.bias;
                if (bias==-1.0) { bias=0.001; for (auto& x : n.a) bias=max(bias,fabs(x.second.avg)); }
                double best=-1e300, got=0;
                for (int a=0;a<A;a++) { double cv = n.a.count(a) ? n.a[a].n : 0; double nv=n.n>0?n.n:1.0; double cvd=cv>0?cv:1.0;
                    double u = c.algo==A_PUCT ? pow(nv,c.puct_power)/cvd : sqrt(log(nv)/cvd); u*=bias; if (c.use_prior) u*=e.prior[st.s][a]; if (n.a.count(a)) u += opp*n.a[a].avg;
                    if (u>best) best=u; if (a==st.a) got=u; }
                if (got < best - 1e-7*max(1.0,fabs(best))) VIOL("ucb-choice","trial %d at %s chose action %d with bound %.9g while %.9g was available",i,key.c_str(),st.a,got,best);
            }
            n.a[st.a].n++; path.push_back({key,st.a}); key=kid_key(c,key,k,st.a,st.o);
        }
        dn(key).n++;
        double ret = end_value(c,e,t->nsteps? t->steps[t->nsteps-1].o : e.init);
        for (int k=t->nsteps-1;k>=0;k--) { ret += t->steps[k].r; CM& cm=d[path[k].first].a[path[k].second]; cm.nb++; cm.avg += (ret-cm.avg)/cm.nb; }
    }
}
// ---- MENTS family
static double log_weight(double w) { return w>=1e32 ? 32.0 : w>1e-32 ? log(w) : -32.0; }
static double unvisited_q(const AlgoCfg& c, const EnvSpec& e, int s, int a, double opp) {
    if (c.use_prior) { double off=0; if (c.shift) { double ml=0; for (double w : e.prior[s]) ml += log_weight(w); off = c.q_off - ml/e.prior[s].size(); } return log_weight(e.prior[s][a]) + off; }
    return c.default_q*opp;
}
static double dtemp(const AlgoCfg& c, int depth, int visits) { return decayed(c.decay,c.temp,c.min_temp,visits, depth==0 && c.root_scale>=0 ? c.root_scale : c.scale); }
static double vtempf(const AlgoCfg& c, bool root, int visits) { return decayed(c.vdecay,c.vtemp,c.vmin,visits, root && c.vroot_scale>=0 ? c.vroot_scale : c.vscale); }
static double lse(const vector<double>& q, double temp) { double mx=-1e308; for (double x : q) mx=max(mx,x/temp); double s=0; for (double x : q) s+=exp(x/temp-mx); return temp*(log(s)+mx); }
static double spmaxf(vector<double> q, double temp) {
    for (double& x : q) x/=temp; sort(q.begin(),q.end(),greater<double>()); double cum=0; vector<double> S; 
    for (size_t i=0;i<q.size();i++) { cum+=q[i]; if (1.0+(i+1.0)*q[i] > cum) S.push_back(q[i]); }
    double ss=0; for (double x : S) ss+=x; double com=0.5*pow(ss-1.0,2)/pow((double)S.size(),2); double r=0.5; for (double x : S) r += x*x/2 - com; return temp*r;
}
void check_finite(const Tree& t) {
    for (auto& kv : t.d) { const DSnap& d=kv.second; if (!isfinite(d.val.v)) VIOL("not-finite","decision node %s holds value %g",kv.first.c_str(),d.val.v); for (auto& f : d.val.f) if (!isfinite(f.second)) VIOL("not-finite","decision node %s holds %s %g",kv.first.c_str(),f.first.c_str(),f.second);
        for (auto& k : d.kids) { if (!isfinite(k.second.val.v)) VIOL("not-finite","chance node %s/%d holds value %g",kv.first.c_str(),k.first,k.second.val.v); for (auto& f : k.second.val.f) if (!isfinite(f.second)) VIOL("not-finite","chance node %s/%d holds %s %g",kv.first.c_str(),k.first,f.first.c_str(),f.second); } }
}
vector<double> node_q(const AlgoCfg& c, const EnvSpec& e, const DSnap* d, int state, int depth, int visits) {
    double opp = c.two_player && ((depth+c.root_ts)&1) ? -1 : 1; vector<double> q; double vt = c.algo==A_DENTS ? vtempf(c,depth==0,visits) : 0;
    for (int a=0;a<e.nA[state];a++) { map<int,CSnap>::const_iterator it; if (!d || (it=d->kids.find(a))==d->kids.end()) q.push_back(unvisited_q(c,e,state,a,opp));
        else q.push_back(opp*(c.algo==A_DENTS ? it->second.val.v + vt*it->second.val.get("entrpy") : c.algo==A_DBMENTS ? it->second.val.get("soft_val") : it->second.val.v)); }
    return q;
}
vector<double> node_policy(const AlgoCfg& c, const EnvSpec& e, const vector<double>& q, int state, int depth, int visits, const vector<double>* parent) {
    int A=q.size(); double temp=dtemp(c,depth,visits), sw=0; vector<double> w(A);
    if (c.algo==A_TENTS) { vector<double> s=q; for (double& x : s) x/=temp; sort(s.begin(),s.end(),greater<double>()); double cum=0, ss=0; int n=0; for (int i=0;i<A;i++) { cum+=s[i]; if (1.0+(i+1.0)*s[i] > cum) { ss+=s[i]; n++; } }
        double com=(ss-1.0)/n; for (int a=0;a<A;a++) { w[a]=max(0.0,q[a]/temp-com); sw+=w[a]; } }
    else { double mx=-1e308; for (double x : q) mx=max(mx,x/temp); for (int a=0;a<A;a++) { w[a]=exp(q[a]/temp-mx); if (c.algo==A_RENTS && parent) w[a] *= a<(int)parent->size() ? (*parent)[a] : 0.0; sw+=w[a]; } }
    if ((c.algo==A_TENTS || c.algo==A_RENTS) && sw<1e-16) { for (double& x : w) x=1.0/A; sw=1; }
    double ep=c.eps; if (depth==0 && c.root_eps>=0) ep=c.root_eps; double lam = ep>0 ? min(visits>0?ep/log(visits+1.0):1e300,c.max_explore) : 0.0;
    for (int a=0;a<A;a++) { w[a]*=(1-lam)/sw; if (c.prior_w>0) { double lt=min(1.0,c.prior_w/log(visits+3.0)); w[a]=w[a]*(1-lt)+(1-lam)*lt*e.prior[state][a]; } w[a]+=lam/A; if (w[a]<1e-16) w[a]=0; }
    return w;
}
double rents_soft(const AlgoCfg& c, const vector<double>& q, int depth, int visits, const vector<double>* parent) {
    double opp = c.two_player && ((depth+c.root_ts)&1) ? -1 : 1, temp=dtemp(c,depth,visits), mx=-1e308, s=0; for (double x : q) mx=max(mx,x/temp);
    for (size_t a=0;a<q.size();a++) s += exp(q[a]/temp-mx) * (!parent ? 1.0 : a<parent->size() ? (*parent)[a] : 0.0);
    if (s<1e-16) s=1.0; return opp*temp*(log(s)+mx);
}
void check_values(const AlgoCfg& c, const EnvSpec& e, const Model& m, const Tree& t) {
    if (c.is_uct()) return;
    check_finite(t);
    double tol = t.hiprec ? 1e-7 : 5e-4;
    bool db = c.algo==A_DBMENTS, dents = c.algo==A_DENTS, est = c.algo==A_EST;
    for (auto& kv : m.d) { const DModel& dm=kv.second; const DSnap& d=t.d.at(kv.first); const char* K=kv.first.c_str();
        double opp = c.two_player && ((dm.depth+c.root_ts)&1) ? -1 : 1; double hv=end_value(c,e,dm.state);
        int A=e.nA[dm.state];
        double soft = (db||dents) ? d.val.get("soft_val") : d.val.v;
        bool has_soft = !est;
        // ---- chance nodes: expectation over children (only where every child belongs to this chance node alone)
        for (auto& ak : dm.acts) { const CSnap& cs=d.kids.at(ak.first); bool single=true;
            for (auto& o : ak.second.kid) if (m.d.at(o.second).was_shared || m.d.at(o.second).in_edges != 1) single=false;
            if (!single) continue;
            double r = e.rew[dm.state][ak.first]; double ss=0,sn=0, ds=0,dn=0; double es1=0,en1=0,es2=0,en2=0;
            for (auto& o : ak.second.kid) { const DModel& km=m.d.at(o.second); const DSnap& kd=t.d.at(o.second);
                int nb = km.leaf ? km.passes+km.ends : km.passes;
                double ks = (db||dents)?kd.val.get("soft_val"):kd.val.v;
                ss += nb*ks; sn += nb; ds += (1+nb)*kd.val.v; dn += 1+nb;
                if (dents) { double ent=kd.val.get("entrpy"); int w1=1+km.passes, w2=1+nb; es1+=w1*ent; en1+=w1; es2+=w2*ent; en2+=w2; }
            }
            double exs = r + (sn>0?ss/sn:0), exd = r + ds/dn;
            if (!dents && !est) { double g = db?cs.val.get("soft_val"):cs.val.v; if (!closeto(g,exs,tol)) VIOL("soft-backup","chance node %s/%d soft value %.12g is not reward plus visit-weighted mean of its children %.12g",K,ak.first,g,exs); }
            if (db || ((dents||est) && c.use_dp)) { if (!closeto(cs.val.v,exd,tol)) VIOL("dp-backup","chance node %s/%d value %.12g is not reward plus weighted mean of its children %.12g",K,ak.first,cs.val.v,exd); }
            if (dents) { double ent=cs.val.get("entrpy");
                if (!closeto(ent,es1/en1,tol) && !closeto(ent,es2/en2,tol)) VIOL("entropy-backup","chance node %s/%d entropy %.12g is not the weighted mean of its children (%.12g)",K,ak.first,ent,es1/en1);
                double vt=vtempf(c,false,cs.visits), ex=cs.val.v + vt*ent;
                if (!closeto(cs.val.get("soft_val"),ex,tol)) VIOL("soft-backup","chance node %s/%d soft value %.12g is not value plus tempered entropy %.12g",K,ak.first,cs.val.get("soft_val"),ex); }
        }
        // ---- decision nodes
        if (dm.passes==0) {
            if (has_soft && !closeto(soft,hv,tol)) VIOL("heuristic-init","unexpanded node %s has value %.12g, heuristic is %.12g",K,soft,hv);
            if ((db || dents || est) && !closeto(d.val.v,hv,tol)) VIOL("heuristic-init","unexpanded node %s has value %.12g, heuristic is %.12g",K,d.val.v,hv);
            if (dents && A>0) {
                // policy of a fresh node: uniform mixture of the initial weights
                vector<double> q; double temp=dtemp(c,dm.depth,0); for (int a=0;a<A;a++) q.push_back(unvisited_q(c,e,dm.state,a,opp));
                double mx=-1e308; for (double x : q) mx=max(mx,x/temp); double sw=0; vector<double> w; for (double x : q) { w.push_back(exp(x/temp-mx)); sw+=w.back(); }
                double ep=c.eps; if (dm.depth==0 && c.root_eps>=0) ep=c.root_eps; double lam = ep>0 ? c.max_explore : 0.0; double H=0;
                for (int a=0;a<A;a++) { double p=w[a]*(1-lam)/sw; if (c.prior_w>0) { double lt=min(1.0,c.prior_w/log(3.0)); p=p*(1-lt)+(1-lam)*lt*e.prior[dm.state][a]; } p+=lam/A; if (p>=1e-16) H-=p*log(p); }
                if (!closeto(d.val.get("entrpy"),opp*H,tol)) VIOL("entropy-init","fresh node %s has entropy %.12g, expected %.12g",K,d.val.get("entrpy"),opp*H);
            }
            continue;
        }
        if (db || ((dents||est) && c.use_dp)) { double best=-1e308; for (auto& k : d.kids) best=max(best,opp*k.second.val.v);
            if (!closeto(d.val.v,opp*best,tol)) VIOL("dp-backup","decision node %s value %.12g is not the best child value %.12g",K,d.val.v,opp*best); }
        if (est) continue;
        bool ok=false; double shown=0, shown_e=0; bool ent_ok=!dents;
        for (int j=0;j<=dm.ends && !ok;j++) { int v=d.visits-j; double temp=dtemp(c,dm.depth,v);
            vector<double> q; double vt = dents ? vtempf(c,dm.depth==0,v) : 0;
            for (int a=0;a<A;a++) { auto it=d.kids.find(a); if (it==d.kids.end()) q.push_back(unvisited_q(c,e,dm.state,a,opp));
                else q.push_back(opp*(dents ? it->second.val.v + vt*it->second.val.get("entrpy") : db ? it->second.val.get("soft_val") : it->second.val.v)); }
            double ex;
            if (c.algo==A_TENTS) ex = opp*spmaxf(q,temp);
            else if (!dents) { ex = opp*lse(q,temp);
                if (c.algo==A_RENTS && dm.depth>0) { // weighted by the parent's action probabilities: at most the plain soft maximum
                    double hi=lse(q,temp); double mx=-1e308; for (double x : q) mx=max(mx,x); double lo=temp*log(1e-17)+mx;
                    if (opp*soft <= hi+tol*max(1.0,fabs(hi)) && opp*soft >= lo-tol*max(1.0,fabs(lo))) { ok=true; break; } shown=hi; continue; } }
            else {
                double mx=-1e308; for (double x : q) mx=max(mx,x/temp); double sw=0; vector<double> w; for (double x : q) { w.push_back(exp(x/temp-mx)); sw+=w.back(); }
                double ep=c.eps; if (dm.depth==0 && c.root_eps>=0) ep=c.root_eps; double lam=min(ep/log(v+1.0),c.max_explore); double H=0, sub=0;
                for (int a=0;a<A;a++) { double p=w[a]*(1-lam)/sw; if (c.prior_w>0) { double lt=min(1.0,c.prior_w/log(v+3.0)); p=p*(1-lt)+(1-lam)*lt*e.prior[dm.state][a]; } p+=lam/A; if (p<1e-16) continue; if (p>0) H-=p*log(p); auto it=d.kids.find(a); if (it!=d.kids.end()) sub+=p*it->second.val.get("entrpy"); }
                double se=opp*H+sub; shown_e=se; if (!closeto(d.val.get("entrpy"),se,tol)) continue; ent_ok=true;
                ex = d.val.v + vt*d.val.get("entrpy");
            }
            shown=ex; if (closeto(soft,ex,tol)) ok=true;
        }
        if (!ok) { if (!ent_ok) VIOL("entropy-backup","decision node %s entropy %.12g does not match its policy and children (%.12g)",K,d.val.get("entrpy"),shown_e);
            VIOL("soft-backup","decision node %s soft value %.12g does not match its children (%.12g)",K,soft,shown); }
    }
}
static double rec_scores(const AlgoCfg& c, const EnvSpec& e, const DSnap& d, map<int,double>& score) {
    double opp = c.two_player && ((d.depth+c.root_ts)&1) ? -1 : 1;
    bool soft = !c.rec_mv && (c.algo==A_MENTS || c.algo==A_RENTS || c.algo==A_TENTS);
    if (d.kids.empty() && !soft) return 0;
    if (c.rec_mv) for (auto& k : d.kids) score[k.first]=k.second.visits;
    else if (c.is_uct()) for (auto& k : d.kids) score[k.first]=opp*k.second.val.v;
    else {
        for (auto& k : d.kids) if (k.second.visits >= c.rec_thresh) score[k.first]=opp*k.second.val.v;
        if (score.empty()) { for (auto& k : d.kids) score[k.first]=opp*k.second.val.v;
            if (soft) for (int x=0;x<e.nA[d.state];x++) if (!d.kids.count(x)) score[x]=unvisited_q(c,e,d.state,x,opp); }
    }
    double best=-1e308; for (auto& s : score) best=max(best,s.second); return best;
}
set<int> allowed_actions(const AlgoCfg& c, const EnvSpec& e, const Model& m, const Tree& t, const string& key) {
    set<int> r; double tol = t.hiprec ? 1e-9 : 5e-4; map<int,double> sc; const DSnap& d=t.d.at(key); double best=rec_scores(c,e,d,sc);
    for (auto& s : sc) if (!(s.second < best - tol*max(1.0,fabs(best)))) r.insert(s.first); return r;
}
void check_recommend(const AlgoCfg& c, const EnvSpec& e, const Model& m, const Tree& t, shared_ptr<ThtsDNode> root) {
    double tol = t.hiprec ? 1e-9 : 5e-4;
    for (auto& kv : t.d) { const DSnap& d=kv.second; if (e.nA[d.state]==0) continue;
        map<int,double> score; double best=rec_scores(c,e,d,score);
        for (int rep=0;rep<2;rep++) {
            ThtsEnvContext ctx; auto act = d.ptr->recommend_action_itfc(ctx);
            if (!act) VIOL("recommend","no action recommended at %s",kv.first.c_str());
            int a=SimEnv::aid(*act); if (a<0 || a>=e.nA[d.state]) VIOL("recommend","invalid action %d recommended at %s",a,kv.first.c_str());
            if (score.empty()) continue;
            if (!score.count(a)) VIOL("recommend","at %s action %d was recommended although better explored actions exist (%s)",kv.first.c_str(),a,c.rec_mv?"most visited":"best value");
            if (score[a] < best - tol*max(1.0,fabs(best))) VIOL("recommend","at %s action %d with score %.12g was recommended, best is %.12g (%s)",kv.first.c_str(),a,score[a],best,c.rec_mv?"most visited":"best value");
        }
    }
}
