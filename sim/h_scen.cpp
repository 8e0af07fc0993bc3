// Scenarios, one family per property.  Instrumented like the code under test.
#include "h_common.h"
#include "h_scen.h"
#include "helper_templates.h"
#include "distributions/categorical_distribution.h"
#include "distributions/discrete_uniform_distribution.h"
#include "distributions/mixed_distribution.h"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <limits>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <system_error>
#include <thread>
using namespace std;
using namespace thts;

static const double INF_T = numeric_limits<double>::max();
enum { P_C01=0,P_C02,P_C03,P_C04,P_C05,P_C06,P_C07,P_C08,P_C09,P_C10,P_C11,P_C12,P_C13,P_C14,P_C15,P_C16,P_C17,P_C18,P_C19,P_C20,P_C21,P_C22,P_N };
static const char* NAMES[] = {"C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19","C20","C21","C22"};

static void desc(const char* fmt, ...) __attribute__((format(printf,1,2)));
static void desc(const char* fmt, ...) { size_t n=strlen(g_res->desc); if (n+2>=sizeof g_res->desc) return; va_list ap; va_start(ap,fmt); vsnprintf(g_res->desc+n,sizeof g_res->desc-n,fmt,ap); va_end(ap); }

// ------------------------------------------------------------------------------------------------ shared pieces
static int gen_threads(HRng& r) { if (r.chance(0.012)) return r.range(9,16); return r.pick({1,2,2,3,3,4,4,5,6,8}); }
static EnvOpts gen_opts(HRng& r, bool timed) {
    EnvOpts o; o.layers_hi = r.range(1,5); o.width_hi = r.range(1,3); o.act_hi = r.range(1,4); o.out_hi = r.range(1,3); o.obs_reward = false; o.early_sink = r.pick({0.0,0.15,0.4});
    if (r.chance(0.04)) { o.act_hi=r.range(5,9); o.layers_hi=min(o.layers_hi,2); } else if (r.chance(0.03)) { o.layers_hi=r.range(6,12); o.act_hi=min(o.act_hi,2); o.out_hi=min(o.out_hi,2); }
    else if (r.chance(0.006)) { o.act_hi=r.range(10,24); o.layers_hi=min(o.layers_hi,2); o.out_hi=min(o.out_hi,2); }
    else if (r.chance(0.015)) { o.layers_lo=20; o.layers_hi=r.range(20,70); o.width_hi=1; o.act_hi=2; o.out_hi=1; o.early_sink=0; } else if (r.chance(0.03)) { o.width_hi=8; o.out_hi=8; o.act_hi=min(o.act_hi,2); o.layers_hi=min(o.layers_hi,3); }
    o.cost_ns = timed && r.chance(0.5) ? (uint64_t)r.range(1,2000)*(g_cfg.tick_ns>20000?g_cfg.tick_ns:1000) : 0;
    return o;
}
static void fit(AlgoCfg& c, EnvOpts& o, HRng& r, double pcyc) { // cyclic environments need a depth bound
    if (r.chance(pcyc)) { o.cyclic = true; if (c.max_depth > 6) c.max_depth = r.range(1,5); }
}
struct Sys { AlgoCfg c; EnvSpec e; Built b; shared_ptr<ThtsLogger> log; unique_ptr<ThtsPool> pool; int threads = 1; };
static shared_ptr<ThtsLogger> gen_logger(HRng& r, int algo, int* td=nullptr, double* rd=nullptr) {
    shared_ptr<ThtsLogger> l;
    int k = r.range(0,3);
    if (k==0) l = make_shared<ThtsLogger>();
    else if (algo==A_UCT || algo==A_PUCT) l = make_shared<UctLogger>();
    else if (algo==A_DBMENTS) l = k==1 ? static_pointer_cast<ThtsLogger>(make_shared<DBMentsLogger>()) : static_pointer_cast<ThtsLogger>(make_shared<MentsLogger>());
    else if (algo==A_MENTS || algo==A_RENTS || algo==A_TENTS || algo==A_DENTS || algo==A_EST) l = make_shared<MentsLogger>();
    else l = make_shared<ThtsLogger>();
    int t=0; double x=0; if (r.chance(0.8)) { t=r.range(1,6); l->set_trials_delta(t); } if (td) *td=t;
    if (r.chance(0.5)) { x=r.pick({1e-6,1e-4,5e-3}); l->set_runtime_delta(x); } if (rd) *rd=x;
    return l;
}
// a few long searches: counters, tables and logs beyond the sizes of the others (trees stay small enough to compare)
static int tail(HRng& r, const Sys& s, int n, double p=0.003) { if (s.e.nS>12 || g_cfg.race || !r.chance(p)) return n; return r.chance(0.6)?r.range(250,700):r.range(1000,2600); }
static void mkpool(Sys& s) { s.pool = make_unique<ThtsPool>(s.b.mgr, s.b.root, s.threads, s.log); }
static void gen_sys(Sys& s, HRng& r, int flags, bool timed, double pcyc, double plog) {
    s.c = gen_algo(r,flags); EnvOpts o = gen_opts(r,timed); fit(s.c,o,r,pcyc); s.e = gen_env(r,1,o); s.threads = gen_threads(r);
    rt_quiet(1); s.b = build(s.c,s.e); rt_quiet(0);
    if (r.chance(plog)) s.log = gen_logger(r,s.c.algo);
    desc("threads=%d states=%d %s%s%s", s.threads, s.e.nS, o.cyclic?"cyclic ":"", s.log?"log ":"", s.c.str().c_str());
}
static void expect_trials(int total, const char* when) {
    int started=h_n(), active=h_active();
    if (started!=total) VIOL("trial-count","%s: %d trials were run, %d were requested",when,started,total);
    if (active) VIOL("trial-active","%s: %d trials are still running after the wait returned",when,active);
    for (int i=0;i<started;i++) if (!h_get(i)->ended) VIOL("trial-active","%s: trial %d not finished",when,i);
}
static void expect_quiet_after(HRng& r, int total, const char* when) { rt_sleep((uint64_t)r.range(1,4)*max<uint64_t>(10000000ull,500*g_cfg.tick_ns)); expect_trials(total,when); }
static int pseudo(const AlgoCfg& c) { return c.is_uct() && !c.null_h ? c.pseudo : 0; }
static void run_some(Sys& s, HRng& r, int n, int mode, double tl=INF_T) {
    if (mode==0) { if (tl==INF_T && r.chance(0.5)) s.pool->run_trials(n); else s.pool->run_trials(n,tl); }
    else { s.pool->run_trials(n,tl,false); if (mode==2) rt_sleep((uint64_t)r.range(0,3000)*1000); if (mode==3) rt_point(); s.pool->join(); if (mode==3) s.pool->join(); }
}
static void free_sys(Sys& s) { s.pool.reset(); s.log.reset(); s.b.root.reset(); s.b.mgr.reset(); s.b.env.reset(); }

// ------------------------------------------------------------------------------------------------ C01 exact budget
// tens of thousands of one-node trials: counters beyond 16 bits
static void s_c01_huge(HRng& r) {
    Sys s; s.c=gen_algo(r,0); s.c.max_depth=0; s.e=gen_env(r,1,EnvOpts()); s.threads=r.range(1,4); rt_quiet(1); s.b=build(s.c,s.e); rt_quiet(0); int n=r.range(32700,36000); if (s.threads<3 && r.chance(0.3)) n=r.range(65500,68000);
    desc("huge(%d) threads=%d %s",n,s.threads,s.c.str().c_str()); mkpool(s); s.pool->run_trials(n); expect_trials(n,"after a long search"); s.pool->run_trials(3); expect_trials(n+3,"after a short search"); s.pool.reset();
    if (s.b.root->get_num_visits() != n+3+pseudo(s.c)) VIOL("root-visits","after destruction: root counts %d visits, %d trials were run",s.b.root->get_num_visits(),n+3); g_res->aux[0]+=n+3;
}
static void s_c01(HRng& r) {
    if (g_cfg.p_mem==0 && g_cfg.p_stall==0 && r.chance(0.006)) { s_c01_huge(r); return; }
    Sys s; gen_sys(s,r,0,true,0.2,0.3); mkpool(s);
    int calls=r.range(1,4), total=0;
    for (int k=0;k<calls;k++) {
        int n = r.pick({0,1,2,s.threads-1,s.threads,s.threads+1,r.range(1,25),r.range(1,25)}); if (r.chance(0.02)) n=s.e.nS>20?r.range(40,80):r.range(60,400); else if (s.e.nS<=3 && r.chance(0.01)) n=r.range(900,1500);
        double tl = r.chance(0.6) ? INF_T : g_cfg.tick_ns>20000 ? 1e13 : 1e7; int mode=r.range(0,3);
        desc(" run(%d,%s,m%d)",n,tl==INF_T?"inf":"1e7",mode);
        total+=n; char w[64]; snprintf(w,64,"after call %d",k+1);
        if (r.chance(0.15)) { // several threads wait for the same search
            int nw=r.range(1,3); desc(" waiters=%d",nw); vector<thread> ws; bool late=r.chance(0.5); auto wait=[&s,total]{ s.pool->join(); expect_trials(total,"when another thread's wait returned"); };
            s.pool->run_trials(n,tl,false); for (int i=0;i<nw;i++) ws.emplace_back(wait); if (late) for (auto& t : ws) t.join(); s.pool->join(); expect_trials(total,w); if (!late) for (auto& t : ws) t.join(); }
        else run_some(s,r,n,mode,tl);
        expect_trials(total,w);
        if (s.b.root->get_num_visits() != total+pseudo(s.c)) VIOL("root-visits","%s: root counts %d visits, %d trials were run",w,s.b.root->get_num_visits(),total);
        if (r.chance(0.6)) { expect_quiet_after(r,total,"after the pool went idle"); }
    }
    s.pool.reset(); expect_trials(total,"after destruction");
    if (s.b.root->get_num_visits() != total+pseudo(s.c)) VIOL("root-visits","after destruction: root counts %d visits, %d trials were run",s.b.root->get_num_visits(),total);
    g_res->aux[0]+=total;
}
// ------------------------------------------------------------------------------------------------ C02 progress
static double gen_limit(HRng& r) { return g_cfg.tick_ns*1e-9*r.pick({0,1,5,20,100,400,1500,4000}) * (0.5+r.unit()); }
static void s_c02(HRng& r) {
    int kind=r.range(0,9);
    if (kind==0) { // evaluation of a finished tree
        Sys s; gen_sys(s,r,0,false,0.2,0); mkpool(s); run_some(s,r,r.range(0,12),0); s.pool.reset();
        EvalPolicy pol(s.b.root,s.b.env,*s.b.mgr); MCEvaluator ev(s.b.env,pol,r.range(1,6),*s.b.mgr); ev.run_rollouts(r.range(0,12),r.range(1,5)); return; }
    Sys s; gen_sys(s,r,kind<5?G_TRANS:0,true,kind<5?0.5:0.2,kind==9?0.7:0.3); mkpool(s);
    if (kind==9) { // requests that overlap, waits from several threads, switches of the problem
        int calls=r.range(2,6), hs=r.range(0,2); vector<thread> waiters; shared_ptr<ThtsDNode> cur=s.b.root; vector<shared_ptr<ThtsDNode>> old;
        for (int k=0;k<calls;k++) {
            int n = r.chance(0.3)?numeric_limits<int>::max():r.range(0,25); double tl = n>100||r.chance(0.4)?gen_limit(r):INF_T; desc(" over(%d,%.3g)",n,tl==INF_T?-1.0:tl);
            s.pool->run_trials(n,tl,false); if ((int)waiters.size()<hs) waiters.emplace_back([&s]{ s.pool->join(); });
            int d=r.range(0,3); if (d==1) rt_point(); else if (d==2) rt_sleep((uint64_t)r.range(0,2000)*g_cfg.tick_ns); else if (d==3) s.pool->join();
            if (r.chance(0.3)) { shared_ptr<ThtsDNode> nr=build_root(s.c,s.b.env,s.b.mgr); try { s.pool->set_new_env(s.b.mgr,nr,s.log); old.push_back(cur); cur=nr; } catch (runtime_error&) {} }
        }
        s.pool->join(); if (h_active()) VIOL("trial-active","a trial is still running after the wait returned");
        for (auto& t : waiters) t.join();
        s.pool.reset(); g_res->aux[0]+=h_n(); return; }
    int calls=r.range(1,3);
    for (int k=0;k<calls;k++) {
        bool big=r.chance(0.6); int n = big ? numeric_limits<int>::max() : r.range(0,30); double tl = big ? gen_limit(r) : (r.chance(0.5)?gen_limit(r):INF_T);
        if (big && r.chance(0.05) && s.threads<=2) { n=200000; }
        int mode=r.range(0,5); desc(" run(%d,%.3g,m%d)",n,tl==INF_T?-1.0:tl,mode);
        if (mode>=4) { s.pool->run_trials(n,tl,false); if (mode==4) rt_sleep((uint64_t)r.range(0,3000)*100); if (k==calls-1 && r.chance(0.7)) break; s.pool->join(); }
        else run_some(s,r,n,mode,tl);
        if (h_active()) VIOL("trial-active","a trial is still running after the wait returned");
    }
    s.pool.reset();
    g_res->aux[0]+=h_n();
}
// ------------------------------------------------------------------------------------------------ C03 time limit
static void s_c03(HRng& r) {
    bool back = g_cfg.p_jump_back>0;
    Sys s; gen_sys(s,r,0,true,0.2,0.2); mkpool(s);
    int calls=r.range(1,3);
    for (int k=0;k<calls;k++) {
        int n = r.chance(0.5) ? numeric_limits<int>::max() : r.pick({0,1,2,s.threads,10,40}); double tl = gen_limit(r);
        if (n<50 && r.chance(0.2)) tl=1e6;
        int mode=r.range(0,3);
        if (r.chance(0.2)) { // requested while an earlier search is still running
            int n0=r.chance(0.5)?numeric_limits<int>::max():r.range(1,60); double tl0=gen_limit(r); desc(" over(%d,%.3g)",n0,tl0); s.pool->run_trials(n0,tl0,false); if (r.chance(0.5)) rt_sleep((uint64_t)(tl0*1e9*1.3*r.unit())); else rt_point();
            int before=h_n(); uint64_t w0=rt_now_rt(), v0=rt_vtime(); desc(" run(%d,%.3g)",n,tl); s.pool->run_trials(n,tl,false); uint64_t wr=rt_now_rt(), vr=rt_vtime(); s.pool->join();
            uint64_t w1=rt_now_rt(), v1=rt_vtime(); int done=h_n()-before; double slack=1e-7+1e-9*tl; if (h_active()) VIOL("trial-active","a trial is still running after the wait returned");
            if (!back) { if (done<n && (w1-w0)*1e-9<tl-slack && (v1-v0)*1e-9<tl-slack) VIOL("stopped-early","the search, requested while another was running, stopped after %d of %d trials and %.9f s although the time limit was %.9f s",done,n,(w1-w0)*1e-9,tl);
                map<int,int> late; for (int i=before;i<h_n();i++) { HTrial* t=h_get(i); if ((double)(int64_t)(t->w_start-wr)*1e-9 > tl+slack && (double)(int64_t)(t->v_start-vr)*1e-9 > tl+slack) if (++late[t->tid]>1) VIOL("past-limit","worker %d started %d trials after the time limit of %.9f s had passed",t->tid,late[t->tid],tl); } }
            g_res->aux[2]++; int tot=h_n(); if (r.chance(0.6)) expect_quiet_after(r,tot,"after a time limited search returned"); continue; }
        int before=h_n(); uint64_t w0=rt_now_rt(), v0=rt_vtime();
        desc(" run(%d,%.3g,m%d)",n,tl,mode);
        run_some(s,r,n,mode,tl);
        uint64_t w1=rt_now_rt(), v1=rt_vtime(); int done=h_n()-before;
        if (h_active()) VIOL("trial-active","a trial is still running after the wait returned");
        if (done>n) VIOL("trial-count","%d trials were run, at most %d were allowed",done,n);
        double slack=1e-7+1e-9*tl;
        if (!back) {
            double el=(w1-w0)*1e-9, elm=(v1-v0)*1e-9;
            if (done<n && el<tl-slack && elm<tl-slack) VIOL("stopped-early","the search stopped after %d of %d trials and %.9f s although the time limit was %.9f s",done,n,el,tl);
            if (done) { // the limit is counted from before the first trial of the call
                uint64_t wf=~0ull, vf=~0ull; for (int i=before;i<before+done;i++) { HTrial* t=h_get(i); wf=min(wf,t->w_start); vf=min(vf,t->v_start); }
                map<int,int> late; for (int i=before;i<before+done;i++) { HTrial* t=h_get(i);
                    if ((t->w_start-wf)*1e-9 > tl+slack && (t->v_start-vf)*1e-9 > tl+slack) if (++late[t->tid]>1) VIOL("past-limit","worker %d started %d trials after the time limit of %.9f s had passed",t->tid,late[t->tid],tl); }
            }
        }
        int tot=h_n(); if (r.chance(0.6)) expect_quiet_after(r,tot,"after a time limited search returned");
    }
    if (r.chance(0.1)) { // the wall clock is set back once a search has ended by its limit, perhaps before every worker has noticed
        int n=r.pick({1,2,3,numeric_limits<int>::max()}); double tl=r.chance(0.3)?0.0:g_cfg.tick_ns*1e-9*r.range(1,60); desc(" limit(%d,%.3g) setback",n,tl); bool bl=r.chance(0.3); s.pool->run_trials(n,tl,bl); if (!bl) { if (r.chance(0.6)) rt_sleep((uint64_t)(tl*1e9)+r.range(0,3)*g_cfg.tick_ns); s.pool->join(); }
        int tot=h_n(); rt_set_back((uint64_t)(tl*1e9)+3600000000000ull); expect_quiet_after(r,tot,"after a time limited search returned and the clock was set back"); }
    int tot=h_n(); s.pool.reset(); expect_trials(tot,"after destruction");
    g_res->aux[0]+=tot;
}
// ------------------------------------------------------------------------------------------------ C05 protocol probes
enum { E_DV=1,E_DS,E_CV,E_CS,E_CB,E_DB };
struct Busy { int& b; const char* what; Busy(int& b,const char* w):b(b),what(w) { if (b) VIOL("overlap","two threads operate on the same tree node at once (%s)",w); b=1; rt_point(); } ~Busy() { rt_point(); b=0; } };
static int ctx_trial(ThtsEnvContext& c) { HCtx& h=static_cast<HCtx&>(c); if (h.magic!=0xC0FFEE) VIOL("context","a node operation received something that is not the live context of a trial"); if (h.trial!=h_cur_trial()) VIOL("context","a node operation received the context of trial %d while the worker runs trial %d",h.trial,h_cur_trial()); return h.trial; }
class PD; 
class PC : public ThtsCNode { public: int id, busy=0, pid;
    PC(shared_ptr<ThtsManager> m, shared_ptr<const State> s, shared_ptr<const Action> a, int d, int t, shared_ptr<const ThtsDNode> p, int pid) : ThtsCNode(m,s,a,d,t,p), pid(pid) { id=h_node(SimEnv::aid(*a),pid,d); }
    void visit_itfc(ThtsEnvContext& c) override { Busy b(busy,"visit"); ThtsCNode::visit_itfc(c); h_ev(E_CV,ctx_trial(c),id,0,0,0,0,0,0,0); }
    shared_ptr<const Observation> sample_observation_itfc(ThtsEnvContext& c) override { Busy b(busy,"sample"); auto o=thts_manager->thts_env->sample_transition_distribution_itfc(state,action,*thts_manager); h_ev(E_CS,ctx_trial(c),id,SimEnv::sid(*o),0,0,0,0,0,0); create_child_node_itfc(o,o); return o; }
    void backup_itfc(const vector<double>& rb, const vector<double>& ra, const double after, const double tot, ThtsEnvContext& c) override { Busy b(busy,"backup"); h_ev(E_CB,ctx_trial(c),id,0,rb.size(),rb.data(),ra.size(),ra.data(),after,tot); }
    shared_ptr<ThtsDNode> create_child_node_helper_itfc(shared_ptr<const Observation> o, shared_ptr<const State>) const override;
    string get_pretty_print_val() const override { return "0"; }
};
class PD : public ThtsDNode { public: int id, busy=0, pid;
    PD(shared_ptr<ThtsManager> m, shared_ptr<const State> s, int d, int t, shared_ptr<const ThtsCNode> p, int pid) : ThtsDNode(m,s,d,t,p), pid(pid) { id=h_node(SimEnv::sid(*s),pid,d); }
    void visit_itfc(ThtsEnvContext& c) override { Busy b(busy,"visit"); ThtsDNode::visit_itfc(c); h_ev(E_DV,ctx_trial(c),id,0,0,0,0,0,0,0); }
    shared_ptr<const Action> select_action_itfc(ThtsEnvContext& c) override { Busy b(busy,"select"); auto v=thts_manager->thts_env->get_valid_actions_itfc(state); auto a=v->at(thts_manager->get_rand_int(0,v->size())); h_ev(E_DS,ctx_trial(c),id,SimEnv::aid(*a),0,0,0,0,0,0); create_child_node_itfc(a); return a; }
    shared_ptr<const Action> recommend_action_itfc(ThtsEnvContext&) const override { return thts_manager->thts_env->get_valid_actions_itfc(state)->at(0); }
    void backup_itfc(const vector<double>& rb, const vector<double>& ra, const double after, const double tot, ThtsEnvContext& c) override { Busy b(busy,"backup"); h_ev(E_DB,ctx_trial(c),id,0,rb.size(),rb.data(),ra.size(),ra.data(),after,tot); }
    shared_ptr<ThtsCNode> create_child_node_helper_itfc(shared_ptr<const Action> a) const override { return make_shared<PC>(thts_manager,state,a,decision_depth,decision_timestep,static_pointer_cast<const ThtsDNode>(shared_from_this()),id); }
    string get_pretty_print_val() const override { return "0"; }
};
shared_ptr<ThtsDNode> PC::create_child_node_helper_itfc(shared_ptr<const Observation> o, shared_ptr<const State>) const { return make_shared<PD>(thts_manager,static_pointer_cast<const State>(o),decision_depth+1,decision_timestep+1,static_pointer_cast<const ThtsCNode>(shared_from_this()),id); }

static void check_protocol(const Sys& s) {
    map<int,vector<HEv*>> by; for (int i=0;i<h_nev();i++) if (h_getev(i)->kind<20) by[h_getev(i)->trial].push_back(h_getev(i));
    for (int i=0;i<h_n();i++) { auto& v=by[i]; size_t p=0; HTrial* t=h_get(i);
        auto need=[&](int kind,const char* what)->HEv* { if (p>=v.size()) VIOL("protocol","trial %d ended before %s",i,what); HEv* e=v[p++]; if (e->kind!=kind) VIOL("protocol","trial %d: expected %s, saw operation kind %d on node %d",i,what,e->kind,e->node); return e; };
        vector<pair<int,int>> path; int dn=-1; int prevc=-1, prevo=s.e.init; 
        for (;;) { HEv* e=need(E_DV,"decision node visit"); dn=e->node;
            if (h_getnode(dn)->key!=prevo) VIOL("protocol","trial %d visited a decision node for state %d after outcome %d",i,h_getnode(dn)->key,prevo);
            if (prevc>=0 && !s.c.trans && h_getnode(dn)->parent!=prevc) VIOL("protocol","trial %d visited a decision node that is not the child of the sampled chance node",i);
            if ((int)path.size()!=h_getnode(dn)->depth) VIOL("protocol","trial %d visited a node of depth %d at step %zu",i,h_getnode(dn)->depth,path.size());
            if (p>=v.size() || v[p]->kind!=E_DS) break;
            HEv* se=need(E_DS,"select"); if (se->node!=dn) VIOL("protocol","trial %d selected at a node it did not visit",i);
            HEv* cv=need(E_CV,"chance node visit"); if (h_getnode(cv->node)->parent!=dn || h_getnode(cv->node)->key!=se->x) VIOL("protocol","trial %d visited a chance node that does not belong to the selected action",i);
            HEv* cs=need(E_CS,"sample"); if (cs->node!=cv->node) VIOL("protocol","trial %d sampled at a chance node it did not visit",i);
            path.push_back({dn,cv->node}); prevc=cv->node; prevo=cs->x; }
        if ((int)path.size()!=t->nsteps) VIOL("protocol","trial %d has %zu selections but %d rewards",i,path.size(),t->nsteps);
        double hv=end_value(s.c,s.e,h_getnode(dn)->st); double total=hv; for (int k=0;k<t->nsteps;k++) total+=t->steps[k].r;
        for (int k=(int)path.size()-1;k>=0;k--) for (int q=0;q<2;q++) {
            HEv* e=need(q==0?E_CB:E_DB,q==0?"chance node backup":"decision node backup"); if (e->node!=(q==0?path[k].second:path[k].first)) VIOL("protocol","trial %d backed up node %d out of order",i,e->node);
            if (e->nb!=k) VIOL("reward-lists","trial %d: backup at depth %d received %d earlier rewards",i,k,e->nb);
            for (int j=0;j<k;j++) if (e->vb[j]!=t->steps[j].r) VIOL("reward-lists","trial %d: earlier reward %d passed to backup at depth %d is %.9g, it was %.9g",i,j,k,e->vb[j],t->steps[j].r);
            int na=t->nsteps-k+1; if (e->na!=na) VIOL("reward-lists","trial %d: backup at depth %d received %d later rewards, expected %d",i,k,e->na,na);
            double sum=0; for (int j=0;j<na;j++) { double ex = j==0 ? hv : t->steps[t->nsteps-j].r; sum+=ex; if (!closeto(e->va[j],ex,1e-12)) VIOL("reward-lists","trial %d: later reward %d passed to backup at depth %d is %.9g, it was %.9g",i,j,k,e->va[j],ex); }
            if (!closeto(e->f1,sum,1e-9)) VIOL("reward-lists","trial %d: return after depth %d passed to backup is %.9g, expected %.9g",i,k,e->f1,sum);
            if (!closeto(e->f2,total,1e-9)) VIOL("reward-lists","trial %d: total return passed to backup at depth %d is %.9g, expected %.9g",i,k,e->f2,total);
        }
        if (p!=v.size()) VIOL("protocol","trial %d performed %zu extra node operations",i,v.size()-p);
        by.erase(i);
    }
    if (!by.empty()) VIOL("protocol","node operations outside any trial");
}
static void s_c05(HRng& r) {
    Sys s; s.c=gen_algo(r,0); s.c.adv = r.chance(0.8)?0:s.c.adv; EnvOpts o=gen_opts(r,true); fit(s.c,o,r,0.4); o.obs_reward=true; s.e=gen_env(r,1,o); s.threads=gen_threads(r);
    rt_quiet(1); s.b.env=make_shared<SimEnv>(s.e); s.b.mgr=build_mgr(s.c,s.b.env); s.b.root=make_shared<PD>(s.b.mgr,s.b.env->get_initial_state_itfc(),0,s.c.root_ts,nullptr,-1); rt_quiet(0);
    desc("probe threads=%d states=%d %s",s.threads,s.e.nS,s.c.str().c_str());
    mkpool(s); int calls=r.range(1,2); int total=0; for (int k=0;k<calls;k++) { int n=r.range(1,20); n=tail(r,s,n); total+=n; run_some(s,r,n,r.range(0,3)); }
    s.pool.reset(); expect_trials(total,"at the end");
    Model m=build_model(s.c,s.e,1); check_leaf_rule(s.c,s.e,m); check_protocol(s);
    g_res->aux[0]+=total; g_res->aux[1]+=h_nev();
}
// ------------------------------------------------------------------------------------------------ trees: C06..C10
static int run_calls(Sys& s, HRng& r, int lo, int hi) {
    int calls=r.range(1,3), total=0; unique_ptr<ThtsPool> p2; if (s.threads>1 && r.chance(0.08)) { int t2=r.range(1,3); desc(" pool2(%d)",t2); p2=make_unique<ThtsPool>(s.b.mgr,s.b.root,t2,nullptr); } // two pools search the same tree
    for (int k=0;k<calls;k++) { int n=r.range(lo,hi); if (r.chance(0.02)) n=r.range(60,350); n=tail(r,s,n); total+=n; desc(" run(%d)",n);
        if (p2) { int n2=r.range(0,12); total+=n2; desc("+%d",n2); if (r.chance(0.5)) { p2->run_trials(n2,INF_T,false); run_some(s,r,n,r.range(0,2)); p2->join(); } else { thread t([&p2,n2]{ p2->run_trials(n2); }); run_some(s,r,n,r.range(0,2)); t.join(); } }
        else run_some(s,r,n,r.range(0,2)); }
    return total; }
// asking a node for a child it already has gives that child back
static void check_ask_again(Sys& s, Tree& t) {
    for (auto& kv : t.d) for (auto& ck : kv.second.kids) { auto act=s.b.env->ac(ck.first); auto cn=kv.second.ptr->get_child_node_itfc(act);
        for (auto& ok : ck.second.kids) { shared_ptr<const Observation> ob=s.b.env->st(ok.first); if (cn->create_child_node_itfc(ob,s.b.env->st(ok.first)).get()!=t.d.at(ok.second).ptr || cn->get_child_node_itfc(ob).get()!=t.d.at(ok.second).ptr || cn->get_num_children()!=ck.second.nkids) VIOL("ask-again","node %s/%d was asked for its child %d again and has another one now",kv.first.c_str(),ck.first,ok.first); }
        if (kv.second.ptr->create_child_node_itfc(act)!=cn || kv.second.ptr->get_child_node_itfc(act)!=cn || kv.second.ptr->get_num_children()!=kv.second.nkids) VIOL("ask-again","node %s was asked for its child %d again and has another one now",kv.first.c_str(),ck.first); }
}
static void s_c06(HRng& r) {
    Sys s; gen_sys(s,r,r.chance(0.75)?G_NOTRANS:0,false,0.3,0.15); mkpool(s); int total=run_calls(s,r,0,20); s.pool.reset();
    expect_trials(total,"at the end"); Model m=build_model(s.c,s.e,1); check_leaf_rule(s.c,s.e,m); Tree t=snapshot(s.c,s.e,s.b.root); check_structure(s.c,s.e,m,t);
    if (r.chance(0.3)) check_ask_again(s,t);
    g_res->aux[0]+=total; g_res->aux[1]+=t.d.size();
}
// several trees of one manager, rooted at different states and timesteps, share its table
static void s_c07_forest(HRng& r) {
    Sys s; s.c=gen_algo(r,G_TRANS|(r.chance(0.5)?G_UCTONLY:0)); s.c.max_depth=1<<30; s.c.root_scale=s.c.vroot_scale=s.c.root_eps=-1; EnvOpts o=gen_opts(r,false); o.layers_lo=2; o.layers_hi=r.range(2,5); o.width_hi=r.range(1,3); o.act_hi=r.range(1,3); s.e=gen_env(r,1,o); s.threads=min(6,gen_threads(r));
    vector<int> dep(s.e.nS,-1), live; dep[s.e.init]=0; live.push_back(s.e.init); for (size_t i=0;i<live.size();i++) { int x=live[i]; for (auto& v : s.e.tr[x]) for (auto& q : v) if (dep[q.first]<0 && !s.e.sink[q.first]) { dep[q.first]=dep[x]+1; live.push_back(q.first); } }
    rt_quiet(1); s.b.env=make_shared<SimEnv>(s.e); s.b.mgr=build_mgr(s.c,s.b.env); vector<RootSpec> roots; int n=r.range(2,3); set<int> starts;
    auto plant=[&](int i) { RootSpec q; q.key="R"+to_string(i); q.state = r.chance(0.5)?s.e.init:live[r.range(0,(int)live.size()-1)]; q.ts = max(0, s.c.root_ts + (r.chance(0.5)?dep[q.state]:0) + r.pick({0,0,0,1,1,2,-1}));
        EnvSpec e2=s.e; e2.init=q.state; AlgoCfg c2=s.c; c2.root_ts=q.ts; q.node=build_root(c2,make_shared<SimEnv>(e2),s.b.mgr); starts.insert(q.state); roots.push_back(q); };
    for (int i=0;i<n;i++) plant(i);
    rt_quiet(0); bool conc = (int)starts.size()==n && r.chance(0.6);   // trees searched at the same time are told apart by where their trials start
    desc("forest%s threads=%d states=%d %s",conc?"(concurrent)":"",s.threads,s.e.nS,s.c.str().c_str()); for (auto& q : roots) desc(" root(%d@%d)",q.state,q.ts);
    vector<int> owner; int calls=r.range(2,5), total=0, alive=n; bool churn=!conc && r.chance(0.5); if (churn) { calls+=2; s.threads=min(s.threads,3); }
    vector<unique_ptr<ThtsPool>> ps; for (auto& q : roots) ps.push_back(make_unique<ThtsPool>(s.b.mgr,q.node,conc?max(1,s.threads/2):s.threads,nullptr));
    for (int k=0;k<calls;k++) {
        if (churn && k>=1 && alive>1 && r.chance(0.4)) { int i=r.range(0,n-1); if (roots[i].node) { ps[i].reset(); roots[i].node.reset(); roots[i].dropped=h_n(); alive--; desc(" drop(%d)",i); } }
        if (churn && k>=1 && r.chance(0.25)) { rt_quiet(1); plant(n); rt_quiet(0); ps.push_back(make_unique<ThtsPool>(s.b.mgr,roots[n].node,s.threads,nullptr)); desc(" new(%d@%d)",roots[n].state,roots[n].ts); n++; alive++; }
        if (conc) { for (auto& p : ps) { int m=r.range(0,12); total+=m; p->run_trials(m,INF_T,false); } for (auto& p : ps) p->join(); }
        else { int i = k<n?k:r.range(0,n-1), m=r.range(1,14); while (!roots[i].node) i=(i+1)%n; total+=m; ps[i]->run_trials(m); for (int j=0;j<m;j++) owner.push_back(i); } }
    ps.clear(); expect_trials(total,"at the end");
    Model m=build_model(s.c,s.e,1,roots,[&](int i){ if (!conc) return owner[i]; for (int j=0;j<n;j++) if (roots[j].state==h_get(i)->s0) return j; return 0; });
    check_leaf_rule(s.c,s.e,m); Tree t=snapshot(s.c,s.e,roots); check_structure(s.c,s.e,m,t);
    set<ThtsDNode*> ptrs; for (auto& kv : t.d) if (!ptrs.insert(kv.second.ptr).second) VIOL("transposition","one decision node stands for two different (timestep, state) pairs, one of them %s",kv.first.c_str());
    check_returns(s.c,s.e,m,t); AlgoCfg c2=s.c; c2.root_ts=0; check_values(c2,s.e,m,t); g_res->aux[0]+=total; for (auto& kv : t.d) if (kv.second.in_edges>1) g_res->aux[2]++;
}
static void s_c07(HRng& r) {
    if (r.chance(0.15)) { s_c07_forest(r); return; }
    Sys s; s.c=gen_algo(r,G_TRANS|(r.chance(0.4)?G_UCTONLY:0)); EnvOpts o=gen_opts(r,false); o.layers_lo=2; o.layers_hi=4; o.width_hi=r.range(1,3); o.act_hi=r.range(2,4); fit(s.c,o,r,0.4); s.e=gen_env(r,1,o); s.threads=gen_threads(r); if (r.chance(0.7)) s.threads=max(2,s.threads);
    rt_quiet(1); s.b=build(s.c,s.e); rt_quiet(0); desc("threads=%d states=%d %s",s.threads,s.e.nS,s.c.str().c_str());
    int rounds = r.chance(0.3) ? 2 : 1;       // second round: same manager, new tree
    for (int q=0;q<rounds;q++) {
        if (q) { s.pool.reset(); rt_quiet(1); s.b.root.reset(); s.b.root=build_root(s.c,s.b.env,s.b.mgr); rt_quiet(0); h_reset(); desc(" newtree"); }
        mkpool(s); int total=run_calls(s,r,1,20); s.pool.reset(); expect_trials(total,"at the end");
        Model m=build_model(s.c,s.e,1); check_leaf_rule(s.c,s.e,m); Tree t=snapshot(s.c,s.e,s.b.root); check_structure(s.c,s.e,m,t);
        set<ThtsDNode*> ptrs; for (auto& kv : t.d) if (!ptrs.insert(kv.second.ptr).second) VIOL("transposition","one decision node stands for two different (timestep, state) pairs, one of them %s",kv.first.c_str());
        check_returns(s.c,s.e,m,t);
        g_res->aux[0]+=total; for (auto& kv : t.d) if (kv.second.in_edges>1) g_res->aux[2]++;
    }
}
// trials in flight: visits and selections without back-ups
static void fly(Sys& s, HRng& r) { for (int k=r.range(1,4);k>0;k--) { ThtsEnvContext x; ThtsDNode* n=s.b.root.get(); bool fresh=false;
    while (!n->is_leaf() && !(s.c.mcts && fresh)) { n->visit_itfc(x); auto a=n->select_action_itfc(x); auto cn=n->get_child_node_itfc(a); int kids=cn->get_num_children(); cn->visit_itfc(x); auto ob=cn->sample_observation_itfc(x); fresh=cn->get_num_children()>kids; n=cn->get_child_node_itfc(ob).get(); }
    n->visit_itfc(x); g_res->aux[4]++; } }
static void sweep_check(const char* what, const string& key, const vector<double>& p, const vector<long>& cnt, long K, bool exact);
// what UCT / PUCT select at a node all of whose actions were tried, given its statistics
static void check_ucb_node(const AlgoCfg& c, const EnvSpec& e, const string& key, const DSnap& d) {
            double opp = c.two_player && ((d.depth+c.root_ts)&1) ? -1 : 1, bias=c.bias; if (bias==-1.0) { bias=0.001; for (auto& k : d.kids) bias=max(bias,fabs(k.second.val.v)); }
            vector<double> u; double best=-1e300; for (auto& k : d.kids) { double nv=max(1,d.visits), cv=max(1,k.second.visits); double b=(c.algo==A_PUCT?pow(nv,c.puct_power)/cv:sqrt(log(nv)/cv))*bias; if (c.use_prior) b*=e.prior[d.state][k.first]; b+=opp*k.second.val.v; u.push_back(b); best=max(best,b); }
            set<int> arg; for (size_t a=0;a<u.size();a++) if (u[a] >= best-1e-7*max(1.0,fabs(best))) arg.insert(a);
            int N=c.eps_expl>0?500:40; vector<long> cnt(u.size(),0); g_scr.on=2; for (int k=0;k<N;k++) { ThtsEnvContext x; int a=SimEnv::aid(*d.ptr->select_action_itfc(x)); cnt[a]++; if (c.eps_expl<=0 && !arg.count(a)) VIOL("ucb-choice","selection at %s chose action %d with bound %.9g while %.9g was available",key.c_str(),a,u[a],best); } g_scr.on=0;
            if (c.eps_expl>0 && arg.size()==1) { vector<double> p(u.size(),c.eps_expl/u.size()); p[*arg.begin()]+=1-c.eps_expl; sweep_check("selection",key,p,cnt,N,false); g_res->aux[2]++; }
}
static void s_c08(HRng& r) {
    Sys s; int fl = r.chance(0.85)?G_UCTONLY:0; gen_sys(s,r,fl,false,0.2,0.1); if (r.chance(0.35)) s.threads=1; if (fl==0 && !s.c.is_uct()) s.c.use_dp=false;
    if (fl==0 && !s.c.is_uct()) { rt_quiet(1); s.c.algo = r.chance(0.5)?A_DENTS:A_EST; s.b=build(s.c,s.e); rt_quiet(0); s.log.reset(); }
    mkpool(s); int total=run_calls(s,r,1,25); s.pool.reset(); expect_trials(total,"at the end");
    Model m=build_model(s.c,s.e,1); Tree t=snapshot(s.c,s.e,s.b.root); check_returns(s.c,s.e,m,t); check_try_all(s.c,s.e,m);
    if (s.threads==1) { check_ucb_single(s.c,s.e,1); g_res->aux[2]++; }
    if (s.c.is_uct() && r.chance(0.5)) { if (r.chance(0.7)) fly(s,r); t=snapshot(s.c,s.e,s.b.root); int left=3; for (auto& kv : t.d) { const DSnap& d=kv.second; if (d.leaf || !s.e.nA[d.state] || (int)d.kids.size()!=s.e.nA[d.state]) continue; check_ucb_node(s.c,s.e,kv.first,d); if (!--left) break; } }
    g_res->aux[0]+=total; g_res->aux[1]+=t.d.size();
}
static void s_c09(HRng& r) {
    Sys s; gen_sys(s,r,G_MENTSONLY,false,0.2,0.1); mkpool(s); int total=run_calls(s,r,1,20); s.pool.reset(); expect_trials(total,"at the end");
    Model m=build_model(s.c,s.e,1); Tree t=snapshot(s.c,s.e,s.b.root); check_returns(s.c,s.e,m,t); check_values(s.c,s.e,m,t);
    g_res->aux[0]+=total; g_res->aux[1]+=t.d.size();
}
static void s_c10(HRng& r) {
    Sys s; gen_sys(s,r,0,false,0.2,0.1); mkpool(s); int total=run_calls(s,r,0,20);
    expect_trials(total,"at the end"); Model m=build_model(s.c,s.e,1); Tree t=snapshot(s.c,s.e,s.b.root); check_recommend(s.c,s.e,m,t,s.b.root);
    Tree t2=snapshot(s.c,s.e,s.b.root);
    for (auto& kv : t.d) { auto it=t2.d.find(kv.first); if (it==t2.d.end() || it->second.visits!=kv.second.visits || it->second.nkids!=kv.second.nkids || !(it->second.val.v==kv.second.val.v || std::isnan(kv.second.val.v))) VIOL("recommend-pure","asking for a recommendation changed the tree at %s",kv.first.c_str()); }
    if (t2.d.size()!=t.d.size()) VIOL("recommend-pure","asking for a recommendation changed the tree");
    s.pool.reset(); g_res->aux[0]+=total; g_res->aux[1]+=t.d.size();
}
// ------------------------------------------------------------------------------------------------ C11 random service
struct Draw { int kind; double v; uint64_t s0,s1; };
static void s_c11(HRng& r) {
    int T=r.range(1,6), K=r.range(1,40); if (r.chance(0.01)) K=r.range(500,2000)/T; int seed=r.range(1,1<<30); bool wide=r.chance(0.6); int lo=r.range(-50,50), hi=lo+ (wide ? 2000000000 : r.range(1,9)); if (wide) { lo=0; hi=2000000000; }
    desc("rng threads=%d draws=%d seed=%d range=[%d,%d)",T,K,seed,lo,hi);
    vector<vector<Draw>> got(T); for (auto& g : got) g.reserve(K);
    int mix=r.range(0,2); uint64_t cs=r.next();
    { shared_ptr<RandManager> rm; shared_ptr<SimEnv> env; if (r.chance(0.5)) rm=make_shared<RandManager>(seed); else { AlgoCfg c=gen_algo(r,G_NOADV); c.seed=seed; EnvOpts o; env=make_shared<SimEnv>(gen_env(r,1,o)); rm=build_mgr(c,env); }
      vector<thread> th; for (int t=0;t<T;t++) th.emplace_back([&,t]{ HRng q(cs+t); for (int k=0;k<K;k++) { Draw d; d.kind = mix==2 ? (int)(q.next()&1) : mix; d.s0=h_seq(); d.v = d.kind ? rm->get_rand_uniform() : (double)rm->get_rand_int(lo,hi); d.s1=h_seq(); got[t].push_back(d); } });
      for (auto& t : th) t.join(); }
    for (int kind=0;kind<2;kind++) {
        struct X { double v; uint64_t s0,s1; int t; }; vector<X> all; for (int t=0;t<T;t++) for (auto& d : got[t]) if (d.kind==kind) all.push_back({d.v,d.s0,d.s1,t});
        mt19937 g(seed); uniform_int_distribution<int> di(0,RAND_MAX); uniform_real_distribution<double> dr(0.0,1.0); vector<double> ref;
        for (size_t i=0;i<all.size();i++) ref.push_back(kind ? dr(g) : (double)(lo + di(g)%(hi-lo)));
        for (auto& x : all) { if (kind ? !(x.v>=0.0 && x.v<1.0) : !(x.v>=lo && x.v<hi)) VIOL("rng-range","random draw %.17g outside its range",x.v); }
        vector<double> a; for (auto& x : all) a.push_back(x.v); vector<double> b=ref; sort(a.begin(),a.end()); sort(b.begin(),b.end());
        if (a!=b) VIOL("rng-stream","the %zu draws handed out to %d threads are not the first draws of the seeded stream",a.size(),T);
        bool uniq = adjacent_find(b.begin(),b.end())==b.end();
        if (T==1) { for (size_t i=0;i<all.size();i++) if (all[i].v!=ref[i]) VIOL("rng-stream","draw %zu is %.17g, the seeded stream has %.17g",i,all[i].v,ref[i]); }
        else if (uniq) { map<double,int> pos; for (size_t i=0;i<ref.size();i++) pos[ref[i]]=i;
            vector<int> px; for (auto& x : all) px.push_back(pos[x.v]); for (size_t i=0;i<all.size();i++) for (size_t j=0;j<all.size();j++) if (px[i]>px[j] && all[i].s1<all[j].s0) VIOL("rng-order","a draw that finished before another began came later in the stream"); g_res->aux[1]++; }
        g_res->aux[0]+=all.size();
    }
    if (r.chance(0.2)) { RandManager a(0), b(0); bool diff=false; for (int i=0;i<4;i++) { double x=a.get_rand_uniform(), y=b.get_rand_uniform(); int p=a.get_rand_int(0,1000000), q=b.get_rand_int(0,1000000); if (x!=y||p!=q) diff=true; } if (!diff) VIOL("rng-entropy","two services without a fixed seed produced the same draws"); }
}
// ------------------------------------------------------------------------------------------------ C12 reproducibility
struct TrialRec { int s0; vector<HStep> st; };
static vector<TrialRec> grab() { vector<TrialRec> v; for (int i=0;i<h_n();i++) { HTrial* t=h_get(i); if (t->env!=1) continue; TrialRec q; q.s0=t->s0; for (int k=0;k<t->nsteps;k++) q.st.push_back(t->steps[k]); v.push_back(q); } return v; }
static string dump_tree(const Tree& t) { string o; char b[256]; for (auto& kv : t.d) { const DSnap& d=kv.second; snprintf(b,256,"%s v=%d val=%.17g",kv.first.c_str(),d.visits,d.val.v); o+=b; for (auto& f : d.val.f) { snprintf(b,256," %s=%.17g",f.first.c_str(),f.second); o+=b; } for (auto& k : d.kids) { snprintf(b,256," [%d v=%d val=%.17g",k.first,k.second.visits,k.second.val.v); o+=b; for (auto& f : k.second.val.f) { snprintf(b,256," %s=%.17g",f.first.c_str(),f.second); o+=b; } o+="]"; } o+="\n"; } return o; }
static void s_c12(HRng& r) {
    Sys s; s.c=gen_algo(r,G_NOADV); EnvOpts o=gen_opts(r,true); fit(s.c,o,r,0.2); s.e=gen_env(r,1,o); s.threads=1; bool uselog=r.chance(0.3);
    int total=tail(r,s,r.range(1,30),0.006); int nroll=r.chance(0.5)?r.range(1,8):0; int L=r.range(1,8); desc("repro total=%d roll=%d %s",total,nroll,s.c.str().c_str());
    vector<TrialRec> hist[2], roll[2]; string tree[2]; vector<int> rec[2]; double mean[2]={0,0}; uint64_t pert=r.next();
    for (int q=0;q<2;q++) {
        HRng p(pert+q); h_reset(); h_adv_seed(7);
        if (q) rt_set_perturb(p.range(0,2)==0?-1:p.range(0,255),p.next()|1,p.next(),(uint64_t)p.range(1,5000),(uint64_t)p.range(0,500));
        Sys x; x.c=s.c; x.e=s.e; x.e.fresh = q ? p.chance(0.5) : s.e.fresh; x.e.cost_ns = q&&p.chance(0.5) ? 0 : s.e.cost_ns; x.threads=1;
        vector<unique_ptr<char[]>> junk; for (int k=0;k<p.range(0,20);k++) junk.emplace_back(new char[p.range(1,200)]);
        x.b=build(x.c,x.e); if (uselog && q) x.log=gen_logger(p,x.c.algo); mkpool(x);
        Sys y; thread other; if (q && r.chance(0.25)) { // an unrelated search in the same process at the same time
            EnvOpts oy=gen_opts(p,false); y.c=gen_algo(p,G_NOADV); if (p.chance(0.5)) y.c.seed=x.c.seed; y.e=gen_env(p,2,oy); y.threads=p.range(1,3); y.b=build(y.c,y.e); mkpool(y); desc(" other(%d)",y.threads); int ny=p.range(1,25); other=thread([&y,ny]{ y.pool->run_trials(ny); }); }
        int left=total; while (left>0) { int n = q ? p.range(1,left) : left; run_some(x,p,n,p.range(0,2)); left-=n; }
        if (other.joinable() && p.chance(0.5)) other.join();
        x.pool.reset(); hist[q]=grab(); Tree t=snapshot(x.c,x.e,x.b.root); tree[q]=dump_tree(t);
        if (nroll) { h_reset(); EvalPolicy pol(x.b.root,x.b.env,*x.b.mgr); MCEvaluator ev(x.b.env,pol,L,*x.b.mgr); ev.run_rollouts(nroll,1); roll[q]=grab(); mean[q]=ev.get_mean_return(); }
        if (other.joinable()) other.join(); y.pool.reset();
        for (auto& kv : t.d) if (!kv.second.leaf && s.e.nA[kv.second.state]) { ThtsEnvContext ctx; rec[q].push_back(SimEnv::aid(*kv.second.ptr->recommend_action_itfc(ctx))); }
    }
    auto cmp=[&](vector<TrialRec>& a, vector<TrialRec>& b, const char* what) {
        if (a.size()!=b.size()) VIOL("repro","%s: %zu vs %zu",what,a.size(),b.size());
        for (size_t i=0;i<a.size();i++) { bool eq=a[i].s0==b[i].s0 && a[i].st.size()==b[i].st.size(); if (eq) for (size_t k=0;k<a[i].st.size();k++) if (a[i].st[k].a!=b[i].st[k].a || a[i].st[k].o!=b[i].st[k].o) eq=false; if (!eq) VIOL("repro","%s %zu differs between two single-worker searches with the same seed",what,i); } };
    cmp(hist[0],hist[1],"trial"); if (tree[0]!=tree[1]) { size_t k=0; while (k<tree[0].size() && k<tree[1].size() && tree[0][k]==tree[1][k]) k++; VIOL("repro","search trees differ between two single-worker searches with the same seed: ...%.80s | ...%.80s",tree[0].c_str()+(k>40?k-40:0),tree[1].c_str()+(k>40?k-40:0)); }
    cmp(roll[0],roll[1],"evaluation rollout"); if (mean[0]!=mean[1]) VIOL("repro","evaluation means differ"); if (rec[0]!=rec[1]) VIOL("repro","recommendations differ between two single-worker searches with the same seed");
    g_res->aux[0]+=2*total;
}
// ------------------------------------------------------------------------------------------------ C13 logger
struct Row { vector<double> c; };
static void parse_log(ThtsLogger& l, vector<string>& head, vector<Row>& rows) {
    stringstream ss; l.write_to_ostream(ss); string line; bool first=true;
    while (getline(ss,line)) { if (line.empty()) continue; stringstream ls(line); string f; if (first) { while (getline(ls,f,',')) head.push_back(f); first=false; continue; } Row r; while (getline(ls,f,',')) r.c.push_back(strtod(f.c_str(),nullptr)); rows.push_back(r); }
}
static vector<int> gen_slow(HRng& r, int lo, int n, int k) { set<int> q; while ((int)q.size()<k) q.insert(r.chance(0.5)?lo+(int)q.size():lo+r.range(0,n-1)); return vector<int>(q.begin(),q.end()); }
static void s_c13(HRng& r) {
    Sys s; int al=r.pick({A_UCT,A_PUCT,A_MENTS,A_DBMENTS,A_RENTS,A_TENTS}); s.c=gen_algo(r,0); { AlgoCfg d=gen_algo(r, al<=A_PUCT?G_UCTONLY:G_MENTSONLY); d.algo=al; s.c=d; }
    EnvOpts o=gen_opts(r,true); fit(s.c,o,r,0.2); s.e=gen_env(r,1,o); s.threads=gen_threads(r);
    rt_quiet(1); s.b=build(s.c,s.e); rt_quiet(0); vector<string> want={"runtime","num_visits"}; int kind=r.range(0,2);
    if (kind==0) s.log=make_shared<ThtsLogger>(); else if (s.c.is_uct()) { s.log=make_shared<UctLogger>(); want={"runtime","num_visits","num_backups","avg_return"}; }
    else if (al==A_DBMENTS && kind==1) { s.log=make_shared<DBMentsLogger>(); want={"runtime","num_visits","num_backups","soft_value","dp_value"}; } else { s.log=make_shared<MentsLogger>(); want={"runtime","num_visits","num_backups","soft_value"}; }
    int td=r.chance(0.8)?r.range(1,7):0; int big=r.chance(0.01); if (big) td=r.pick({1,2,50,100,129,500}); double rd=0; if (!td || r.chance(0.3)) rd=g_cfg.tick_ns*1e-9*r.pick({3,30,200,1000}); if (td) s.log->set_trials_delta(td); if (rd>0) s.log->set_runtime_delta(rd);
    desc("log kind=%d td=%d rd=%.3g threads=%d %s",kind,td,rd,s.threads,s.c.str().c_str());
    mkpool(s); int calls=r.range(1,4); double busy=0, busy_lo=0; int total=0; vector<double> lbt, ubt; vector<uint64_t> callw0; vector<int> callfirst; int prevrows=0;
    bool retune=td && rd==0 && !big && r.chance(0.2); vector<int> due; int lastdue=0; bool retime=rd>0 && !big && r.chance(0.25); if (retune || retime) calls++;    // the interval is changed between searches
    size_t seg=0; int segrows=0, segdue=0; double segbusy=0, segbusy_lo=0;
    for (int k=0;k<calls;k++) {
        if (retune && k) { td=r.pick({1,2,3,4,5,6,7,numeric_limits<int>::max()}); s.log->set_trials_delta(td); desc(" every(%d)",td); }
        if (retime && k && r.chance(0.6)) { rd=g_cfg.tick_ns*1e-9*r.pick({3,30,200,1000}); s.log->set_runtime_delta(rd); desc(" every(%.3gs)",rd); seg=lbt.size(); segrows=prevrows-1; segdue=due.size(); segbusy=busy; segbusy_lo=busy_lo; }
        bool tlim=!big && r.chance(0.35); int n=r.range(k==0 && r.chance(0.95)?1:0,18); if (big) n=tail(r,s,r.range(60,300),0.3); double tl=INF_T; if (tlim) { n = r.chance(0.6)?numeric_limits<int>::max():r.range(1,30); tl=g_cfg.tick_ns*1e-9*r.range(1,2500); }
        int mode=r.range(0,2); if (mode==2) mode=1; desc(" run(%d,%.3g)",n,tl==INF_T?-1:tl); int before=h_n(); uint64_t w0=rt_now_rt(); run_some(s,r,n,mode,tl); uint64_t w1=rt_now_rt();
        if (tl==INF_T) total+=n; else total=h_n(); if (h_n()!=total) VIOL("trial-count","%d trials were run, %d requested",h_n(),total);
        // bounds on the total runtime at which each trial of this call completed
        uint64_t wfirst=~0ull, wlast=0; for (int i=before;i<h_n();i++) { HTrial* t=h_get(i); wfirst=min(wfirst,t->w_start); wlast=max(wlast,t->w_end); }
        for (int i=before;i<h_n();i++) { HTrial* t=h_get(i); lbt.push_back(busy_lo + (t->w_start-wfirst)*1e-9); ubt.push_back(busy + (t->w_end-w0)*1e-9); }
        busy += (w1-w0)*1e-9; if (h_n()>before) busy_lo += 0; 
        // the accumulated runtime after this call is at least the span between its first trial start and its last trial's last step
        if (h_n()>before) { uint64_t ls=0; for (int i=before;i<h_n();i++) ls=max(ls,h_get(i)->w_start); busy_lo += (ls-wfirst)*1e-9; }
        (void)wlast;
        vector<string> head; vector<Row> rows; parse_log(*s.log,head,rows);
        if ((int)rows.size()!=s.log->size()) VIOL("log-rows","log has %d entries but writes %zu rows",s.log->size(),rows.size());
        if (rows.empty()) VIOL("log-rows","log is empty after a search"); if (head!=want) VIOL("log-columns","log header does not list the columns of its entry type");
        for (size_t i=0;i<rows.size();i++) { if (rows[i].c.size()!=head.size()) VIOL("log-columns","log row %zu has %zu fields, the header has %zu",i,rows[i].c.size(),head.size());
            if (i && rows[i].c[0] < rows[i-1].c[0]-1e-9) VIOL("log-runtime","logged runtime went backwards: row %zu has %.9f after %.9f",i,rows[i].c[0],rows[i-1].c[0]);
            if (i && rows[i].c[1] < rows[i-1].c[1]) VIOL("log-visits","logged visit count went backwards at row %zu",i);
            if (i && rows[i].c[1] > h_n()+pseudo(s.c)) VIOL("log-visits","logged visit count %g exceeds the %d trials run",rows[i].c[1],h_n());
            if (rows[i].c[0] > busy*(1+1e-9)+1e-6) VIOL("log-runtime","logged runtime %.9f exceeds the %.9f s the searches have taken",rows[i].c[0],busy); 
            if (rows[i].c[0] < -1e-12) VIOL("log-runtime","negative runtime logged"); }
        for (double z : rows[0].c) if (z!=0) VIOL("log-origin","the first row is not the origin");
        if (td) for (int q=before+1;q<=h_n();q++) if (q-lastdue>=td) { lastdue=q; due.push_back(q); }
        bool inner=!env_leaf(s.c,s.e,0,s.e.init);
        if (kind && inner) for (size_t i=1;i<rows.size();i++) { double nv=rows[i].c[1], nb=rows[i].c[2];
            if (nb>nv || nv-nb>s.threads-1) VIOL("log-backups","row %zu counts %g backups and %g visits with %d workers",i,nb,nv,s.threads);
            if (s.threads==1 && s.c.is_uct()) { int n=(int)nv-pseudo(s.c); double hv=end_value(s.c,s.e,s.e.init), sum=pseudo(s.c)*hv; for (int q=0;q<n && q<h_n();q++) { HTrial* t=h_get(q); sum+=end_value(s.c,s.e,t->nsteps?t->steps[t->nsteps-1].o:s.e.init); for (int w=0;w<t->nsteps;w++) sum+=t->steps[w].r; }
                if (!closeto(rows[i].c[3],sum/nv,1e-7)) VIOL("log-value","row %zu reports average return %.12g after %d trials, their mean is %.12g",i,rows[i].c[3],n,sum/nv); } }
        if (kind && inner && !rd && h_n()>0 && lastdue==h_n() && rows.size()>1) { // the last row was written by the last trial to complete
            Tree t=snapshot(s.c,s.e,s.b.root); const DSnap& d=t.d.at(root_key(s.c,s.e)); const Row& l=rows.back(); double soft = al==A_DBMENTS ? d.val.get("soft_val") : d.val.v;
            if (l.c[1]!=d.visits || l.c[2]!=d.visits) VIOL("log-visits","after all %d trials the last row counts %g visits and %g backups",h_n(),l.c[1],l.c[2]);
            if (!closeto(l.c[3],soft,1e-7)) VIOL("log-value","the last row reports value %.12g, the root holds %.12g",l.c[3],soft);
            if (l.c.size()>4 && !closeto(l.c[4],d.val.v,1e-7)) VIOL("log-value","the last row reports dp value %.12g, the root holds %.12g",l.c[4],d.val.v); g_res->aux[2]++; }
        if ((int)rows.size()<prevrows) VIOL("log-rows","rows disappeared"); prevrows=rows.size();
        int logged=(int)rows.size()-1;
        vector<double> a(lbt.begin()+seg,lbt.end()), b(ubt.begin()+seg,ubt.end()); sort(a.begin(),a.end()); sort(b.begin(),b.end());
        if (rd>0) { int kl=0, ku=0, nd=(int)due.size()-segdue, got=logged-segrows; for (double x : a) if (x>=segbusy+(kl+1)*rd*(1+1e-9)+1e-8) kl++; for (double x : b) if (x>=segbusy_lo+(ku+1)*rd*(1-1e-9)-1e-8) ku++;
            int lo=max(kl,nd), hi=ku+nd;
            if (got<lo) VIOL("log-cadence","only %d rows after %d trials; at least %d were due (every %g s, every %d trials)",got,(int)a.size(),lo,rd,td);
            if (got>hi) VIOL("log-cadence","%d rows after %d trials; at most %d were due (every %g s, every %d trials)",got,(int)a.size(),hi,rd,td);
            if (!td) for (int i=1;i<=got;i++) if (rows[segrows+i].c[0] < segbusy_lo+i*rd*(1-1e-6)-1e-8) VIOL("log-cadence","row %d was logged at %.9f s, before its due time %.9f s",segrows+i,rows[segrows+i].c[0],segbusy_lo+i*rd);
        } else {
            if (logged!=(int)due.size()) VIOL("log-cadence","%d rows after %d completed trials; every %d completed trials one is due, %zu in all",logged,h_n(),td,due.size());
            for (int i=1;i<=logged;i++) { if (rows[i].c[1] < due[i-1]+pseudo(s.c)) VIOL("log-visits","row %d counts %g visits although %d trials had completed",i,rows[i].c[1],due[i-1]); if (rows[i].c[1] > due[i-1]+pseudo(s.c)+s.threads-1) VIOL("log-visits","row %d counts %g visits although only %d trials had completed and %d could be in flight",i,rows[i].c[1],due[i-1],s.threads-1); }
        }
        if (r.chance(0.5)) rt_sleep((uint64_t)r.range(1,50)*1000000ull);
        g_res->aux[1]+=rows.size();
    }
    if (kind && rd==0 && td && !big && s.threads>1 && !env_leaf(s.c,s.e,0,s.e.init) && r.chance(0.25)) { // rows written while other trials are under way do not count those as backed up
        EnvSpec& e=s.b.env->spec; int base=h_n(), n=r.range(3,12), w=min(r.range(1,s.threads-1),n-1); const uint64_t slow=600000ull*g_cfg.tick_ns+5000ull*(e.cost_ns+1); e.slow_ns=slow; e.slow_at=0; e.slow=gen_slow(r,base,n,w); s.log->set_trials_delta(1); desc(" slow(%d,%d)",n,w);
        vector<string> head; vector<Row> rows; parse_log(*s.log,head,rows); int R=rows.size(); s.pool->run_trials(n); total+=n; rows.clear(); head.clear(); parse_log(*s.log,head,rows); if ((int)rows.size()!=R+n) VIOL("log-cadence","%d rows for %d trials with a row due after each",(int)rows.size()-R,n);
        set<int> sl(e.slow.begin(),e.slow.end()); uint64_t fast=0, done=~0ull; for (int i=base;i<h_n();i++) { HTrial* q=h_get(i); if (sl.count(i)) done=min(done,q->v_start+slow); else fast=max(fast,q->v_end); }
        int f=n-(int)sl.size(); if (fast<done) for (int i=0;i<f;i++) { const Row& x=rows[R+i]; if (x.c[2]>base+f+pseudo(s.c)) VIOL("log-backups","row %d counts %g backups although %zu of the %d trials had not come back",R+i,x.c[2],sl.size(),base+n); g_res->aux[3]++; }
        e.slow.clear(); }
    s.pool.reset(); g_res->aux[0]+=total;
}
struct Mart { double s=0, v=0, n=0; void add(bool hit, double p) { s += (hit?1:0)-p; v += p*(1-p); n++; }   // martingale with known conditional variance; Freedman's inequality bounds the tail
    double lim() const { double x=30; return x/3 + sqrt(x*x/9 + 2*x*v); }
    void check(const char* cls, const char* what) const { if (fabs(s) > lim()) VIOL(cls,"%s: %.1f too %s in %.0f draws (at most %.1f can be chance)",what,fabs(s),s>0?"often":"rarely",n,lim()); } };
// ------------------------------------------------------------------------------------------------ C14 evaluation
struct Eval { int id; shared_ptr<SimEnv> env; unique_ptr<RandManager> own; RandManager* rm; unique_ptr<EvalPolicy> pol; unique_ptr<MCEvaluator> ev; int L; vector<double> rets; };
static void s_c14(HRng& r) {
    Sys s; gen_sys(s,r,0,false,0.4,0); mkpool(s); rt_quiet(1); run_some(s,r,r.range(0,25),0); rt_quiet(0); s.pool.reset();
    vector<char> roll(h_n(),0); auto trials=[&](int i){ return roll[i]?-1:0; };
    Model m=build_model(s.c,s.e,1,trials); Tree t=snapshot(s.c,s.e,s.b.root);
    int K=r.chance(0.15)?2:1; vector<Eval> ev(K); bool fair=true;      // a second evaluator works on the same tree at the same time
    for (int k=0;k<K;k++) { Eval& v=ev[k]; v.id=k+1; v.env=s.b.env; if (k) { rt_quiet(1); EnvSpec e2=s.e; e2.id=2; v.env=make_shared<SimEnv>(e2); rt_quiet(0); }
        v.L=r.pick({0,1,2,3,5,9,20}); v.rm=s.b.mgr.get(); if (r.chance(0.4)) { v.own=make_unique<RandManager>(r.range(1,1<<20)); v.rm=v.own.get(); } else if (s.c.adv!=0) fair=false;
        v.pol=make_unique<EvalPolicy>(s.b.root,v.env,*v.rm); v.ev=make_unique<MCEvaluator>(v.env,*v.pol,v.L,*v.rm); }
    int calls=r.range(1,3), total=0; Mart off[10], obs; bool many=fair && r.chance(0.08), mid=r.chance(0.5);
    for (int k=0;k<calls;k++) {
        if (k && r.chance(0.3)) { rt_quiet(1); mkpool(s); int q=r.range(1,12); desc(" more(%d)",q); s.pool->run_trials(q); s.pool.reset(); roll.resize(h_n(),0); m=build_model(s.c,s.e,1,trials); t=snapshot(s.c,s.e,s.b.root); rt_quiet(0); }
        int h0=h_n(), want=0; vector<thread> th; vector<int> n(K);
        for (int v=K-1;v>=0;v--) { n[v]=many?r.range(50,150):r.range(0,15); int w=r.chance(0.02)?r.range(7,16):r.range(1,6); if (many && r.chance(0.04)) n[v]=r.range(600,1300); desc(" roll(%d,%d,L%d)",n[v],w,ev[v].L); want+=n[v]; MCEvaluator* x=ev[v].ev.get(); int c=n[v]; if (v) th.emplace_back([x,c,w]{ x->run_rollouts(c,w); }); else x->run_rollouts(c,w); }
        for (auto& x : th) x.join();
        if (h_n()!=h0+want || h_active()) VIOL("rollout-count","%d rollouts were run (%d still active), %d were requested",h_n()-h0,h_active(),want); roll.resize(h_n(),1); total+=want; vector<int> cnt(K,0);
        for (int i=h0;i<h_n();i++) { HTrial* q=h_get(i); Eval& v=ev[min(K-1,max(0,q->env-1))]; int L=v.L; cnt[v.id-1]++; if (q->late_steps) VIOL("context-lifetime","rollout %d used its context after it was destroyed",i);
            int st=s.e.init; if (q->s0!=st) VIOL("rollout","rollout %d started in state %d",i,q->s0); string key=root_key(s.c,s.e); bool in=true; double ret=0;
            if (q->nsteps>L) VIOL("rollout-length","rollout %d took %d steps, the maximum is %d",i,q->nsteps,L);
            for (int k=0;k<q->nsteps;k++) { HStep& x=q->steps[k]; if (x.s!=st || s.e.sink[st]) VIOL("rollout","rollout %d is not a trajectory of the environment",i); if (x.a<0||x.a>=s.e.nA[st]) VIOL("rollout","invalid action"); bool ok=false; for (auto& p : s.e.tr[st][x.a]) if (p.first==x.o && p.second>0) ok=true; if (!ok) VIOL("rollout","impossible outcome");
                if (in) { set<int> al=allowed_actions(s.c,s.e,m,t,key); if (!al.empty() && !al.count(x.a)) VIOL("rollout-policy","rollout %d step %d took action %d, which the tree does not recommend at %s",i,k,x.a,key.c_str());
                    const DSnap& d=t.d.at(key); auto ci=d.kids.find(x.a); if (ci==d.kids.end() || !ci->second.kids.count(x.o)) in=false; else key=ci->second.kids.at(x.o); }
                else if (fair && s.e.nA[st]>1) { for (int a=0;a<10 && a<s.e.nA[st];a++) off[a].add(x.a==a,1.0/s.e.nA[st]); }
                if (fair && s.e.tr[st][x.a].size()>1) obs.add(x.o==s.e.tr[st][x.a][0].first,s.e.tr[st][x.a][0].second);
                ret+=x.r; st=x.o; }
            if (q->nsteps<L && !s.e.sink[st]) VIOL("rollout-length","rollout %d stopped after %d steps in a non-terminal state, the maximum is %d",i,q->nsteps,L);
            v.rets.push_back(ret); }
        for (int v=0;v<K;v++) if (cnt[v]!=n[v]) VIOL("rollout-count","evaluator %d ran %d rollouts, %d were requested",v,cnt[v],n[v]);
        if (mid || k==calls-1) for (Eval& v : ev) { int N=v.rets.size(); if (!N) continue; double sum=0, big=1; for (double x : v.rets) { sum+=x; big=max(big,fabs(x)); } double mean=sum/N; if (!(fabs(v.ev->get_mean_return()-mean)<=1e-9*big)) VIOL("rollout-mean","reported mean return %.12g, the rollouts have %.12g",v.ev->get_mean_return(),mean);
            if (N>1) { double q=0; for (double x : v.rets) q+=(x-mean)*(x-mean); q/=N-1; if (!(fabs(v.ev->get_stddev_return()-sqrt(q))<=1e-9*big)) VIOL("rollout-stddev","reported standard deviation %.12g, the rollouts have %.12g",v.ev->get_stddev_return(),sqrt(q)); } }
        Tree t2=snapshot(s.c,s.e,s.b.root); if (dump_tree(t)!=dump_tree(t2)) VIOL("rollout-pure","evaluation changed the tree");
    }
    for (auto& o : off) o.check("rollout-random","rollouts outside the tree take an action"); obs.check("rollout-outcome","rollouts meet an outcome");
    g_res->aux[0]+=total;
}
// ------------------------------------------------------------------------------------------------ C15 reuse of the pool
static void check_all(Sys& s, int env_id, int threads) {
    Model m=build_model(s.c,s.e,env_id); Tree t=snapshot(s.c,s.e,s.b.root); check_leaf_rule(s.c,s.e,m); check_structure(s.c,s.e,m,t); check_returns(s.c,s.e,m,t); (void)threads;
}
// The log of one of the problems a pool is pointed at: what its own searches did, and the time they took, nothing else
struct OwnLog { int td=0; double rd=0; bool asked=false; double busy=0, lo=0; size_t rows=0; int seen=0; };
static void check_own_log(Sys& s, int env_id, OwnLog& g, int k) {
    if (!s.log) return; vector<string> head; vector<Row> rows; parse_log(*s.log,head,rows); int have=0, i=0; uint64_t a=~0ull, z=0;
    for (i=0;i<h_n();i++) { HTrial* t=h_get(i); if (t->env!=env_id) continue; if (have++>=g.seen) { a=min(a,t->w_start); z=max(z,t->w_start); } }
    if ((int)rows.size()!=s.log->size()) VIOL("log-rows","the log of problem %d has %d entries but writes %zu rows",k,s.log->size(),rows.size());
    if (!g.asked) { if (rows.size()) VIOL("reuse-log","problem %d was never searched but its log has %zu rows",k,rows.size()); return; }
    if (rows.empty()) VIOL("reuse-log","problem %d was searched but its log is empty",k);
    for (double x : rows[0].c) if (x!=0) VIOL("reuse-log","the first row of the log of problem %d is not the origin",k);
    if (g.rd==0) { size_t want=1+(g.td?have/g.td:0); if (rows.size()!=want) VIOL("reuse-log","the log of problem %d has %zu rows after %d trials of it (one due every %d), expected %zu",k,rows.size(),have,g.td,want); }
    if (rows.size()<g.rows) VIOL("reuse-log","rows of the log of problem %d disappeared",k);
    for (size_t q=1;q<rows.size();q++) { const Row& x=rows[q]; double lo = q>=g.rows && g.rows ? g.lo : 0;
        if (x.c[0] < rows[q-1].c[0]*(1-1e-9)-1e-9 || x.c[1] < rows[q-1].c[1]) VIOL("reuse-log","row %zu of the log of problem %d goes backwards",q,k);
        if (x.c[0] > g.busy*(1+1e-9)+1e-6) VIOL("reuse-log","row %zu of the log of problem %d is %.9f s in, its searches have taken %.9f s",q,k,x.c[0],g.busy);
        if (x.c[0] < lo*(1-1e-9)-1e-9) VIOL("reuse-log","row %zu of the log of problem %d is %.9f s in, its earlier searches took at least %.9f s",q,k,x.c[0],lo);
        if (x.c[1] > have+pseudo(s.c)) VIOL("reuse-log","row %zu of the log of problem %d counts %g visits after %d trials",q,k,x.c[1],have); }
    if (have>g.seen) g.lo+=(z-a)*1e-9; g.seen=have; g.rows=rows.size(); g_res->aux[1]+=rows.size();
}
static void s_c15(HRng& r) {
    int K=r.range(2,3); vector<Sys> v(K); vector<OwnLog> lg(K); for (int k=0;k<K;k++) { Sys& s=v[k]; s.c=gen_algo(r,0); EnvOpts o=gen_opts(r,true); fit(s.c,o,r,0.2); s.e=gen_env(r,k+1,o); rt_quiet(1); s.b=build(s.c,s.e); rt_quiet(0); if (r.chance(0.4)) s.log=gen_logger(r,s.c.algo,&lg[k].td,&lg[k].rd); }
    int threads=gen_threads(r); desc("reuse threads=%d systems=%d | %s",threads,K,v[0].c.str().c_str());
    auto pool=make_unique<ThtsPool>(v[0].b.mgr,v[0].b.root,threads,v[0].log); int cur=0; vector<long> want(K,0); bool loose=false; vector<char> timed(K,0);
    for (int step=0;step<r.range(2,5);step++) {
        int n=tail(r,v[cur],r.range(0,12)); int mode=r.chance(0.08)?5:r.range(0,4); double tl=INF_T; if (mode==5) { n=r.pick({1,1,2,numeric_limits<int>::max()}); tl=r.chance(0.3)?0.0:g_cfg.tick_ns*1e-9*r.range(1,40); timed[cur]=1; } if (mode==4) { n=numeric_limits<int>::max(); tl=gen_limit(r); timed[cur]=1; }
        desc(" run%d(%d,m%d)",cur,n,mode);
        uint64_t w0=rt_now_rt(); lg[cur].asked=true; int was=cur;
        if (mode==0||mode==4) pool->run_trials(n,tl,true); else { pool->run_trials(n,tl,false); if (mode==1) pool->join(); if (mode==5) rt_sleep((uint64_t)(tl*1e9)+r.range(0,2)*g_cfg.tick_ns); }
        if (mode<4) want[cur]+=n;
        int nxt=r.range(0,K-1); bool threw=false;
        int before_other=0; for (int i=0;i<h_n();i++) if (h_get(i)->env==v[nxt].e.id) before_other++;
        try { pool->set_new_env(v[nxt].b.mgr,v[nxt].b.root,v[nxt].log); } catch (runtime_error& e) { threw=true; }
        desc(threw?" refused":" set%d",nxt);
        if (!threw) {
            for (int i=0;i<h_n();i++) { HTrial* t=h_get(i); if (!t->ended) VIOL("reuse-inflight","the pool switched to a new problem while trial %d of the old one was still running",i); }
            if (nxt!=cur) { if (timed[cur]==0) { int have=0; for (int i=0;i<h_n();i++) if (h_get(i)->env==v[cur].e.id) have++; if (have!=want[cur]) VIOL("reuse-lost","the pool switched to a new problem after %d of %ld requested trials",have,want[cur]); } }
            lg[was].busy+=(rt_now_rt()-w0)*1e-9; check_own_log(v[was],v[was].e.id,lg[was],was);
            int hn=h_n(); cur=nxt; if (mode==5) rt_set_back((uint64_t)(tl*1e9)+3600000000000ull); if (mode==5 || r.chance(0.5)) { rt_sleep(5000000); if (h_n()!=hn) VIOL("reuse-stray","trials ran although none were requested for the new problem"); }
        } else { if (mode==0||mode==1||mode==4) VIOL("reuse-refused","switching to a new problem was refused although the pool was idle"); pool->join(); lg[was].busy+=(rt_now_rt()-w0)*1e-9; check_own_log(v[was],v[was].e.id,lg[was],was); g_res->aux[3]++; }
        (void)before_other; (void)loose;
    }
    pool->join(); int hn=h_n(); pool.reset(); if (h_n()!=hn || h_active()) VIOL("reuse-stray","trials ran after the pool was destroyed");
    if (h_env_mismatch()) VIOL("reuse-mixed","a trial mixed two problems: it stepped an environment other than the one it started in");
    for (int k=0;k<K;k++) { int have=0; for (int i=0;i<h_n();i++) if (h_get(i)->env==v[k].e.id) have++; if (!timed[k] && have!=want[k]) VIOL("reuse-count","problem %d got %d trials, %ld were requested",k,have,want[k]); check_all(v[k],v[k].e.id,threads); check_own_log(v[k],v[k].e.id,lg[k],k); }
    g_res->aux[0]+=h_n();
}
static void leak_check(uint64_t mark, uint64_t top, const char* what) {
    uint64_t now=rt_live_blocks(); if (now==mark) return; uint64_t sz[6]; int n=rt_live_sizes(top,sz,6); string o; for (int i=0;i<n;i++) o+=" "+to_string(sz[i]);
    VIOL("leak","%lld memory blocks remain allocated after %s (sizes:%s)",(long long)(now-mark),what,o.c_str()); }
// ------------------------------------------------------------------------------------------------ C16 shutdown
static void s_c16(HRng& r) {
    uint64_t mark=rt_live_blocks(), top=rt_heap_top();
    { Sys s; gen_sys(s,r,r.chance(0.5)?G_UCTONLY:0,true,0.2,0.3); 
      int how=r.range(0,5);
      mkpool(s); if (how==5) { run_some(s,r,r.range(1,8),0); }
      int n=r.chance(0.5)?numeric_limits<int>::max():r.range(0,30); bool go=r.chance(0.85);
      if (go) { s.pool->run_trials(n, r.chance(0.3)?gen_limit(r):INF_T, false); }
      desc(" shutdown how=%d n=%d go=%d",how,n,go);
      if (how==0) {} else if (how==1) rt_point(); else if (how==2) rt_sleep((uint64_t)r.range(1,4000)*g_cfg.tick_ns); else { int k=r.range(1,400); for (int i=0;i<k;i++) rt_point(); }
      s.pool.reset();
      int hn=h_n(); if (h_active()) VIOL("shutdown-active","%d trials are unfinished after the pool was destroyed",h_active()); if (rt_live_threads()) VIOL("shutdown-threads","%d worker threads outlive the pool",rt_live_threads());
      if (hn>n && how!=5) VIOL("trial-count","%d trials ran, %d were requested",hn,n);
      rt_sleep(1000000); if (h_n()!=hn) VIOL("shutdown-active","a trial started after the pool was destroyed");
      check_all(s,1,s.threads); if (!s.c.is_uct()) { Model m=build_model(s.c,s.e,1); Tree t=snapshot(s.c,s.e,s.b.root); check_values(s.c,s.e,m,t); }
      g_res->aux[0]+=hn; free_sys(s);
    }
    leak_check(mark,top,"pool, tree, manager and environment were released");
}
// ------------------------------------------------------------------------------------------------ C17 sampling
struct ScriptRng : public RandManager { vector<double> us; vector<int> is; size_t iu=0, ii=0; bool script; ScriptRng(int seed) : RandManager(seed), script(false) {}
    double get_rand_uniform() override { if (script && iu<us.size()) return us[iu++]; return RandManager::get_rand_uniform(); }
    int get_rand_int(int lo, int hi) override { if (hi<=lo) VIOL("sample-range","an integer was requested from an empty range"); if (script && ii<is.size()) { int k=is[ii++]; return lo + (int)((long)k % (hi-lo)); } return RandManager::get_rand_int(lo,hi); } };
static double edge_u(HRng& r) { switch (r.range(0,6)) { case 0: return 0.0; case 1: return 1.0-1.1102230246251565e-16; case 2: return 1.0-r.unit()*1e-12; case 3: return r.unit()*1e-300; default: return r.unit(); } }
static shared_ptr<unordered_map<int,double>> gen_dist(HRng& r, bool norm, int nmax) {
    auto d=make_shared<unordered_map<int,double>>(); int n=r.range(1,nmax); int style=r.range(0,4); double s=0; vector<double> w;
    for (int i=0;i<n;i++) { double x = style==0 ? 1.0 : style==1 ? r.unit()+1e-3 : style==2 ? exp(r.unit()*60-30) : style==3 ? (r.chance(0.4)&&n>1?0.0:r.unit()+0.01) : (double)r.range(1,9); w.push_back(x); s+=x; }
    if (s<=0) { w[0]=1; s=1; }
    double sc = norm ? s : (r.chance(0.3) ? s*r.pick({1.0,1e-3,1e3}) : 1.0); for (int i=0;i<n;i++) d->insert_or_assign(i*7+3, w[i]/sc); return d;
}
static void chk_drawn(const unordered_map<int,double>& d, int x, const char* what) { auto it=d.find(x); if (it==d.end()) VIOL("sample-support","%s returned a value that is not in the distribution",what); double mx=0; for (auto& p : d) mx=max(mx,p.second); if (!(it->second>0)) VIOL("sample-zero","%s returned a value of probability zero",what); }
static void stat_check(const char* what, const map<int,long>& cnt, const unordered_map<int,double>& d, long N) {
    double s=0; for (auto& p : d) s+=p.second; for (auto& p : d) { double pr=p.second/s; auto it=cnt.find(p.first); long k=it==cnt.end()?0:it->second; double sd=sqrt(N*pr*(1-pr))+1e-9; if (fabs(k-N*pr) > 7.5*sd+3) VIOL("sample-law","%s drew a value of probability %.6g %ld times in %ld draws",what,pr,k,N); } }
static void s_c17(HRng& r) {
    int kind=r.range(0,8); auto rng=make_unique<ScriptRng>(r.range(1,1<<30)); bool edge=r.chance(0.7); int N = edge ? r.range(5,60) : 1500;
    desc("sampling kind=%d edge=%d",kind,edge);
    auto arm=[&]{ if (!edge) return; rng->script=true; rng->us.clear(); rng->is.clear(); rng->iu=rng->ii=0; for (int i=0;i<4;i++) { rng->us.push_back(edge_u(r)); rng->is.push_back((int)(r.next()&0x7fffffff)); } };
    map<int,long> cnt; string what;
    if (kind<=2) { bool norm=kind==0; auto d=gen_dist(r,norm,kind==1?4:12); what = norm?"sampling normalised weights":"sampling unnormalised weights";
        for (int i=0;i<N;i++) { arm(); double u=rng->script?rng->us[0]:-1; int x; try { x=helper::sample_from_distribution(*d,*rng,norm); } catch (exception& e) { VIOL("sample-throws","%s over %zu outcomes failed on a legal draw (%.17g): %.80s",what.c_str(),d->size(),u,e.what()); } chk_drawn(*d,x,what.c_str()); cnt[x]++; }
        if (!edge) stat_check(what.c_str(),cnt,*d,N); }
    else if (kind<=5) { bool alias=kind!=3; int freq=r.pick({1,1,2,3}); auto d=gen_dist(r,r.chance(0.5),8); CategoricalDistribution<int> cd(d,alias,freq); what = alias?"alias-table sampling":"categorical sampling";
        shared_ptr<unordered_map<int,double>> eff=make_shared<unordered_map<int,double>>(*d); int pend=0; // weights the table reflects
        int rounds=r.range(1,4); for (int q=0;q<rounds;q++) {
            if (q) { int up=r.range(0,2); if (up==0) { auto nd=gen_dist(r,r.chance(0.5),8); d=nd; cd.update(nd); eff=make_shared<unordered_map<int,double>>(*nd); pend=0; }
                else { int key = up==1 ? (*next(d->begin(), r.range(0,(int)d->size()-1))).first : 1000+q; double w=r.unit()*3+0.05; cd.update(key,w); pend++; if (!alias || pend==freq) { eff=make_shared<unordered_map<int,double>>(*d); pend=0; } } }
            cnt.clear(); for (int i=0;i<N;i++) { arm(); int x; try { x=cd.sample(*rng); } catch (exception& e) { VIOL("sample-throws","%s failed on a legal draw: %.80s",what.c_str(),e.what()); } if (!eff->count(x) && !d->count(x)) VIOL("sample-support","%s returned a value that is not in the distribution",what.c_str()); if (pend==0) chk_drawn(*eff,x,what.c_str()); cnt[x]++; }
            if (!edge && (pend==0)) stat_check(what.c_str(),cnt,*eff,N); } }
    else if (kind==6) { auto v=make_shared<vector<int>>(); int n=r.range(1,9); auto d=make_shared<unordered_map<int,double>>(); for (int i=0;i<n;i++) { v->push_back(i*5+1); (*d)[i*5+1]=1; } DiscreteUniformDistribution<int> ud(v); what="uniform sampling"; for (int i=0;i<N;i++) { arm(); int x=ud.sample(*rng); chk_drawn(*d,x,"uniform sampling"); cnt[x]++; } if (!edge) stat_check(what.c_str(),cnt,*d,N); }
    else if (kind==7) { auto mix=make_shared<MixedDistributionDistr<int>>(); int n=r.range(1,4); double s=0; vector<double> w; for (int i=0;i<n;i++) { w.push_back(r.unit()+0.05); s+=w.back(); } auto d=make_shared<unordered_map<int,double>>();
        for (int i=0;i<n;i++) { auto c=gen_dist(r,true,4); double cs=0; for (auto& p : *c) cs+=p.second; for (auto& p : *c) (*d)[p.first] += w[i]/s*p.second/cs; if (r.chance(0.5)) { mix->insert_or_assign(make_shared<CategoricalDistribution<int>>(c,r.chance(0.5)),w[i]/s); } else { mix->insert_or_assign(make_shared<CategoricalDistribution<int>>(c),w[i]/s); } }
        MixedDistribution<int> md(mix); what="mixture sampling"; for (int i=0;i<N;i++) { arm(); int x; try { x=md.sample(*rng); } catch (exception& e) { VIOL("sample-throws","mixture sampling failed on a legal draw: %.80s",e.what()); } chk_drawn(*d,x,"mixture sampling"); cnt[x]++; } if (!edge) stat_check(what.c_str(),cnt,*d,N); }
    else { int n=r.range(1,8), mag=r.range(0,7); unordered_map<int,double> m; for (int i=0;i<n;i++) m[i]= mag==0 ? (double)r.range(-3,3) : mag==1 ? r.range(-3,3)*1e-300 : mag==2 ? r.range(-8,-6)*1e12 : mag==3 ? -1e300*r.range(1,3) : r.chance(0.5)? (double)r.range(-3,3) : r.range(-3,3)*1e-300; double best=-1.7e308; bool whole=mag==0 && r.chance(0.5); unordered_map<int,int> mi; if (whole) { int off=r.pick({0,-5,-2000000000,2000000000}); for (auto& p : m) { mi[p.first]=(int)p.second+off; p.second=mi[p.first]; } } for (auto& p : m) best=max(best,p.second); auto d=make_shared<unordered_map<int,double>>(); for (auto& p : m) if (p.second==best) (*d)[p.first]=1; what="choosing the best key";
        for (int i=0;i<N;i++) { arm(); int x=whole?helper::get_max_key_break_ties_randomly(mi,*rng):helper::get_max_key_break_ties_randomly(m,*rng); chk_drawn(*d,x,what.c_str()); cnt[x]++; } if (!edge) stat_check(what.c_str(),cnt,*d,N); }
    g_res->aux[0]+=N;
    if (r.chance(0.4)) { // the same through whole searches with extreme draws
        Sys s; s.c=gen_algo(r,r.chance(0.3)?G_UCTONLY:G_MENTSONLY); s.c.adv=0.5; EnvOpts o=gen_opts(r,false); s.e=gen_env(r,1,o); s.threads=r.range(1,3); rt_quiet(1); s.b=build(s.c,s.e); rt_quiet(0); desc(" + search %s",s.c.str().c_str()); mkpool(s); int tot=run_calls(s,r,1,20); s.pool.reset(); expect_trials(tot,"at the end"); build_model(s.c,s.e,1); }
}
// ------------------------------------------------------------------------------------------------ C18 thread start failure
static void s_c18(HRng& r) {
    uint64_t mark=rt_live_blocks(), top=rt_heap_top();
    { Sys s; gen_sys(s,r,0,false,0.2,0.4); bool threw=false; int f0, a0; bool oom=r.chance(0.5);
      auto faults=[&]{ return rt_create_failures()-f0 + rt_alloc_failures()-a0; };
      auto arm=[&](int hi) { f0=rt_create_failures(); a0=rt_alloc_failures(); if (oom) { int k=r.range(1,hi); desc(" oom%d",k); rt_alloc_fail(k); } };
      arm(s.threads+3); try { mkpool(s); } catch (exception& e) { threw=true; } rt_alloc_fail(0);
      int failed=faults();
      if (threw) { if (rt_live_threads()) VIOL("start-leftover","%d worker threads are still alive although construction of the pool failed",rt_live_threads()); g_res->aux[1]++; }
      if (!failed && threw) VIOL("start-spurious","construction of the pool failed although every thread started");
      if (threw) { rt_quiet(1); mkpool(s); rt_quiet(0); }
      int total=0; for (int k=0;k<r.range(1,3);k++) { int n=r.range(0,12); bool bl=r.chance(0.6); threw=false; arm(4); try { s.pool->run_trials(n,INF_T,bl); } catch (exception& e) { threw=true; } rt_alloc_fail(0); failed=faults(); if (threw && !failed) VIOL("start-spurious","a search request failed although nothing went wrong");
        if (threw) { rt_sleep(2000000); if (h_n()!=total) VIOL("trial-count","a search request reported failure but %d trials were run",h_n()-total); g_res->aux[3]++; } else { total+=n; if (!bl) s.pool->join(); }
        expect_trials(total,"after a search in a process short of resources"); }
      check_all(s,1,s.threads);
      s.pool.reset(); h_reset();
      for (int k=0;k<r.range(1,3);k++) { EvalPolicy pol(s.b.root,s.b.env,*s.b.mgr); MCEvaluator ev(s.b.env,pol,r.range(1,6),*s.b.mgr); int m=r.range(0,10), th=r.range(1,5); int h0=h_n(); threw=false;
        arm(2+th*4); try { ev.run_rollouts(m,th); } catch (exception& e) { threw=true; } rt_alloc_fail(0);
        failed=faults();
        if (rt_live_threads()) VIOL("start-leftover","%d rollout threads are still alive after the evaluation call returned",rt_live_threads());
        if (h_active()) VIOL("start-leftover","rollouts are still running after the evaluation call returned");
        if (!threw && h_n()-h0!=m) VIOL("rollout-count","%d rollouts were run, %d were requested, and no error was reported (thread start failures: %d)",h_n()-h0,m,failed);
        if (!failed && threw) VIOL("start-spurious","evaluation failed although every thread started"); if (failed) g_res->aux[2]++; }
      free_sys(s);
    }
    leak_check(mark,top,"a run with thread start failures");
}
// ------------------------------------------------------------------------------------------------ C19 search policy
static void sweep_check(const char* what, const string& key, const vector<double>& p, const vector<long>& cnt, long K, bool exact) {
    for (size_t a=0;a<p.size();a++) { double d=fabs(cnt[a]-K*p[a]); if (p[a]<=0 && cnt[a]) VIOL("policy-support","%s at %s chose option %zu, which has probability zero",what,key.c_str(),a);
        if (exact ? d>1.0+1e-6*K : d>30/3.0+sqrt(100+60*K*p[a]*(1-p[a]))) VIOL("policy-law","%s at %s chose option %zu %ld times in %ld %s, its probability is %.9g",what,key.c_str(),a,cnt[a],K,exact?"evenly spaced draws":"draws",p[a]); } }
// calls f(option chosen) over evenly spaced draws when one uniform draw decides, otherwise over many pseudo random ones
template <class F> static void sweep(HRng& r, const char* what, const string& key, const vector<double>& p, F f, int K) {
    vector<long> cnt(p.size(),0); double off=r.unit(); bool exact=true; auto bump=[&](int a) { if (a<0 || a>=(int)p.size()) VIOL("policy-support","%s at %s chose an option that does not exist",what,key.c_str()); cnt[a]++; };
    for (int k=0;k<K && exact;k++) { g_scr.on=1; g_scr.u=(k+off)/K; g_scr.nu=g_scr.ni=0; int a=f(); g_scr.on=0; bump(a); if (g_scr.nu!=1 || g_scr.ni) exact=false; }
    if (!exact) { fill(cnt.begin(),cnt.end(),0); K*=3; g_scr.on=2; for (int k=0;k<K;k++) bump(f()); g_scr.on=0; }
    sweep_check(what,key,p,cnt,K,exact); g_res->aux[exact?1:2]++;
}
static string parent_key(const Tree& t, const string& key, int& a) { for (auto& kv : t.d) for (auto& ck : kv.second.kids) for (auto& o : ck.second.kids) if (o.second==key) { a=ck.first; return kv.first; } return ""; }
static void s_c19(HRng& r) {
    Sys s; s.c=gen_algo(r,r.chance(0.75)?G_MENTSONLY:0); if (r.chance(0.7)) s.c.adv=0; EnvOpts o=gen_opts(r,false); o.layers_hi=r.range(1,3); o.width_hi=r.range(1,2); o.act_hi=r.range(2,4); o.out_hi=2; if (r.chance(0.12)) { o.layers_lo=4; o.layers_hi=r.range(5,9); o.width_hi=1; o.act_hi=2; o.out_hi=1; o.early_sink=0; } fit(s.c,o,r,0.2); if (s.c.max_depth>4 && o.cyclic) s.c.max_depth=3; s.e=gen_env(r,1,o); s.threads=gen_threads(r);
    rt_quiet(1); s.b=build(s.c,s.e); rt_quiet(0); desc("policy threads=%d states=%d %s",s.threads,s.e.nS,s.c.str().c_str());
    const AlgoCfg& c=s.c; const EnvSpec& e=s.e; if (env_leaf(c,e,0,e.init)) return; bool ments=!c.is_uct();
    // --- a fresh root: every selection starts from a new node
    if (ments && r.chance(0.3)) { vector<double> p=node_policy(c,e,node_q(c,e,nullptr,e.init,0,0),e.init,0,0,nullptr);
        sweep(r,"selection","a fresh root",p,[&]{ rt_quiet(1); auto n=build_root(c,s.b.env,s.b.mgr); ThtsEnvContext x; int a=SimEnv::aid(*n->select_action_itfc(x)); rt_quiet(0); return a; },60); }
    // --- bulk search by several workers
    int bulk=r.chance(0.8)?r.range(1,60):0; if (bulk) { mkpool(s); s.pool->run_trials(bulk); s.pool.reset(); expect_trials(bulk,"after the search"); }
    // --- one worker, one trial at a time: what it chooses, given the values before the trial
    int steps = r.chance(0.5)?r.range(1,15):0; if (steps) { int th=s.threads; s.threads=1; mkpool(s); s.threads=th; vector<Mart> ma(4); Mart greedy, obs;
        for (int k=0;k<steps;k++) { Tree t0=snapshot(c,e,s.b.root); int h0=h_n(); s.pool->run_trials(1); if (h_n()!=h0+1) VIOL("trial-count","one trial was requested, %d were run",h_n()-h0); HTrial* t=h_get(h0);
            string key=root_key(c,e); vector<double> par; bool hp=false; vector<string> path; vector<vector<double>> pols;
            for (int q=0;q<t->nsteps;q++) { HStep& st=t->steps[q]; auto it=t0.d.find(key); const DSnap* d = it==t0.d.end()?nullptr:&it->second; int v=(d?d->visits:pseudo(c))+1;
                if (ments) { vector<double> p=node_policy(c,e,node_q(c,e,d,st.s,q,v),st.s,q,v,hp?&par:nullptr); if (st.a>=(int)p.size() || !(p[st.a]>0)) VIOL("policy-support","trial %d chose action %d at %s, which has probability zero",h0,st.a,key.c_str());
                    if (c.adv==0) { for (int a=0;a<4 && a<(int)p.size();a++) if (p.size()>1) ma[a].add(st.a==a,p[a]); int g=max_element(p.begin(),p.end())-p.begin(); if (p.size()>1) greedy.add(st.a==g,p[g]); }
                    par=p; hp=true; }
                path.push_back(key); pols.push_back(par);
                auto& tr=e.tr[st.s][st.a]; if (c.adv==0 && tr.size()>1) obs.add(st.o==tr[0].first,tr[0].second);
                key = c.trans ? to_string(q+1)+":"+to_string(st.o) : key+"/"+to_string(st.a)+">"+to_string(st.o); }
            if (c.algo==A_RENTS && !c.trans) { Tree t1=snapshot(c,e,s.b.root); // values weighted with the distribution the parent selected from
                for (size_t q=0;q<path.size();q++) { const DSnap& d=t1.d.at(path[q]); double ex=rents_soft(c,node_q(c,e,&d,d.state,d.depth,d.visits),d.depth,d.visits,q?&pols[q-1]:nullptr); if (!closeto(d.val.v,ex,t1.hiprec?1e-7:5e-4)) VIOL("rents-backup","after trial %d node %s has soft value %.12g, its children and its parent's policy imply %.12g",h0,path[q].c_str(),d.val.v,ex); g_res->aux[3]++; } }
        }
        s.pool.reset(); for (int a=0;a<4;a++) ma[a].check("policy-law","an action was chosen"); greedy.check("policy-law","the most likely action was chosen"); obs.check("outcome-law","an outcome was sampled"); }
    // --- trials in flight: they have visited and selected but not backed up yet (TENTS takes a new action's value from its first back-up on, so not there)
    if (c.algo!=A_TENTS && r.chance(0.35)) fly(s,r);
    // --- the finished tree: the exact distribution every node selects and samples from
    Tree t=snapshot(c,e,s.b.root); vector<string> keys; for (auto& kv : t.d) { const DSnap& d=kv.second; if (d.leaf || !e.nA[d.state] || (int)d.kids.size()!=e.nA[d.state]) continue; if (c.algo==A_RENTS && c.trans && d.depth) continue; keys.push_back(kv.first); }
    for (int q=0;q<2 && !keys.empty();q++) { int i=r.range(0,(int)keys.size()-1); string key=keys[i]; keys.erase(keys.begin()+i); const DSnap& d=t.d.at(key);
        if (ments) { vector<string> chain{key}; bool ok=true; if (c.algo==A_RENTS) { while (ok && chain.back()!=root_key(c,e)) { int pa; string pk=parent_key(t,chain.back(),pa); if (pk.empty() || (int)t.d.at(pk).kids.size()!=e.nA[t.d.at(pk).state]) ok=false; else chain.push_back(pk); } } if (!ok) continue;
            vector<double> p; for (int k=(int)chain.size()-1;k>=0;k--) { const DSnap& n=t.d.at(chain[k]); p=node_policy(c,e,node_q(c,e,&n,n.state,n.depth,n.visits),n.state,n.depth,n.visits, k<(int)chain.size()-1?&p:nullptr); }
            sweep(r,"selection",key,p,[&]{ ThtsEnvContext x; int on=g_scr.on; g_scr.on=0; for (int k=(int)chain.size()-1;k>0;k--) t.d.at(chain[k]).ptr->select_action_itfc(x); g_scr.on=on; return SimEnv::aid(*d.ptr->select_action_itfc(x)); },r.pick({40,60,150})); }
        else check_ucb_node(c,e,key,d);
    }
    for (int q=0;q<2;q++) { auto it=next(t.d.begin(),r.range(0,(int)t.d.size()-1)); const DSnap& d=it->second; if (d.kids.empty()) continue; auto ci=next(d.kids.begin(),r.range(0,(int)d.kids.size()-1)); auto& tr=e.tr[d.state][ci->first]; vector<double> p; for (auto& x : tr) p.push_back(x.second);
        auto cn=d.ptr->get_child_node_itfc(s.b.env->ac(ci->first)); sweep(r,"outcome sampling",it->first,p,[&]{ ThtsEnvContext x; int ob=SimEnv::sid(*cn->sample_observation_itfc(x)); for (size_t k=0;k<tr.size();k++) if (tr[k].first==ob) return (int)k; return -1; },60); }
    g_res->aux[0]+=h_n();
}
// ------------------------------------------------------------------------------------------------ C20 fully explored problems are solved
struct Solved { double dp, soft; };
static Solved solve(const AlgoCfg& c, const EnvSpec& e, int depth, int s) {
    if (env_leaf(c,e,depth,s)) { double h=end_value(c,e,s); return {h,h}; }
    double opp = c.two_player && ((depth+c.root_ts)&1) ? -1 : 1, best=-1e308; vector<double> q;
    for (int a=0;a<e.nA[s];a++) { int o=e.tr[s][a][0].first; Solved k=solve(c,e,depth+1,o); best=max(best,opp*(e.rew[s][a]+k.dp)); q.push_back(opp*(e.rew[s][a]+k.soft)/c.temp); }
    double soft=0; if (c.algo==A_TENTS) { sort(q.begin(),q.end(),greater<double>()); double cum=0, ss=0, sq=0; int n=0; for (size_t i=0;i<q.size();i++) { cum+=q[i]; if (1.0+(i+1.0)*q[i]>cum) { ss+=q[i]; sq+=q[i]*q[i]; n++; } } soft=0.5+sq/2-n*0.5*(ss-1)*(ss-1)/((double)n*n); }
    else { double mx=*max_element(q.begin(),q.end()), z=0; for (double v : q) z+=exp(v-mx); soft=log(z)+mx; }
    return {opp*best, opp*c.temp*soft};
}
static bool explored(const AlgoCfg& c, const EnvSpec& e, const Tree& t, const string& key) { const DSnap& d=t.d.at(key); if (d.leaf) return true; if ((int)d.kids.size()!=e.nA[d.state]) return false; for (auto& k : d.kids) { if (k.second.kids.empty()) return false; for (auto& o : k.second.kids) if (!explored(c,e,t,o.second)) return false; } return true; }
static void s_c20(HRng& r) {
    Sys s; s.c=gen_algo(r,G_MENTSONLY|G_NOTRANS|G_NOADV|G_NODECAY|G_NOPRIOR); bool bandit=r.chance(0.2); if (bandit) { int th=s.c.max_depth; s.c=gen_algo(r,G_UCTONLY|G_NOTRANS|G_NOADV|G_NOPRIOR); (void)th; }
    AlgoCfg& c=s.c; c.eps=50; c.root_eps=-1; c.max_explore=r.pick({1.0,1.0,0.9}); c.use_dp=true; c.rec_mv=false; c.rec_thresh=0; c.use_prior=false; c.prior_w=0; c.two_player=r.chance(0.4);
    EnvOpts o=gen_opts(r,false); o.out_hi=1; o.layers_lo=1; o.layers_hi=bandit?1:3; o.act_hi=r.range(2,3); o.width_hi=r.range(1,3); o.early_sink=0.15; s.e=gen_env(r,1,o); const EnvSpec& e=s.e; s.threads=gen_threads(r);
    rt_quiet(1); s.b=build(c,e); rt_quiet(0); desc("solve threads=%d states=%d %s",s.threads,e.nS,c.str().c_str()); if (env_leaf(c,e,0,e.init)) return;
    int paths=0; function<void(int,int)> cnt=[&](int d,int x) { if (env_leaf(c,e,d,x)) { paths++; return; } for (int a=0;a<e.nA[x];a++) cnt(d+1,e.tr[x][a][0].first); }; cnt(0,e.init);
    mkpool(s); int total=0; Tree t; bool full=false; for (int k=0;k<6 && !full;k++) { int n=r.range(paths,paths*4); s.pool->run_trials(n); total+=n; t=snapshot(c,e,s.b.root); full=explored(c,e,t,root_key(c,e)); }
    s.pool.reset(); expect_trials(total,"after the search"); g_res->aux[0]+=total; if (!full) return; g_res->aux[1]++;
    Solved v=solve(c,e,0,e.init); const DSnap& d=t.d.at(root_key(c,e)); double tol=t.hiprec?1e-7:5e-4; bool db=c.algo==A_DBMENTS, dpal=db||c.algo==A_DENTS||c.algo==A_EST;
    if (dpal && !closeto(d.val.v,v.dp,tol)) VIOL("solve-value","the fully explored problem has value %.12g, the root reports %.12g",v.dp,d.val.v);
    if ((c.algo==A_MENTS||c.algo==A_TENTS) && !closeto(d.val.v,v.soft,tol)) VIOL("solve-value","the fully explored problem has soft value %.12g, the root reports %.12g",v.soft,d.val.v);
    if (db && !closeto(d.val.get("soft_val"),v.soft,tol)) VIOL("solve-value","the fully explored problem has soft value %.12g, the root reports %.12g",v.soft,d.val.get("soft_val"));
    if (!dpal && !bandit) return;
    double opp = c.two_player && (c.root_ts&1) ? -1 : 1; ThtsEnvContext ctx; int a=SimEnv::aid(*s.b.root->recommend_action_itfc(ctx)); auto qv=[&](int x) { return opp*(e.rew[e.init][x]+solve(c,e,1,e.tr[e.init][x][0].first).dp); };
    if (a<0 || a>=e.nA[e.init]) VIOL("recommend","invalid action %d recommended",a); if (qv(a) < opp*v.dp - 1e-6*max(1.0,fabs(v.dp))) VIOL("solve-action","action %d with value %.9g is recommended, the best has %.9g",a,qv(a),opp*v.dp);
    bool sinks=c.max_depth>8; if (!sinks) { function<bool(int,int)> ends=[&](int dd,int x)->bool { if (e.sink[x]) return true; if (dd>=c.max_depth) return false; for (int y=0;y<e.nA[x];y++) if (!ends(dd+1,e.tr[x][y][0].first)) return false; return true; }; sinks=ends(0,e.init); }
    if (sinks) { h_reset(); EvalPolicy pol(s.b.root,s.b.env,*s.b.mgr); MCEvaluator ev(s.b.env,pol,10,*s.b.mgr); int n=r.range(1,8); ev.run_rollouts(n,r.range(1,4)); if (!closeto(ev.get_mean_return(),v.dp,1e-6)) VIOL("solve-return","following the recommendations of the fully explored tree returns %.9g, the problem's value is %.9g",ev.get_mean_return(),v.dp); g_res->aux[2]++; }
}
// ------------------------------------------------------------------------------------------------ C04 memory safety / races: everything above with the race detector on
// ------------------------------------------------------------------------------------------------ C21 partial observability
struct SimObs : public Observation { int o, clash; SimObs(int o,int clash):o(o),clash(clash) {}
    size_t hash() const override { return clash ? (size_t)(o&1) : (size_t)o*0x9e3779b97f4a7c15ull; }
    bool equals_itfc(const Observation& x) const override { auto* p=dynamic_cast<const SimObs*>(&x); return p && p->o==o; }
    string get_pretty_print_string() const override { return "o"+to_string(o); } };
enum { E_TR=20 };
class ObsEnv : public SimEnv { public: int nO, clash, nA; vector<vector<vector<pair<int,double>>>> od; // [next state][action] -> (observation, probability)
    ObsEnv(const EnvSpec& e, HRng& r) : SimEnv(e,false) { nO=r.range(1,6); clash=r.chance(0.3); int A=0; for (int a : e.nA) A=max(A,a); nA=max(A,1); od.resize(e.nS);
        for (int s=0;s<e.nS;s++) for (int a=0;a<A;a++) { vector<int> c; for (int o=0;o<nO;o++) c.push_back(o); for (int i=nO-1;i>0;i--) swap(c[i],c[r.range(0,i)]); int B=r.range(1,min(3,nO)); vector<int> w(B,1); for (int k=B;k<8;k++) w[r.range(0,B-1)]++; vector<pair<int,double>> d; for (int b=0;b<B;b++) d.push_back({c[b],w[b]/8.0}); od[s].push_back(d); } }
    double p(int ns,int a,int o) const { for (auto& q : od[ns][a]) if (q.first==o) return q.second; return 0; }
    static int oid(const Observation* o, const char* who) { if (!o || typeid(*o)!=typeid(SimObs)) VIOL("observation","%s was given something that is not an observation",who); return static_cast<const SimObs*>(o)->o; }
    shared_ptr<const State> sample_transition_distribution_itfc(shared_ptr<const State> s, shared_ptr<const Action> a, RandManager& rm) const override { auto n=SimEnv::sample_transition_distribution_itfc(s,a,rm); h_ev(E_TR,h_cur_trial(),sid(*s)*16+aid(*a),sid(*n),0,0,0,0,0,0); return n; }
    shared_ptr<ObservationDistr> get_observation_distribution_itfc(shared_ptr<const Action> a, shared_ptr<const State> ns) const override { auto d=make_shared<ObservationDistr>(); for (auto& q : od[sid(*ns)][aid(*a)]) d->insert_or_assign(make_shared<const SimObs>(q.first,clash),q.second); rt_point(); return d; }
    double get_reward_itfc(shared_ptr<const State> s, shared_ptr<const Action> a, shared_ptr<const Observation> o) const override { if (!o) return spec.reward(sid(*s),aid(*a),-1); int oi=oid(o.get(),"the reward function"); double r=spec.reward(sid(*s),aid(*a),oi); h_step(spec.id,sid(*s),aid(*a),oi,r); if (spec.cost_ns) rt_sleep((uint64_t)(oi*7919+1)*104729%spec.cost_ns); else rt_point(); return r; }
};
class OD;
class OC : public ThtsCNode { public: int id, busy=0, pid; mutable int want_o=-1, want_s=-1;
    OC(shared_ptr<ThtsManager> m, shared_ptr<const State> s, shared_ptr<const Action> a, int d, int t, shared_ptr<const ThtsDNode> p, int pid) : ThtsCNode(m,s,a,d,t,p), pid(pid) { id=h_node(SimEnv::aid(*a),pid,d); }
    int visits() const { return num_visits; }
    void visit_itfc(ThtsEnvContext& c) override { Busy b(busy,"visit"); ThtsCNode::visit_itfc(c); h_ev(E_CV,ctx_trial(c),id,0,0,0,0,0,0,0); }
    shared_ptr<const Observation> sample_observation_itfc(ThtsEnvContext& c) override { Busy b(busy,"sample"); auto& env=*thts_manager->thts_env; auto ns=env.sample_transition_distribution_itfc(state,action,*thts_manager); auto o=env.sample_observation_distribution_itfc(action,ns,*thts_manager);
        want_o=ObsEnv::oid(o.get(),"a chance node"); want_s=SimEnv::sid(*ns); h_ev(E_CS,ctx_trial(c),id,want_o,0,0,0,0,want_s,0); create_child_node_itfc(o,ns); return o; }
    void backup_itfc(const vector<double>& rb, const vector<double>& ra, const double after, const double tot, ThtsEnvContext& c) override { Busy b(busy,"backup"); h_ev(E_CB,ctx_trial(c),id,0,rb.size(),rb.data(),ra.size(),ra.data(),after,tot); }
    shared_ptr<ThtsDNode> create_child_node_helper_itfc(shared_ptr<const Observation> o, shared_ptr<const State> ns) const override;
    string get_pretty_print_val() const override { return "0"; }
};
class OD : public ThtsDNode { public: int id, busy=0, key, ts;
    OD(shared_ptr<ThtsManager> m, shared_ptr<const State> s, int key, int d, int t, shared_ptr<const ThtsCNode> p, int pid) : ThtsDNode(m,s,d,t,p), key(key), ts(t) { id=h_node(key,pid,d); h_node_st(id,SimEnv::sid(*s)); }
    int visits() const { return num_visits; } int st() const { return SimEnv::sid(*state); } int nact() const { return static_cast<SimEnv&>(*thts_manager->thts_env).spec.nA[st()]; }
    int best() const { return (key*5+decision_depth*3)%static_cast<ObsEnv&>(*thts_manager->thts_env).nA; }
    void visit_itfc(ThtsEnvContext& c) override { Busy b(busy,"visit"); ThtsDNode::visit_itfc(c); h_ev(E_DV,ctx_trial(c),id,0,0,0,0,0,0,0); }
    shared_ptr<const Action> select_action_itfc(ThtsEnvContext& c) override { Busy b(busy,"select"); auto v=thts_manager->thts_env->get_valid_actions_itfc(state); auto a=v->at(thts_manager->get_rand_int(0,v->size())); h_ev(E_DS,ctx_trial(c),id,SimEnv::aid(*a),0,0,0,0,0,0); create_child_node_itfc(a); return a; }
    shared_ptr<const Action> recommend_action_itfc(ThtsEnvContext& c) const override { ctx_trial(c); return static_cast<SimEnv&>(*thts_manager->thts_env).ac(best()); }
    void backup_itfc(const vector<double>& rb, const vector<double>& ra, const double after, const double tot, ThtsEnvContext& c) override { Busy b(busy,"backup"); h_ev(E_DB,ctx_trial(c),id,0,rb.size(),rb.data(),ra.size(),ra.data(),after,tot); }
    shared_ptr<ThtsCNode> create_child_node_helper_itfc(shared_ptr<const Action> a) const override { return make_shared<OC>(thts_manager,state,a,decision_depth,decision_timestep,static_pointer_cast<const ThtsDNode>(shared_from_this()),id); }
    string get_pretty_print_val() const override { return "0"; }
};
shared_ptr<ThtsDNode> OC::create_child_node_helper_itfc(shared_ptr<const Observation> o, shared_ptr<const State> ns) const { int oi=ObsEnv::oid(o.get(),"child creation"), si=SimEnv::sid(*ns); if (oi!=want_o || si!=want_s) VIOL("observation","a child node is made for observation %d and state %d, sampled were %d and %d",oi,si,want_o,want_s);
    return make_shared<OD>(thts_manager,ns,oi,decision_depth+1,decision_timestep+1,static_pointer_cast<const ThtsCNode>(shared_from_this()),id); }
static void s_c21(HRng& r) {
    Sys s; s.c=gen_algo(r,0); bool fair=s.c.adv==0 || r.chance(0.7); if (fair) s.c.adv=0; EnvOpts o=gen_opts(r,true); o.layers_hi=min(o.layers_hi,8); o.layers_lo=1; fit(s.c,o,r,0.4); s.e=gen_env(r,1,o); s.e.obs_reward=true; s.threads=gen_threads(r);
    // every state offers the same actions, as the agent cannot tell the states apart
    int A=0; for (int a : s.e.nA) A=max(A,a); for (int x=0;x<s.e.nS;x++) if (!s.e.sink[x]) while (s.e.nA[x]<A) { s.e.tr[x].push_back(s.e.tr[x][0]); s.e.rew[x].push_back(r.range(-3,3)); s.e.prior[x].push_back(0); s.e.nA[x]++; } 
    rt_quiet(1); auto oe=make_shared<ObsEnv>(s.e,r); s.b.env=oe; s.b.mgr=build_mgr(s.c,s.b.env); auto root=make_shared<OD>(s.b.mgr,s.b.env->get_initial_state_itfc(),s.e.init,0,s.c.root_ts,nullptr,-1); s.b.root=root; rt_quiet(0);
    desc("pomdp threads=%d states=%d obs=%d %s",s.threads,s.e.nS,oe->nO,s.c.str().c_str());
    mkpool(s); int calls=r.range(1,2), total=0; for (int k=0;k<calls;k++) { int n=r.range(0,20); total+=n; run_some(s,r,n,r.range(0,3)); } s.pool.reset(); expect_trials(total,"at the end");
    auto leaf=[&](int nd){ int x=h_getnode(nd)->st; return s.e.sink[x] || h_getnode(nd)->depth>=s.c.max_depth; };
    // ---- the trials against the nodes' own record
    map<int,vector<HEv*>> by; map<int,vector<HEv*>> trs; Mart mo, mt; map<int,int> vis; map<pair<int,int>,int> edge, eends; map<pair<int,int>,set<int>> edgekid;
    for (int i=0;i<h_nev();i++) { HEv* e=h_getev(i); if (e->kind==E_TR) trs[e->trial].push_back(e); else by[e->trial].push_back(e); }
    for (int i=0;i<total;i++) { HTrial* t=h_get(i); vector<int> dn, cn, ob, ns, ac; for (HEv* e : by[i]) { if (e->kind==E_DV) { dn.push_back(e->node); vis[e->node]++; } if (e->kind==E_CV) { cn.push_back(e->node); vis[e->node]++; } if (e->kind==E_DS) ac.push_back(e->x); if (e->kind==E_CS) { ob.push_back(e->x); ns.push_back((int)e->f1); } }
        if (dn.size()!=cn.size()+1 || ob.size()!=cn.size() || ac.size()!=cn.size() || (int)cn.size()!=t->nsteps) VIOL("protocol","trial %d has %zu decision node visits, %zu chance node visits and %d rewards",i,dn.size(),cn.size(),t->nsteps);
        auto& tv=trs[i]; if (tv.size()!=cn.size()) VIOL("protocol","trial %d drew %zu transitions in %zu steps",i,tv.size(),cn.size());
        for (size_t k=0;k<cn.size();k++) { HStep& x=t->steps[k]; int st=h_getnode(dn[k])->st;
            if (leaf(dn[k])) VIOL("leaf-rule","trial %d continued past a leaf",i);
            if (x.s!=st || x.a!=ac[k] || x.o!=ob[k]) VIOL("observation","trial %d step %zu: the reward was asked for state %d action %d observation %d, the step was %d %d %d",i,k,x.s,x.a,x.o,st,ac[k],ob[k]);
            if (!(oe->p(ns[k],x.a,x.o)>0)) VIOL("observation","trial %d observed %d, impossible after action %d in hidden state %d",i,x.o,x.a,ns[k]);
            if (fair) { auto& d=oe->od[ns[k]][x.a]; if (d.size()>1) mo.add(d[0].first==x.o,d[0].second); auto& q=s.e.tr[st][x.a]; if (q.size()>1) mt.add(q[0].first==ns[k],q[0].second); }
            pair<int,int> ed(cn[k],x.o); edge[ed]++; edgekid[ed].insert(dn[k+1]); if (k+1==cn.size()) eends[ed]++; }
        if (!s.c.mcts && !leaf(dn.back())) VIOL("leaf-rule","trial %d stopped at a node that is no leaf",i); if (cn.empty() && !leaf(dn[0])) VIOL("leaf-rule","trial %d stopped at the root",i); }
    for (auto& kv : edgekid) { if (kv.second.size()!=1) VIOL("observation-child","observation %d at one chance node led to %zu different nodes",kv.first.second,kv.second.size()); int kid=*kv.second.begin(); if (h_getnode(kid)->key!=kv.first.second) VIOL("observation-child","observation %d led to the node of observation %d",kv.first.second,h_getnode(kid)->key);
        if (s.c.mcts && !leaf(kid) && eends[kv.first]!=1) VIOL("expansion","%d trials (expected exactly one) stopped at a new node",eends[kv.first]); }
    mo.check("observation-freq","trials see an observation"); mt.check("observation-freq","trials meet a hidden state");
    check_protocol(s);
    // ---- the tree through its interface
    map<pair<int,int>,OD*> shared; set<OD*> seen; vector<OD*> todo{root.get()}; size_t nedges=0;
    while (!todo.empty()) { OD* d=todo.back(); todo.pop_back(); if (!seen.insert(d).second) continue; if (d->visits()!=vis[d->id]) VIOL("visits","a decision node counts %d visits, %d trials went through it",d->visits(),vis[d->id]);
        if (d!=root.get() && s.c.trans) { auto& x=shared[{d->ts,d->key}]; if (x && x!=d) VIOL("transposition","two nodes stand for observation %d at time %d",d->key,d->ts); x=d; }
        int na=0; if (!s.e.sink[d->st()]) for (int a=0;a<d->nact();a++) { auto ap=oe->ac(a); if (!d->has_child_node_itfc(ap)) continue; na++; auto cp=d->get_child_node_itfc(ap); OC* c=static_cast<OC*>(cp.get()); if (c->visits()!=vis[c->id]) VIOL("visits","a chance node counts %d visits, %d trials went through it",c->visits(),vis[c->id]);
            int no=0; for (int ob=0;ob<oe->nO;ob++) { auto op=make_shared<const SimObs>(ob,oe->clash); bool has=c->has_child_node_itfc(op), ex=edge.count({c->id,ob}); if (has!=ex) VIOL("observation-child","chance node child for observation %d: present %d, seen by trials %d",ob,has,ex); if (!has) continue; no++; nedges++; OD* k=static_cast<OD*>(c->get_child_node_itfc(op).get()); if (*edgekid[{c->id,ob}].begin()!=k->id) VIOL("observation-child","the tree holds another node for observation %d than the one trials went to",ob); todo.push_back(k); }
            if (c->get_num_children()!=no) VIOL("structure","a chance node has %d children for %d observations",c->get_num_children(),no); }
        if (d->get_num_children()!=na) VIOL("structure","a decision node has %d children for %d actions",d->get_num_children(),na); }
    if (nedges!=edge.size()) VIOL("structure","the tree holds %zu outcome edges, trials used %zu",nedges,edge.size());
    // ---- evaluation: the policy follows observations, the problem its hidden state
    if (!s.e.sink[s.e.init] && r.chance(0.8)) { map<OD*,int> v0; for (OD* d : seen) v0[d]=d->visits(); h_reset(); int L=r.pick({0,1,2,3,5,9}); EvalPolicy pol(s.b.root,s.b.env,*s.b.mgr); MCEvaluator ev(s.b.env,pol,L,*s.b.mgr); int n=r.range(1,25); desc(" roll(%d,L%d)",n,L); ev.run_rollouts(n,r.range(1,4));
        if (h_n()!=n || h_active()) VIOL("rollout-count","%d rollouts were run, %d were requested",h_n(),n);
        map<int,vector<HEv*>> tr2; for (int i=0;i<h_nev();i++) if (h_getev(i)->kind==E_TR) tr2[h_getev(i)->trial].push_back(h_getev(i)); Mart ro, rt2, ra; double sum=0;
        for (int i=0;i<n;i++) { HTrial* t=h_get(i); int st=s.e.init; OD* d=root.get(); auto& tv=tr2[i]; if ((int)tv.size()!=t->nsteps || t->nsteps>L) VIOL("rollout","rollout %d drew %zu transitions for %d rewards, at most %d steps are allowed",i,tv.size(),t->nsteps,L);
            for (int k=0;k<t->nsteps;k++) { HStep& x=t->steps[k]; int ns=tv[k]->x; if (s.e.sink[st] || x.s!=st || x.a<0 || x.a>=s.e.nA[st] || tv[k]->node!=x.s*16+x.a) VIOL("rollout","rollout %d step %d is not a step of the environment from its hidden state %d",i,k,st);
                if (!(oe->p(ns,x.a,x.o)>0)) VIOL("observation","rollout %d observed %d, impossible after action %d in hidden state %d",i,x.o,x.a,ns);
                if (d) { if (x.a!=d->best()) VIOL("rollout-policy","rollout %d step %d took action %d, the tree recommends %d for what was observed",i,k,x.a,d->best()); auto ap=oe->ac(x.a); OC* c=d->has_child_node_itfc(ap)?static_cast<OC*>(d->get_child_node_itfc(ap).get()):nullptr; auto op=make_shared<const SimObs>(x.o,oe->clash); d = c && c->has_child_node_itfc(op) ? static_cast<OD*>(c->get_child_node_itfc(op).get()) : nullptr; }
                else if (fair && s.e.nA[st]>1) ra.add(x.a==0,1.0/s.e.nA[st]);
                if (fair) { auto& q=oe->od[ns][x.a]; if (q.size()>1) ro.add(q[0].first==x.o,q[0].second); auto& w=s.e.tr[st][x.a]; if (w.size()>1) rt2.add(w[0].first==ns,w[0].second); }
                sum+=x.r; st=ns; }
            if (t->nsteps<L && !s.e.sink[st]) VIOL("rollout-length","rollout %d stopped after %d steps in a hidden state that is not terminal",i,t->nsteps); }
        ro.check("observation-freq","rollouts see an observation"); rt2.check("observation-freq","rollouts meet a hidden state"); ra.check("rollout-random","rollouts outside the tree take an action");
        if (!closeto(ev.get_mean_return(),sum/n,1e-9)) VIOL("rollout-mean","reported mean return %.12g, the rollouts have %.12g",ev.get_mean_return(),sum/n);
        for (auto& q : v0) if (q.first->visits()!=q.second) VIOL("rollout-pure","evaluation changed the tree"); g_res->aux[2]+=n; }
    // ---- a fully observable problem observes its state
    if (r.chance(0.1)) { SimEnv fe(s.e); RandManager rm(3); for (int x=0;x<min(s.e.nS,4);x++) { auto d=fe.get_observation_distribution_itfc(fe.ac(0),fe.st(x)); if (d->size()!=1 || SimEnv::sid(*d->begin()->first)!=x || d->begin()->second!=1.0 || SimEnv::sid(*fe.sample_observation_distribution_itfc(fe.ac(0),fe.st(x),rm))!=x) VIOL("observation","a fully observable environment does not observe its state"); } }
    g_res->aux[0]+=total; g_res->aux[1]+=nedges;
}
// ------------------------------------------------------------------------------------------------ C22 a slow trial delays no other
static void s_c22(HRng& r) {
    Sys s; s.c=gen_algo(r,0); EnvOpts o=gen_opts(r,true); fit(s.c,o,r,0.3); s.e=gen_env(r,1,o); s.threads=max(2,gen_threads(r)); if (s.c.max_depth<1) s.c.max_depth=1; const uint64_t slow=600000ull*g_cfg.tick_ns + 5000ull*(s.e.cost_ns+1);
    bool noroot=env_leaf(s.c,s.e,0,s.e.init); int base=0; s.e.slow_ns=slow; s.e.slow_at = noroot||r.chance(0.25) ? -1 : 0;
    rt_quiet(1); s.b=build(s.c,s.e); rt_quiet(0); if (r.chance(0.2)) s.log=gen_logger(r,s.c.algo); desc("slow threads=%d states=%d %s",s.threads,s.e.nS,s.c.str().c_str()); mkpool(s);
    int calls=r.range(1,2);
    for (int k=0;k<calls;k++) { int n=r.range(2,25), w=min(r.range(1,s.threads-1),n-1); EnvSpec& e=s.b.env->spec; e.slow=gen_slow(r,base,n,w); desc(" run(%d,slow%d@%d)",n,w,e.slow_at);
        uint64_t v0=rt_vtime(); s.pool->run_trials(n,INF_T,false); if (rt_vtime()-v0 > slow/2) VIOL("blocked","a non-blocking request returned only after %.3g s, when a slow trial had finished",(rt_vtime()-v0)*1e-9);
        if (r.chance(0.25)) { // an unrelated search in the meantime
            Sys y; EnvOpts oy=gen_opts(r,false); y.c=gen_algo(r,G_NOADV); y.e=gen_env(r,2,oy); y.threads=r.range(1,3); int ny=r.range(1,10); rt_quiet(1); y.b=build(y.c,y.e); rt_quiet(0); uint64_t w0=rt_vtime(); { ThtsPool p(y.b.mgr,y.b.root,y.threads); p.run_trials(ny); } desc(" other"); 
            if (rt_vtime()-w0 > slow/2) VIOL("blocked","a search of an unrelated problem was held up by a slow trial of another pool"); }
        s.pool->join(); vector<int> mine; for (int i=base;i<h_n();i++) if (h_get(i)->env==1) mine.push_back(i); if ((int)mine.size()!=n) VIOL("trial-count","%zu trials were run, %d were requested",mine.size(),n);
        set<int> sl; for (int x : e.slow) if (x<h_n() && h_get(x)->env==1) sl.insert(x); // (an unrelated trial may have taken the number)
        for (int x : sl) for (int i : mine) if (!sl.count(i) && h_get(i)->v_end > h_get(x)->v_start+slow) VIOL("blocked","trial %d was still to be finished when slow trial %d, one of %zu, came to its end after %.3g s: %d workers had been free to run it",i,x,sl.size(),(h_get(x)->v_end-h_get(x)->v_start)*1e-9,s.threads-(int)sl.size());
        g_res->aux[1]+=sl.size(); base=h_n(); e.slow.clear(); }
    s.pool.reset(); g_res->aux[0]+=h_n();
    if (!noroot && r.chance(0.6)) { h_reset(); int L=r.range(1,6), n=r.range(2,20), th=r.range(2,5); EnvSpec& e=s.b.env->spec; e.slow={r.range(0,n-1)}; desc(" roll(%d,%d)",n,th); EvalPolicy pol(s.b.root,s.b.env,*s.b.mgr); MCEvaluator ev(s.b.env,pol,L,*s.b.mgr); ev.run_rollouts(n,th);
        HTrial* x=h_get(e.slow[0]); int done=0; for (int i=0;i<h_n();i++) if (h_get(i)->v_end < x->v_start+slow) done++; int least=n-(n+th-1)/th; if (done<least) VIOL("blocked","only %d of %d rollouts were finished when the slow one came to its end, although %d other threads were free to run at least %d",done,n,th-1,least); g_res->aux[2]+=n; }
}
static void s_c04(HRng& r) {
    g_safety_only=1;
    switch (r.range(0,11)) { case 11: s_c21(r); break; case 9: { // two unrelated searches in one process, then an evaluation each
        Sys a,b; gen_sys(a,r,0,false,0.2,0.3); gen_sys(b,r,0,false,0.2,0.3); rt_quiet(1); b.e.id=2; b.b=build(b.c,b.e); rt_quiet(0); mkpool(a); mkpool(b); a.pool->run_trials(r.range(1,20),INF_T,false); thread t([&b]{ b.pool->run_trials(12); });
        a.pool->join(); t.join(); a.pool.reset(); b.pool.reset();
        thread u([&b]{ EvalPolicy pol(b.b.root,b.b.env,*b.b.mgr); MCEvaluator ev(b.b.env,pol,4,*b.b.mgr); ev.run_rollouts(4,2); }); EvalPolicy pol(a.b.root,a.b.env,*a.b.mgr); MCEvaluator ev(a.b.env,pol,4,*a.b.mgr); ev.run_rollouts(4,2); u.join(); free_sys(a); free_sys(b); break; } case 0: s_c14(r); break; case 1: s_c15(r); break; case 2: s_c16(r); break; case 3: s_c13(r); break; case 4: s_c07(r); break; case 5: s_c03(r); break; case 6: s_c11(r); break; case 7: s_c05(r); break; case 8: s_c07(r); break; default: { Sys s; gen_sys(s,r,0,false,0.2,0.5); mkpool(s);
        if (r.chance(0.25)) { // a second tree of the same manager is searched at the same time
            rt_quiet(1); auto root2=build_root(s.c,s.b.env,s.b.mgr); rt_quiet(0); desc(" tree2"); int n2=r.range(1,12), t2=r.range(1,3); thread t([&]{ ThtsPool p(s.b.mgr,root2,t2); p.run_trials(n2); }); run_calls(s,r,1,12); t.join(); }
        else if (r.chance(0.25)) { // requests from two threads on one pool
            desc(" two-callers"); int n2=r.range(0,12); thread t([&]{ s.pool->run_trials(n2); }); run_calls(s,r,1,12); t.join(); s.pool->join(); }
        else run_calls(s,r,1,20);
        s.pool.reset(); free_sys(s); } }
}

typedef void (*ScenFn)(HRng&);
static const ScenFn FNS[] = {s_c01,s_c02,s_c03,s_c04,s_c05,s_c06,s_c07,s_c08,s_c09,s_c10,s_c11,s_c12,s_c13,s_c14,s_c15,s_c16,s_c17,s_c18,s_c19,s_c20,s_c21,s_c22};
extern "C" {
int scen_prop_id(const char* n) { for (int i=0;i<P_N;i++) if (!strcmp(n,NAMES[i])) return i; return -1; }
const char* scen_prop_name(int i) { return NAMES[i]; }
int scen_n(void) { return P_N; }
void scen_zygote(void) { install_locale(); stringstream ss; ss << 1 << ' ' << 2.5 << ' ' << true; double x; ss >> x; /* fills the lazily built locale caches */ }
void scen_cfg(int prop, uint64_t seed) {
    HRng r(seed ^ 0xC0F160000ull); r.next(); SimCfg& g=g_cfg; memset(&g,0,sizeof g);
    g.sched_seed=r.next();
    int k=r.range(0,99); g.strategy = k<28?ST_SYNC : k<50?ST_MEM : k<70?ST_PCT : k<80?ST_STARVE : k<85?ST_RR : ST_BURST;
    g.p_switch=r.pick({0.03,0.1,0.3,0.6}); g.p_mem=0; if (g.strategy==ST_MEM) g.p_mem=r.pick({0.0005,0.005,0.03}); else if (r.chance(0.2)) g.p_mem=r.pick({0.0005,0.005});
    g.pct_depth=r.range(1,8); if (g.strategy==ST_PCT) g.p_mem=r.pick({0.0,0.0005,0.005});
    g.p_spur=r.chance(0.35)?r.pick({0.05,0.2,0.5}):0; g.p_stall=r.chance(0.3)?r.pick({0.002,0.02}):0; g.stall_len=r.pick({30,300,2000});
    g.tick_ns=r.pick({50,1000,1000,20000}); g.read_tick_ns=r.pick({0,10,200}); if (r.chance(0.05)) g.tick_ns=r.pick({1000000000ull,60000000000ull}); // seconds or minutes per step: searches of hours and days

    g.calm_after=15000; g.gstep_cap=2500000; g.mem_cap=150000000;
    g.heapcheck=1; g.reuse=r.chance(0.5); g.fill=r.pick({0,-1,0xA5,0xFF}); g.layout_seed=r.chance(0.5)?r.next()|1:0; g.rd_seed=r.next();
    switch (prop) {
    case P_C02: if (r.chance(0.35)) { g.p_jump_fwd=r.pick({0.005,0.05}); g.p_jump_back=r.chance(0.7)?r.pick({0.005,0.05}):0; g.jump_max_ns=(int64_t)g.tick_ns*r.pick({100,3000}); } break;
    case P_C01: if (r.chance(0.3)) { g.p_jump_fwd=0.01; g.p_jump_back=0.01; g.jump_max_ns=1000000000; } break;
    case P_C03: if (r.chance(0.4)) { g.p_jump_fwd=r.pick({0.002,0.02}); g.jump_max_ns=(int64_t)g.tick_ns*r.pick({100,3000}); } if (r.chance(0.25)) { g.p_jump_back=r.pick({0.005,0.05}); g.jump_max_ns=(int64_t)g.tick_ns*r.pick({100,3000}); } break;
    case P_C04: g.race=1; g.reuse=0; break;
    case P_C13: if (r.chance(0.3)) { g.p_jump_fwd=0.01; g.jump_max_ns=(int64_t)g.tick_ns*1000; } break;
    case P_C18: g.p_create_fail=r.pick({0.0,0.1,0.3,0.6}); break;
    case P_C22: if (r.chance(0.1)) { g.p_jump_back=0.01; g.jump_max_ns=1000000000; } break;
    default: if (prop!=P_C12 && prop!=P_C19 && r.chance(0.1)) { g.p_jump_fwd=0.01; g.p_jump_back=prop==P_C15?0:0.01; g.jump_max_ns=prop==P_C15||prop==P_C16?(int64_t)g.tick_ns*100:1000000000; } break;
    }
}
void scen_main(void* a) {
    ScenArgs* s=(ScenArgs*)a; HRng r(s->seed ^ 0x5CE7A510ull); r.next(); h_reset(); h_adv_seed(r.next());
    FNS[s->prop](r);
}
}
